"""C08-C10: the standard algorithm, clearing, reading off a diagram.

Primary argument: inductive invariants of the extracted loop transitions, whose variables are recognised by their
initial values.  Where a loop is written in a way that argument does not fit, and in addition to it, the function is
decided as a whole: its extracted transitions are followed on sampled graded chain complexes and the result is judged by
the defining properties (R = DV reduced, V unitriangular, diagram read off R)."""
from rules.common import *
from rules import heap
from rules.heap import mkentry, formal, entries
from rules.matrices import MO, HRF, HCB, build, on, deref, the
from rules.basis import conversions

RED = "phlite::reduction::"
m, v_, rev_, order_, x_, j_ = [sym(n) for n in ("m", "vmap", "rev", "order", "x", "j")]
BM, BB = 900, 920


# ------------------------------------------------------------------------------------------------- sampled complexes
class Complex(object):
    """graded chain complex D = B N B^-1 over the rationals.  Elements of dimension k form `dims[k]`, in basis order; the
    order of rows is (filtration value, element), which agrees with the basis order inside a dimension"""

    def __init__(self, seed, up=False, exact=True, cut=0):
        rnd = random.Random(seed)
        self.up = up
        # the coefficients: rational numbers, or a prime field
        self.p = random.Random("field%s" % seed).choice((None, None, 2, 3, 5, 13, 17))
        deep = 12 < interp.LONG <= 200 and rnd.random() < .2         # many dimensions
        if interp.LONG > 12 and not deep:
            return self.staircase(rnd, seed, interp.LONG)
        nd = rnd.choice((2, 3, 3))
        more = 0 if deep else interp.beyond(40)
        if deep:
            nd += interp.LONG
        ids = rnd.sample(range(100, 180 + 4 * more), 40 + 3 * more) if not deep else rnd.sample(range(100, 2000), 2 * nd + 10)
        self.dims = []
        self.fv = {}
        for k in range(nd):
            n = rnd.randrange(0 if k else 1, 5) if seed % 5 else rnd.randrange(1, 3) if seed % 2 or not exact else rnd.randrange(3, 10)
            if more and (k == seed % nd or seed % 3 == 0):
                n += more
            if deep:
                n = min(n, 2)
            if cut % 12 == 9:
                n = 0
            es = [ids.pop() for _ in range(n)]
            hi = rnd.choice((1, 2, 5))
            for e in es:
                self.fv[e] = 200 + rnd.randrange(hi + 1)
            es.sort(key=self.rkey)
            self.dims.append(es)
        self.order = [e for es in self.dims for e in es]
        self.dim = {e: k for k, es in enumerate(self.dims) for e in es}
        self.pos = {e: i for i, e in enumerate(self.order)}
        D = {e: {} for e in self.order}
        if exact:
            # N: pairs (a in dim k, b in the next dimension), every element in at most one pair
            free = set(self.order)
            N = {}
            for k in range(nd - 1):
                src, dst = (self.dims[k], self.dims[k + 1]) if up else (self.dims[k + 1], self.dims[k])
                for s in src:
                    t = [d for d in dst if d in free]
                    if s in free and t and rnd.random() < .8:
                        d = rnd.choice(t)
                        N[s] = d
                        free -= {s, d}
            B, Bi = {}, {}
            for es in self.dims:
                b = {e: {e: self.unit(rnd, (1, 1, -1, 2))} for e in es}
                for i, e in enumerate(es):
                    for f in es[:i]:
                        if rnd.random() < .6:
                            b[e][f] = self.unit(rnd, (-2, -1, 1, 1, 3))
                B.update(b)
                Bi.update(inverse(b, es))
            for e in self.order:
                col = {}
                for s, c in Bi[e].items():
                    if s in N:
                        axpy(col, c, B[N[s]])
                D[e] = col
        else:
            for e in self.order:
                dst = self.order
                for r in dst:
                    if rnd.random() < .35:
                        D[e][r] = self.unit(rnd, (-2, -1, 1, 1))
        self.D = D
        # the basis need not contain all rows: without the last (coboundary) or first (boundary) dimension
        if cut % 12 in (2, 3, 6):
            out = self.dims[-1 if up else 0]
            self.order = [e for e in self.order if e not in out]
        self.listed(rnd)

    def staircase(self, rnd, seed, n):
        """a long one: `n` columns of two entries each, and one whose reduction takes `n` steps; or one column of `n` entries"""
        tgt = [100 + 2 * i for i in range(n)]
        src = [101 + 2 * n + 2 * i for i in range(n + 1)]
        self.dims = [src, tgt] if self.up else [tgt, src]
        hi = rnd.choice((0, 1, 5))
        self.fv = {e: 200 + (i * (hi + 1)) // (n + 1) for es in self.dims for i, e in enumerate(es)}
        self.order = [e for es in self.dims for e in es]
        self.dim = {e: k for k, es in enumerate(self.dims) for e in es}
        self.pos = {e: i for i, e in enumerate(self.order)}
        D = {e: {} for e in self.order}
        co = lambda: self.unit(rnd, (1, 1, -1))
        kind = rnd.randrange(4)
        if kind == 3:
            # one more row, below all others: it is paired with the last column, a combination of all of them
            low = min(tgt) - 1
            tgt.insert(0, low)
            self.fv[low] = 200
            self.order = [e for es in self.dims for e in es]
            self.dim[low] = self.dim[tgt[1]]
            self.pos = {e: i for i, e in enumerate(self.order)}
            D[low] = {}
            if rnd.random() < .5:
                # and a column that this long combination is added to
                last = max(src) + 2
                src.append(last)
                self.fv[last] = max(self.fv[e] for e in src[:-1])
                self.dim[last] = self.dim[src[0]]
                self.order = [e for es in self.dims for e in es]
                self.pos = {e: i for i, e in enumerate(self.order)}
                D[last] = {low: co()}
            for i in range(n):
                D[src[i]] = {tgt[i]: co(), tgt[i + 1]: co()}
            D[src[n]] = {tgt[n]: co()}
            self.D = D
            self.listed(rnd)
            return
        for i in range(n):
            if kind < 2:
                D[src[i]] = {tgt[i]: co()}
                if i:
                    D[src[i]][tgt[i - 1]] = co()
            elif rnd.random() < .2:
                D[src[i]] = {rnd.choice(tgt): co()}
        D[src[n]] = {tgt[n - 1]: co()} if kind == 0 else {t: co() for t in tgt}
        self.D = D
        self.listed(rnd)

    def listed(self, rnd):
        # as listed: unsorted, sometimes with a row listed twice or cancelling
        D = self.D
        self.cols = {}
        for e, col in D.items():
            l = [(c, r) for r, c in col.items()]
            if l and rnd.random() < .3:
                c, r = l.pop()
                a = [x for x in (self.K(-1), self.K(1)) if x != c]
                l += [(c - a[0], r), (a[0], r)] if a else [(c, r)]
            if rnd.random() < .1:
                r = rnd.choice(list(D))
                l += [(self.K(1), r), (self.K(-1), r)]
            rnd.shuffle(l)
            self.cols[e] = l

    def K(self, x):
        return interp.GF(x, self.p) if self.p else Fraction(x)

    def unit(self, rnd, values):
        x = self.K(rnd.choice(values))
        if self.p and self.p > 3 and rnd.random() < .3:
            x = self.K(rnd.randrange(1, self.p))
        return x if x != 0 else self.K(1)

    def rkey(self, e):
        return (self.fv[e], e)

    def low(self, col):
        return max(col, key=self.rkey) if col else None

    def apply(self, col):
        o = {}
        for r, c in col.items():
            axpy(o, c, self.D[r])
        return o

    def reference(self, order=None):
        """reduction matrix of the textbook algorithm, and the reduced matrix"""
        V, R, lows = {}, {}, {}
        for e in order or self.order:
            v, r = {e: self.K(1)}, dict(self.D[e])
            while r:
                p = self.low(r)
                if p not in lows:
                    lows[p] = e
                    break
                j = lows[p]
                q = -r[p] / R[j][p]
                axpy(r, q, R[j])
                axpy(v, q, V[j])
            V[e], R[e] = v, r
        return V, R


def axpy(d, q, col):
    for r, c in col.items():
        d[r] = d.get(r, 0) + q * c
        if d[r] == 0:
            del d[r]


def inverse(b, es):
    """inverse of an upper triangular block: b[e] is a combination of elements up to e"""
    inv = {}
    for i, e in enumerate(es):
        col = {e: 1 / b[e][e]}
        for f, c in b[e].items():
            if f != e:
                axpy(col, -c / b[e][e], inv[f])
        inv[e] = col
    return inv


def cx(I):
    return I.funcs["$cx"]


def num(x):
    if not is_num(x):
        raise Opaque("element")
    return norm(x)


def f_column(I, w, c):
    if w == BM:
        c = num(c)
        if c not in cx(I).cols:
            raise Panics("no such column")
        return slist((C, "", q, r) for q, r in cx(I).cols[c])
    if isinstance(w, tuple) and w[0] == C and "$column" in I.funcs:
        return I.funcs["$column"](I, w, c)
    raise Opaque("column of %s" % pretty(w))


def f_fv(I, w, r):
    if w == BM:
        return cx(I).fv[num(r)]
    if isinstance(w, tuple) and w[0] == C and "$fv" in I.funcs:
        return I.funcs["$fv"](I, w, r)
    raise Opaque("filtration value")


def f_basis(I, w):
    if w == BM:
        return BB
    raise Opaque("basis")


def f_indim(I, b, d):
    if b == BB:
        return (C, "$dim", b, d)
    raise Opaque("dimension of a basis")


def elems_of(I, b):
    if b == BB:
        return cx(I).order
    if isinstance(b, tuple) and b[1] == "$dim":
        d = norm(b[3])
        return cx(I).dims[d] if 0 <= d < len(cx(I).dims) else []
    raise Opaque("basis")


def f_size(I, b):
    if isinstance(b, tuple) and b[0] in ("A", V, ST):
        return None
    return len(elems_of(I, b))


def f_element(I, b, i):
    es = elems_of(I, b)
    if not is_num(i) or not 0 <= i < len(es):
        raise OutOfRange("position outside the basis")
    return es[int(i)]


def f_elements(I, b):
    return slist(elems_of(I, b))


class Funcs(dict):
    pass


def funcs(X, **more):
    d = dict(heap.FUNCS)
    d.update({"column": f_column, "filtration_value": f_fv, "basis": f_basis, "in_dimension": f_indim, "size": f_size, "element": f_element,
              "$cx": X})
    d.update(more)
    return d


# ------------------------------------------------------------------------------------------------- judging results
def colsum(I, items):
    d = {}
    for x in items:
        c, r = I.fieldof(x, "", 0), num(I.fieldof(x, "", 1))
        if not is_num(c):
            raise Opaque("coefficient")
        d[r] = d.get(r, 0) + c
    return {r: c for r, c in d.items() if c}


def sh(col):
    return " + ".join("%s*%s" % (c, r) for r, c in sorted(col.items())) or "0"


def descr(X):
    t = "basis %s, D = {%s}, rows ordered %s" % (X.order, "; ".join("%s: %s" % (e, sh(X.D[e])) for e in X.order), sorted(X.D, key=X.rkey))
    return t if len(t) < 1500 else t[:1500] + " ..."


def judge_V(X, V, order, cleared=None):
    """V: {element: formal sum}; None when V is a reduction matrix of X"""
    seen = {}
    done = []
    for e in order:
        if e not in V:
            return "no column for element %s" % e
        R = X.apply(V[e])
        if cleared and e in cleared:
            want = X.apply(V[cleared[e]])
            if V[e] != want:
                return "column of the cleared element %s is %s, not the reduced column %s of its partner %s" % (e, sh(V[e]), sh(want), cleared[e])
        else:
            if V[e].get(e) != 1:
                return "column of %s has coefficient %s on itself" % (e, V[e].get(e, 0))
            bad = [r for r in V[e] if r != e and r not in done]
            if bad:
                return "column of %s uses the element %s, which is not an earlier one" % (e, bad[0])
        p = X.low(R)
        if p is not None:
            if p in seen:
                return "the reduced columns of %s and %s have the same pivot %s" % (seen[p], e, p)
            seen[p] = e
        done.append(e)
    return None


def diagram_of(X, V, order, universe=None):
    """essential, pairings from the reduced matrix"""
    pairs, ess = set(), set()
    for e in order:
        R = X.apply(V[e])
        if R:
            pairs.add((X.low(R), e))
    births = {a for a, _ in pairs}
    for e in order:
        if e not in births and not any(d == e for _, d in pairs):
            ess.add(e)
    return ess, pairs


def members(I, s):
    """elements of a set value"""
    if not (isinstance(s, tuple) and s[0] == "A" and s[2] is None):
        raise Opaque("set")
    o = []
    for e in s[3]:
        x = e[1] if isinstance(e, tuple) and e[0] == "DEL" else e
        y = norm(x)
        if y not in o:
            o.append(y)
    return {y for y in o if I.has(s, y)}


def asdiagram(I, ctx, val):
    adt = ctx.adt("phlite", "Diagram")
    names = [f["name"] for f in ctx.prog.adts[adt]["variants"][0]["fields"]]
    if not (isinstance(val, tuple) and val[0] == C and val[1] == "Diagram"):
        raise Opaque("diagram")
    g = dict(zip(names, val[2:]))
    ess = {x for x in members(I, g["essential"])}
    pr = set()
    for p in members(I, g["pairings"]):
        pr.add((num(I.fieldof(p, "", 0)), num(I.fieldof(p, "", 1))))
    return ess, pr


def judge_diagram(got, want):
    for nm, g, w in (("essential", got[0], want[0]), ("pairings", got[1], want[1])):
        if g != w:
            return "%s: %s instead of %s" % (nm, sorted(g), sorted(w))
    return None


# ------------------------------------------------------------------------------------------------- following a summary
def follow(ctx, name, at, leaves, sample, judge, n=None, need=20, upper=1100):
    """evaluate a summary on sampled inputs; judge(I, X, leaf) -> None or what is wrong"""
    n = n or (6000 if ctx.thorough else 500)
    ok, opq = 0, None

    def seeds():
        yield from range(interp.SEED, interp.SEED + n)
        if opq is None and interp.TRACE is None:
            yield from interp.thresholds(leaves, None, interp.SEED + n, upper=upper)
    for k in seeds():
        if interp.TRACE is not None:
            if k >= interp.SEED + (200 if ctx.thorough else 50):
                return None
            if sample(k) is not None:
                interp.relational(name, lambda: (lambda s: Interp(k, 7, dict(s[1]), funcs=s[2]))(sample(k)), leaves,
                                  lambda I, l: interp.outcome(I, l), False)
            continue
        s = sample(k)
        if s is None:
            continue
        X, fixed, fn = s
        I = Interp(k, 7, dict(fixed), funcs=fn)
        try:
            hit = interp.active(I, leaves)
            if hit is None:
                raise Opaque("no result")
            if hit == "panic":
                ctx.add(name, at, VIOL, "panics; " + descr(X))
                return False
            e = judge(I, X, hit[0]) or interp.below_zero(I, leaves)
        except (Panics, OutOfRange) as e_:
            ctx.add(name, at, VIOL, "panics (%s); %s" % (e_, descr(X)))
            return False
        except (Opaque, Undef) as e_:
            if "long loop" in str(e_):
                ctx.add(name, at, VIOL, "does not terminate; " + descr(X))
                return False
            if interp.LONG and str(e_) == "budget":
                continue
            opq = "%s: %s" % (type(e_).__name__, e_)
            continue
        if e:
            ctx.add(name, at, VIOL, e + "; " + descr(X))
            return False
        ok += 1
    ctx.samples += ok
    if opq is not None or ok < need:
        ctx.add(name, at, UNDEC, "not understood: %s (%d complexes)" % (opq, ok))
        return None
    ctx.add(name, at, RI, "%d sampled complexes" % ok)
    return True


def map_of_cols(I, val):
    """{element: formal sum} of a stored reduction matrix value, through its map of columns"""
    mp = [x for x in val[2:] if isinstance(x, tuple) and x[0] == "A" and x[1] == "map"]
    if len(mp) != 1:
        raise Opaque("matrix of columns")
    ks = []
    for e in mp[0][3]:
        k = norm(I.fieldof(e, "", 0))
        if k not in ks:
            ks.append(k)
    o = {}
    for k in ks:
        g = I.lookup(mp[0], k)
        if g[1] == "Some":
            o[k] = colsum(I, I.items(g[2]))
    return o


def std_args(X, **kw):
    d = {m: BM}
    d.update(kw)
    return d


def standard(ctx):
    b = ctx.find_free("phlite", "standard_algo")
    ev, ls = ctx.summary(b, args=[m], ev=heap.hev(ctx))
    return b, ev, ls


@rule("C08")
def c08(ctx):
    heap.use(ctx)

    def whole():
        b, ev, ls = standard(ctx)

        def sample(k):
            X = Complex(k, up=k % 4 == 1, exact=k % 3 != 0, cut=k // 4)
            return X, {m: BM}, funcs(X)

        def judge(I, X, l):
            return judge_V(X, map_of_cols(I, I.val(l.val)), X.order)
        follow(ctx, "result of the standard algorithm is a reduction of the matrix", ctx.at(b), ls, sample, judge)
    ctx.guarded("result of the standard algorithm is a reduction of the matrix", whole)


def stored_matrix(ctx):
    """the map-backed matrix built from a reference to a map of columns"""
    Mp = ctx.adt("phlite", "MapVecMatrix")
    for b in conversions(ctx, Mp):
        try:
            W = build(ctx, b, [v_])
            if W.op == "ctor" and W.a[0] == Mp:
                return W
        except Undecided:
            continue
    raise Missing("constructor of MapVecMatrix")


def mapval(cols):
    return ("A", "map", None, tuple((C, "", e, vlist((C, "", c, r) for r, c in col.items())) for e, col in cols.items()))


@rule("C10")
def c10(ctx):
    heap.use(ctx)
    NM = "diagram read off a reduced matrix"

    def read():
        b = ctx.find_free("phlite", "read_off_diagram")
        W = stored_matrix(ctx)
        st = State()
        p = cell(st, "v", W)
        ev, ls = ctx.summary(b, args=[m, p, rev_], st=st, ev=heap.hev(ctx))

        def sample(k):
            up = k % 2 == 1
            X = Complex(k * 3 + 1, up=up, cut=k // 2)
            V, R = X.reference()
            return X, {m: BM, v_: mapval(V), rev_: 1 if up else 0}, funcs(X)

        def judge(I, X, l):
            V, R = X.reference()
            return judge_diagram(asdiagram(I, ctx, I.val(l.val)), diagram_of(X, V, X.order))
        follow(ctx, NM, ctx.at(b), ls, sample, judge)
    ctx.guarded(NM, read)

    NM2 = "reduction and diagram together"

    def both():
        b = ctx.find_free("phlite", "standard_algo_with_diagram")
        ev, ls = ctx.summary(b, args=[m, rev_], ev=heap.hev(ctx))

        def sample(k):
            up = k % 2 == 1
            X = Complex(k * 3 + 2, up=up, cut=k // 2)
            return X, {m: BM, rev_: 1 if up else 0}, funcs(X)

        def judge(I, X, l):
            val = I.val(l.val)
            V = map_of_cols(I, I.fieldof(val, "", 0))
            e = judge_V(X, V, X.order)
            if e:
                return e
            return judge_diagram(asdiagram(I, ctx, I.fieldof(val, "", 1)), diagram_of(X, V, X.order))
        follow(ctx, NM2, ctx.at(b), ls, sample, judge)
    ctx.guarded(NM2, both)


# ------------------------------------------------------------------------------------------------- clearing
def cleared_column(ctx):
    """interpretation of the columns of a cleared reduction matrix, by its summarised `column`"""
    A = ctx.adt("phlite", "ClearedReductionMatrix")
    b = ctx.method(MO, A, "column")
    st = State()
    S = sym("$crm")
    p = cell(st, "self", S)
    ev = heap.hev(ctx)
    _, ls = ctx.summary(b, args=[p, x_], st=st, ev=ev)
    outs = [(l, mk("stream", models.stream(ev, l.st, l.val)) if l.kind == "ret" else None) for l in ls]

    def col(I, w, x, depth=[0]):
        if depth[0] > 20:
            raise Panics("unbounded recursion for the column of %s" % pretty(x))
        depth[0] += 1
        try:
            J = Interp(I.seed, I.D, {S: w, x_: x}, funcs=I.funcs)
            hit = interp.active(J, ls)
            if hit == "panic":
                raise Panics("column of %s" % pretty(x))
            if not hit:
                raise Opaque("column of a cleared matrix")
            return J.val(dict((id(l), o) for l, o in outs)[id(hit[0])])
        finally:
            depth[0] -= 1
    return b, col


def dims_processed(X):
    ks = list(range(len(X.dims)))
    return ks if X.up else ks[::-1]


def clearing(ctx, NM, diagram_only):
    A = ctx.adt("phlite", "ClearedReductionMatrix")
    b = ctx.inherent(A, "build_with_diagram")
    ev, ls = ctx.summary(b, args=[m, order_], ev=heap.hev(ctx))
    _, col = cleared_column(ctx)
    bc = ctx.inherent(A, "col_is_cycle")
    st = State()
    S = sym("$crm")
    _, lc = ctx.summary(bc, args=[cell(st, "self", S), x_], st=st, ev=heap.hev(ctx))

    def sample(k):
        X = Complex(k * 7 + 3, up=k % 2 == 1, cut=9 if k % 12 == 9 else 0)
        ks = dims_processed(X)
        if k % 4 == 3 and len(ks) > 1:
            ks = ks[:-1]
        X.ks = ks
        return X, {m: BM, order_: vlist(ks)}, funcs(X, **{"$column": col, "$fv": lambda I, w, r: cx(I).fv[num(r)]})

    def judge(I, X, l):
        val = I.val(l.val)
        W = I.fieldof(val, "", 0)
        order = [e for k in X.ks for e in X.dims[k]]
        diag = asdiagram(I, ctx, I.fieldof(val, "", 1))
        # reference: the reduced matrix of the textbook algorithm decides which elements may be cleared
        RV, RR = X.reference(order)
        e = judge_diagram(diag, diagram_of(X, RV, order))
        if e or diagram_only:
            return e
        V = {e: colsum(I, I.items(col(I, W, e))) for e in order}
        partner = {X.low(RR[e]): e for e in order if RR[e]}
        e = judge_V(X, V, order, {a: b for a, b in partner.items() if a in order})
        if e:
            return e
        # elements of a dimension that was not reduced but are pivots: their column is the reduced column of the partner
        for a, bb in partner.items():
            if a not in order:
                g = colsum(I, I.items(col(I, W, a)))
                if g != X.apply(V[bb]):
                    return "column of the cleared element %s is %s" % (a, sh(g))
        for e in order:
            J = Interp(I.seed, I.D, {S: W, x_: e}, funcs=I.funcs)
            hit = interp.active(J, lc)
            if hit == "panic":
                raise Panics("col_is_cycle")
            if not hit:
                raise Opaque("col_is_cycle")
            g = J.val(hit[0].val)
            w = 0 if X.apply(V[e]) else 1
            if norm(g) != w:
                return "column %s is%s reported as a cycle, its reduced column is %s" % (e, "" if g else " not", sh(X.apply(V[e])))
        return None
    follow(ctx, NM, ctx.at(b), ls, sample, judge)


@rule("C09")
def c09(ctx):
    heap.use(ctx)
    NM = "result of the clearing algorithm is a reduction of the matrix, with its diagram"
    ctx.guarded(NM, lambda: clearing(ctx, NM, False))


@rule("C10")
def c10b(ctx):
    heap.use(ctx)
    NM = "diagram of the clearing algorithm"
    ctx.guarded(NM, lambda: clearing(ctx, NM, True))
