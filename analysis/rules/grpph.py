"""C17-C21: grounded persistent path homology.  The matrices are built through their public constructors over an unknown
digraph; their columns, filtration values and bases are compared with cells computed from the definition."""
import re
from rules.common import *
import core
from rules import heap
from rules.heap import formal, entries, mkentry
from rules.matrices import keeps, twice, MO, HRF, HCB, CB, SBD, build, on, deref, the, colterm

G = "phlite_grpph"
F_, E_, n_, cell_, i_, d_, s_, t_, a_, b_, c_ = [sym(x) for x in ("F", "E", "n", "cell", "i", "d", "s", "t", "a", "b", "c")]
FV = 930


# ------------------------------------------------------------------------------------------------- the definition
def node(a):
    return (C, "Node", a)


def edge(a, b):
    return (C, "Edge", a, b)


def two(kind, *v):
    return (C, "TwoCell", (C, kind) + v)


def far_labels(rnd, twice=True):
    """a few vertices among many: around the constant, around its double, and the first ones"""
    c = min(interp.LONG + 1, 65000)
    near = [x for y in ((c, 2 * c) if twice and c <= 2000 else (c,)) for x in range(y - 3, y + 4) if 0 <= x < 65536]
    if rnd.random() < .5 and (interp.CONST < 30000 or not twice):
        # vertices that only differ by the constant
        small = rnd.sample(range(4), 3) if rnd.random() < .5 else rnd.choice(([0, 1], [1, 2], [0, 1, 2]))
        up = [x + interp.CONST for x in rnd.sample(small, 2 if len(small) == 2 else rnd.choice((1, 2)))]
        return sorted(set(small + up))
    return sorted(set(rnd.sample(near, min(len(near), rnd.choice((2, 3)))) + rnd.sample(range(4), rnd.choice((1, 2, 3)))))


class Digraph(object):
    def __init__(self, seed, nmax=6):
        rnd = random.Random(seed)
        self.n = n = rnd.choice((1, 2, 3, 3, 4, 4, 5, nmax)) + interp.beyond(70)
        if interp.LONG > 10 and rnd.random() < .5:
            self.n = n = interp.pairs_beyond(130) or n
        if isinstance(seed, int) and seed % 19 == 7 and not interp.LONG:
            self.n = n = 0
        self.labels = range(n)
        if interp.LONG > 130:
            self.labels = pick = far_labels(rnd)
            self.n = pick[-1] + 1 + rnd.choice((0, 0, 1, 5))
            n = len(pick)
        hi = rnd.choice((1, 2, 3, 6))
        p = rnd.choice((.4, .7, 1) if interp.LONG <= 130 else (.6, .95)) if n < 12 else rnd.choice((.1, .3, .9)) if n < 20 else rnd.choice((1.5, 3, 5)) / n
        hub = rnd.randrange(n) if n >= 20 else None         # a vertex with many edges out and in
        lo = 0 if isinstance(seed, int) and seed % 5 == 0 else 1
        self.T = {}
        for i in range(n):
            for j in range(n):
                if i != j and (rnd.random() < p or hub in (i, j) and rnd.random() < .97):
                    self.T[i, j] = (lo + rnd.randrange(hi)) * interp.SCALE
        if isinstance(seed, int) and seed % 6 == 5:
            # times that differ by very little
            e = rnd.choice((12, 28, 44))
            self.T = {k: t + Fraction(rnd.choice((0, 0, 1, 2, 3)), 1 << e) if t else t for k, t in self.T.items()}
        self.E = {(i, j) for i in range(n) for j in range(n) if i != j and rnd.random() < (.35 if n < 20 else 2 / n)}
        if interp.LONG > 130:
            # edges that come late, after paths around them
            late = rnd.random() < .6 and {k for k in self.T if rnd.random() < .3} or ()
            self.T = {k: t + 7 * interp.SCALE if k in late else t for k, t in self.T.items()}
            self.T = {(pick[i], pick[j]): t for (i, j), t in self.T.items()}
            self.E = {(pick[i], pick[j]) for i, j in self.E}

    def path(self, a, b, c):
        if (a, b) in self.T and (b, c) in self.T:
            return max(self.T[a, b], self.T[b, c])
        return None

    def links(self):
        """(edges out of every vertex, edges into every vertex)"""
        def compute():
            out, into = {i: [] for i in self.labels}, {i: set() for i in self.labels}
            for x, y in self.T:
                out[x].append(y)
                into[y].add(x)
            return out, into
        return self.memo("links", compute)

    def between(self, a, c):
        """the vertices b of two-step paths a -> b -> c"""
        out, into = self.links()
        return [b for b in out[a] if b in into[c]]

    def bridge(self, a, c):
        """earliest two-step path a -> b -> c, if strictly before the edge"""
        k = [(self.path(a, b, c), b) for b in self.between(a, c)]
        if not k:
            return None
        t, b = min(k)
        if (a, c) in self.T and t >= self.T[a, c]:
            return None
        return b

    def memo(self, name, compute):
        """a table of this digraph, computed once for its current edges"""
        key = (id(self.T), len(self.T), id(self.E), len(self.E))
        m = self.__dict__.setdefault("tables", {})
        if m.get(name, (None,))[0] != key:
            m[name] = (key, compute())
        return m[name][1]

    def two_cells(self):
        return self.memo("two-cells", self._two_cells)

    def edges(self):
        return self.memo("edges", self._edges)

    def _two_cells(self):
        """cell -> time at which all its paths are present"""
        o = {}
        for a in self.labels:
            for b in self.labels:
                if a != b and self.path(a, b, a) is not None:
                    o[two("DoubleEdge", a, b)] = self.path(a, b, a)
        for a in self.labels:
            for c in self.labels:
                if a == c:
                    continue
                pb = self.bridge(a, c)
                for b in self.between(a, c):
                    p = self.path(a, b, c)
                    direct = self.T.get((a, c))
                    if direct is not None and (p >= direct or b == pb):
                        o[two("DirectedTriangle", a, b, c)] = max(p, direct)
                    if b != pb and (direct is None or p < direct):
                        o[two("LongSquare", a, pb, b, c)] = max(p, self.path(a, pb, c))
        return o

    def _edges(self):
        """edge -> grounded time"""
        o = {edge(*e): t for e, t in self.T.items()}
        o.update({edge(*e): 0 for e in self.E})
        return o

    def time(self, x):
        if x[1] == "Node":
            return 0
        if x[1] == "Edge":
            return self.edges().get(x)
        return self.two_cells().get(x)


def boundary(x):
    """{face: coefficient}"""
    if x[1] == "Node":
        return {}
    if x[1] == "Edge":
        return {node(x[3]): 1, node(x[2]): -1}
    k, v = x[2][1], x[2][2:]
    if k == "DoubleEdge":
        a, b = v
        return {edge(a, b): 1, edge(b, a): 1}
    if k == "DirectedTriangle":
        a, b, c = v
        return {edge(b, c): 1, edge(a, c): -1, edge(a, b): 1}
    a, b, c, d = v
    return {edge(a, c): 1, edge(c, d): 1, edge(a, b): -1, edge(b, d): -1}


def coboundary(X, x):
    """list of (coefficient, cell, time)"""
    up = X.edges() if x[1] == "Node" else X.two_cells()

    def table():
        o = {}
        for y, t in up.items():
            for z, q in boundary(y).items():
                o.setdefault(z, []).append((q, y, t))
        return o
    return X.memo("coboundary of " + ("nodes" if x[1] == "Node" else "edges"), table).get(x, [])


# ------------------------------------------------------------------------------------------------- interpretation
def dg(I):
    return I.funcs["$dg"]


def idx(x):
    if not is_num(x):
        raise Opaque("vertex")
    return int(x)


def edge_time(I, w, s, t):
    if w != FV:
        raise Opaque("times")
    x = dg(I).T.get((idx(s), idx(t)))
    return (C, "None") if x is None else (C, "Some", x)


def setval(pairs, key=None):
    return ("A", "set", None, tuple((C, "", i, j) for i, j in pairs))


def funcs(X, **k):
    d = dict(heap.FUNCS)
    d.update({"edge_time": edge_time, "$dg": X})
    d.update(k)
    return d


def std(X, **k):
    d = {F_: FV, E_: setval(sorted(X.E, key=lambda e: (e[1] * 7 + e[0] * 3) % 11)), n_: X.n}
    d.update({sym(a): v for a, v in k.items()})
    return d


def judge_all(ctx, name, at, leaves, sample, judge, n=None, need=20, ok_panic=False):
    """evaluate a summary on sampled digraphs.  sample(k) -> (X, fixed, funcs) or None; judge(I, X, leaf) -> None or what is wrong"""
    n = n or (4000 if ctx.thorough else 400)
    ok, opq = 0, None

    def seeds():
        yield from range(interp.SEED, interp.SEED + n)
        if opq is None and interp.TRACE is None:
            printed = lambda l: l.st.cells.get(models.STDOUT)
            yield from interp.thresholds(leaves, printed, interp.SEED + n, upper=30000, seconds=5, few=24)
    for k in seeds():
        if interp.TRACE is not None:
            if k >= interp.SEED + (200 if ctx.thorough else 50):
                return None
            if sample(k) is not None:
                interp.relational(name, lambda: (lambda s: Interp(k, 7, dict(s[1]), funcs=s[2]))(sample(k)), leaves,
                                  lambda I, l: interp.outcome(I, l), False)
            continue
        s = sample(k)
        if s is None:
            continue
        X, fixed, fn = s
        I = Interp(k, 7, dict(fixed), funcs=fn)
        try:
            hit = interp.active(I, leaves)
            if hit is None:
                raise Opaque("no result")
            if hit == "panic":
                e = "panics"
            else:
                e = judge(I, X, hit[0]) or interp.below_zero(I, leaves)
        except (Panics, OutOfRange) as e_:
            e = "panics (%s)" % e_
        except (Opaque, Undef) as e_:
            if not (interp.LONG and str(e_) == "budget"):
                opq = "%s: %s" % (type(e_).__name__, e_)
            continue
        if e:
            ctx.add(name, at, VIOL, "%s; on %s" % (e, str(X)[:1500]))
            return False
        ok += 1
    ctx.samples += ok
    if opq is not None or ok < need:
        ctx.add(name, at, UNDEC, "not understood: %s (%d inputs)" % (opq, ok))
        return None
    ctx.add(name, at, RI, "%d sampled inputs" % ok)
    return True


def _show(self):
    return "vertices 0..%d, times {%s}, graph edges %s" % (self.n, ", ".join("%d->%d: %s" % (a, b, t) for (a, b), t in sorted(self.T.items())),
                                                       sorted(self.E))


Digraph.__str__ = _show


def cob(ctx):
    """the coboundary matrix with its basis, over the unknown digraph"""
    A = ctx.adt(G, "GrPPHCoboundary")
    return build(ctx, ctx.inherent(A, "build"), [F_, E_, n_])


def bnd(ctx):
    A = ctx.adt(G, "GrPPHBoundary")
    B = ctor(ctx.adt(G, "PathHomSingleBasis"), "PathHomSingleBasis", sym("bv"))
    return build(ctx, ctx.inherent(A, "build"), [F_, E_, B])


def cells(X, k, kinds):
    """a cell of one of the dimensions, chosen by k"""
    o = []
    if 0 in kinds:
        o += [node(i) for i in X.labels]
    if 1 in kinds:
        o += sorted(X.edges())
    if 2 in kinds:
        o += sorted(X.two_cells())
    return o[k % len(o)] if o else None


def multiset(I, xs, want):
    ys = list(want)
    for x in xs:
        for i, y in enumerate(ys):
            if equal(I, x, y):
                del ys[i]
                break
        else:
            return "lists %s, which it should not" % pretty(x)
    if ys:
        return "does not list %s" % pretty(ys[0])
    return None


def sampler(kinds):
    def sample(k):
        X = Digraph(k)
        x = cells(X, k * 13, kinds)
        return (X, std(X, cell=x), funcs(X)) if x is not None else None
    return sample


def column_rule(ctx, name, M_, meth, trait, kinds, want):
    for suffix, W in layers(ctx, M_):
        column_rule1(ctx, name + suffix, W, meth, trait, kinds, want)


def column_rule1(ctx, name, W, meth, trait, kinds, want):
    def go():
        ev, b, ls = on(ctx, trait, meth, W, [cell_])

        outs = {id(l): colterm(ctx, ev, l) for l in ls if l.kind == "ret"}

        def judge(I, X, l):
            xs = I.items(I.val(outs[id(l)]))
            return multiset(I, xs, want(I, X, I.fixed[cell_]))
        judge_all(ctx, name, owner(ctx, W, trait, meth) or ctx.at(b), ls, sampler(kinds), judge)
    ctx.guarded(name, go)


@rule("C17")
def c17(ctx):
    heap.use(ctx)
    W = ctx.guarded("building the coboundary matrix", lambda: cob(ctx))
    D = ctx.guarded("building the boundary matrix", lambda: bnd(ctx))
    if D is not None:
        column_rule(ctx, "boundary of every cell", D, "column", MO, (0, 1, 2), lambda I, X, x: [(C, "", q, y) for y, q in boundary(x).items()])
    if W is not None:
        for kinds, nm in (((0,), "nodes"), ((1,), "edges")):
            column_rule(ctx, "coboundary of %s" % nm, W, "column", MO, kinds, lambda I, X, x: [(C, "", q, y) for q, y, _ in coboundary(X, x)])


def layers(ctx, W):
    """the matrix as it is built and the matrix of the crate inside it, whose methods may differ"""
    o = [("", W)]
    for x in walk(W):
        if x is not W and x.op == "ctor" and str(x.a[0]).startswith(G) and "GrPPH" in str(x.a[0]):
            if x.a[0] not in [y.a[0] for _, y in o]:
                o.append((" (without basis)", x))
    return o


def owner(ctx, W, trait, meth):
    """where a method of the innermost matrix is written"""
    try:
        A = [x.a[0] for x in walk(W) if x.op == "ctor" and str(x.a[0]).startswith(G) and "GrPPH" in str(x.a[0])]
        return ctx.at(ctx.method(trait, A[0], meth))
    except (Missing, IndexError):
        return None


def value_rule(ctx, name, M_, kinds):
    """filtration value of cells"""
    for suffix, W in layers(ctx, M_):
        value_rule1(ctx, name + suffix, W, kinds)


def value_rule1(ctx, name, W, kinds):
    def go():
        ev, b, ls = on(ctx, HRF, "filtration_value", W, [cell_])

        def judge(I, X, l):
            x = I.fixed[cell_]
            g, w = I.val(l.val), X.time(x)
            if not equal(I, g, w):
                return "filtration value of %s is %s instead of %s" % (pretty(x), pretty(g), w)
        judge_all(ctx, name, owner(ctx, W, HRF, "filtration_value") or ctx.at(b), ls, sampler(kinds), judge)
        if not keeps(ctx, W):
            return
        other = sym("other")
        fv = (HRF, "filtration_value")
        ev, b, l2 = twice(ctx, W, fv, [other], fv, [cell_], ev=heap.hev(ctx))

        def sample(k):
            s = sampler(kinds)(k)
            if s is not None:
                s[1][other] = cells(s[0], k * 7 + 1, (0, 1, 2) if 2 in kinds else kinds)
            return s
        judge_all(ctx, name + ", asked twice", owner(ctx, W, HRF, "filtration_value") or ctx.at(b), l2, sample, judge)
    ctx.guarded(name, go)


@rule("C18")
def c18(ctx):
    heap.use(ctx)
    W = ctx.guarded("building the coboundary matrix", lambda: cob(ctx))
    D = ctx.guarded("building the boundary matrix", lambda: bnd(ctx))
    if W is not None:
        column_rule(ctx, "two-cells of an edge with their times", W, "column_with_filtration", HRF, (1,),
                    lambda I, X, x: [mkentry(t, y, q) for q, y, t in coboundary(X, x)])
        value_rule(ctx, "times of two-cells (coboundary)", W, (2,))
    if D is not None:
        value_rule(ctx, "times of two-cells (boundary)", D, (2,))
        column_rule(ctx, "faces with their times", D, "column_with_filtration", HRF, (1, 2),
                    lambda I, X, x: [mkentry(X.time(y), y, q) for y, q in boundary(x).items()])

    def bridges():
        try:
            b = ctx.find_free(G, "build_primary_bridge_map")
        except core.Missing as e:       # the cells built from the bridges are still obligations
            raise Undecided(str(e))
        B = ctx.prog.bodies[b]
        if not re.search(r"Map<\([iu]\w+, [iu]\w+\), [iu]\w+[,>]", B["types"][B["locals"][0]]["s"]):
            raise Undecided("representation of the bridges")
        _, ls = ctx.summary(b, args=[F_, n_], ev=heap.hev(ctx))

        def sample(k):
            X = Digraph(k)
            return X, std(X), funcs(X)

        def judge(I, X, l):
            mp = I.val(l.val)
            for s in X.labels:
                for t in X.labels:
                    if s == t:
                        continue
                    g = I.lookup(mp, (C, "", s, t))
                    w = X.bridge(s, t)
                    if not equal(I, g, (C, "None") if w is None else (C, "Some", w)):
                        return "bridge of (%d, %d) is %s instead of %s" % (s, t, pretty(g), w)
        judge_all(ctx, "primary bridges", ctx.at(b), ls, sample, judge)
    ctx.guarded("primary bridges", bridges)

    def lookups():
        VF = ctx.prog.impls_of(trait_of(ctx, "DigraphFiltration"))
        ctx.require("edge time lookups", None, len(VF) >= 3 or None, "found %d implementations" % len(VF))
        for k, im in enumerate(VF):
            ty = ctx.prog.self_ty(im)
            b = im["items"]["edge_time"]
            st = State()
            S = sym("times")
            args = [cell(st, "self", S), cell(st, "ps", s_), cell(st, "pt", t_)]
            _, ls = ctx.summary(b, args=args, st=st, ev=heap.hev(ctx))
            if ty["k"] != "ref" and not re.search(r"Map<\([iu]\w+, [iu]\w+\), [\w:]*NotNan<f64>[,>]|Vec<[\w:]*Vec<[\w:]*Option<[\w:]*NotNan<f64>>>>$", ty["s"]):
                ctx.add("edge time lookup in " + ty["s"], ctx.at(b), UNDEC, "representation of the times")
                continue
            kind = "reference" if ty["k"] == "ref" else str(ty.get("adt")).split("::")[-1]

            def sample(k, kind=kind):
                X = Digraph(k)
                if not X.n:
                    return None
                s, t = X.labels[k % len(X.labels)], X.labels[(k // 3) % len(X.labels)]
                if kind == "Vec":
                    v = vlist(vlist((C, "Some", X.T[i, j]) if (i, j) in X.T else (C, "None") for j in range(X.n)) for i in range(X.n))
                elif kind == "HashMap":
                    v = ("A", "map", None, tuple((C, "", (C, "", i, j), w) for (i, j), w in X.T.items()))
                else:
                    v = FV
                return X, {S: v, s_: s, t_: t}, funcs(X)

            def judge(I, X, l):
                g = I.val(l.val)
                w = X.T.get((int(I.fixed[s_]), int(I.fixed[t_])))
                if not equal(I, g, (C, "None") if w is None else (C, "Some", w)):
                    return "time of (%s, %s) is %s instead of %s" % (I.fixed[s_], I.fixed[t_], pretty(g), w)
            judge_all(ctx, "edge time lookup in a %s" % kind, ctx.at(b), ls, sample, judge)
    ctx.guarded("edge time lookups", lookups)


def trait_of(ctx, name):
    c = [t for t in ctx.prog.traits if t.split("::")[-1] == name and t.split("::")[0] == G]
    if len(c) != 1:
        raise Missing("trait " + name)
    return c[0]


@rule("C19")
def c19(ctx):
    heap.use(ctx)
    W = ctx.guarded("building the coboundary matrix", lambda: cob(ctx))
    D = ctx.guarded("building the boundary matrix", lambda: bnd(ctx))
    if W is not None:
        column_rule(ctx, "edges at a node with their times", W, "column_with_filtration", HRF, (0,),
                    lambda I, X, x: [mkentry(t, y, q) for q, y, t in coboundary(X, x)])
        value_rule(ctx, "times of nodes and edges (coboundary)", W, (0, 1))
        for k in (0, 1):
            basis_rule(ctx, "basis of dimension %d" % k, W, k)
        ctx.guarded("the coboundary matrix of any digraph", lambda: buildable(
            ctx, "the coboundary matrix of any digraph", ctx.adt(G, "GrPPHCoboundary")))
    if D is not None:
        value_rule(ctx, "times of nodes and edges (boundary)", D, (0, 1))
        ctx.guarded("the boundary matrix of any digraph", lambda: buildable(
            ctx, "the boundary matrix of any digraph", ctx.adt(G, "GrPPHBoundary")))


def buildable(ctx, name, A):
    """building a matrix does not panic, whatever the digraph"""
    ls = ctx.built[ctx.inherent(A, "build")]

    def sample(k):
        X = Digraph(k)
        return X, std(X), funcs(X)
    judge_all(ctx, name, ctx.at(ctx.inherent(A, "build")), ls, sample, lambda I, X, l: None)


def basis_rule(ctx, name, W, k):
    def go():
        ev, b, ls = on(ctx, HCB, "basis", W, [])
        l = the(ls, "basis")
        B = deref(ctx, heap.hev(ctx).deref(l.st, l.val))
        _, bd, ld = on(ctx, SBD, "in_dimension", B, [I_(k)])
        l = the(ld, "in_dimension")
        S = l.val
        if S.op == "ptr":
            S = heap.hev(ctx).deref(l.st, S)
        S = deref(ctx, S)
        _, bs, lsz = on(ctx, CB, "size", S, [])
        _, be, le = on(ctx, CB, "element", S, [i_])

        def want(X):
            if k == 0:
                return [node(i) for i in range(X.n)]
            es = X.edges()
            return sorted(es, key=lambda e: (es[e], e))

        def sample(j):
            X = Digraph(j)
            w = want(X)
            return X, std(X, i=(j // 2) % (len(w) or 1)), funcs(X)

        def jsize(I, X, l):
            g = I.val(l.val)
            if norm(g) != len(want(X)):
                return "lists %s cells, expected %d" % (pretty(g), len(want(X)))

        def jelem(I, X, l):
            w = want(X)
            if not w:
                return None
            g = I.val(l.val)
            x = w[int(I.fixed[i_])]
            if not equal(I, g, x):
                return "position %s has %s instead of %s" % (I.fixed[i_], pretty(g), pretty(x))
        src = ctx.at(ctx.inherent(ctx.adt(G, "GrPPHCoboundary"), "build"))
        judge_all(ctx, name + " (size)", src, lsz, sample, jsize)
        judge_all(ctx, name + " (cells)", src, le, lambda j: sample(j) if want(Digraph(j)) else None, jelem)
    ctx.guarded(name, go)


def grpph_agree(ctx, adt):
    """the enriched column against the plain column and the row filtration"""
    for suffix, W in layers(ctx, cob(ctx) if adt.endswith("GrPPHCoboundary") else bnd(ctx)):
        agree(ctx, adt, W, suffix)


def agree(ctx, adt, W, suffix):
    kinds = (0, 1) if adt.endswith("GrPPHCoboundary") else (0, 1, 2)
    name = "agreement of " + adt.split("::")[-1] + suffix
    ev, b, ls = on(ctx, HRF, "column_with_filtration", W, [cell_])
    ev2, _, lc = on(ctx, MO, "column", W, [cell_])
    row = sym("$row")
    _, _, lf = on(ctx, HRF, "filtration_value", W, [row])
    outs = {id(l): colterm(ctx, ev, l) for l in ls if l.kind == "ret"}
    outc = {id(l): colterm(ctx, ev2, l) for l in lc if l.kind == "ret"}

    def one_(I, ls, fixed):
        J = Interp(I.seed, I.D, dict(I.fixed, **{}), funcs=I.funcs)
        J.fixed.update(fixed)
        hit = interp.active(J, ls)
        if hit == "panic":
            raise Panics("disagreement")
        if not hit:
            raise Opaque("no result")
        return J, hit[0]

    def judge(I, X, l):
        xs = I.items(I.val(outs[id(l)]))
        J, h = one_(I, lc, {})
        want = []
        for e in J.items(J.val(outc[id(h)])):
            q, y = J.fieldof(e, "", 0), J.fieldof(e, "", 1)
            K, hf = one_(I, lf, {row: y})
            want.append(mkentry(K.val(hf.val), y, q))
        return multiset(I, xs, want)
    judge_all(ctx, name, owner(ctx, W, HRF, "column_with_filtration"), ls, sampler(kinds), judge)


from rules import matrices as _mx
_mx.SPECIAL["GrPPHCoboundary"] = grpph_agree
_mx.SPECIAL["GrPPHBoundary"] = grpph_agree
