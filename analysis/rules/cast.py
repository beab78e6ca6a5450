"""C22: integer conversions.  Every conversion in the workspace that can change a value is enumerated; its operand is bounded, in
every context from which the outside can reach it, by the summaries of the functions it occurs in."""
import itertools
from rules.common import *
from rules import pyfns, grpph

SIGNED = lambda t: t[0] == "i"
W_ = Ev.WIDTH


def lossless(a, b):
    if a not in W_ or b not in W_:
        return a in ("bool", "char")
    (l, h), (l2, h2) = (INTS.get(x, (0, 2 ** W_[x] - 1)) for x in (a, b))
    return l2 <= l and h <= h2


def coefficient(ctx, bid):
    """arithmetic of the fields themselves (C01)"""
    return bid.startswith("phlite::fields::")


def hashing(ctx, bid):
    """fed to a hasher: equal values still have equal hashes"""
    return any(owner(bid) == b for im in ctx.prog.impls_of("core::hash::Hash") for b in im["items"].values())


def sites(ctx):
    """conversions that can change a value: {(function, from, to): [positions in the source]}"""
    out = {}
    for bid, B in ctx.prog.bodies.items():
        for blk in B["blocks"]:
            if blk.get("cleanup"):
                continue
            for s in blk["st"]:
                rv = s.get("rv")
                if not rv or rv.get("r") != "cast" or rv["kind"] not in ("IntToInt", "FloatToInt"):
                    continue
                a, b = B["types"][rv["from"]].get("s"), B["types"][rv["ty"]].get("s")
                if rv["kind"] == "FloatToInt" or not lossless(a, b):
                    out.setdefault((bid, a, b), []).append(s.get("at"))
            t = blk["term"]
            if t["t"] == "call" and str(t["f"].get("path", "")).startswith("petgraph::") and t["f"].get("name") == "new" \
                    and "NodeIndex" in t["f"]["path"]:
                out.setdefault((bid, "usize", "u32"), []).append(t.get("at"))
    return out


def owner(bid):
    return bid.split("::{closure")[0]


def callers(ctx):
    """functions (closures folded into the function they are written in) that call or take the address of a function"""
    out = {}

    def refs(x):
        if isinstance(x, dict):
            if "resolved" in x or "id" in x and "path" in x:
                yield x.get("resolved") or x.get("id")
            if x.get("c") == "fn" and isinstance(x.get("fn"), dict):
                yield x["fn"].get("resolved") or x["fn"].get("id")
            for v in x.values():
                for y in refs(v):
                    yield y
        elif isinstance(x, list):
            for v in x:
                for y in refs(v):
                    yield y
    for bid, B in ctx.prog.bodies.items():
        for r in refs(B["blocks"]):
            if r in ctx.prog.bodies and owner(r) != owner(bid):
                out.setdefault(owner(r), set()).add(owner(bid))
    return out


# ------------------------------------------------------------------------------------------------- bounds
class Bound(object):
    def __init__(self, types, scope, lits):
        self.types, self.scope, self.lits = types, dict(scope), lits

    def iv(self, t, ty=None):
        """interval of a term (None: unbounded)"""
        lo, hi = self.raw(t, ty)
        p = P(t)
        for l in self.lits:
            c, v = l.a
            if c.op == "app" and c.a[0] == "fits" and v == 1 and c.a[1] is t and c.a[2].a[0] in INTS:
                a, b = INTS[c.a[2].a[0]]
                lo, hi = mx(lo, a), mn(hi, b)
            if c.op == "lt" and v in (0, 1) and c.a[2] == "i":
                A, B = (c.a[0], c.a[1])
                # A < B: t <= t + B - A - 1 and t >= t + A - B + 1;  B <= A: t <= t + A - B, t >= t + B - A
                u, w = (psub(padd(t, B), padd(A, I(1))), padd(psub(padd(t, A), B), I(1))) if v == 1 else (psub(padd(t, A), B), psub(padd(t, B), A))
                if u.op == "int":
                    hi = mn(hi, u.a[0])
                if w.op == "int":
                    lo = mx(lo, w.a[0])
            if c.op == "eq" and v == 1:
                for A, B in (c.a, c.a[::-1]):
                    u = psub(padd(t, A), B)
                    if u.op == "int":
                        lo, hi = mx(lo, u.a[0]), mn(hi, u.a[0])
        return lo, hi

    def raw(self, t, ty=None):
        r = INTS.get(ty, (None, None)) if ty else (None, None)
        o, a = t.op, t.a
        if o == "int":
            return a[0], a[0]
        if t in self.types and self.types[t] in INTS:
            return INTS[self.types[t]]
        if t in self.scope:
            d = self.scope[t]
            if d.op == "range":
                l, h = self.iv(d.a[0])[0], self.iv(d.a[1])[1]
                return l, None if h is None else h - 1
            return r
        if o == "poly":
            lo = hi = 0
            for c, m in a:
                l, h = c, c
                for u, e in m:
                    x, y = self.iv(u)
                    if x is None or y is None or e < 0:
                        if x is not None and x >= 0 and e > 0 and c > 0 and l is not None and l >= 0:
                            l, h = l * x ** e, None
                            continue
                        return r
                    if e > 1 and x < 0:
                        return r
                    x, y = x ** e, y ** e
                    if h is None:
                        l = l * x
                        continue
                    q = (l * x, l * y, h * x, h * y)
                    l, h = min(q), max(q)
                lo, hi = lo + l if lo is not None else None, None if hi is None or h is None else hi + h
            return mx(lo, r[0]), mn(hi, r[1])
        if o == "ite":
            x, y = self.iv(a[2], ty), self.iv(a[3], ty)
            return (None if None in (x[0], y[0]) else min(x[0], y[0])), (None if None in (x[1], y[1]) else max(x[1], y[1]))
        if o == "ext" and flat(a[1]):
            iv = [self.iv(x, ty) for x in flat(a[1])]
            los, his = [x for x, _ in iv], [y for _, y in iv]
            if a[0] == "MAX":
                return mx(max([x for x in los if x is not None], default=None), r[0]), (r[1] if None in his else mn(max(his), r[1]))
            return (r[0] if None in los else mx(min(los), r[0])), mn(min([y for y in his if y is not None], default=None), r[1])
        if o == "app" and a[0] in ("div", "div_e") and len(a) == 3:
            x, y = self.iv(a[1]), self.iv(a[2])
            if None not in (x[0], y[0]) and x[0] >= 0 and y[0] > 0:
                return 0, None if x[1] is None else x[1] // y[0]
        if o == "app" and a[0] in ("trunc", "clamp") and a[1].a[0] in INTS:
            return INTS[a[1].a[0]]
        if o == "app" and a[0] in ("rem", "rem_e") and len(a) == 3:
            y = self.iv(a[2])
            x = self.iv(a[1])
            if y[1] is not None and y[0] is not None and y[0] >= 0 and x[0] is not None and x[0] >= 0:
                return 0, mn(y[1] - 1, x[1])
        if o in ("lt", "eq", "not") or is_boolcond(t):
            return 0, 1
        return r


def flat(S):
    """members of a stream that lists its members"""
    ps = S.a if S.op == "seq" else (S,)
    return [p.a[0] for p in ps] if all(p.op == "one" for p in ps) else None


def mx(a, b):
    return b if a is None else a if b is None else max(a, b)


def mn(a, b):
    return b if a is None else a if b is None else min(a, b)


def occurrences(t, scope=(), lits=(), what="trunc"):
    """applications of `what` in a term with the binders and guards around them"""
    seen = set()
    st = [(t, scope, lits)]
    while st:
        x, sc, ls = st.pop()
        if (x, sc, ls) in seen:
            continue
        seen.add((x, sc, ls))
        if x.op == "app" and x.a[0] == what:
            yield x, sc, ls
        if x.op == "for":
            st.append((x.a[1], sc, ls))
            st.append((x.a[2], sc + ((x.a[0], x.a[1]),), ls))
        elif x.op == "case":
            for g, b in x.a:
                st.append((b, sc, ls + tuple(g)))
                for l in g:
                    st.append((l, sc, ls))
        elif x.op == "ite":
            st.append((x.a[0], sc, ls))
            st.append((x.a[2], sc, ls + (lit(x.a[0], x.a[1]),)))
            st.append((x.a[3], sc, ls + (lit(x.a[0], ("no", x.a[1])) if not is_boolcond(x.a[0]) else lit(x.a[0], 1 - x.a[1]),)))
        else:
            for y in subterms(x):
                st.append((y, sc, ls))


def root(t):
    while t.op in ("field", "app") and (t.op == "field" or t.a[0] in ("index", "item", "at", "head")):
        t = t.a[0] if t.op == "field" else t.a[1]
    return t


def atoms(t, scope):
    """inputs a number is computed from, or None when something else is in it"""
    if t.op == "int":
        return set()
    if t.op == "poly":
        out = set()
        for c, m in t.a:
            for u, e in m:
                x = atoms(u, scope)
                if x is None:
                    return None
                out |= x
        return out
    if t.op == "ext" and flat(t.a[1]) or t.op == "app" and t.a[0] in ("rem", "rem_e", "div", "div_e") or t.op == "ite" and isT(t.a[1]) is False:
        out = set()
        for u in (flat(t.a[1]) if t.op == "ext" else t.a[1:] if t.op == "app" else t.a[2:]):
            x = atoms(u, scope)
            if x is None:
                return None
            out |= x
        if t.op == "ite":
            for y in walk(t.a[0]):
                if y.op == "sym":
                    out.add(y)
        return out
    if t in scope:
        d = scope[t]
        if d.op != "range":
            return {t}
        x, y = atoms(d.a[0], scope), atoms(d.a[1], scope)
        return None if x is None or y is None else {t}
    r = root(t)
    if r.op == "sym" or r in scope and scope[r].op == "elems":
        return {t}
    if t.op == "app" and t.a[0] in ("len", "size") and root(t.a[1]).op == "sym":
        return {t}
    return None


def witness(types, v, a, b, scope, lits):
    """values of the inputs, allowed by the conditions around a conversion, that it changes; None when not found"""
    scope = dict(scope)
    at = atoms(v, scope)
    if not at:
        return None
    lo, hi = INTS[b]
    ranged = [x for x in at if x in scope and scope[x].op == "range"]
    free = [x for x in at if x not in ranged]
    for x in ranged:
        for y in scope[x].a:
            z = atoms(y, scope)
            if any(q in scope for q in z):
                return None
            free += [q for q in z if q not in free]
    if len(free) > 3 or any(x.op == "app" and x.a[0] in ("len", "size") and hi >= 2 ** 31 for x in free):
        return None
    names = set(free) | set(ranged) | {root(x) for x in at}
    rel = [l for l in lits if any(y in names for y in walk(l))]
    vals = sorted({hi + 1, hi + 2, 2 * hi + 5, lo - 1, hi, 0, 1, 3})
    for pick in itertools.product(vals, repeat=len(free)):
        ok = True
        for x, p in zip(free, pick):
            ty = types.get(x) or (a if x is v else None)
            l, h = INTS.get(ty, (0, 2 ** 64 - 1))
            ok = ok and l <= p <= h
        if not ok:
            continue
        I_ = Interp(1, 7, dict(zip(free, pick)))
        try:
            for x in ranged:
                x0, x1 = I_.val(scope[x].a[0]), I_.val(scope[x].a[1])
                if x1 <= x0:
                    raise Undef("empty")
                I_.fixed[x] = x1 - 1
            q = I_.val(v)
            if not is_num(q) or lo <= q <= hi or not INTS[a][0] <= q <= INTS[a][1]:
                continue
            if all(I_.lits([l]) for l in rel):
                return q, ", ".join("%s = %s" % (pretty_t(x), p) for x, p in I_.fixed.items())
        except (Undef, Opaque, KeyError, TypeError):
            continue
    return None


def pretty_t(x):
    return str(x)[:120]


def counter(entry, leaves):
    """a running position is converted: some iteration whose position still fits always panics"""
    bid, a, b, v, how, lits = entry
    pan = [l for l in leaves if l.kind == "panic" and any(y is v for x in l.st.facts.lits for y in walk(x))]
    for K in (64, 127, 128):
        if K > INTS[b][1]:
            continue
        good = bool(pan)
        for k in range(40):
            rnd = random.Random(k)
            hit = False
            for l in pan:
                J = Interp(k, 7, {v: K})
                syms = {x for q in l.st.facts.lits for x in walk(q) if x.op == "sym"}
                for s in sorted(syms, key=str):
                    J.fixed[s] = rnd.choice((1, 2, 3, 10, 1000, 2 ** 20))
                try:
                    if all(J.lits([q]) for q in l.st.facts.lits if not (q.a[0].op in ("discr2", "discr") or mentions(q, {x for x in walk(q) if x.op == "phi"} - set(walk(v))))):
                        hit = True
                        break
                except (Undef, Opaque, TypeError, OverflowError):
                    continue
            good = good and hit
            if not good:
                break
        if good:
            return K
    return None


def loop_terms(ev):
    for rec in ev.loops:
        for c in getattr(rec, "conts", None) or ():
            for t in c[1].values():
                yield t, tuple(c[0])


def judge(ctx, f, key, ev, leaves):
    """-> (status, detail) of the conversions of one kind at one place, as seen from f"""
    bid, a, b = key
    mine = [e for e in ev.casts if e[0] == bid and e[1:3] == (a, b) or e[0] == "petgraph::graph::NodeIndex::new" and (a, b) == ("usize", "u32")]
    if not mine:
        return (UNDEC, "not reached")
    vs = {}
    for e in mine:
        vs.setdefault((e[3], e[4]), e)
    occ = None
    worst = (PROVED, "")
    for (v, how), e in vs.items():
        if how == "const":
            return VIOL, "%s is not a value of %s" % (v, b)
        B = Bound(ev.symtypes, {}, e[5])
        lo, hi = B.iv(v, a)
        L, H = INTS[b]
        if lo is not None and hi is not None and L <= lo and hi <= H:
            continue
        if how == "sign":
            worst = (UNDEC, "same-width conversion of %s" % pretty_t(v))
            continue
        if how == "pos" or v.op == "app" and v.a[0] in ("pos", "posn"):
            if counter(e, leaves) is not None:
                continue
            if how == "pos":
                worst = (UNDEC, "position %s is not bounded" % pretty_t(v))
                continue
        if occ is None:
            occ = {}
            for l in leaves:
                if l.kind != "ret":
                    continue
                for t in [l.val] + list(l.st.cells.values()) + list(l.st.facts.lits):
                    if isT(t):
                        for x, sc, ls in occurrences(t):
                            occ.setdefault(x, set()).add((sc, ls + tuple(l.st.facts.lits)))
            for t, ls in loop_terms(ev):
                for x, sc, l2 in occurrences(t):
                    occ.setdefault(x, set()).add((sc, l2 + ls))
        hits = [(x, sc, ls) for x, ss in occ.items() if x.a[1].a[0] == b for sc, ls in ss]
        if not hits:
            worst = (UNDEC, "value %s is not part of the result" % pretty_t(v))
        for x, sc, ls in hits:
            B = Bound(ev.symtypes, sc, ls)
            lo, hi = B.iv(x.a[2], a)
            if lo is not None and hi is not None and L <= lo and hi <= H:
                continue
            w = witness(ev.symtypes, x.a[2], a, b, sc, ls)
            if w:
                return VIOL, "%s, a %s, is converted to %s where it can be %s (%s)" % (pretty_t(x.a[2]), a, b, w[0], w[1])
            worst = (UNDEC, "%s is not bounded by %s" % (pretty_t(x.a[2]), H))
    return worst


def entries(ctx):
    return {ctx.find_free(pyfns.G, n) for n in pyfns.NAMES}


def public(ctx, f):
    B = ctx.prog.bodies[f]
    return B.get("vis") == "pub" or B.get("name") == "main"


def evaluator(ctx):
    """public matrix methods, builders and reductions are judged by themselves, not again inside their callers"""
    ev = pyfns.pyev(ctx)
    b = ctx.find_free("phlite_rips", "build_rips_coboundary_matrix")
    ev.contracts[b] = pyfns.ctor_of("$rips")
    return ev


@rule("C22")
def casts(ctx):
    up = callers(ctx)
    ent = entries(ctx)
    cache = {}

    def summ(f):
        if f not in cache:
            try:
                cache[f] = ctx.summary(f, ev=evaluator(ctx))
            except (Undecided, Opaque, Undef, RecursionError) as e:
                cache[f] = e
        return cache[f]
    ss = sites(ctx)
    for key in sorted(ss):
        bid, a, b = key
        if coefficient(ctx, bid) or hashing(ctx, bid):
            continue
        name = "conversion of %s to %s in %s" % (a, b, bid)
        at = ss[key][0]

        def go():
            todo, seen, res = [owner(bid)], set(), []
            if bid not in ctx.prog.bodies:
                return
            while todo:
                f = todo.pop()
                if f in seen:
                    continue
                seen.add(f)
                if f in ent:
                    res.append((OK, "decided at the Python functions"))
                    continue
                s = summ(f)
                r = (UNDEC, "%s: %s" % (type(s).__name__, s)) if isinstance(s, Exception) else judge(ctx, f, key, *s)
                if r[0] in (VIOL, UNDEC) and not public(ctx, f) and up.get(f):
                    todo += sorted(up[f])
                    continue
                if r[0] == VIOL and not public(ctx, f):
                    r = (OK, "not reachable from outside")
                res.append((r[0], (r[1] + " [from %s]" % f) if r[1] else ""))
            for st in (VIOL, UNDEC):
                for r in res:
                    if r[0] == st:
                        ctx.add(name, at, st, r[1])
                        return
            ctx.add(name, at, PROVED if any(r[0] == PROVED for r in res) else OK, "; ".join(sorted({r[1] for r in res if r[1]})))
        ctx.guarded(name, go, at)
    ctx.add("conversions enumerated", None, OK, "%d places" % sum(len(v) for v in ss.values()))


SMALL = {"u8": (0, 1), "u16": (0, 3), "i8": (-1, 0), "i16": (-2, 1)}
SCALE = {65535: 3, 65536: 4, 32767: 1, 32768: 2, 255: 1, 256: 2}


@rule("C22")
def python(ctx):
    """the vertices given to the Python functions reach the matrices unchanged or are refused.  The widths of the 8 and 16 bit types are
    parameters of the summary; they are interpreted as 1 and 2 bits so that small digraphs go beyond them"""
    for nm in pyfns.NAMES:
        name = "vertices given to %s" % nm

        def go():
            import models
            models.STRICT = True
            try:
                b, ev, ls = pyfns.entry(ctx, nm)
            finally:
                models.STRICT = False

            def sample(k):
                X, fixed, F = pyfns.sample(k)
                if k % 5 == 1 and 1 <= X.n <= 3:
                    # an edge to a vertex beyond both the digraph and the type
                    e = (X.rnd.randrange(X.n), X.rnd.randrange(4, 9), X.rnd.choice((1, interp.INF)))
                    e = e if X.rnd.random() < .5 else (e[1], e[0], e[2])
                    X.list.append(e)
                    X.E.add(e[:2])
                    X.outside = True
                    fixed[pyfns.E_] = X.value()
                F.update({"$widths": SMALL, "$scale": SCALE, "$narrowed": [], "$strict": 1})
                return X, fixed, F

            def big(X):
                return X.n > 3 or any(max(i, j) > 3 for i, j in X.E)
            stat = {"refused": 0}

            def judge_(I, X, l):
                e = None
                try:
                    e = pyfns.jtimes(I, X, l)
                except (Panics, OutOfRange, Undef) as e_:
                    if not big(X) or type(e_) is Undef and not getattr(X, "outside", False):
                        raise
                    stat["refused"] += 1
                    return None
                if I.funcs["$narrowed"]:
                    return "with 16-bit types holding 0..3: %s" % I.funcs["$narrowed"][0]
                if getattr(X, "outside", False) and e and "though it is not in the graph" not in e:
                    e = None        # leaving such an edge out identifies nothing
                return "with 16-bit types holding 0..3: %s" % e if e and big(X) else None

            refusing(ctx, name, ctx.at(b), ls, sample, judge_, big)
        ctx.guarded(name, go)


def refusing(ctx, name, at, ls, sample, judge_, big):
    """panicking is an answer where a value does not fit"""
    def s2(k):
        s = sample(k)
        X, fixed, F = s
        if big(X):
            J = Interp(k, 7, dict(fixed), funcs=F)
            try:
                if interp.active(J, ls) in (None, "panic"):
                    return None
            except (Panics, OutOfRange, Undef):
                return None
            except Opaque:
                pass
            F["$narrowed"][:] = []
            F["$bad"][:] = []
            F["$memo"].clear()
        return s
    grpph.judge_all(ctx, name, at, ls, s2, judge_)
