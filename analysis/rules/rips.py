"""Vietoris-Rips crate: simplex indices, boundary, coboundary, filtration, bases."""
import math
from interp import Panics
from rules.common import *
from facts import NONNEG_ATOMS

CRATE = "phlite_rips"


def usym(n):
    s = sym(n)
    NONNEG_ATOMS.add(s)
    return s


class Rips(object):
    """public anchors of the crate and the meaning of its index type"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.idx = ctx.adt(CRATE, "RipsIndex")
        fs = ctx.prog.adts[self.idx]["variants"][0]["fields"]
        ty = ctx.prog.adts[self.idx]["types"]
        if len(fs) != 1 or ty[fs[0]["ty"]]["s"] != "usize":
            raise Undecided("representation of the simplex index")
        self.iname = ctx.prog.adts[self.idx]["variants"][0]["name"]

    def index(self, t):
        return ctor(self.idx, self.iname, t)

    def enc(self, vs, n):
        return (C, self.iname, sum((x + 1) * (n + 1) ** i for i, x in enumerate(vs)))

    def matrix(self, adt):
        try:
            return struct(self.ctx, adt, [(is_vec, sym("D"))])
        except Undecided:
            # other fields: what the public function that builds it puts there
            fn = "build_rips_coboundary_matrix" if "Coboundary" in adt else "build_rips_boundary_matrix"
            _, ls = self.ctx.summary(self.ctx.find_free(CRATE, fn), args=[sym("D"), usym("m")],
                                     opaque=[self.ctx.find_free(CRATE, "build_rips_bases")])
            ls = [l for l in ls if l.kind == "ret"]
            xs = {x for l in ls for x in walk(l.val) if x.op == "ctor" and x.a[0] == adt}
            if len(ls) != 1 or len(xs) != 1:
                raise
            return xs.pop()

    def sample(self, nmax=5, extra=None, minlen=1):
        """k, D -> assignment of distances and a simplex"""
        def f(k, D):
            rnd = random.Random("rips%d" % k)
            n = 1 + k % nmax + interp.beyond(300)
            d = symmetric(rnd, n, max(D, 2), .12)
            s = subset(rnd, n, minlen)
            if n > 6 and rnd.random() < .4:         # one distance decides: from a vertex of the simplex
                if rnd.random() < .5:
                    s = sorted(rnd.sample(range(n), min(n - 1, int(62 / math.log2(n + 1)), max(1, n - rnd.randrange(1, 4)))))
                d = symmetric(rnd, n, 2)
                i = rnd.choice((s[-1], s[0], rnd.choice(s)))
                j = rnd.choice([x for x in range(n) if x != i and (x not in s or k % 3 == 0)] or [i - 1 if i else i + 1])
                d[i][j] = d[j][i] = 2 * max(x for r in d for x in r) + 1
            fx = {sym("D"): rows(d), sym("w"): self.enc(s, n)[2], sym("n"): n}
            if extra:
                fx.update(extra(rnd, d, s))
            return fx
        return f

    def decode(self, w, n):
        r = []
        while w > 0:
            r.append(w % (n + 1) - 1)
            w //= n + 1
        return r

    def ctx_of(self, I):
        """distance matrix and simplex of the current interpretation"""
        d = [list(r[1]) for r in I.fixed[sym("D")][1]]
        return d, self.decode(I.fixed[sym("w")], len(d))


def diam(d, s):
    return max([d[a][b] for a in s for b in s])


def subset(rnd, n, minlen):
    """a subset of 0..n as an increasing list, all of them equally likely; of any length when there are many"""
    if n <= 6:
        ss = [s for s in subsets(n) if len(s) >= minlen]
        return list(ss[rnd.randrange(len(ss))]) if ss else list(range(n))
    if rnd.random() < .3:               # the first or the last few points
        k = min(n, max(minlen, 1 + rnd.randrange(3)))
        return list(range(n))[:k] if rnd.random() < .5 else list(range(n))[-k:]
    k = rnd.choice((rnd.randrange(minlen, n + 1), min(n, max(minlen, 1 + rnd.randrange(4))), max(minlen, n - rnd.randrange(4))))
    if (n + 1) ** k >= 2 ** 63:         # such a simplex has no index
        k = max(minlen, int(62 / math.log2(n + 1)) - rnd.randrange(2))
    return sorted(rnd.sample(range(n), k))


def boundary_of(R, d, s):
    n = len(d)
    return [(C, "", (-1) ** i, R.enc(s[:i] + s[i + 1:], n)) for i in range(len(s)) if len(s) > 1]


def coboundary_of(R, d, s, withfilt=False, lo=0):
    n = len(d)
    out = []
    for v in range(lo, n):
        if v in s:
            continue
        i = len([x for x in s if x < v])
        t = s[:i] + [v] + s[i:]
        if withfilt:
            out.append(R.ctx.prog.ventry(diam(d, t), R.enc(t, n), (-1) ** i))
        else:
            out.append((C, "", (-1) ** i, R.enc(t, n)))
    return out


# the dimension of a simplex and the number of a point still fit
NARROW = {"$widths": {"u8": (0, 63), "u16": (0, 127), "u32": (0, 255)},
          "$scale": {255: 63, 256: 64, 65535: 127, 65536: 128, 2 ** 32 - 1: 255, 2 ** 32: 256}}


def narrows(ls):
    return any(x.op == "app" and x.a[0] == "trunc" and x.a[1].op == "str" and x.a[1].a[0] in NARROW["$widths"]
               for l in ls if l.kind == "ret" for x in walk(l.val))


# the position of a vertex in a simplex and the number of a point as u32 still fit
NARROWV = {"$widths": {"u8": (0, 31), "u16": (0, 31), "u32": (0, 255)},
           "$scale": {255: 31, 256: 32, 65535: 31, 65536: 32, 2 ** 32 - 1: 255, 2 ** 32: 256}}


def shortening(ctx, root):
    """conversions to narrower types in a function or what it calls"""
    for b in reachable(ctx, [root]):
        B = ctx.prog.bodies[b]
        for blk in B["blocks"]:
            for x in blk["st"]:
                rv = x.get("rv") or {}
                if rv.get("r") == "cast" and rv["kind"] == "IntToInt" and B["types"][rv["ty"]].get("s") in NARROW["$widths"]:
                    return True
    return False


def refused(ctx, many=41):
    """points beyond the narrower types are refused where the matrices are built"""
    for nm in ("build_rips_coboundary_matrix", "build_rips_boundary_matrix"):
        D, m = sym("D"), usym("m")
        _, ls = ctx.summary(ctx.find_free(CRATE, nm), args=[D, m], opaque=[ctx.find_free(CRATE, "build_rips_bases")])
        I = Interp(1, 7, {D: rows([[0] * many] * many), m: 1}, funcs=NARROWV)
        try:
            if interp.active(I, ls) in (None, "panic"):
                return True
        except Undef:
            return True
        except Opaque:
            pass
    return False


def column_equal(ctx, R, name, b, ls, want, funcs=None):
    """a column or value of a simplex; with conversions to narrower types also on points and indices beyond these"""
    ctx.equal(name, b, ls, want, fixed=R.sample(), funcs=funcs, want_panic=lambda I: False)
    if narrows(ls) and not refused(ctx):
        ctx.equal(name + ", points beyond the narrower types", b, ls, want, fixed=R.sample(41), funcs=dict(funcs or {}, **NARROWV), n=120)


# ---------------------------------------------------------------------------------------------------- C12
@rule("C12")
def index_codec(ctx):
    R = Rips(ctx)
    n, w = usym("n"), usym("w")
    smp0 = R.sample()

    def smp(k, D):
        f = smp0(k, D)
        if k % 9 == 4 and not interp.LONG:
            # indices in the upper half of the range
            rnd = random.Random(k)
            nn, size = rnd.choice(((18, 15), (21, 14), (37, 12), (82, 10), (254, 8)))
            vs = sorted(rnd.sample(range(nn - 1), size - 1)) + [nn - 1]
            f.update({sym("D"): rows([[0] * nn for _ in range(nn)]), n: nn, w: R.enc(vs, nn)[2]})
        return f

    def huge(k, D):
        """also numbers of points whose indices are not representable as a float: no distances are needed"""
        f = smp(k, D)
        if k % 9 == 7 and not interp.LONG:
            rnd = random.Random(k)
            nn = rnd.choice((1 << 24, (1 << 27) + 5, (1 << 31) - 2, (1 << 32) - 2))
            vs = sorted({rnd.choice((0, 1, nn - 1, nn - 2, rnd.randrange(nn))) for _ in range(rnd.choice((1, 2, 2)))})
            if rnd.random() < .3:
                vs = [nn - 2, nn - 1]
            f.update({sym("D"): rows([]), n: nn, w: R.enc(vs, nn)[2]})
        return f

    def decode():
        b = ctx.inherent(R.idx, "to_vec")
        _, ls = ctx.summary(b, args=[R.index(w), n])
        spec = vec(each(app("digits", w, padd(n, I_(1))), lambda x: one(psub(x, I_(1)))))
        rets = [l for l in ls if l.kind == "ret"]
        if ctx.same(rets, [((), spec)], lambda l: l.val):
            ctx.add("decode", ctx.at(b), PROVED)
        else:
            ctx.equal("decode", b, ls, lambda I: vlist(R.decode(I.fixed[w], I.fixed[n])), fixed=huge, want_panic=lambda I: False)

    def encode():
        b = ctx.inherent(R.idx, "from_indices")
        s = sym("vertices")
        _, ls = ctx.summary(b, args=[s, n])
        S = each(s, one)
        place = lambda e: pmul(padd(app("item", e), I_(1)), pow_(padd(n, I_(1)), app("posn", e)))
        t = fresh_bv()
        tot = SUM(mkfor(t, mk("elems", mk("enum", S)), one(place(t))))
        pos = lt(I_(0), tot, "i")
        spec = [((lit(pos, 1),), some(R.index(tot))), ((lit(pos, 0),), NONE)]
        if ctx.same([l for l in ls if l.kind == "ret"], spec, lambda l: l.val):
            ctx.add("encode", ctx.at(b), PROVED)
            return

        def sm(k, D):
            f = smp(k, D)
            nn = f[sym("n")]
            rnd = random.Random(k)
            if k % 9 == 7 and not interp.LONG:
                f = huge(k, D)
                f[s] = vlist(R.decode(f[w], f[n]))
                return f
            f[s] = vlist([] if k % 20 == 7 else R.decode(f[w], nn) if k % 9 == 4 else subset(rnd, nn, 0))
            return f

        def want(I):
            vs = list(I.fixed[s][1])
            return (C, "Some", R.enc(vs, I.fixed[sym("n")])) if vs else (C, "None")
        ctx.equal("encode", b, ls, want, fixed=sm, want_panic=lambda I: False)

    def dim():
        b = ctx.inherent(R.idx, "dimension")
        _, ls = ctx.summary(b, args=[R.index(w), n])
        spec = psub(SUM(each(app("digits", w, padd(n, I_(1))), lambda x: one(I_(1)))), I_(1))
        if ctx.same([l for l in ls if l.kind == "ret"], [((), spec)], lambda l: l.val):
            ctx.add("dimension", ctx.at(b), PROVED)
        else:
            ctx.equal("dimension", b, ls, lambda I: len(R.decode(I.fixed[w], I.fixed[n])) - 1, fixed=huge, want_panic=lambda I: False)

    def equality():
        b = ctx.method("core::cmp::PartialEq", R.idx, "eq")
        x, y = usym("x"), usym("y")
        _, ls = ctx.summary(b, args=[R.index(x), R.index(y)])
        ctx.equal("equality", b, ls, eq(x, y))
    for f in (decode, encode, dim, equality):
        ctx.guarded(f.__name__, f)

    def overflow():
        b = ctx.inherent(R.idx, "from_indices")
        ev, _ = ctx.summary(b, args=[sym("vertices"), n])
        bad = unchecked_arith(ctx, ev.inlined)
        ctx.require("no wrapping arithmetic in the encoder", bad[0][0] if bad else ctx.at(b), not bad,
                    "; ".join("%s %s" % x for x in bad))
    ctx.guarded("overflow", overflow)


WRAPPING = ("wrapping_", "overflowing_", "unchecked_", "saturating_")


def unchecked_arith(ctx, bodies):
    """arithmetic on two run-time integers that does not signal overflow (a plain operator is only checked in debug builds)"""
    out = []
    for bid in sorted(bodies):
        d = ctx.prog.bodies[bid]
        types = d["types"]
        for blk in d["blocks"]:
            for s in blk["st"]:
                rv = s.get("rv") or {}
                if rv.get("r") != "bin" or not rv["op"].startswith(("Mul", "Add", "Shl")):
                    continue
                if any(o.get("o") == "const" for o in (rv["a"], rv["b"])):
                    continue
                ty = types[d["locals"][rv["a"]["p"][0]]]["s"] if not rv["a"]["p"][1] else "usize"
                if ty not in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize"):
                    continue
                out.append((s.get("at") or d["at"], "unchecked %s in %s" % (rv["op"], bid)))
            t = blk["term"]
            if t.get("t") == "call" and isinstance(t.get("f"), dict):
                p, nm = t["f"].get("path") or "", t["f"].get("name") or ""
                if "num::" in p and (nm == "pow" or nm.startswith(WRAPPING)):
                    out.append((t.get("at") or d["at"], "%s in %s" % (nm, bid)))
                if nm in ("sum", "product") and (t["f"].get("trait") or "").endswith("Iterator"):
                    out.append((t.get("at") or d["at"], "%s in %s" % (nm, bid)))
    return out


# ---------------------------------------------------------------------------------------------------- C13
@rule("C13")
def boundary(ctx):
    R = Rips(ctx)
    adt = ctx.adt(CRATE, "RipsBoundary")

    def column():
        b = ctx.method(M + "MatrixOracle", adt, "column")
        _, ls = ctx.summary(b, args=[R.matrix(adt), R.index(usym("w"))])
        column_equal(ctx, R, "boundary column", b, ls, lambda I: slist(boundary_of(R, *R.ctx_of(I))))
    ctx.guarded("boundary column", column)
    builder(ctx, R, adt, "build_rips_boundary_matrix")


def builder(ctx, R, adt, fname):
    def f():
        b = ctx.find_free(CRATE, fname)
        bb = ctx.find_free(CRATE, "build_rips_bases")
        D, m = sym("D"), usym("m")
        ev, ls = ctx.summary(b, args=[D, m], opaque=[bb])
        nm = ctx.prog.bodies[bb]["name"]
        mb = "phlite::matrices::adaptors::MatrixWithBasis"
        basis = [x for l in ls if l.kind == "ret" for x in walk(l.val) if x.op == "app" and isinstance(x.a[0], str) and x.a[0].endswith(nm)]
        spec = ctor(mb, "MatrixWithBasis", R.matrix(adt), basis[0] if basis else UNIT)
        ok = bool(basis) and basis[0].a[1:] == (D, m)
        if ok and ctx.same([l for l in ls if l.kind == "ret"], [((), spec)], lambda l: l.val):
            ctx.add(fname, ctx.at(b), PROVED)
        elif basis and not ok and all(understood(x) for x in basis[0].a[1:]):
            ctx.add(fname, ctx.at(b), VIOL, "basis built from %s" % (basis[0],))
        else:
            ctx.equal(fname, b, ls, spec) if basis else ctx.add(fname, ctx.at(b), UNDEC, "no basis")
    ctx.guarded(fname, f)


# ---------------------------------------------------------------------------------------------------- C14
class CI(object):
    """the coboundary iterator: a struct with the simplex (vector) and three counters"""

    def __init__(self, ctx, R, nid):
        self.ctx, self.R, self.nid = ctx, R, nid
        im = ctx.prog.impl_of_item(nid)
        self.adt = ctx.prog.self_adt(im)
        ad = ctx.prog.adts[self.adt]
        self.name = ad["variants"][0]["name"]
        self.ints, self.base = [], None
        for i, f in enumerate(ad["variants"][0]["fields"]):
            t = ad["types"][f["ty"]]
            if t.get("adt") == "core::marker::PhantomData":
                continue
            if is_vec(t, ad["types"]) and self.base is None:
                self.base = i
            elif t["s"] == "usize":
                self.ints.append(i)
            else:
                raise Undecided("state of " + self.adt)
        if self.base is None:
            raise Undecided("state of " + self.adt)
        self.n = len(ad["variants"][0]["fields"])


def iterator_contract(ctx, R, nid):
    """sequence produced from a freshly constructed iterator over simplex s on n points"""
    try:
        CI(ctx, R, nid)
    except Undecided:
        return following(ctx, nid)

    def f(I, v):
        ci = CI(ctx, R, nid)
        base = list(I.items(v[2 + ci.base]))
        d, s = R.ctx_of(I)
        ints = [v[2 + i] for i in ci.ints]
        if base != s:
            raise Opaque("iterator started from something else")
        n = len(d)
        it = []
        for x in range(n):
            if x in s:
                continue
            i = len([y for y in s if y < x])
            it.append((C, "", (-1) ** i, R.enc(s[:i] + [x] + s[i:], n), x))
        return slist(it)
    return f


def following(ctx, nid):
    """sequence produced by a local iterator: the summary of its `next` applied to one state after the other"""
    sums = []

    def f(I, v):
        if not (isinstance(v, tuple) and v[0] == C):
            raise Opaque("state of an iterator")
        if not sums:
            ad = ctx.prog.self_adt(ctx.prog.impl_of_item(nid))
            fs = ctx.prog.adts[ad]["variants"][0]["fields"]
            ty = ctx.prog.adts[ad]["types"]
            xs = [usym("$f%d" % i) if ty[x["ty"]]["s"] in ("usize", "u8", "u16", "u32", "u64") else sym("$f%d" % i) for i, x in enumerate(fs)]
            st = State()
            ptr = cell(st, "it", ctor(ad, ctx.prog.adts[ad]["variants"][0]["name"], *xs))
            sums.append((ctx.summary(nid, args=[ptr], st=st)[1], xs))
        ls, xs = sums[0]
        out = []
        for k in range(600):
            if len(v) != 2 + len(xs):
                raise Opaque("state of an iterator")
            J = Interp(I.seed, I.D, {**I.fixed, **dict(zip(xs, v[2:]))}, funcs=I.funcs)
            hit = interp.active(J, ls)
            if hit == "panic":
                raise Panics("panics")
            if hit is None:
                raise Opaque("next of an iterator")
            r = J.val(hit[0].val)
            if r == (C, "None"):
                return slist(out)
            out.append((C, "") + tuple(r[2][2:]) if isinstance(r[2], tuple) and r[2][0] == C and r[2][1] == "" else r[2])
            v = J.val(post(hit[0], "it"))
        raise Opaque("long iterator")
    return f


@rule("C14")
def coboundary(ctx):
    R = Rips(ctx)
    adt = ctx.adt(CRATE, "RipsCoboundary")

    def column():
        b = ctx.method(M + "MatrixOracle", adt, "column")
        _, ls = ctx.summary(b, args=[R.matrix(adt), R.index(usym("w"))])
        fs = {}
        for l in ls:
            if l.kind == "ret":
                for x in local_iters(l.val):
                    nid = x.a[0][5:]
                    if x.a[0] not in fs:
                        fs[x.a[0]] = iterator_contract(ctx, R, nid) if inductive(ctx, R, nid, x.a[1]) else following(ctx, nid)
        column_equal(ctx, R, "coboundary column", b, ls, lambda I: slist(coboundary_of(R, *R.ctx_of(I))), fs)
    ctx.guarded("coboundary column", column)
    builder(ctx, R, adt, "build_rips_coboundary_matrix")


def inductive(ctx, R, nid, start):
    """the iterator satisfies its contract by the inductive argument; if that does not apply to its state it is followed instead"""
    keep, ctx.obs = ctx.obs, []
    try:
        iteration(ctx, R, nid, start)
    except (Undecided, Opaque, Undef):
        ctx.obs = [o for o in ctx.obs if o.status == VIOL]
        if not ctx.obs:
            ctx.add("coboundary iteration", ctx.at(nid), OK, "followed from state to state in the column")
            return False
    finally:
        ctx.obs = keep + ctx.obs
    return True


def iteration(ctx, R, nid, start):
    """`next` of the coboundary iterator: inductive invariant.  State: simplex s, insertion position p, candidate
    vertex v, bound m.  Invariant: the p vertices before the position are smaller than v.  A state stands for the list
    of coboundary entries still to come: the vertices >= v that are not in s"""
    ci = CI(ctx, R, nid)
    if start.op != "ctor" or len(ci.ints) != 3:
        raise Undecided("state of the coboundary iterator")
    # roles of the counters: the bound is not 0 initially; of the others, the position indexes the simplex
    fv = fields(start)
    zero = [i for i in ci.ints if fv[i].op == "int"]
    bound = [i for i in ci.ints if fv[i].op != "int"]
    if len(bound) != 1:
        raise Undecided("counters of the coboundary iterator")
    st = State()
    F = {}
    args = [UNIT] * ci.n
    args[ci.base] = sym("s")
    for i in ci.ints:
        args[i] = usym("c%d" % i)
    ptr = cell(st, "it", ctor(ci.adt, ci.name, *args))
    ev, ls = ctx.summary(nid, args=[ptr], st=st)
    if len(ev.loops) > 1:
        raise Undecided("several loops")
    pos = position_role(ev, ls, zero)
    vtx = [i for i in zero if i != pos]
    if pos is None or len(vtx) != 1:
        raise Undecided("counters of the coboundary iterator")
    vtx, bnd = vtx[0], bound[0]
    phi = {}
    if ev.loops:
        rec = ev.loops[0]
        for (key, path), ph in rec.phis.items():
            if key == ("ext", "it") and len(path) == 1 and path[0][2] in (pos, vtx):
                phi[path[0][2]] = ph
            else:
                raise Undecided("loop variables")
    # value of the bound relative to n: from the start state
    wide = [5]

    def sample(k):
        rnd = random.Random("ci%d" % k)
        n = 1 + k % wide[0] + interp.beyond(300)
        s = subset(rnd, n, 1)
        v = rnd.randrange(0, n + 1)
        if interp.NEAR and rnd.random() < .5:       # an insertion at a position the program mentions
            at = rnd.choice(interp.NEAR)
            if 0 < at < n and (n + 1) ** (at + 1) < 2 ** 62:
                s = sorted(rnd.sample(range(n), min(n - 1, at + rnd.randrange(2))))
                v = rnd.choice([x for x in range(n + 1) if len([y for y in s if y < x]) == at] or [v])
        if interp.LONG and rnd.random() < .6:       # a candidate around the vertices the program mentions, in the simplex or not
            v = max(0, n - rnd.randrange(min(n, 6)))
            if v < n and rnd.random() < .6 and v not in s and s:
                s = sorted(set(s[:-1]) | {v})
        p = len([x for x in s if x < v])
        if k % 2:
            p = rnd.randrange(0, p + 1)
        I0 = Interp(k, 7, {sym("D"): rows([[0] * n] * n), sym("w"): R.enc(s, n)[2]})
        m = I0.val(fv[bnd])
        fx = {sym("s"): vlist(s), sym("c%d" % bnd): m, sym("c%d" % pos): p, sym("c%d" % vtx): v}
        return fx, {"p": p, "v": v, "s": s, "n": n, "m": m}
    good = lambda I, x: 0 <= x["p"] <= len(x["s"]) and all(y < x["v"] for y in x["s"][:x["p"]]) and x["v"] <= x["n"]

    def denote(I, x):
        s, n = x["s"], x["n"]
        out = []
        for v in range(x["v"], n):
            if v not in s:
                i = len([y for y in s if y < v])
                out.append((C, "", (-1) ** i, R.enc(s[:i] + [v] + s[i:], n), v))
        return out
    # the constructed state stands for the whole coboundary
    def out(I, l):
        r = I.val(l.val)
        after = post(l, "it")
        f = I.val(after)
        if not (isinstance(f, tuple) and f[0] == C):
            raise Opaque("state")
        x = {"p": f[2 + pos], "v": f[2 + vtx], "s": list(I.fixed[sym("s")][1]), "n": cur["n"]}
        if r == (C, "None"):
            return []
        y = r[2]
        y = (C, "") + tuple(y[2:])
        if len(y) != 5:
            raise Opaque("item")
        if not good(I, x):
            return [y, ("S", "invariant broken after an item")]
        return [y] + denote(I, x)
    cur = {}

    def sample2(k):
        r = sample(k)
        cur["n"] = r[1]["n"]
        return r
    if ev.loops:
        roles = {}
        if pos in phi:
            roles["p"] = phi[pos]
        if vtx in phi:
            roles["v"] = phi[vtx]
        held = ctx.steps("coboundary iteration", nid, rec, ls, sample2, good, denote, out, roles,
                         measure=lambda a, b: b["p"] + b["v"] > a["p"] + a["v"])
        if held and narrows(ls) and not refused(ctx):
            wide[0] = 41
            ctx.steps("coboundary iteration, points beyond the narrower types", nid, rec, ls, sample2, good, denote, out, roles, funcs=NARROWV)
            wide[0] = 5
        if held:
            # the constructed state stands for the whole coboundary
            bad = None
            for k in range(60):
                x = sample2(k)[1]
                y = dict(x, p=fv[pos].a[0], v=fv[vtx].a[0])
                if not good(None, y) or denote(None, y) != denote(None, dict(x, p=0, v=0)):
                    bad = bad or "it starts at vertex %d and position %d, which is not the whole coboundary of %s on %d points" % (
                        y["v"], y["p"], x["s"], x["n"])
            ctx.require("coboundary iteration starts with the first cofacet", ctx.at(nid), not bad, bad or "")
        # entering the loop: loop variables start at the state of the iterator
        for i, ph in phi.items():
            ctx.require("coboundary iteration starts at the current state", ctx.at(nid),
                        rec.inits[ph] is sym("c%d" % i) or None)
    else:
        raise Undecided("no transition system")


def position_role(ev, ls, zero):
    """the counter whose parity gives the sign is the insertion position"""
    names = {}
    for i in zero:
        names[sym("c%d" % i)] = i
    for r in ev.loops:
        for (key, path), ph in r.phis.items():
            if key == ("ext", "it") and len(path) == 1:
                names[ph] = path[0][2]
    hit = set()
    terms = [x for l in ls if l.kind == "ret" for x in [l.val] + [y.a[0] for y in l.st.facts.lits]]
    terms += [y.a[0] for r in ev.loops for c in r.conts for y in c[0]]
    for t in terms:
        for x in walk(t):
            if x.op == "app" and x.a[0] in ("index", "sget") and x.a[1] is sym("s") and isT(x.a[2]):
                for y in walk(x.a[2]):
                    if y in names:
                        hit.add(names[y])
    return hit.pop() if len(hit) == 1 else None


# ---------------------------------------------------------------------------------------------------- C15
@rule("C15")
def diameter(ctx):
    R = Rips(ctx)
    for nm in ("RipsBoundary", "RipsCoboundary"):
        def f():
            adt = ctx.adt(CRATE, nm)
            b = ctx.method(M + "HasRowFiltration", adt, "filtration_value")
            _, ls = ctx.summary(b, args=[R.matrix(adt), R.index(usym("w"))])
            column_equal(ctx, R, nm + " filtration value", b, ls, lambda I: diam(*R.ctx_of(I)))

        def g():
            adt = ctx.adt(CRATE, nm)
            b = ctx.method(M + "HasRowFiltration", adt, "column_with_filtration")
            _, ls = ctx.summary(b, args=[R.matrix(adt), R.index(usym("w"))])
            fs = {}
            for l in ls:
                if l.kind == "ret":
                    for x in local_iters(l.val):
                        fs[x.a[0]] = iterator_contract(ctx, R, x.a[0][5:])
            if nm == "RipsBoundary":
                want = lambda I: slist([ctx.prog.ventry(diam(R.ctx_of(I)[0], R.decode(e[3][2], len(R.ctx_of(I)[0]))),
                                                      e[3], e[2]) for e in boundary_of(R, *R.ctx_of(I))])
            else:
                want = lambda I: slist(coboundary_of(R, *R.ctx_of(I), withfilt=True))
            column_equal(ctx, R, nm + " column with filtration", b, ls, want, fs)
        def h():
            # something kept from call to call: a second call gives the diameter too
            from rules import matrices
            adt = ctx.adt(CRATE, nm)
            W = R.matrix(adt)
            if not matrices.keeps(ctx, W):
                return
            fv = (M + "HasRowFiltration", "filtration_value")
            _, b, out = matrices.twice(ctx, W, fv, [R.index(usym("v"))], fv, [R.index(usym("w"))])
            smp = R.sample()

            def fixed(k, D):
                f = smp(k, D)
                rnd = random.Random("again%d" % k)
                f[sym("v")] = R.enc(subset(rnd, f[sym("n")], 1), f[sym("n")])[2]
                return f
            ctx.equal(nm + " filtration value asked twice", b, out, lambda I: diam(*R.ctx_of(I)), fixed=fixed, n=1000)
        ctx.guarded(nm + " filtration value", f)
        ctx.guarded(nm + " column with filtration", g)
        ctx.guarded(nm + " filtration value asked twice", h)


# ---------------------------------------------------------------------------------------------------- C16
def callees(ctx, bid):
    out = set()
    for blk in ctx.prog.bodies[bid]["blocks"]:
        t = blk["term"]
        if t.get("t") == "call" and isinstance(t.get("f"), dict):
            for k in (t["f"].get("resolved"), t["f"].get("id")):
                if k in ctx.prog.bodies:
                    out.add(k)
                    break
    return out


def reachable(ctx, roots):
    seen, todo = set(), list(roots)
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        todo += [c for c in callees(ctx, b)]
        todo += [c for c, d in ctx.prog.bodies.items() if d.get("parent") == b and d["kind"] == "closure"]
    return seen


def recursive_functions(ctx, root):
    R = reachable(ctx, [root])
    return sorted(b for b in R if any(b in reachable(ctx, [c]) for c in callees(ctx, b)))


@rule("C16")
def bases(ctx):
    R = Rips(ctx)
    b = ctx.find_free(CRATE, "build_rips_bases")
    single = ctx.adt(CRATE, "SingleDimRipsBasisWithFilt")
    multi = ctx.adt(CRATE, "MultiDimRipsBasisWithFilt")
    sname = ctx.prog.adts[single]["variants"][0]["name"]
    mname = ctx.prog.adts[multi]["variants"][0]["name"]
    for a in (single, multi):
        if len(ctx.prog.adts[a]["variants"][0]["fields"]) != 1:
            raise Undecided("representation of the basis")
    recs = recursive_functions(ctx, b)
    D, m = sym("D"), usym("m")

    def extend(bases, s, f, d, mx, up=0):
        """contract: append every simplex that extends s by larger vertices, depth first"""
        n = len(d)
        bases = [list(x) for x in bases]

        def go(s, f):
            if len(s) > mx:
                return
            for v in range(s[-1] + 1, n):
                g = max([f] + [d[w][v] for w in s])
                t = s + [v]
                if len(t) - 1 >= len(bases):
                    raise Undef("dimension")
                bases[len(t) - 1].append((C, "", g, R.enc(t, n)))
                go(t, g)
        go(s, f)
        return bases

    def unpack(I, v):
        return [list(I.items(I.fieldof(x, sname, 0))) for x in I.items(v)]

    def pack(bs, srt=False):
        return vlist([(C, sname, vlist(x)) for x in bs])

    def rec_roles(bid):
        d = ctx.prog.bodies[bid]
        if len(d["blocks"]) == 0:
            raise Undecided("recursion")
        roles = {}
        for i in range(d["args"]):
            t = d["types"][d["locals"][i + 1]]
            s = t["s"]
            mut = t["k"] == "ref" and t.get("mut")
            u = t
            while u["k"] == "ref":
                u = d["types"][u["args"][0]]
            el = d["types"][u["args"][0]] if u.get("args") and u["k"] in ("adt", "slice") else None
            while el is not None and el["k"] == "ref":
                el = d["types"][el["args"][0]]
            if el is not None and el.get("adt") == single:
                r = "bases"
            elif el is not None and el["s"] == "usize":
                r = "simplex"
            elif u.get("adt") == NOTNAN:
                r = "value"
            elif el is not None and (el.get("adt") == "alloc::vec::Vec" or el["k"] == "slice"):
                r = "distances"
            elif u["s"] == "usize":
                r = "max_dim"
            else:
                raise Undecided("recursion parameters")
            if r in roles.values():
                raise Undecided("recursion parameters")
            roles[i] = r
        if not {"bases", "simplex", "distances", "max_dim", "value"} <= set(roles.values()):
            raise Undecided("recursion parameters")
        return roles

    def contract(bid, roles):
        def f(I, *vs):
            a = {roles[i]: vs[i] for i in roles}
            d = [list(I.items(r)) for r in I.items(a["distances"])]
            s = list(I.items(a["simplex"]))
            bs = unpack(I, a["bases"])
            if not s or not all(is_num(x) for x in s):
                raise Opaque("simplex")
            return pack(extend(bs, [int(x) for x in s], a["value"], d, int(a["max_dim"])))
        return f
    def sample(k, Dm, least=0):
        rnd = random.Random("b%d" % k)
        n = 1 + k % 4 + interp.beyond(60)
        if not least and k % 23 == 8 and not interp.LONG:
            n = 0
        if interp.LONG and k % 3 == 1:
            n = interp.pairs_beyond(300) or n           # more edges than the constant
        mx = rnd.randrange(0, 4 if n < 6 else 2) + (interp.beyond(9) if k % 2 and n < 14 else 0)
        if least == 2:
            n, mx = 4 + k % 3, 1 + k % 3
        if n > 30:
            mx = min(mx, 1)
        if 0 < interp.LONG <= 10 and k % 8 == 1:             # every dimension about the constant
            n = interp.LONG
            mx = n + 1
        d = symmetric(rnd, n, 3, .25)
        return {D: rows(d), m: mx}

    def top(funcs, same=True):
        ev = ctx.ev(opaque=recs)
        for r in recs:
            if same:
                roles = rec_roles(r)
                ev.rec_same[r] = {i for i in roles if roles[i] == "simplex"}
        _, ls = ctx.summary(b, args=[D, m], ev=ev)

        def want(I):
            d = [list(r[1]) for r in I.fixed[D][1]]
            mx = I.fixed[m]
            n = len(d)
            out = []
            for k in range(mx + 1):
                ss = sorted((diam(d, s), R.enc(s, n)[2]) for s in subsets(n, k + 1) if len(s) == k + 1)
                out.append([(C, "", f, (C, R.iname, w)) for f, w in ss])
            return (C, mname, pack(out))
        ctx.equal("bases", b, ls, want, fixed=sample, funcs=funcs, want_panic=lambda I: False, n=500 if not ctx.thorough else 1600)
        if shortening(ctx, b):
            # parametric in the widths of the narrow types: with small ones, few points are enough to go beyond them
            ctx.equal("bases, indices beyond the narrower types", b, ls, want, fixed=lambda k, Dm: sample(k, Dm, 2), funcs=dict(funcs, **NARROW), n=120)

    def inductive():
        """the contract of the recursive function: of its calls by the others, and of one step of its own"""
        funcs = {}
        for r in recs:
            roles = rec_roles(r)
            pos = [i for i in roles if roles[i] == "bases"][0]
            d = ctx.prog.bodies[r]
            funcs["post%d:%s" % (pos, d["path"])] = contract(r, roles)
            funcs["post%d:rec:%s" % (pos, r)] = contract(r, roles)
        top(funcs)
        for r in recs:
            step(r, funcs)

    def step(r, funcs):
        roles = rec_roles(r)
        d = ctx.prog.bodies[r]
        st = State()
        args = []
        names = {"bases": "bases", "simplex": "simplex", "value": "f", "distances": "D", "max_dim": "m"}
        for i in range(d["args"]):
            t = d["types"][d["locals"][i + 1]]
            v = usym("m") if roles[i] == "max_dim" else sym(names[roles[i]])
            args.append(cell(st, roles[i], v) if t["k"] == "ref" and t.get("mut") else v)
        ev = ctx.ev()
        same = {i for i in roles if roles[i] == "simplex"}
        ev.rec_same[r] = same
        _, ls = ctx.summary(r, args=args, st=st, ev=ev)

        def smp(k, Dm, least=1):
            f = sample(k, Dm, least)
            dd = f[D]
            n = len(dd[1])
            rnd = random.Random("s%d" % k)
            s = subset(rnd, n, 1)
            if interp.LONG and n > 2:
                s = sorted(rnd.sample(range(n - 1), rnd.randrange(1, n)))
            mx = f[m]
            if 0 < interp.LONG <= 16 and k % 2:             # a big simplex with a few vertices after it
                size = max(1, interp.LONG + rnd.randrange(-2, 2))
                n = size + rnd.randrange(1, 5)
                s = sorted(rnd.sample(range(max(size, n - rnd.randrange(1, 4))), size))
                f[m] = mx = size + rnd.randrange(-1, 2)
                f[D] = dd = rows(symmetric(rnd, n, 3, .25))
            if len(s) - 1 > mx:
                s = s[:mx + 1]
            f[sym("simplex")] = vlist(s)
            dm = [list(x[1]) for x in dd[1]]
            f[sym("f")] = diam(dm, s)
            f[sym("bases")] = pack([[(C, "", 7 + i, (C, R.iname, i))] for i in range(mx + 1)])
            return f

        def want(I):
            dd = [list(x[1]) for x in I.fixed[D][1]]
            s = list(I.fixed[sym("simplex")][1])
            bs = extend(unpack(I, I.fixed[sym("bases")]), s, I.fixed[sym("f")], dd, I.fixed[m])
            return pack(bs)
        mode = lambda I, a, c: all(ms_equal(I, list(I.items(I.fieldof(x, sname, 0))), list(I.items(I.fieldof(y, sname, 0))))
                                   for x, y in zip(I.items(a), I.items(c))) and len(I.items(a)) == len(I.items(c))
        ctx.equal("every cofacet is added once", r, ls, want, out=lambda l: post(l, "bases"), fixed=smp, funcs=funcs, mode=mode,
                  want_panic=lambda I: False, n=500 if not ctx.thorough else 1600)
        if shortening(ctx, r):
            def small(k, Dm):
                f = smp(k, Dm, 2)
                f[sym("bases")] = pack([[]] * (f[m] + 1))
                return f
            ctx.equal("every cofacet is added once, indices beyond the narrower types", r, ls, want, out=lambda l: post(l, "bases"), fixed=small,
                      funcs=dict(funcs, **NARROW), mode=mode, n=120)
        if ("ext", "simplex") in st.cells:
            ctx.equal("the simplex under extension is restored", r, ls, sym("simplex"), out=lambda l: post(l, "simplex"), fixed=smp,
                      funcs=funcs)
    if not recs:
        ctx.guarded("bases", lambda: top({}))
        return None
    ctx.fallback("bases", ctx.at(b), inductive, lambda: top(followed(ctx, recs), same=False))
    return None
