"""C27: column bases.  C28: stored matrices."""
from rules.common import *
from rules import heap
import rules.matrices as mx
from rules.matrices import MO, HCB, CB, SBD, UNKNOWN, same_list, dflt, build, on, deref, the


INTO = "core::convert::From"
X, i_, d_, c_, b_ = sym("X"), sym("i"), sym("d"), sym("c"), sym("b")


def nn(ctx):
    from facts import NONNEG_ATOMS
    for n in ("i", "d", "n"):
        NONNEG_ATOMS.add(sym(n))


# ------------------------------------------------------------------------------------------ C27
def vals(k, n, lo=100):
    """a list of distinct elements"""
    rnd = random.Random("basis%d" % k)
    xs = list(range(lo, lo + max(60, n)))
    rnd.shuffle(xs)
    return xs[:n]


SIZES = (0, 1, 2, 3, 5, 9, 17, 40)


def some(k):
    """a size; beyond the constants of the program in long samples"""
    n = SIZES[k % len(SIZES)]
    return interp.LONG + n if interp.LONG and k % 3 else n


def posn(k):
    """a position"""
    return (k * 3 if not interp.LONG else k * 7919) % (45 + interp.LONG)


@rule("C27")
def bases(ctx):
    nn(ctx)
    heap.use(ctx)
    known = {}
    for nm, f in (("StandardBasis", standard), ("Vec", plain), ("ReverseBasis", None), ("UnreverseBasis", None),
                  ("SingleDimRipsBasisWithFilt", single), ("MultiDimRipsBasisWithFilt", multi), ("PathHomSingleBasis", single),
                  ("PathHomMultiBasis", multi)):
        known[nm] = f
    n = 0
    for im in ctx.prog.impls_of(CB):
        t = ctx.prog.self_ty(im)
        n += 1
        nm = str(t.get("adt")).split("::")[-1]
        if t["k"] == "ref":
            continue
        at = ctx.at(im["items"].get("element"))
        if "construct_reverse_lookup" in im["items"]:
            ctx.add("reverse lookup of " + t["s"], at, UNDEC, "overrides the default")
        if nm in known:
            if known[nm]:
                ctx.guarded("basis " + nm, lambda: known[nm](ctx, nm, t, im), at)
        else:
            guess(ctx, nm, t, im, at)
    ctx.require("implementations of column bases", None, n >= 6 or None, "found %d" % n)
    mx.pointers(ctx, (CB, SBD))
    reversing(ctx)
    ctx.guarded("reverse lookup", lambda: lookup(ctx))


def guess(ctx, nm, t, im, at):
    """a basis the rules do not know: elements and size of a list it wraps, or nothing"""
    try:
        (single if not ctx.prog.adts[t["adt"]]["variants"][0]["fields"][1:] else standard)(ctx, nm, t, im)
    except (Undecided, Missing, Opaque, Undef, KeyError, IndexError) as e:
        ctx.add("basis " + nm, at, UNDEC, "a basis over %s; its elements are not known to the rules" % nm)


def elements(ctx, name, im, W, xs, fixed, wrap=lambda x: x, need_panic=False):
    """element(i) is xs(I)[i] and size is len(xs(I))"""
    p = lambda st: cell(st, "self", W)
    for what in ("element", "size"):
        def go():
            b = im["items"][what]
            st = State()
            _, ls = ctx.summary(b, args=[p(st)] + ([i_] if what == "element" else []), st=st, ev=heap.hev(ctx))

            def want(I):
                l = xs(I)
                if what == "size":
                    return len(l)
                k = I.fixed[i_]
                return l[k] if k < len(l) else None
            ctx.equal("%s: %s" % (name, what), b, ls, want, fixed=fixed, funcs=UNKNOWN,
                      want_panic=lambda I: False if what == "size" or I.fixed[i_] < len(xs(I)) else None)
        ctx.guarded("%s: %s" % (name, what), go, ctx.at(im["items"][what]))


def standard(ctx, nm, t, im):
    def new():
        b = ctx.inherent(t["adt"], "new")
        _, ls = ctx.summary(b, args=[sym("n")])
        W = the(ls).val

        def fixed(k, D):
            return {sym("n"): some(k), i_: posn(k)}
        elements(ctx, nm, im, W, lambda I: list(range(I.fixed[sym("n")])), fixed)
    ctx.guarded(nm, new)


def plain(ctx, nm, t, im):
    def fixed(k, D):
        return {X: vlist(vals(k, some(k))), i_: posn(k)}
    elements(ctx, nm, im, X, lambda I: I.items(I.fixed[X]), fixed)


def single(ctx, nm, t, im):
    W = struct(ctx, t["adt"], [(is_vec, X)])

    def fixed(k, D):
        return {X: vlist([(C, "", 200 + j, x) for j, x in enumerate(vals(k, some(k)))]), i_: posn(k)}
    elements(ctx, nm, im, W, lambda I: [I.fieldof(x, "", 1) for x in I.items(I.fixed[X])], fixed)


def layered(ctx, t):
    """(struct value of a multi-dimensional basis over X, name of the single-dimensional one)"""
    W = struct(ctx, t["adt"], [(is_vec, X)])
    ad = ctx.prog.adts[t["adt"]]
    f = ad["variants"][0]["fields"]
    v = [ad["types"][x["ty"]] for x in f if is_vec(ad["types"][x["ty"]], ad["types"])][0]
    inner = ad["types"][v["args"][0]]["adt"]
    return W, ctx.prog.adts[inner]["variants"][0]["name"], inner


def multi(ctx, nm, t, im):
    W, inner, adt = layered(ctx, t)
    struct(ctx, adt, [(is_vec, X)])         # a single list

    def fixed(k, D):
        rnd = random.Random("multi%d" % k)
        sizes = [rnd.choice([0, 0, 1, 1, 2, 3, 7, 12]) for _ in range(interp.upto(rnd, 6))]
        if interp.LONG and sizes:
            sizes[rnd.randrange(len(sizes))] = interp.LONG
        xs = vals(k, sum(sizes))
        out, pos = [], 0
        for n in sizes:
            out.append((C, inner, vlist([(C, "", 200 + j, x) for j, x in enumerate(xs[pos:pos + n])])))
            pos += n
        return {X: vlist(out), i_: rnd.randrange(pos + 2), d_: rnd.randrange(len(sizes) + 2)}

    def flat(I):
        return [I.fieldof(x, "", 1) for s in I.items(I.fixed[X]) for x in I.items(I.fieldof(s, inner, 0))]
    elements(ctx, nm, im, W, flat, fixed)

    def dim():
        b = ctx.method(SBD, t["adt"], "in_dimension")
        st = State()
        ev = heap.hev(ctx)
        _, ls = ctx.summary(b, args=[cell(st, "self", W), d_], st=st, ev=ev)

        def want(I):
            xs = I.items(I.fixed[X])
            return xs[I.fixed[d_]] if I.fixed[d_] < len(xs) else None

        def out(l):
            return ev.deref(l.st, l.val) if l.val.op == "ptr" else l.val
        ctx.equal(nm + ": in a dimension", b, ls, want, out=out, fixed=fixed, funcs=UNKNOWN,
                  want_panic=lambda I: False if I.fixed[d_] < len(I.items(I.fixed[X])) else None)
    ctx.guarded(nm + ": in a dimension", dim)


def reversing(ctx):
    for nm, wrap, fx in (("reverse", mx.REV, mx.smp()), ("unreverse", mx.UNREV, mx.rb_sample)):
        def go():
            B = build(ctx, dflt(ctx, CB, nm), [b_])
            mx.elems(ctx, "basis %s" % nm, B, b_, wrap, fx)
            _, b, ls = on(ctx, SBD, "in_dimension", B, [d_])
            D = deref(ctx, the(ls).val)
            mx.elems(ctx, "basis %s in a dimension" % nm, D, app("in_dimension", b_, d_), wrap, fx)
        ctx.guarded("basis " + nm, go)


def lookup(ctx):
    """the default reverse lookup: every element is mapped to its position, nothing else is"""
    b = dflt(ctx, CB, "construct_reverse_lookup")
    _, ls = ctx.summary(b, args=[b_], ev=heap.hev(ctx))
    fs = dict(UNKNOWN)
    perm = {}

    def xs(I):
        k = (I.seed, mx.msize(I, 920))
        if k not in perm:
            perm[k] = vals(k[0], k[1])
        return perm[k]

    def element(I, b, i):
        l = xs(I)
        if not is_num(i) or not 0 <= i < len(l):
            raise Undef("position outside the basis")
        return l[i]
    fs["element"] = element

    def agrees(I, got, w):
        for pos, x in enumerate(xs(I)):
            e = I.lookup(got, x)
            if not (isinstance(e, tuple) and e[1] == "Some" and I.fieldof(e, "Some", 0) == pos):
                return False
        e = I.lookup(got, 99)
        return isinstance(e, tuple) and e[1] == "None"
    ctx.equal("reverse lookup", b, ls, lambda I: xs(I), fixed=mx.smp(), funcs=fs, mode=agrees, want_panic=lambda I: False)


# ------------------------------------------------------------------------------------------ C28
def listcols(k, all_one=False):
    rnd = random.Random("stored%d" % k)
    out = []
    for _ in range(interp.upto(rnd, 6) if k % 2 else rnd.randrange(6)):
        c = []
        for _ in range(rnd.choice([0, 1, 2, 3, 8, 30]) + (interp.LONG if k % 2 == 0 and rnd.random() < .5 else 0)):
            row = 100 + rnd.randrange(5)
            c.append(row if all_one else (C, "", rnd.choice([-2, -1, 1, 1, 3]), row))
        out.append(vlist(c))
    return vlist(out)


def mapcols(k):
    cols = listcols(k)[1]
    keys = random.Random("keys%d" % k).sample(range(110, 130 + interp.LONG), len(cols))
    return ("A", "map", None, tuple((C, "", x, c) for x, c in zip(keys, cols)))


def conversions(ctx, adt):
    """From implementations that make this matrix"""
    out = []
    for im in ctx.prog.impls_of(INTO):
        if ctx.prog.self_adt(im) == adt:
            out.append(im["items"]["from"])
    return out


@rule("C28")
def stored(ctx):
    nn(ctx)
    heap.use(ctx)
    L, Mp = ctx.adt("phlite", "VecVecMatrix"), ctx.adt("phlite", "MapVecMatrix")
    made = []
    for b in conversions(ctx, L) + conversions(ctx, Mp):
        d = ctx.prog.bodies[b]
        t = d["types"][d["locals"][1]]
        adt = d["types"][d["locals"][0]]["adt"]
        if t.get("adt") == COW:
            for v in ("Owned", "Borrowed"):
                made.append((adt, b, "from a %s Cow" % v.lower(), [ctor(COW, v, X)], False))
        elif t["k"] == "ref" or t["k"] == "adt":
            made.append((adt, b, "from " + ("a reference" if t["k"] == "ref" else "an owned value"), [X], False))
    for nm in ("new", "new_all_one"):
        made.append((L, ctx.inherent(L, nm), nm, [X], nm == "new_all_one"))
    ctx.require("constructors of stored matrices", None, len(made) >= 6 or None, "found %d" % len(made))
    for adt, b, nm, args, ones in made:
        ctx.guarded("%s %s" % (adt.split("::")[-1], nm), lambda: check(ctx, adt, adt == L, b, nm, args, ones), ctx.at(b))


def check(ctx, adt, is_list, b, nm, args, ones):
    name = "%s %s" % (adt.split("::")[-1], nm)
    W = build(ctx, b, args)
    if W.op != "ctor" or W.a[0] != adt:
        raise Undecided("constructor")

    def fixed(k, D):
        return {X: listcols(k, ones) if is_list else mapcols(k), c_: k % (7 + interp.LONG) if is_list else 110 + (k * 5) % 20, i_: (k * 3) % (9 + interp.LONG)}

    def fixed2(k, D):
        o = fixed(k, D)
        if is_list and interp.LONG and k % 4 != 1 and o[X][1]:
            o[c_] = k % len(o[X][1])
        if not is_list and (k % 2 or interp.LONG and k % 4) and o[X][3]:
            o[c_] = o[X][3][k % len(o[X][3])][2]
        return o

    def given(I):
        c = I.fixed[c_]
        if is_list:
            cols = I.items(I.fixed[X])
            return I.items(cols[c]) if c < len(cols) else None
        for e in I.fixed[X][3]:
            if e[2] == c:
                return I.items(e[3])
        return None

    def want(I):
        g = given(I)
        if g is None:
            return "must panic"
        return slist([(C, "", 1, x) for x in g] if ones else g)

    def exact(I, got, w):
        return [norm(x) for x in I.items(got)] == [norm(x) for x in I.items(w)]
    ev, bid, ls = on(ctx, MO, "column", W, [c_])
    ctx.equal(name + ": column", bid, ls, want, out=lambda l: mx.colterm(ctx, ev, l), fixed=fixed2, funcs=UNKNOWN, mode=exact,
              want_panic=lambda I: given(I) is None)
    if not mx.has(ctx, HCB, W, "basis"):
        return

    def basis():
        _, bb, ls = on(ctx, HCB, "basis", W, [])
        V = the(ls, "basis").val
        B = deref(ctx, V)
        mx.check_value(ctx, name + ": basis elements", CB, "element", B, [i_], lambda I: I.fixed[i_] if I.fixed[i_] < len(I.items(I.fixed[X])) else None,
                       fixed=fixed, want_panic=lambda I: False if I.fixed[i_] < len(I.items(I.fixed[X])) else None)
        mx.check_value(ctx, name + ": basis size", CB, "size", B, [], lambda I: len(I.items(I.fixed[X])), fixed=fixed)
    ctx.guarded(name + ": basis", basis)
