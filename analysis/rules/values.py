"""Equality, order and copies of the values used as rows, columns and coefficients.  A derived implementation compares every field; one
written by hand is summarised and evaluated on every pair out of a pool of values that differ in one field, also by high bits only."""
from rules.common import *

EQ_, ORD_, PORD_, CLONE = "core::cmp::PartialEq", "core::cmp::Ord", "core::cmp::PartialOrd", "core::clone::Clone"
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 7, "i16": 15, "i32": 31, "i64": 63, "isize": 63}
FIELDS = ("phlite::fields::Z2", "phlite::fields::ZP", "phlite::fields::Q")
LEVEL = {"Less": -1, "Equal": 0, "Greater": 1}


def numbers(s):
    b = BITS[s]
    xs = {0, 1, 2, 3, (1 << b) - 1, (1 << b) - 2} | {(1 << k) + d for k in (7, 8, 15, 16, 24, 31, 32, 53, 62) for d in (-1, 0, 1)}
    xs = [x for x in sorted(xs) if x < 1 << b]
    return xs + [-x for x in xs[1:]] if s[0] == "i" else xs


def few(xs, n):
    return xs if len(xs) <= n else [xs[i * (len(xs) - 1) // (n - 1)] for i in range(n)]


def pool(ctx, adt, depth=0):
    """values of a type, each field taken through its numbers while the others stay; None where the type holds something else"""
    d = ctx.prog.adts.get(adt)
    if d is None or depth > 3:
        return None
    if adt == "phlite::fields::Q":
        qs = [Fraction(a, b) for a in (1, -1, 2, -2, 3, (1 << 53) + 1, 1 << 53, -(1 << 53), (1 << 62) + 1, (1 << 62) - 1, (1 << 32) + 1)
              for b in (1, 2, 3, 5, (1 << 32) - 1, (1 << 53) + 1)]
        return [(C, "Q", q.numerator, q.denominator) for q in sorted(set(qs))]
    out = []
    for v in d["variants"]:
        cols = []
        for f in v["fields"]:
            t = d["types"][f["ty"]]
            if t["s"] in BITS:
                cols.append(numbers(t["s"]))
            elif t.get("adt") in ctx.prog.adts:
                p = pool(ctx, t["adt"], depth + 1)
                if not p:
                    return None
                cols.append(p)
            elif t.get("adt", "").endswith("NonZero") and adt == "phlite::fields::ZP":
                cols.append(list(range(1, 13)))
            else:
                return None
        base = [few(c, 3)[1 % len(c)] for c in cols]
        got = {tuple(base)}
        for i, c in enumerate(cols):
            for x in few(c, 60 if len(cols) < 3 else 24):
                got.add(tuple(base[:i] + [x] + base[i + 1:]))
        for i, j in itertools.combinations(range(len(cols)), 2):
            for x in few(cols[i], 5):
                for y in few(cols[j], 5):
                    r = list(base)
                    r[i], r[j] = x, y
                    got.add(tuple(r))
        out += [(C, v["name"]) + g for g in sorted(got, key=str)]
    return out


def index_types(ctx):
    """local types of rows and columns, and what they are made of"""
    seen, todo = set(), []
    for tr in ctx.prog.traits:
        if tr.endswith("::BasisElement"):
            todo += [ctx.prog.self_adt(im) for im in ctx.prog.impls_of(tr)]
    while todo:
        a = todo.pop()
        if a in seen or a not in ctx.prog.adts:
            continue
        seen.add(a)
        d = ctx.prog.adts[a]
        todo += [d["types"][f["ty"]].get("adt") for v in d["variants"] for f in v["fields"]]
    return sorted(seen)


def never(ctx, bid):
    """a body that never returns: todo!()"""
    return not any(b["term"].get("t") == "return" for b in ctx.prog.bodies[bid]["blocks"])


def by_hand(ctx, tr, adt):
    for im in ctx.prog.impls_of(tr):
        t = ctx.prog.self_ty(im)
        if t["k"] == "adt" and t["adt"] == adt and not im.get("derived"):
            rhs = im["types"][im["targs"][1]] if len(im.get("targs", ())) > 1 else t
            if rhs.get("adt") == adt:
                return im
    return None


def function(ctx, bid, n):
    """the body as a function of n values; 'panic' where it panics"""
    xs = [sym("v%d" % i) for i in range(n)]
    _, ls = ctx.summary(bid, args=xs)

    def f(*vs):
        I = Interp(7, 3, dict(zip(xs, vs)))
        interp.ROUND = True
        try:
            hit = interp.active(I, ls)
            return "panic" if hit is None or hit == "panic" else I.val(hit[0].val)
        except (interp.Panics, interp.OutOfRange):
            return "panic"
        finally:
            interp.ROUND = False
    return f


def show(v):
    return interp.pretty(v)


def samples(vs):
    """pairs of the pool: all of them, or the near ones and a spread of the others"""
    if len(vs) <= 70:
        return [(a, b) for a in vs for b in vs]
    rnd = random.Random("pairs%d" % interp.SEED)
    near = [(a, b) for a in vs for b in vs if len(a) == len(b) and a[1] == b[1] and sum(x != y for x, y in zip(a, b)) <= 1]
    rnd.shuffle(near)
    return near[:3500] + [(rnd.choice(vs), rnd.choice(vs)) for _ in range(1500)] + [(a, a) for a in vs]


def equality(ctx, adt):
    im = by_hand(ctx, EQ_, adt)
    name = "equality of " + adt
    if im is None:
        ctx.add(name, ctx.prog.adts[adt].get("at"), PROVED, "derived: every field is compared")
        return
    b = im["items"].get("eq")
    if b not in ctx.prog.bodies:
        raise Undecided("equality without a body")
    if never(ctx, b):
        ctx.add(name, ctx.at(b), OK, "not implemented: it never returns")
        return
    vs = pool(ctx, adt)
    if not vs:
        raise Undecided("values of " + adt)
    eq_ = function(ctx, b, 2)
    ne = im["items"].get("ne")
    ne_ = function(ctx, ne, 2) if ne in ctx.prog.bodies else None
    for x, y in samples(vs):
        for f, g, want in ((eq_, b, int(x == y)), (ne_, ne, int(x != y))):
            if f is None:
                continue
            r = f(x, y)
            if r != want:
                ctx.add(name, ctx.at(g), VIOL, "%s %s %s gives %s" % (show(x), "==" if g == b else "!=", show(y), show(r) if r in (0, 1) else r))
                return
    ctx.add(name, ctx.at(b), RI, "%d values" % len(vs))


def order(ctx, adt):
    im, pm = by_hand(ctx, ORD_, adt), by_hand(ctx, PORD_, adt)
    name = "order of " + adt
    if im is None and pm is None:
        if any(ctx.prog.self_adt(i) == adt for i in ctx.prog.impls_of(ORD_)):
            ctx.add(name, ctx.prog.adts[adt].get("at"), PROVED, "derived: every field is compared")
        return
    if im and im["items"].get("cmp") in ctx.prog.bodies and never(ctx, im["items"]["cmp"]):
        ctx.add(name, ctx.at(im["items"]["cmp"]), OK, "not implemented: it never returns")
        return
    fns = {}
    for m, names in ((im, ("cmp", "max", "min")), (pm, ("partial_cmp", "lt", "le", "gt", "ge"))):
        for n in names if m else ():
            b = m["items"].get(n)
            if b in ctx.prog.bodies and not never(ctx, b):
                fns[n] = (b, function(ctx, b, 2))
    if not fns:
        ctx.add(name, None, OK, "not implemented: it never returns")
        return
    vs = pool(ctx, adt)
    if not vs:
        raise Undecided("values of " + adt)

    def bad(n, x, y, r, why):
        ctx.add(name, ctx.at(fns[n][0]), VIOL, "%s of %s and %s is %s: %s" % (n, show(x), show(y), r if isinstance(r, str) else show(r), why))

    def lev(n, x, y):
        r = fns[n][1](x, y)
        if n == "partial_cmp":
            if not (isinstance(r, tuple) and r[:2] == (C, "Some")):
                return r, None
            return r, LEVEL.get(r[2][1])
        return r, LEVEL.get(r[1]) if isinstance(r, tuple) and r[0] == C else None
    base = "cmp" if "cmp" in fns else "partial_cmp" if "partial_cmp" in fns else None
    pairs = samples(vs)
    known = {}
    for x, y in pairs:
        l = None
        for n in ("cmp", "partial_cmp"):
            if n not in fns:
                continue
            r, m = lev(n, x, y)
            if m is None:
                return bad(n, x, y, r, "an index is always comparable")
            if (m == 0) != (x == y):
                return bad(n, x, y, r, "distinct indices compare as equal" if m == 0 else "an index does not equal itself")
            if l is not None and l != m:
                return bad(n, x, y, r, "cmp says otherwise")
            l = m
        if base is None:            # derived order, single operators by hand: the derived order is by variant, then fields
            l = structural(ctx, adt, x, y)
        elif n and lev(base, y, x)[1] != -l:
            return bad(base, x, y, l, "the other way around it is the same")
        known[x, y] = l
        for n, w in (("lt", l < 0), ("le", l <= 0), ("gt", l > 0), ("ge", l >= 0)):
            if n in fns and fns[n][1](x, y) != int(w):
                return bad(n, x, y, fns[n][1](x, y), "cmp says otherwise")
        for n, w in (("max", y if l <= 0 else x), ("min", x if l <= 0 else y)):
            if n in fns and fns[n][1](x, y) != w:
                return bad(n, x, y, fns[n][1](x, y), "cmp says otherwise")
    if base:
        few_ = few(vs, 16)
        le = {(x, y): lev(base, x, y)[1] <= 0 for x in few_ for y in few_}
        for x, y, z in itertools.product(few_, repeat=3):
            if le[x, y] and le[y, z] and not le[x, z]:
                return bad(base, x, z, "Greater", "the order is not transitive: %s lies between them" % show(y))
    ctx.add(name, ctx.at(next(iter(fns.values()))[0]), RI, "%d values, %d pairs" % (len(vs), len(pairs)))


def structural(ctx, adt, x, y):
    names = [v["name"] for v in ctx.prog.adts[adt]["variants"]]
    if x[1] != y[1]:
        return -1 if names.index(x[1]) < names.index(y[1]) else 1
    for a, b in zip(x[2:], y[2:]):
        if a != b:
            if isinstance(a, tuple):
                raise Undecided("nested order")
            return -1 if a < b else 1
    return 0


def copies(ctx, adt):
    im = by_hand(ctx, CLONE, adt)
    if im is None:
        return
    b = im["items"].get("clone")
    vs = pool(ctx, adt)
    if b not in ctx.prog.bodies or not vs:
        return
    f = function(ctx, b, 1)
    for x in vs:
        r = f(x)
        if r != x:
            ctx.add("clone of " + adt, ctx.at(b), VIOL, "the clone of %s is %s" % (show(x), r if isinstance(r, str) else show(r)))
            return
    ctx.add("clone of " + adt, ctx.at(b), RI, "%d values" % len(vs))


@rule("C02")
def index_order(ctx):
    for a in index_types(ctx):
        ctx.guarded("order of " + a, lambda: order(ctx, a))
        ctx.guarded("equality of " + a, lambda: equality(ctx, a))
        ctx.guarded("clone of " + a, lambda: copies(ctx, a))


@rule("C22")
def index_equality(ctx):
    for a in index_types(ctx):
        ctx.guarded("equality of " + a, lambda: equality(ctx, a))
        ctx.guarded("order of " + a, lambda: order(ctx, a))


@rule("C01")
def coefficient_equality(ctx):
    for a in FIELDS:
        if a in ctx.prog.adts:
            ctx.guarded("equality of " + a, lambda: equality(ctx, a))
            ctx.guarded("clone of " + a, lambda: copies(ctx, a))
