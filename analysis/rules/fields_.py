"""C01: coefficient arithmetic"""
from rules.common import *
from math import gcd

F = "phlite::fields::"
ADD, MUL, NZ, INV, EQ = "core::ops::arith::Add", "core::ops::arith::Mul", F + "NonZeroCoefficient", F + "Invertible", "core::cmp::PartialEq"
OPTION = "core::option::Option"


class Op(object):
    """one operation on one field: summary and comparison over a list of argument tuples"""

    def __init__(self, ctx, K):
        self.ctx, self.K = ctx, K

    def run(self, name, bid, args, domain, want, p=None):
        """domain: list of {symbol: value}; want(assignment) -> value; the whole domain is enumerated when it is finite"""
        ctx = self.ctx
        ev, ls = ctx.summary(bid, args=args)
        extra = {sym("const P"): p} if p is not None else {}

        def fixed(k, D):
            d = dict(domain[k % len(domain)])
            d.update(extra)
            near = [v for v in interp.NEAR if v > 0]
            if p is None and d and near:
                # one of the numbers near a constant of the program
                r = random.Random("near%d" % k)
                v, s = r.choice(near), r.choice(sorted(d, key=str))
                other = {"a": "b", "b": "a", "c": "d", "d": "c"}[s.a[0]]
                o = next(x for x in d if x.a[0] == other)
                d[s] = v * (1 if s.a[0] in "bd" else r.choice((1, -1)))
                while gcd(d[s], d[o]) != 1:
                    d[o] += 1
                if d[o] == 0:
                    d[o] = 1
            return d
        ok = ctx.equal(name, bid, ls, lambda I: want(I.fixed), fixed=fixed, n=len(domain), need=len(domain),
                       want_panic=lambda I: False, finite=p is not None)
        if p is None:
            return
        bad = out_of_range(ev, fixed, len(domain))
        if bad:
            ctx.add(name + " stays in range", ctx.at(bad[0]), VIOL, "%s does not fit %s in %s" % bad[1:])
        elif ok:
            ctx.add(name + " stays in range", ctx.at(bid), OK)


def out_of_range(ev, fixed, n):
    """plain integer operation whose exact result leaves its type on an accepted input"""
    for lits, v, ty, bid in ev.arith:
        for k in range(n):
            I = Interp(k, 7, fixed(k, 7))
            try:
                if not I.lits(lits):
                    continue
                x = I.val(v)
            except (Undef, Opaque):
                continue
            if is_num(x) and not INTS[ty][0] <= x <= INTS[ty][1]:
                return bid, pretty(x), ty, bid
    return None


def impl_for(ctx, trait, adt, name, const=None, rhs=None):
    """implementation of an operator for a field type: exact constant argument, or generic in it"""
    prog = ctx.prog

    def rhs_ok(im):
        if rhs is None or not im.get("targs"):
            return True
        return (im["types"][im["targs"][-1]].get("adt") == OPTION) == (rhs == "option")
    best = []
    for im in prog.impls_of(trait):
        t = prog.self_ty(im)
        if t["k"] == "adt" and t["adt"] == adt and rhs_ok(im) and name in im["items"]:
            c = t.get("consts") or []
            if const is None or not c or c == [str(const)]:
                best.append((0, im["items"][name]))
            elif not c[0].isdigit():
                best.append((1, im["items"][name]))
    best.sort()
    if not best or best[0][1] not in prog.bodies:
        raise Missing("%s of %s" % (name, adt))
    return best[0][1]


def prime_fields(ctx):
    adt = ctx.adt("phlite", "ZP")
    if len(ctx.prog.adts[adt]["variants"][0]["fields"]) != 1:
        raise Undecided("representation of prime fields")
    nm = ctx.prog.adts[adt]["variants"][0]["name"]
    el = lambda t: ctor(adt, nm, t)
    V_ = lambda x: (C, nm, x)
    O = Op(ctx, adt)
    x, y = sym("x"), sym("y")
    for p in (3, 5, 7, 11, 13):
        els = range(1, p)
        pairs = [{x: a, y: b} for a in els for b in els]
        ones = [{x: a} for a in els]
        o = sym("o")

        def add():
            O.run("Z%d add" % p, impl_for(ctx, ADD, adt, "add", p, "self"), [el(x), el(y)], pairs,
                  lambda a: (C, "Some", V_((a[x] + a[y]) % p)) if (a[x] + a[y]) % p else (C, "None"), p)

        def addo():
            O.run("Z%d add option some" % p, impl_for(ctx, ADD, adt, "add", p, "option"), [el(x), some(el(y))], pairs,
                  lambda a: (C, "Some", V_((a[x] + a[y]) % p)) if (a[x] + a[y]) % p else (C, "None"), p)
            O.run("Z%d add option none" % p, impl_for(ctx, ADD, adt, "add", p, "option"), [el(x), NONE], ones,
                  lambda a: (C, "Some", V_(a[x])), p)

        def mul():
            O.run("Z%d mul" % p, impl_for(ctx, MUL, adt, "mul", p), [el(x), el(y)], pairs, lambda a: V_(a[x] * a[y] % p), p)

        def neg_():
            O.run("Z%d additive inverse" % p, impl_for(ctx, NZ, adt, "additive_inverse", p), [el(x)], ones, lambda a: V_(p - a[x]), p)

        def one_():
            O.run("Z%d one" % p, impl_for(ctx, NZ, adt, "one", p), [], [{}], lambda a: V_(1), p)

        def inv():
            O.run("Z%d multiplicative inverse" % p, impl_for(ctx, INV, adt, "mult_inverse", p), [el(x)], ones,
                  lambda a: V_(pow(a[x], p - 2, p)), p)

        def eq_():
            O.run("Z%d equality" % p, impl_for(ctx, EQ, adt, "eq", p), [el(x), el(y)], pairs, lambda a: 1 if a[x] == a[y] else 0, p)
        for f in (add, addo, mul, neg_, one_, inv, eq_):
            ctx.guarded("Z%d %s" % (p, f.__name__.strip("_")), f)


def z2(ctx):
    adt = ctx.adt("phlite", "Z2")
    if ctx.prog.adts[adt]["variants"][0]["fields"]:
        raise Undecided("representation of Z2")
    e = ctor(adt, ctx.prog.adts[adt]["variants"][0]["name"])

    def chk(name, trait, meth, args, want, rhs=None):
        def f():
            b = impl_for(ctx, trait, adt, meth, None, rhs)
            _, ls = ctx.summary(b, args=args)
            ctx.equal("Z2 " + name, b, ls, want, want_panic=lambda I: False)
        ctx.guarded("Z2 " + name, f)
    chk("add", ADD, "add", [e, e], NONE, "self")
    chk("add option none", ADD, "add", [e, NONE], some(e), "option")
    chk("add option some", ADD, "add", [e, some(e)], NONE, "option")
    chk("mul", MUL, "mul", [e, e], e)
    chk("additive inverse", NZ, "additive_inverse", [e], e)
    chk("one", NZ, "one", [], e)
    chk("multiplicative inverse", INV, "mult_inverse", [e], e)
    chk("equality", EQ, "eq", [e, e], I_(1))


def rationals(ctx):
    adt = ctx.adt("phlite", "Q")
    ad = ctx.prog.adts[adt]
    fs = [ad["types"][f["ty"]]["s"] for f in ad["variants"][0]["fields"]]
    signed = [i for i, t in enumerate(fs) if t.startswith("i")]
    if len(fs) != 2 or not signed:
        raise Undecided("representation of the rationals")
    num = signed[0]
    nm = ad["variants"][0]["name"]

    def el(n, d):
        return ctor(adt, nm, *([n, d] if num == 0 else [d, n]))

    def V_(q):
        n, d = q.numerator, q.denominator
        return (C, nm) + ((n, d) if num == 0 else (d, n))
    O = Op(ctx, adt)
    a, b, c, d = (sym(s) for s in "abcd")
    from facts import NONNEG_ATOMS
    NONNEG_ATOMS.add(b)
    NONNEG_ATOMS.add(d)
    rnd = random.Random("Q%d" % interp.SEED)
    fr = [Fraction(s * n, m) for n in range(1, 13) for m in range(1, 13) for s in (1, -1) if gcd(n, m) == 1]
    pairs = [(x, y) for x in fr for y in fr]
    rnd.shuffle(pairs)
    pairs = pairs[:400 if ctx.thorough else 150] + [(x, -x) for x in fr[:40]] + [(x, x) for x in fr[:20]]
    # large numbers, common factors, and long runs of the Euclidean algorithm; nothing here overflows
    fib = [1, 2]
    while fib[-1] < 2 ** 15:
        fib.append(fib[-1] + fib[-2])
    big = lambda: rnd.choice((rnd.randrange(1, 2 ** 15), 2 ** rnd.randrange(15), rnd.choice(fib), 720 * rnd.randrange(1, 40)))
    large = []
    for _ in range(400 if ctx.thorough else 120):
        x, y = (Fraction(rnd.choice((1, -1)) * big(), big()) for _ in (0, 1))
        if rnd.random() < .3:
            y = Fraction(y.numerator, x.denominator)
        elif rnd.random() < .3:
            i = rnd.randrange(2, len(fib))
            x, y = Fraction(fib[i], 3 * fib[i - 2]), Fraction(-3 * fib[i - 2], fib[i - 1])
        large.append((x, y))
    pairs += [(x, y) for x, y in large if x and y]
    fr += [x for x, _ in large]
    dom2 = [{a: x.numerator, b: x.denominator, c: y.numerator, d: y.denominator} for x, y in pairs]
    dom1 = [{a: x.numerator, b: x.denominator} for x in fr]
    val = lambda m: (Fraction(m[a], m[b]), Fraction(m[c], m[d]) if c in m else None)

    def sum_(m):
        x, y = val(m)
        return (C, "Some", V_(x + y)) if x + y else (C, "None")
    jobs = [
        ("Q add", lambda: O.run("Q add", impl_for(ctx, ADD, adt, "add", None, "self"), [el(a, b), el(c, d)], dom2, sum_)),
        ("Q add option some", lambda: O.run("Q add option some", impl_for(ctx, ADD, adt, "add", None, "option"),
                                            [el(a, b), some(el(c, d))], dom2, sum_)),
        ("Q add option none", lambda: O.run("Q add option none", impl_for(ctx, ADD, adt, "add", None, "option"),
                                            [el(a, b), NONE], dom1, lambda m: (C, "Some", V_(val(m)[0])))),
        ("Q mul", lambda: O.run("Q mul", impl_for(ctx, MUL, adt, "mul"), [el(a, b), el(c, d)], dom2,
                                lambda m: V_(val(m)[0] * val(m)[1]))),
        ("Q additive inverse", lambda: O.run("Q additive inverse", impl_for(ctx, NZ, adt, "additive_inverse"), [el(a, b)], dom1,
                                             lambda m: V_(-val(m)[0]))),
        ("Q one", lambda: O.run("Q one", impl_for(ctx, NZ, adt, "one"), [], [{}], lambda m: V_(Fraction(1)))),
        ("Q multiplicative inverse", lambda: O.run("Q multiplicative inverse", impl_for(ctx, INV, adt, "mult_inverse"), [el(a, b)],
                                                   dom1, lambda m: V_(1 / val(m)[0]))),
        ("Q equality", lambda: O.run("Q equality", impl_for(ctx, EQ, adt, "eq"), [el(a, b), el(c, d)], dom2,
                                     lambda m: 1 if val(m)[0] == val(m)[1] else 0)),
    ]
    for n, f in jobs:
        ctx.guarded(n, f)


@rule("C01")
def field_arithmetic(ctx):
    for f in (z2, prime_fields, rationals):
        ctx.guarded(f.__name__, lambda: f(ctx))
