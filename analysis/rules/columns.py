"""C02, C03: column entries and heap columns"""
from rules.common import *
from rules import heap
from rules.heap import BH, mkentry, e3, entries, formal, terms_of, bhval, heapval, rnd_heap

ORD, PORD, PEQ, MULT, FROM = "core::cmp::Ord", "core::cmp::PartialOrd", "core::cmp::PartialEq", "core::ops::arith::Mul", "core::convert::From"


# ---------------------------------------------------------------------------------------------------- C02
def sgn(a, b):
    return (C, "Less") if a < b else (C, "Greater") if a > b else (C, "Equal")


def ordering(ctx):
    heap.use(ctx)
    a, b = sym("a"), sym("b")

    def smp(k, D):
        rnd = random.Random("e%d" % k)
        fv = {r: 200 + rnd.randrange(2) for r in range(100, 104)}
        # rows of one matrix determine the filtration value; entries of different matrices are compared as well
        r, s = 100 + rnd.randrange(4), 100 + rnd.randrange(4)
        f, g = fv[r], fv[s] if k % 3 or r == s else 200 + rnd.randrange(3)
        return {a: mkentry(f, r, rnd.choice([1, 2, 3])), b: mkentry(g, s, rnd.choice([1, 2, 3]))}
    key = lambda I, x: e3(I, I.fixed[x])[:2]

    def cmp_of(I):
        x, y = key(I, a), key(I, b)
        return sgn(x, y)
    lvl = {"Less": -1, "Equal": 0, "Greater": 1}
    specs = {
        (ORD, "cmp"): cmp_of,
        (ORD, "max"): lambda I: I.fixed[b] if key(I, b) >= key(I, a) else I.fixed[a],
        (ORD, "min"): lambda I: I.fixed[a] if key(I, a) <= key(I, b) else I.fixed[b],
        (PORD, "partial_cmp"): lambda I: (C, "Some", cmp_of(I)),
        (PORD, "lt"): lambda I: int(lvl[cmp_of(I)[1]] < 0),
        (PORD, "le"): lambda I: int(lvl[cmp_of(I)[1]] <= 0),
        (PORD, "gt"): lambda I: int(lvl[cmp_of(I)[1]] > 0),
        (PORD, "ge"): lambda I: int(lvl[cmp_of(I)[1]] >= 0),
        (PEQ, "eq"): lambda I: int(key(I, a)[1] == key(I, b)[1]),
        (PEQ, "ne"): lambda I: int(key(I, a)[1] != key(I, b)[1]),
    }
    need = {(ORD, "cmp"), (PORD, "partial_cmp"), (PEQ, "eq")}
    for (tr, name), want in specs.items():
        def f():
            try:
                m = ctx.method(tr, ENTRY, name, default=False)
            except Missing:
                if (tr, name) in need:
                    raise
                return
            _, ls = ctx.summary(m, args=[a, b])
            ctx.equal("entry " + name, m, ls, want, fixed=smp, want_panic=lambda I: False)
        ctx.guarded("entry " + name, f)


def conversions(ctx):
    c, r, f, g = sym("c"), sym("r"), sym("f"), sym("g")
    e = ctx.prog.entry(f, r, c)

    def conv(name, pred, args, want):
        def go():
            ims = [im for im in ctx.prog.impls_of(FROM) if pred(ctx.prog.self_ty(im), im["types"][im["targs"][-1]])]
            if len(ims) != 1 or ims[0]["items"].get("from") not in ctx.prog.bodies:
                raise Missing(name)
            b = ims[0]["items"]["from"]
            _, ls = ctx.summary(b, args=args)
            ctx.equal(name, b, ls, want, want_panic=lambda I: False)
        ctx.guarded(name, go)
    isent = lambda t: t.get("adt") == ENTRY
    istup = lambda t: t["k"] == "tuple" and len(t["args"]) == 3
    conv("entry from triple", lambda s, t: isent(s) and istup(t), [tup(c, r, f)], e)
    conv("triple from entry", lambda s, t: istup(s) and isent(t), [e], tup(c, r, f))

    def mul():
        b = ctx.method(MULT, ENTRY, "mul")
        _, ls = ctx.summary(b, args=[e, g])

        def smp(k, D):
            rnd = random.Random("s%d" % k)
            return {c: rnd.choice([-3, -2, -1, 1, 2, Fraction(1, 2)]), g: rnd.choice([-3, -2, -1, 1, 2, Fraction(1, 2)])}
        ctx.equal("scaling an entry", b, ls, ctx.prog.entry(f, r, pmul(c, g)), fixed=smp, want_panic=lambda I: False)
    ctx.guarded("scaling an entry", mul)

    def clone():
        b = ctx.method("core::clone::Clone", ENTRY, "clone")
        _, ls = ctx.summary(b, args=[e])
        ctx.equal("cloning an entry", b, ls, e, want_panic=lambda I: False)
    ctx.guarded("cloning an entry", clone)


@rule("C02")
def column_entries(ctx):
    ctx.guarded("ordering", lambda: ordering(ctx))
    ctx.guarded("conversions", lambda: conversions(ctx))


# ---------------------------------------------------------------------------------------------------- C03
def bhterm(ctx, t):
    ad = ctx.prog.adts.get(BH)
    if ad is None or len(ad["variants"][0]["fields"]) != 1 or \
            ad["types"][ad["variants"][0]["fields"][0]["ty"]].get("adt") != "alloc::collections::binary_heap::BinaryHeap":
        raise Undecided("representation of heap columns")
    return ctor(BH, "BHCol", t)


def heap_methods(ctx):
    heap.use(ctx)
    H = sym("H")
    base = lambda: bhterm(ctx, H)
    S, e, c, r, f = sym("S"), sym("e"), sym("c"), sym("r"), sym("f")

    def smp(k, D):
        rnd = random.Random("h%d" % k)
        es, more = rnd_heap(rnd), rnd_heap(rnd)
        one_ = mkentry(*e3(None_, more[0])) if more else mkentry(heap.FV(107), 107, 1)
        F, Rr, Cc = e3(None_, one_)
        return {H: heapval(es), S: vlist(more), e: one_, c: Cc, r: Rr, f: F,
                sym("T"): vlist([(C, "", x[2], x[1], x[0]) for x in (e3(None_, y) for y in more)])}

    def method(name, args, want, ret=None, obs="self"):
        def go():
            b = ctx.inherent(BH, name)
            st = State()
            p = cell(st, "self", base())
            ev = heap.hev(ctx) if name not in ("pop_pivot", "drain_sorted") else ctx.ev()
            _, ls = ctx.summary(b, args=[p] + args, st=st, ev=ev)

            def out(l):
                return tup(l.val, post(l, "self")) if ret else post(l, "self")

            def mode(I, got, w):
                if ret:
                    rv, h = I.fieldof(got, "", 0), I.fieldof(got, "", 1)
                    return ret(I, rv) and ms_equal(I, entries(I, h), w) if w is not None else ret(I, rv)
                return ms_equal(I, entries(I, got), w)
            ctx.equal("BHCol::" + name, b, ls, want, out=out, fixed=smp, funcs=heap.FUNCS, mode=mode, want_panic=lambda I: False)
        ctx.guarded("BHCol::" + name, go)

    hs = lambda I: list(I.fixed[H][3])
    method("add_entry", [e], lambda I: hs(I) + [I.fixed[e]])
    method("add_tuple", [tup(c, r, f)], lambda I: hs(I) + [mkentry(I.fixed[f], I.fixed[r], I.fixed[c])])
    method("add_entries", [S], lambda I: hs(I) + list(I.fixed[S][1]))
    method("add_tuples", [sym("T")], lambda I: hs(I) + list(I.fixed[S][1]))
    method("peek_pivot", [], lambda I: hs(I), ret=lambda I, v: equal(I, v, heap.hpop(I, I.fixed[H])) or same_key(I, v, heap.hpop(I, I.fixed[H])))

    def clone_pivot():
        b = ctx.inherent(BH, "clone_pivot")
        st = State()
        p = cell(st, "self", base())
        _, ls = ctx.summary(b, args=[p], st=st, ev=heap.hev(ctx, ))

        def mode(I, got, w):
            rv, h = I.fieldof(got, "", 0), entries(I, I.fieldof(got, "", 1))
            piv, tot = w
            # the pivot is returned, the sum is unchanged and the top of the heap is the pivot itself
            topv = heap.hpop(I, heapval(h))
            return equal(I, rv, piv) and formal(I, h) == tot and equal(I, topv, piv)
        ctx.equal("BHCol::clone_pivot", b, ls, lambda I: (heap.pivot(I, I.fixed[H]), formal(I, hs(I))), out=lambda l: tup(l.val, post(l, "self")),
                  fixed=smp, funcs=heap.FUNCS, mode=mode, want_panic=lambda I: False)
    ctx.guarded("BHCol::clone_pivot", clone_pivot)

    def default():
        b = ctx.method("core::default::Default", BH, "default")
        _, ls = ctx.summary(b, args=[])
        ctx.equal("an empty column", b, ls, lambda I: 0, mode=lambda I, g, w: entries(I, g) == [], want_panic=lambda I: False)
    ctx.guarded("an empty column", default)

    def clone():
        b = ctx.method("core::clone::Clone", BH, "clone")
        st = State()
        _, ls = ctx.summary(b, args=[cell(st, "self", base())], st=st, ev=heap.hev(ctx))
        ctx.equal("cloning a column", b, ls, lambda I: hs(I), fixed=smp, funcs=heap.FUNCS, mode=lambda I, g, w: ms_equal(I, entries(I, g), w),
                  want_panic=lambda I: False)
    ctx.guarded("cloning a column", clone)


None_ = Interp(0, 2)


def same_key(I, a, b):
    if a[1] != b[1]:
        return False
    return a[1] == "None" or e3(I, a[2])[:2] == e3(I, b[2])[:2]


class Hand(object):
    """the part of a loop state a popping loop holds outside the heap: recognised in the values of its variables"""

    def __init__(self, I, v, acc):
        self.row = self.fv = None
        self.c = 0
        self.heap = []
        self.acc = []
        for k in sorted(v):
            self.scan(I, v[k], k in acc)

    def scan(self, I, x, acc):
        if acc:
            self.acc += I.items(x)
        elif is_num(x):
            if 100 <= x < 200:
                self.row = x
            elif 200 <= x < 300:
                self.fv = x
            else:
                self.c += x
        elif isinstance(x, tuple) and x[0] == "A":
            self.heap += entries(I, x)
        elif isinstance(x, tuple) and x[0] == C and x[1] == "ColumnEntry":
            self.fv, self.row, c = e3(I, x)
            self.c += c
        elif isinstance(x, tuple) and x[0] == C:
            for y in x[2:]:
                self.scan(I, y, False)
        elif isinstance(x, tuple) and x[0] == V:
            self.acc += list(x[1])
        else:
            raise Opaque("loop state")

    def sum(self, I):
        es = list(self.heap)
        if self.c:
            if self.row is None:
                raise Opaque("loop state")
            es.append(mkentry(heap.FV(self.row), self.row, self.c))
        return formal(I, es)


def fill(t, heapv, hand):
    """a value of the same shape as t holding the given state; raises Opaque where the shape has no place for it"""
    f, r, c = hand
    if is_num(t):
        if 100 <= t < 200:
            return r
        if 200 <= t < 300:
            return f
        if c is None:
            raise Opaque("shape")
        return c
    if isinstance(t, tuple) and t[0] == "A":
        return heapval(heapv)
    if isinstance(t, tuple) and t[0] == C and t[1] == "Some":
        if c is None and (is_num(t[2]) and not 100 <= t[2] < 300 or not is_num(t[2])):
            return (C, "None")
        return (C, "Some", fill(t[2], heapv, hand))
    if isinstance(t, tuple) and t[0] == C:
        return t[:2] + tuple(fill(x, heapv, hand) for x in t[2:])
    raise Opaque("shape")


def popping(ctx):
    """pop_pivot keeps (entries left) + (entry in hand) constant and leaves with the leading term"""
    heap.use(ctx)
    name = "popping the pivot"
    b = ctx.inherent(BH, "pop_pivot")
    st = State()
    H = sym("H")
    p = cell(st, "self", bhterm(ctx, H))
    ev, ls = ctx.summary(b, args=[p], st=st)
    recs = [r for r in ev.loops if any(any(mentions(x, set(r.phis.values())) for x in l.st.facts.lits) or mentions(l.val, set(r.phis.values()))
                                       for l in ls if l.kind == "ret")]

    def check(I, v, h, want):
        """want: formal sum before"""
        es = entries(I, h)
        t = sorted(want, reverse=True)
        if not t:
            return v == (C, "None") and es == []
        if not (isinstance(v, tuple) and v[1] == "Some"):
            return False
        f, r, c = e3(I, v[2])
        rest = dict(want)
        del rest[t[0]]
        return (f, r) == t[0] and c == want[t[0]] and formal(I, es) == rest and all(e3(I, x)[:2] < (f, r) for x in es)

    def smp(k, D):
        rnd = random.Random("pp%d" % k)
        es = rnd_heap(rnd, size=1 + k % 6)
        return {H: heapval(es)}

    def mode(I, got, w):
        return check(I, I.fieldof(got, "", 0), I.fieldof(got, "", 1), w)

    def whole():
        ctx.equal(name, b, ls, lambda I: formal(I, list(I.fixed[H][3])), fixed=smp, funcs=heap.FUNCS, mode=mode,
                  out=lambda l: tup(l.val, post(l, "self")), need=60, n=2000 if ctx.thorough else 600, want_panic=lambda I: False)
    ctx.fallback(name, ctx.at(b), lambda: popping_loop(ctx, name, b, ls, recs, H, check, smp, mode), whole)
    if recs and interp.consts(ls, None):
        # a constant: a run longer than it may end differently from the steps
        ctx.equal(name + " (long columns)", b, ls, lambda I: formal(I, list(I.fixed[H][3])), fixed=smp, funcs=heap.FUNCS, mode=mode,
                  out=lambda l: tup(l.val, post(l, "self")), need=60, n=200, want_panic=lambda I: False)


def popping_loop(ctx, name, b, ls, recs, H, check, smp, mode):
    if not recs:
        raise Undecided("no loop")
    if len(recs) != 1:
        raise Undecided("more than one loop")
    rec = recs[0]
    P = set(rec.phis.values())
    roles = {str(i): ph for i, ph in enumerate(sorted(P, key=lambda x: str(x)))}
    # leaves that never enter the loop
    direct = [l for l in ls if l.kind == "panic" or not (any(mentions(x, P) for x in l.st.facts.lits) or mentions(l.val, P)
                                                       or mentions(post(l, "self"), P))]
    if [l for l in direct if l.kind == "ret"]:
        ctx.equal(name + " before the loop", b, direct, lambda I: formal(I, list(I.fixed[H][3])), fixed=lambda k, D: {H: heapval([])} if k % 2 else smp(k, D),
                  funcs=heap.FUNCS, mode=mode, out=lambda l: tup(l.val, post(l, "self")), need=4, want_panic=lambda I: False)

    # entering the loop: the state stands for the whole column
    shapes = None
    n = 0
    for k in range(interp.SEED, interp.SEED + 60):
        I = Interp(k, 7, smp(k, 7), funcs=heap.FUNCS)
        try:
            v = {r: I.val(rec.inits[ph]) for r, ph in roles.items()}
        except Undef:
            continue
        hd = Hand(I, v, ())
        if hd.sum(I) != formal(I, list(I.fixed[H][3])):
            ctx.add(name + " (entry)", ctx.at(b), VIOL, "the loop starts with a state that does not stand for the column")
            return
        if hd.row is not None or shapes is None:
            shapes = v
        n += 1
    if n < 5 or shapes is None:
        raise Undecided("entry of the loop")
    ctx.add(name + " (entry)", ctx.at(b), INV, "%d interpretations" % n)

    def sample(k):
        rnd = random.Random("st%d" % k)
        es = rnd_heap(rnd)
        ks = sorted({e3(None_, x)[:2] for x in es}, reverse=True)
        # hand: at least as large as everything left
        if ks and rnd.random() < .6:
            f, r = ks[0]
        else:
            f, r = rnd.choice([(heap.FV(x), x) for x in range(100, 108) if not ks or (heap.FV(x), x) >= ks[0]])
        c = rnd.choice([None, -2, -1, 1, 2])
        try:
            return {H: heapval([mkentry(heap.FV(100), 100, 1)])}, {r_: fill(shapes[r_], es, (f, r, c)) for r_ in roles}
        except Opaque:
            return None

    def good(I, v):
        hd = Hand(I, v, ())
        if hd.row is None:
            return True
        if hd.fv is not None and hd.fv != heap.FV(hd.row):
            return False
        return all(e3(I, x)[:2] <= (heap.FV(hd.row), hd.row) for x in hd.heap)

    def denote(I, v):
        return ("D", tuple(sorted(Hand(I, v, ()).sum(I).items())))

    def out(I, l):
        v, h = I.val(l.val), I.val(post(l, "self"))
        es = entries(I, h)
        if isinstance(v, tuple) and v[1] == "Some":
            es = es + [v[2]]
        tot = formal(I, es)
        return ("D", tuple(sorted(tot.items()))) if check(I, v, h, tot) else ("X", "a term that is not the pivot with its total: %s, leaving %s"
                                                                               % (pretty(v), pretty(h)))
    ctx.steps(name, b, rec, ls, sample, good, denote, out, roles, funcs=heap.FUNCS,
              measure=lambda v, w: len(Hand(None_, w, ()).heap) < len(Hand(None_, v, ()).heap), eq=lambda I, x, y: x == y)


def draining(ctx, name, title):
    """repeated popping collects the non-zero terms in descending order"""
    heap.use(ctx)
    b = ctx.inherent(BH, name)
    H = sym("H")
    st = State()
    ev = ctx.ev()
    ev.contracts = heap.contracts(ctx, ("pop_pivot",) if name == "drain_sorted" else ("pop_pivot", "drain_sorted"))
    d = ctx.prog.bodies[b]
    t0 = d["types"][d["locals"][1]]
    base = bhterm(ctx, H)
    arg = cell(st, "self", base) if t0["k"] == "ref" else base
    ev, ls = ctx.summary(b, args=[arg], st=st, ev=ev)

    def smp(k, D):
        return {H: heapval(rnd_heap(random.Random("d%d" % k)))}
    recs = [r for r in ev.loops if any(mentions(l.val, set(r.phis.values())) for l in ls if l.kind == "ret")]

    def whole():
        mode = lambda I, g, w: equal(I, (V, tuple(I.items(g))), (V, tuple(w)))
        ctx.equal(title, b, ls, lambda I: terms_of(I, list(I.fixed[H][3])), fixed=smp, funcs=heap.FUNCS, mode=mode, want_panic=lambda I: False)
    if not recs:
        return whole()
    ctx.fallback(title, ctx.at(b), lambda: draining_loop(ctx, title, b, ls, recs, H), whole)


def draining_loop(ctx, title, b, ls, recs, H):
    if len(recs) != 1:
        raise Undecided("more than one loop")
    rec = recs[0]
    P = set(rec.phis.values())
    roles = {str(i): ph for i, ph in enumerate(sorted(P, key=lambda x: str(x)))}
    I0 = Interp(0, 7, {H: heapval([mkentry(heap.FV(100), 100, 1)])}, funcs=heap.FUNCS)
    init = {r: I0.val(rec.inits[ph]) for r, ph in roles.items()}
    hs = [r for r in roles if isinstance(init[r], tuple) and (init[r][0] == "A" or init[r][:2] == (C, "BHCol"))]
    ac = [r for r in roles if isinstance(init[r], tuple) and init[r][0] in (V, ST)]
    if len(hs) != 1 or len(ac) != 1 or len(roles) != 2:
        raise Undecided("loop variables")
    if init[ac[0]][1] or entries(I0, init[hs[0]]) != [mkentry(heap.FV(100), 100, 1)]:
        raise Undecided("entry of the loop")
    wrap = bhval if init[hs[0]][0] == C else heapval

    def sample(k):
        rnd = random.Random("ds%d" % k)
        es = rnd_heap(rnd)
        return {}, {hs[0]: wrap(es), ac[0]: vlist([mkentry(250, 150, 1)][:k % 2])}

    def denote(I, v):
        return ("L", tuple(I.items(v[ac[0]])) + tuple(terms_of(I, entries(I, v[hs[0]]))))
    ctx.steps(title, b, rec, ls, sample, lambda I, v: True, denote, lambda I, l: ("L", tuple(I.items(I.val(l.val)))), roles,
              funcs=heap.FUNCS, eq=lambda I, x, y: norm(x) == norm(y))


def heap_columns(ctx):
    ctx.guarded("heap methods", lambda: heap_methods(ctx))
    ctx.guarded("popping the pivot", lambda: popping(ctx))
    ctx.guarded("draining in order", lambda: draining(ctx, "drain_sorted", "draining in order"))
    ctx.guarded("sorted vector", lambda: draining(ctx, "to_sorted_vec", "sorted vector"))
    ctx.guarded("ordering", lambda: ordering(ctx))


@rule("C03")
def c03(ctx):
    heap_columns(ctx)
