"""C04-C07, C27, C28: adaptors, combinators, stored matrices and bases.  Every adaptor is built through its public
constructor, and its methods are summarised on the value the constructor returned."""
from rules.common import *
from rules import heap
from rules.heap import e3, mkentry, formal, entries

MO, HRF, HCB, CB, SBD = M + "MatrixOracle", M + "HasRowFiltration", M + "HasColBasis", M + "ColBasis", M + "SplitByDimension"
DEREF = "core::ops::deref::Deref"
ITERT = "core::iter::traits::iterator::Iterator"


def dflt(ctx, trait, name):
    it = ctx.prog.traits.get(trait, {}).get(name)
    if not it or it["id"] not in ctx.prog.bodies:
        raise Missing("no default body %s::%s" % (trait, name))
    return it["id"]


def the(ls, what="summary"):
    r = [l for l in ls if l.kind == "ret"]
    if len(r) != 1:
        raise Undecided("%s has %d results" % (what, len(r)))
    return r[0]


def build(ctx, b, args):
    """value a constructor returns"""
    ev, ls = ctx.summary(b, args=args)
    l = the(ls, "constructor")
    ctx.built[b] = ls
    return owned(ev, l.st, l.val)


def owned(ev, st, t, depth=0):
    """value with what its owning pointers (boxes) point to in place of the pointers"""
    if not isT(t) or depth > 12:
        return t
    if t.op == "ptr" and isinstance(t.a[0], tuple) and t.a[0] and t.a[0][0] == "box":
        return owned(ev, st, ev.deref(st, t), depth + 1)
    if t.op == "ctor":
        return ctor(t.a[0], t.a[1], *[owned(ev, st, x, depth + 1) for x in t.a[2:]])
    return t


def adt_of(W):
    return W.a[0] if W.op == "ctor" else None


def reify(ctx, st, W, path="self"):
    """interior-mutable fields become cells of the state"""
    if W.op != "ctor" or W.a[0] not in ctx.prog.adts:
        return W
    ad = ctx.prog.adts[W.a[0]]
    if ad["kind"] != "struct":
        return W
    v = ad["variants"][0]
    out = []
    for f, x in zip(v["fields"], W.a[2:]):
        t = ad["types"][f["ty"]]
        q = "%s.%s" % (path, f["name"])
        if str(t.get("adt")).split("::")[-1] in ("RefCell", "Cell") and x.op != "ptr":
            key = ("cellref", q)
            st.cells[key] = x
            x = mk("ptr", key, ())
        else:
            x = reify(ctx, st, x, q)
        out.append(x)
    return ctor(W.a[0], W.a[1], *out)


def on(ctx, trait, name, W, args, ev=None, byval=False):
    """summary of a trait method on a value; an application where the value is unknown"""
    ev = ev or heap.hev(ctx)
    if W.op != "ctor":
        return ev, None, [Leaf("ret", State(), app(name, W, *args))]
    b = ctx.method(trait, W.a[0], name)
    st = State()
    W = reify(ctx, st, W)
    p = W if byval else cell(st, "self", W)
    _, ls = ctx.summary(b, args=[p] + args, st=st, ev=ev)
    return ev, b, ls


def keeps(ctx, W):
    """parts of a value that methods may change behind a shared reference"""
    for x in walk(W):
        ad = ctx.prog.adts.get(x.a[0]) if x.op == "ctor" else None
        if ad is None:
            continue
        for v in ad["variants"]:
            for f in v["fields"]:
                t = ad["types"][f["ty"]]["s"]
                if "cell::" in t or "Cell<" in t or "Mutex<" in t or "RwLock<" in t:
                    return True
    return False


def twice(ctx, W, first, fargs, second, sargs, ev=None):
    """summary of a method asked after another one, of the same object: what it keeps may have changed"""
    ev, b, ls = on(ctx, first[0], first[1], W, fargs, ev=ev)
    b2 = ctx.method(second[0], W.a[0], second[1])
    out = []
    p = T_ptr_self()
    for l in ls:
        if l.kind == "ret":
            _, l2 = ctx.summary(b2, args=[p] + sargs, st=l.st.copy(), ev=ev)
            out += l2
    return ev, b2, out


def T_ptr_self():
    return mk("ptr", ("ext", "self"), ())


def on_inherent(ctx, name, W, args):
    b = ctx.inherent(W.a[0], name)
    _, ls = ctx.summary(b, args=[W] + args)
    return b, ls


def has(ctx, trait, W, name):
    try:
        ctx.method(trait, W.a[0], name)
        return True
    except Missing:
        return False


def deref(ctx, W):
    """what a basis reference refers to"""
    for _ in range(5):
        if W.op == "ctor" and any(ctx.prog.self_adt(im) == W.a[0] for im in ctx.prog.impls_of(DEREF)):
            _, b, ls = on(ctx, DEREF, "deref", W, [])
            l = the(ls, "deref")
            V = l.val
            if V.op == "ptr":
                V = l.st.cells.get(V.a[0], V) if not V.a[1] else V
            if V is W:
                return W
            W = V
        else:
            break
    return W


# ------------------------------------------------------------------------------------------ interpretation of unknown matrices
def _h(*k):
    import zlib
    return zlib.crc32(repr(k).encode())


def mcol(I, m, c):
    """column of an unknown matrix"""
    rnd = random.Random(_h("col", I.seed % 7, norm(m), norm(c)))
    r = []
    for _ in range(interp.upto(rnd, 5)):
        row = 100 + rnd.randrange(4)
        r.append((C, "", rnd.choice([-2, -1, 1, 1]), (C, "Reverse", row) if isinstance(c, tuple) and c[1] == "Reverse" else row))
    return slist(r)


def mfv(I, m, r):
    if isinstance(r, tuple) and r[0] == C and r[1] == "Reverse":
        return (C, "Reverse", 200 + _h("fv", norm(m), norm(r)) % 3)
    return 200 + _h("fv", norm(m), norm(r)) % 3


def mbasis(I, m):
    return (C, "$basis", m)


def msub(I, b, d):
    return (C, "$dim", b, d)


def isbasis(b):
    return isinstance(b, tuple) and b[0] == C and b[1] in ("$basis", "$dim") or is_num(b) and 900 <= b < 950


def msize(I, b):
    if not isbasis(b):
        return None
    h = _h("size", I.seed, norm(b))
    return 1 + h % 50 + (interp.LONG if h % 3 else 0) + (max(interp.NEAR) if interp.NEAR and h % 4 == 1 else 0)


def melem(I, b, i):
    if not isbasis(b):
        return None
    if not is_num(i) or not 0 <= i < msize(I, b):
        raise OutOfRange("position outside the basis")
    x = 100 + _h("elem", norm(b), i) % 6
    return (C, "Reverse", x) if is_num(b) and b >= 940 else x


def mfun(I, f, *xs):
    return 200 + _h("fun", norm(f), tuple(norm(x) for x in xs)) % 3


UNKNOWN = {"column": mcol, "filtration_value": mfv, "basis": mbasis, "in_dimension": msub, "size": msize, "element": melem,
           "callfn": mfun}
UNKNOWN.update(heap.FUNCS)


def smp(**syms):
    d = {"m": 900, "m2": 901, "b": 920, "f": 930, "c": 104, "r": 101, "i": 1, "d": 1, "rc": (C, "Reverse", 104), "rr": (C, "Reverse", 101),
         "rb": 940, "br": 921}

    def go(k, D):
        o = {sym(n): v for n, v in d.items()}
        o[sym("i")] = (k * 7) % 40
        o[sym("d")] = k % 9
        near = [x for x in interp.NEAR if x >= 0]
        if near and k % 3:
            o[sym("i")] = near[_h("i", k) % len(near)]
            o[sym("d")] = near[_h("d", k) % len(near)]
        o[sym("r")] = 100 + k % 4
        o[sym("rr")] = (C, "Reverse", 100 + k % 4)
        o[sym("c")] = 100 + k % 5
        o[sym("rc")] = (C, "Reverse", 100 + k % 5)
        return o
    return go


MATRIX_M = sym("m")
m, m2, b_, f_, c_, r_, i_, d_, rc, rr = [sym(x) for x in ("m", "m2", "b", "f", "c", "r", "i", "d", "rc", "rr")]
NONNEG = ("i", "d")



def colterm(ctx, ev, l):
    v = l.val
    S = models.stream(ev, l.st, v)
    return mk("stream", S)


def expand(ctx, adt):
    """items a local iterator still yields, by following its summarised step"""
    im = [im for im in ctx.prog.impls_of(ITERT) if ctx.prog.self_adt(im) == adt]
    if len(im) != 1:
        raise Missing("iterator " + adt)
    nx = im[0]["items"]["next"]
    S = sym("$it")
    st = State()
    p = cell(st, "self", S)
    _, ls = ctx.summary(nx, args=[p], st=st, ev=heap.hev(ctx))

    def go(v, n=40):
        out = []
        for k in range(n):
            I = Interp(k, 7, {S: v}, funcs=UNKNOWN)
            hit = interp.active(I, ls)
            if not hit or hit == "panic":
                raise Opaque("iteration")
            x = I.val(hit[0].val)
            v = I.val(post(hit[0], "self"))
            if x[1] == "None":
                return out
            out.append(x[2])
        raise Opaque("long iteration")
    return nx, go


def same_list(I, got, want):
    return ms_equal(I, I.items(got), I.items(want))


def same_sum(I, got, want):
    return fsum_equal(I, I.items(got), I.items(want))


def each_once(I, got, want):
    g = I.items(got)
    rows = [norm(I.fieldof(x, "", 1)) for x in g]
    return len(set(rows)) == len(rows) and fsum_equal(I, g, I.items(want)) and all(I.fieldof(x, "", 0) != 0 for x in g)


def entries_once(ctx):
    """entries with each row once, the same formal sum, and the value the filtration gives each row"""
    order = ctx.prog.entry_order()
    return lambda I, got, want: _entries_once(*[[tuple((norm if i != 2 else lambda v: v)(I.fieldof(x, "ColumnEntry", p))
                                                      for i, p in enumerate(order)) for x in I.items(z)] for z in (got, want)])


def _entries_once(g, w):
    sums, val = {}, {}
    for f, r, c in w:
        sums[r] = sums.get(r, 0) + c
        val[r] = f
    return {r: c for _, r, c in g} == {r: c for r, c in sums.items() if c != 0} and len({r for _, r, _ in g}) == len(g) \
        and all(val[r] == f for f, r, _ in g)


def check_column(ctx, name, W, c, want, mode=same_list, trait=MO, meth="column"):
    def go():
        ev, b, ls = on(ctx, trait, meth, W, [c])

        def out(l):
            if l.val.op == "ctor" and l.val.a[0] in ctx.prog.adts:
                return l.val
            return colterm(ctx, ev, l)
        local = {adt_of(l.val) for l in ls if l.kind == "ret" and l.val.op == "ctor" and l.val.a[0] in ctx.prog.adts}
        md = mode
        if local:
            ex = {a.split("::")[-1]: expand(ctx, a)[1] for a in local}
            md = lambda I, got, w: mode(I, slist(ex[got[1]](got)) if isinstance(got, tuple) and got[0] == C and got[1] in ex else got, w)
        wt = mk("stream", want)
        # where the two sides may differ in form but not in what they stand for, no comparison of normal forms
        ctx.equal(name, b, ls, wt if mode is same_list else (lambda I: I.val(wt)), out=out, fixed=smp(), funcs=UNKNOWN, mode=md,
                  want_panic=lambda I: False)
    ctx.guarded(name, go)


def check_value(ctx, name, trait, meth, W, args, want, **kw):
    def go():
        ev, b, ls = on(ctx, trait, meth, W, args)
        kw.setdefault("fixed", smp())
        kw.setdefault("funcs", UNKNOWN)
        kw.setdefault("want_panic", lambda I: False)
        ctx.equal(name, b, ls, want, **kw)
    ctx.guarded(name, go)


def colS(mt, c, g=None):
    t = fresh_bv()
    return mkfor(t, mk("elems", app("column", mt, c)), one(g(t) if g else t))


def fvS(ctx, mt, c, fv=None, row=None):
    fv = fv or (lambda r: app("filtration_value", mt, r))
    return colS(mt, c, lambda t: ctx.prog.entry(fv(field(t, "", 1)), (row or (lambda x: x))(field(t, "", 1)), field(t, "", 0)))


def check_basis(ctx, name, W, want, rev=False):
    """the basis reference derefs to a basis with the elements of `want`"""
    def go():
        _, b, ls = on(ctx, HCB, "basis", W, [])
        l = the(ls, "basis")
        V = l.val
        if V.op == "ptr":
            V = heap.hev(ctx).deref(l.st, V)
        B = deref(ctx, V)
        if B is want:
            ctx.add(name, ctx.at(b), PROVED)
            return
        check_value(ctx, name + " (elements)", CB, "element", B, [i_], app("element", want, i_), want_panic=within(want))
        check_value(ctx, name + " (size)", CB, "size", B, [], app("size", want))
    ctx.guarded(name, go)


def adaptor(ctx, name, trait, ctor_, args):
    def go():
        b = dflt(ctx, trait, ctor_)
        return build(ctx, b, args)
    return ctx.guarded(name, go)


def nn(ctx):
    from facts import NONNEG_ATOMS
    for n in NONNEG:
        NONNEG_ATOMS.add(sym(n))


# ---------------------------------------------------------------------------------------------------- C04
@rule("C04")
def adaptors(ctx):
    nn(ctx)
    heap.use(ctx)
    fvm = app("filtration_value", m, r_)
    spec = [
        ("with_trivial_filtration", MO, [m], dict(fv=UNIT, basis=app("basis", m))),
        ("with_filtration", MO, [m, f_], dict(fv=app("callfn", f_, r_), basis=app("basis", m))),
        ("with_basis", MO, [m, b_], dict(fv=fvm, basis=b_)),
        ("cache_cols", MO, [m], dict(fv=fvm, basis=app("basis", m))),
        ("consolidate", MO, [m], dict(fv=fvm, basis=app("basis", m), mode=each_once)),
        ("sub_matrix_in_dimension", HCB, [m, d_], dict(fv=fvm, basis=app("in_dimension", app("basis", m), d_))),
        ("using_col_basis_index", MO, [m], dict(fv=fvm, col=app("element", app("basis", m), i_), arg=i_)),
    ]
    for nm, tr, args, s in spec:
        W = adaptor(ctx, nm, tr, nm, args)
        if W is None:
            continue
        check_column(ctx, nm + ": column", W, s.get("arg", c_), colS(m, s.get("col", c_)), mode=s.get("mode", same_list))
        check_value(ctx, nm + ": filtration value", HRF, "filtration_value", W, [r_], s["fv"])
        fv = {"with_trivial_filtration": lambda r: UNIT, "with_filtration": lambda r: app("callfn", f_, r)}.get(nm)
        if nm != "consolidate":
            check_column(ctx, nm + ": column with filtration", W, s.get("arg", c_), fvS(ctx, m, s.get("col", c_), fv),
                         trait=HRF, meth="column_with_filtration")
        if "basis" in s:
            check_basis(ctx, nm + ": basis", W, s["basis"])
        if has(ctx, "core::clone::Clone", W, "clone"):
            check_value(ctx, nm + ": clone", "core::clone::Clone", "clone", W, [], W)

    def new():
        W = build(ctx, dflt(ctx, MO, "with_basis"), [m, b_])
        b = ctx.inherent(W.a[0], "new")
        _, ls = ctx.summary(b, args=[m, b_])
        ctx.equal("MatrixWithBasis::new", b, ls, W)
    ctx.guarded("MatrixWithBasis::new", new)

    def discard():
        W = build(ctx, dflt(ctx, MO, "with_filtration"), [m, f_])
        b, ls = on_inherent(ctx, "discard_filtration", W, [])
        ctx.equal("discard_filtration", b, ls, m)
    ctx.guarded("discard_filtration", discard)
    pointers(ctx)


FORWARD = {(MO, "column"): [c_], (HRF, "filtration_value"): [r_], (HRF, "column_with_filtration"): [c_], (HCB, "basis"): [],
           (CB, "element"): [i_], (CB, "size"): [], (SBD, "in_dimension"): [d_]}
POINTERS = ("Box", "Rc", "Arc")


def pointers(ctx, only=None):
    """references and smart pointers forward every method"""
    n = 0
    for (tr, name), args in FORWARD.items():
        if only and tr not in only:
            continue
        for im in ctx.prog.impls_of(tr):
            t = ctx.prog.self_ty(im)
            if not (t["k"] == "ref" or str(t.get("adt")).split("::")[-1] in POINTERS):
                continue
            b = im["items"].get(name)
            if b not in ctx.prog.bodies:
                continue
            lbl = "%s of %s" % (name, t["s"])
            n += 1

            def go():
                _, ls = ctx.summary(b, args=[m] + args)
                if (tr, name) in ((MO, "column"), (HRF, "column_with_filtration")):
                    want = mk("stream", colS(m, c_) if tr == MO else fvS(ctx, m, c_))
                    ev = heap.hev(ctx)
                    ctx.equal(lbl, b, ls, want, out=lambda l: colterm(ctx, ev, l), fixed=smp(), funcs=UNKNOWN, mode=same_list,
                              want_panic=lambda I: False)
                else:
                    ctx.equal(lbl, b, ls, app(name, m, *args), fixed=smp(), funcs=UNKNOWN, want_panic=lambda I: False)
            ctx.guarded(lbl, go)
    ctx.require("forwarding implementations", None, n >= (1 if only else 4) or None, "found %d" % n)


# ---------------------------------------------------------------------------------------------------- C05
REV = lambda x: ctor(REVERSE, "Reverse", x)
UNREV = lambda x: field(x, "Reverse", 0)


@rule("C05")
def reversing(ctx):
    nn(ctx)
    heap.use(ctx)
    x = sym("c")
    W = adaptor(ctx, "reverse", MO, "reverse", [m])
    if W is not None:
        check_column(ctx, "reverse: column", W, REV(c_), colS(m, c_, lambda t: tup(field(t, "", 0), REV(field(t, "", 1)))))
        check_value(ctx, "reverse: filtration value", HRF, "filtration_value", W, [REV(r_)], REV(app("filtration_value", m, r_)))
        check_column(ctx, "reverse: column with filtration", W, REV(c_),
                     fvS(ctx, m, c_, lambda r: REV(app("filtration_value", m, r)), REV), trait=HRF, meth="column_with_filtration")
        rev_basis(ctx, "reverse: basis", W, app("basis", m), REV)
        undo(ctx, "unreverse of reverse", W)
    U = adaptor(ctx, "unreverse", MO, "unreverse", [m])
    if U is not None:
        check_column(ctx, "unreverse: column", U, c_, colS(m, REV(c_), lambda t: tup(field(t, "", 0), UNREV(field(t, "", 1)))))
        check_value(ctx, "unreverse: filtration value", HRF, "filtration_value", U, [r_], UNREV(app("filtration_value", m, REV(r_))))
        check_column(ctx, "unreverse: column with filtration", U, c_,
                     fvS(ctx, m, REV(c_), lambda r: UNREV(app("filtration_value", m, r)), UNREV), trait=HRF, meth="column_with_filtration")
        rev_basis(ctx, "unreverse: basis", U, app("basis", m), UNREV, lambda k, D: rb_sample(k, D))
    if W is not None:
        # the generic way back
        def back():
            X = build(ctx, dflt(ctx, MO, "unreverse"), [W])
            check_column(ctx, "unreverse after reverse: column", X, c_, colS(m, c_))
            check_value(ctx, "unreverse after reverse: filtration value", HRF, "filtration_value", X, [r_], app("filtration_value", m, r_))
            _, b, ls = on(ctx, HCB, "basis", X, [])
            B = deref(ctx, the(ls).val)
            check_value(ctx, "unreverse after reverse: elements", CB, "element", B, [i_], app("element", app("basis", m), i_),
                        want_panic=within(app("basis", m)))
        ctx.guarded("unreverse after reverse", back)

    def bases():
        for nm, wrap, fx in (("reverse", REV, smp()), ("unreverse", UNREV, rb_sample)):
            def go():
                B = build(ctx, dflt(ctx, CB, nm), [b_])
                elems(ctx, "basis %s" % nm, B, b_, wrap, fx)
                if nm == "reverse":
                    undo(ctx, "unreverse of a reversed basis", B, b_)
                D = None
                _, b, ls = on(ctx, SBD, "in_dimension", B, [d_])
                D = deref(ctx, the(ls).val)
                elems(ctx, "basis %s in a dimension" % nm, D, app("in_dimension", b_, d_), wrap, fx)
            ctx.guarded("basis " + nm, go)
    bases()


def rb_sample(k, D):
    o = smp()(k, D)
    o[m], o[b_] = 945, 945
    return o


def undo(ctx, name, W, want=m):
    def go():
        b, ls = on_inherent(ctx, "unreverse", W, [])
        ctx.equal(name, b, ls, want)
    try:
        ctx.inherent(W.a[0], "unreverse")
    except Missing:
        return
    ctx.guarded(name, go)


def within(base):
    """a position of the basis must not panic; what happens beyond its end is not specified"""
    return lambda I: False if 0 <= I.val(i_) < I.val(app("size", base)) else None


def elems(ctx, name, B, base, wrap, fx):
    """B lists the elements of base from last to first"""
    n = app("size", base)
    pos = padd(psub(n, I_(1)), pneg_(i_))
    spec = [((lit(lt(i_, n, "i"), 1),), wrap(app("element", base, pos))), ((), None)]
    fs = dict(UNKNOWN)
    if fx is rb_sample:
        # the elements of the wrapped basis are reversed values
        fs["element"] = lambda I, b, i: rev_elem(I, b, i)
    check_value(ctx, name + ": elements", CB, "element", B, [i_], spec, fixed=fx, funcs=fs, want_panic=within(base))
    check_value(ctx, name + ": size", CB, "size", B, [], n, fixed=fx)


def rev_elem(I, b, i):
    r = melem(I, b, i)
    return r if r is None or isinstance(r, tuple) else (C, "Reverse", r)


def pneg_(t):
    return pmul(I_(-1), t)


def rev_basis(ctx, name, W, base, wrap, fx=None):
    def go():
        _, b, ls = on(ctx, HCB, "basis", W, [])
        B = deref(ctx, the(ls).val)
        elems(ctx, name, B, base, wrap, rb_sample if fx else smp())
    ctx.guarded(name, go)


# ---------------------------------------------------------------------------------------------------- C06
def pcol(ml, mr, c):
    t = fresh_bv()
    return mkfor(t, mk("elems", app("column", mr, c)),
                 colS(ml, field(t, "", 1), lambda x: tup(pmul(field(x, "", 0), field(t, "", 0)), field(x, "", 1))))


@rule("C06")
def combinators(ctx):
    nn(ctx)
    heap.use(ctx)
    product(ctx)

    def s():
        W = build(ctx, ctx.find_free("phlite", "sum"), [m, m2])
        check_column(ctx, "sum: column", W, c_, seq(colS(m, c_), colS(m2, c_)), mode=same_sum)
    ctx.guarded("sum", s)
    ctx.guarded("comparing matrices on a column", lambda: eq_on_col(ctx))


def product(ctx):
    def p():
        W = build(ctx, ctx.find_free("phlite", "product"), [m, m2])
        check_column(ctx, "product: column", W, c_, pcol(m, m2, c_), mode=same_sum)
        check_value(ctx, "product: filtration value", HRF, "filtration_value", W, [r_], app("filtration_value", m, r_))
        t = fresh_bv()
        S = mkfor(t, mk("elems", app("column", m2, c_)), colS(m, field(t, "", 1), lambda x: ctx.prog.entry(
            app("filtration_value", m, field(x, "", 1)), field(x, "", 1), pmul(field(x, "", 0), field(t, "", 0)))))
        check_column(ctx, "product: column with filtration", W, c_, S, trait=HRF, meth="column_with_filtration",
                     mode=lambda I, g, w: formal(I, I.items(g)) == formal(I, I.items(w)))
        check_basis(ctx, "product: basis", W, app("basis", m2))
    ctx.guarded("product", p)


def eq_on_col(ctx):
    b = dflt(ctx, MO, "eq_on_col")
    _, ls = ctx.summary(b, args=[m, m2, c_], ev=heap.hev(ctx))

    def col(I, mt, c):
        rnd = random.Random(_h("eq", I.seed, norm(c)))
        base = []
        for _ in range(rnd.randrange(1, 5)):
            base.append((rnd.choice([-2, -1, 1, 2]), 100 + rnd.randrange(3)))
        if norm(mt) == 901:
            kind = rnd.randrange(6)
            if kind == 0:
                base = base[:-1]
            elif kind == 1:
                base = [(c + 1 if c != -1 else 1, r) if j == 0 else (c, r) for j, (c, r) in enumerate(base)]
            elif kind == 2:
                base = [(c, r + 1 if j == len(base) - 1 else r) for j, (c, r) in enumerate(base)]
            elif kind == 3:
                # the same sum written differently
                rnd.shuffle(base)
                base = base + [(1, 103), (-1, 103)]
            elif kind == 4:
                rnd.shuffle(base)
                base = base + [(1, 101), (1, 101), (-2, 101)]
        return slist([(C, "", c, r) for c, r in base])
    fs = dict(UNKNOWN)
    fs["column"] = col
    cnt = {0: 0, 1: 0}

    def want(I):
        e = int(fsum_equal(I, I.items(col(I, 900, I.fixed[c_])), I.items(col(I, 901, I.fixed[c_]))))
        cnt[e] += 1
        return e
    ctx.equal("comparing matrices on a column", b, ls, want, fixed=smp(), funcs=fs, want_panic=lambda I: False)


# ---------------------------------------------------------------------------------------------------- C07
@rule("C07")
def with_filtration(ctx):
    """column_with_filtration = column enriched with the row filtration, for every implementor"""
    nn(ctx)
    heap.use(ctx)
    b = dflt(ctx, HRF, "column_with_filtration")
    ev, ls = ctx.summary(b, args=[m, c_])
    ctx.equal("default column with filtration", b, ls, mk("stream", fvS(ctx, m, c_)), out=lambda l: colterm(ctx, ev, l), fixed=smp(),
              funcs=UNKNOWN, mode=same_list, want_panic=lambda I: False)

    def heapcol():
        b = dflt(ctx, HRF, "build_bhcol")
        ev, ls = ctx.summary(b, args=[m, c_], ev=heap.hev(ctx))
        w = mk("stream", fvS(ctx, m, c_))
        ctx.equal("building a heap column", b, ls, lambda I: I.val(w), mode=lambda I, g, x: ms_equal(I, entries(I, g), I.items(x)),
                  fixed=smp(), funcs=UNKNOWN, want_panic=lambda I: False)
    ctx.guarded("building a heap column", heapcol)

    def empty():
        b = dflt(ctx, HRF, "empty_bhcol")
        ev, ls = ctx.summary(b, args=[m])
        ctx.equal("an empty heap column", b, ls, lambda I: 0, mode=lambda I, g, x: entries(I, g) == [], fixed=smp(), funcs=UNKNOWN,
                  want_panic=lambda I: False)
    ctx.guarded("an empty heap column", empty)
    # phlite's own implementors, built through their constructors
    agreed_adts = set()
    W = adaptor(ctx, "reverse", MO, "reverse", [m])
    if W is not None:
        agree(ctx, "reverse", W, REV(c_))
    U = adaptor(ctx, "unreverse", MO, "unreverse", [m])
    if U is not None:
        agree(ctx, "unreverse", U, c_)
    Pr = ctx.guarded("product", lambda: build(ctx, ctx.find_free("phlite", "product"), [m, m2]))
    if Pr is not None:
        agree(ctx, "product", Pr, c_)
    for nm, tr, args in (("with_trivial_filtration", MO, [m]), ("with_filtration", MO, [m, f_]), ("with_basis", MO, [m, b_]),
                         ("sub_matrix_in_dimension", HCB, [m, d_]), ("cache_cols", MO, [m])):
        W = adaptor(ctx, nm, tr, nm, args)
        if W is not None:
            agree(ctx, nm, W, c_)
            agreed_adts.add(W.a[0])
    W = adaptor(ctx, "consolidate", MO, "consolidate", [m])
    if W is not None:
        own = [im for im in ctx.prog.impls_of(HRF) if ctx.prog.self_adt(im) == W.a[0]]
        if len(own) == 1 and "column_with_filtration" in own[0]["items"] and "build_bhcol" not in own[0]["items"]:
            # its column lists each row once, so its enriched column has to do so too
            check_column(ctx, "consolidate: column with filtration agrees", W, c_, fvS(ctx, m, c_), mode=entries_once(ctx),
                         trait=HRF, meth="column_with_filtration")
            agreed_adts.add(W.a[0])
    pointers(ctx, (HRF,))
    overriders(ctx, agreed_adts)


def first_value(I, leaves, extra):
    """value of a summary under extra assignments; None where it panics"""
    J = Interp(I.seed, I.D, dict(I.fixed, **{}), funcs=I.funcs)
    J.fixed.update(extra)
    hit = interp.active(J, leaves)
    if not hit or hit == "panic":
        return None
    return J.val(hit[0].val)


def agreement(ctx, name, b, cwf, col, fv, row, fixed, funcs):
    """summary of an enriched column against the summaries of the plain column and of the filtration of the same matrix"""
    ctx.equal(name, b, cwf, agreed(ctx, col, fv, row), fixed=fixed, funcs=funcs, mode=same_list, want_panic=lambda I: False)


def agreed(ctx, col, fv, row):
    """the enriched column by the summaries of the plain column and of the filtration"""
    E = ctx.prog.ventry

    def want(I):
        xs = first_value(I, col, {})
        if xs is None:
            raise Undef("column panics")
        out = []
        for x in I.items(xs):
            r = I.fieldof(x, "", 1)
            f = first_value(I, fv, {row: r})
            if f is None:
                raise Undef("filtration value panics")
            out.append(E(f, r, I.fieldof(x, "", 0)))
        return slist(out)
    return want


def overriders(ctx, agreed=()):
    """every implementation in the workspace: either it uses the default methods (whose agreement is decided once), or it is compared"""
    over = ("column_with_filtration", "build_bhcol", "empty_bhcol")
    known = {"ReverseMatrix", "UnreverseMatrix", "Product"}
    n = 0
    for im in ctx.prog.impls_of(HRF):
        t = ctx.prog.self_ty(im)
        mine = [x for x in over if x in im["items"]]
        n += 1
        nm = str(t.get("adt")).split("::")[-1]
        if not mine:
            ctx.add("agreement of " + t["s"], ctx.at(im["items"]["filtration_value"]), OK, "uses the default column_with_filtration")
        elif t["k"] == "ref" or nm in POINTERS or (nm in known or t.get("adt") in agreed) and "empty_bhcol" not in mine:
            pass
        elif mine == ["column_with_filtration"] and nm in SPECIAL:
            ctx.guarded("agreement of " + nm, lambda: SPECIAL[nm](ctx, t["adt"]), ctx.at(im["items"][mine[0]]))
        else:
            ctx.add("agreement of " + t["s"], ctx.at(im["items"][mine[0]]), UNDEC, "overrides " + ", ".join(mine))
    ctx.require("implementations of the row filtration", None, n >= 4 or None, "found %d" % n)


def rips_agree(ctx, adt):
    from rules import rips
    R = rips.Rips(ctx)
    w = R.index(rips.usym("w"))
    fs = {}

    def summ(trait, meth, arg):
        b = ctx.method(trait, adt, meth)
        _, ls = ctx.summary(b, args=[R.matrix(adt), arg])
        for l in ls:
            if l.kind == "ret":
                for x in local_iters(l.val):
                    fs[x.a[0]] = rips.iterator_contract(ctx, R, x.a[0][5:])
        return b, ls
    row = sym("$row")
    b, cwf = summ(HRF, "column_with_filtration", w)
    _, col = summ(MO, "column", w)
    _, fv = summ(HRF, "filtration_value", row)
    agreement(ctx, "agreement of " + adt.split("::")[-1], b, cwf, col, fv, row, R.sample(), fs)


SPECIAL = {"RipsBoundary": rips_agree, "RipsCoboundary": rips_agree}


def agree(ctx, name, W, col):
    """column_with_filtration of W against its own column and filtration_value"""
    def go():
        ev, b, ls = on(ctx, HRF, "column_with_filtration", W, [col])
        ev2, _, lc = on(ctx, MO, "column", W, [col])
        x = sym("$row")
        _, _, lf = on(ctx, HRF, "filtration_value", W, [x])
        if [len([l for l in ls if l.kind == "ret"]) for ls in (lc, lf)] == [1, 1]:
            S = colterm(ctx, ev2, the(lc, "column"))
            F = the(lf, "filtration value").val
            want = mk("stream", bind(S.a[0], lambda t: one(ctx.prog.entry(subst(F, {x: field(t, "", 1)}), field(t, "", 1), field(t, "", 0)))))
            value = lambda I: I.val(want)
        else:
            lc = [Leaf(l.kind, l.st, colterm(ctx, ev2, l) if l.kind == "ret" else l.val, l.at) for l in lc]
            want = value = agreed(ctx, lc, lf, x)
        ctx.equal(name + ": column with filtration agrees", b, ls, want, out=lambda l: colterm(ctx, ev, l), fixed=smp(), funcs=UNKNOWN,
                  mode=same_list, want_panic=lambda I: False)

        hb = ctx.method(HRF, W.a[0], "build_bhcol")
        st = State()
        p = cell(st, "self", reify(ctx, st, W))
        _, lh = ctx.summary(hb, args=[p, col], st=st, ev=heap.hev(ctx))
        ctx.equal(name + ": heap column agrees", hb, lh, value, mode=lambda I, g, w: ms_equal(I, entries(I, g), I.items(w)),
                  fixed=smp(), funcs=UNKNOWN, want_panic=lambda I: False)
    ctx.guarded(name + ": column with filtration agrees", go)
