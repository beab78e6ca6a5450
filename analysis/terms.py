"""Value terms: the abstract domain.

Every MIR value is abstracted to a hash-consed term over uninterpreted symbols
(parameters, trait-method results, container contents).  Arithmetic is kept in
polynomial normal form; iterator pipelines and loops are kept as *streams*
(comprehensions).  Two program fragments that compute the same thing in a
different way normally get the same term, which is what makes the rules
independent of how the code is written.
"""
from collections import defaultdict

_tab = {}
_next = [0]


class T(object):
    __slots__ = ("op", "a", "id", "_lv", "_syms")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _next[0]
        t._lv = None
        t._syms = None
        _next[0] += 1
        _tab[k] = t
    return t


def isT(x):
    return isinstance(x, T)


def subterms(t):
    """direct T children (descending into tuples)"""
    out = []
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(subterms(x))


def contains(t, pred):
    for x in walk(t):
        if pred(x):
            return True
    return False


def has(t, u):
    return contains(t, lambda x: x is u)


UNIT = mk("unit")


def I(n):
    return mk("int", n)


TRUE, FALSE = I(1), I(0)


def sym(name, ty=None):
    return mk("sym", name)


_fresh = [0]


def fresh_bv():
    _fresh[0] += 1
    return mk("tmp", _fresh[0])


def app(f, *a):
    return mk("app", f, *a)


def unk(why, *a):
    return mk("unk", why, *a)


# ------------------------------------------------------------------ polynomials
def P(t):
    if t.op == "int":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict((m, c) for c, m in t.a)
    return {((t, 1),): 1}


def fromP(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return I(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(d.items(), key=lambda kv: tuple((t.id, e) for t, e in kv[0]))
    return mk("poly", *[(c, m) for m, c in items])


def padd(a, b, k=1):
    r = dict(P(a))
    for m, c in P(b).items():
        r[m] = r.get(m, 0) + k * c
    return fromP(r)


def psub(a, b):
    return padd(a, b, -1)


def pneg(a):
    return fromP({m: -c for m, c in P(a).items()})


def _mulmono(m, n):
    d = {}
    for t, e in m + n:
        d[t] = d.get(t, 0) + e
    # x * inv(x) = 1
    for t in list(d):
        if t.op == "app" and t.a[0] == "inv" and t in d:
            u = t.a[1]
            while d.get(t, 0) > 0 and d.get(u, 0) > 0:
                d[t] -= 1
                d[u] -= 1
    return tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda p: p[0].id))


def pmul(a, b):
    r = {}
    pa, pb = P(a), P(b)
    for m, c in pa.items():
        for n, e in pb.items():
            k = _mulmono(m, n)
            r[k] = r.get(k, 0) + c * e
    return fromP(r)


def ppow(a, n):
    r = I(1)
    for _ in range(n):
        r = pmul(r, a)
    return r


# ------------------------------------------------------------------ data
OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"


COW = "alloc::borrow::Cow"


def ctor(adt, var, *f):
    if adt == COW and len(f) == 1:
        return f[0]             # a Cow stands for what it holds
    if f and var != "None":
        # eta: S(x.0, x.1, ...) = x for structs, Some(x as Some .0) = x
        x = f[0]
        if x.op == "field" and x.a[1] == var and x.a[2] == 0:
            base = x.a[0]
            if all(g.op == "field" and g.a[0] is base and g.a[1] == var and g.a[2] == i
                   for i, g in enumerate(f)) and adt not in (OPT, RES, CF, "tuple"):
                return base
            if adt == "tuple" and all(
                    g.op == "field" and g.a[0] is base and g.a[1] == var and g.a[2] == i
                    for i, g in enumerate(f)):
                return base
    return mk("ctor", adt, var, *f)


def tupvar(n):
    """projection tag of n-tuples (pairs are the untagged common case)"""
    return "" if n == 2 else "t%d" % n


def tup(*f):
    if not f:
        return UNIT
    return ctor("tuple", tupvar(len(f)), *f)


NONE = mk("ctor", OPT, "None")


def some(x):
    return mk("ctor", OPT, "Some", x)


def is_ctor(t, adt=None, var=None):
    return t.op == "ctor" and (adt is None or t.a[0] == adt) and (var is None or t.a[1] == var)


def fields(t):
    return t.a[2:]


def field(t, var, i):
    """projection; var is the variant name ('' for tuples, the struct name for structs)"""
    if t.op == "ctor":
        f = t.a[2:]
        if i < len(f):
            return f[i]
    if t.op == "clo":
        return t.a[1 + i]
    if t.op == "upd":
        base, k, v = t.a
        if k == ("f", var, i):
            return v
        if k[0] == "f":
            return field(base, var, i)
    if t.op == "ite":
        return ite(t.a[0], t.a[1], field(t.a[2], var, i), field(t.a[3], var, i))
    if i == 0 and var in ("Owned", "Borrowed"):
        return t
    if i == 0 and var in ("Some", "Ok", "Continue"):
        if t.op == "nz" or t.op == "chk":
            return t.a[0]
        if t.op == "app":
            h = t.a[0]
            if h == "sget":
                return index(t.a[1], t.a[2])
            if h == "lastopt":
                return index(t.a[1], psub(vlen(t.a[1]), I(1)))
            if h == "get":
                return app("at", t.a[1], t.a[2])
            if h in ("maxof", "minof"):
                return EXT("MAX" if h == "maxof" else "MIN", t.a[1])
            if h == "headopt":
                return app("head", t.a[1])
    return mk("field", t, var, i)


def ite(c, v, a, b):
    if a is b:
        return a
    return mk("ite", c, v, a, b)


# ------------------------------------------------------------------ conditions
def lt(a, b, k="o"):
    """a < b in a total order; k: 'i' integers (unsigned unless proven), 'o' other"""
    if k in ("i", "s"):
        d = psub(b, a)
        if d.op == "int":
            return TRUE if d.a[0] > 0 else FALSE
        a, b = _normdiff(a, b)
        return mk("lt", a, b, k)
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] < b.a[0] else FALSE
    return mk("lt", a, b, k)


def _normdiff(a, b):
    """move everything so that both sides have positive coefficients"""
    d = P(psub(b, a))
    l = {m: -c for m, c in d.items() if c < 0}
    r = {m: c for m, c in d.items() if c > 0}
    return fromP(l), fromP(r)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return FALSE
    if a.op == "poly" or b.op == "poly" or a.op == "int" or b.op == "int":
        d = psub(a, b)
        if d.op == "int":
            return TRUE if d.a[0] == 0 else FALSE
        a, b = _normdiff(a, b)
    if a.op == "ctor" and b.op == "ctor":
        if a.a[0] == b.a[0] and (a.a[1] != b.a[1] or len(a.a) != len(b.a)):
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def neg(c):
    if c.op == "int":
        return I(1 - c.a[0])
    if c.op == "not":
        return c.a[0]
    return mk("not", c)


# ------------------------------------------------------------------ streams
EMPTY = mk("empty")


def one(x):
    return mk("one", x)


def seq(*ss):
    out = []
    for s in ss:
        if s.op == "empty":
            continue
        if s.op == "seq":
            out.extend(s.a)
        else:
            out.append(s)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("seq", *out)


LTRUE = mk("lit", TRUE, 1)
LFALSE = mk("lit", TRUE, 0)


def lit(c, v):
    """literal: condition c has value v (v an int, or ('no', v1, v2...) = none of these)"""
    if isinstance(v, tuple) and len(v) == 2 and (is_boolcond(c) or c.op == "not"):
        v = 1 - v[1]
    while c.op == "not":
        c = c.a[0]
        v = 1 - v
    if c.op == "int":
        ok = (c.a[0] not in v[1:]) if isinstance(v, tuple) else c.a[0] == v
        return LTRUE if ok else LFALSE
    return mk("lit", c, v)


def is_boolcond(c):
    return c.op in ("lt", "eq", "discr2") or (c.op == "app" and c.a[0] in BOOLFN)


BOOLFN = {"fits", "fpred", "contains", "nonempty", "flt", "fle", "feq", "any", "bool"}


def case(branches):
    """branches: [(lits, stream)] of mutually exclusive guards; missing cases are empty"""
    out = []
    for ls, s in branches:
        if s.op == "empty":
            continue
        l2, dead = [], False
        for l in ls:
            if l is LFALSE:
                dead = True
                break
            if l is not LTRUE and l not in l2:
                l2.append(l)
        if dead:
            continue
        if s.op == "case":
            for m, t in s.a:
                out.append((tuple(l2) + tuple(x for x in m if x not in l2), t))
        else:
            out.append((tuple(l2), s))
    if not out:
        return EMPTY
    if len(out) == 1 and not out[0][0]:
        return out[0][1]
    return mk("case", *out)


def merge_leaves(leaves, key):
    """leaves: [(lits tuple, payload)] of a complete decision tree; merge leaves with equal key that differ
    in one literal with complementary values"""
    ls = [(tuple(l), p) for l, p in leaves]
    changed = True
    while changed:
        changed = False
        for i in range(len(ls)):
            for j in range(i + 1, len(ls)):
                if key(ls[i][1]) != key(ls[j][1]):
                    continue
                a, b = set(ls[i][0]), set(ls[j][0])
                d1, d2 = a - b, b - a
                if len(d1) == 1 and len(d2) == 1:
                    x, y = d1.pop(), d2.pop()
                    if x.a[0] is y.a[0] and complementary(x.a[0], x.a[1], y.a[1]):
                        ls[i] = (tuple(l for l in ls[i][0] if l is not x), ls[i][1])
                        del ls[j]
                        changed = True
                        break
            if changed:
                break
    return ls


def complementary(c, v, w):
    if isinstance(v, int) and isinstance(w, int):
        return is_boolcond(c) and {v, w} == {0, 1}
    if isinstance(v, tuple) and isinstance(w, int):
        return v == ("no", w)
    if isinstance(w, tuple) and isinstance(v, int):
        return w == ("no", v)
    return False


def case_tree(branches):
    return case(merge_leaves(branches, lambda s: s.id))


def level(t):
    """1 + max canonical binder index below t"""
    if t._lv is None:
        m = 0
        st = [t]
        for x in subterms(t):
            m = max(m, level(x))
        if t.op == "for":
            m = max(m, t.a[0].a[0] + 1)
        if t.op == "lam":
            for v in t.a[0]:
                m = max(m, v.a[0] + 1)
        t._lv = m
    return t._lv


def subst(t, mp, memo=None):
    """simultaneous substitution of terms by terms, rebuilding with the smart constructors"""
    if not mp:
        return t
    memo = {} if memo is None else memo
    return _subst(t, mp, memo)


def _sa(x, mp, memo):
    if isinstance(x, T):
        return _subst(x, mp, memo)
    if isinstance(x, tuple):
        return tuple(_sa(y, mp, memo) for y in x)
    return x


def _subst(t, mp, memo):
    r = memo.get(t)
    if r is not None:
        return r
    r = mp.get(t)
    if r is None:
        na = tuple(_sa(x, mp, memo) for x in t.a)
        if na == t.a:
            r = t
        else:
            r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    f = _rebuild.get(op)
    return f(*a) if f else mk(op, *a)


def _rpoly(*items):
    r = I(0)
    for c, m in items:
        x = I(c)
        for t, e in m:
            if e < 0:
                x = pmul(x, fromP({((t, e),): 1}))
            else:
                x = pmul(x, ppow(t, e))
        r = padd(r, x)
    return r


def mkfor(tmp, dom, body):
    """for tmp in dom: body  (body a stream; tmp a temporary bound variable)"""
    if body.op == "empty":
        return EMPTY
    if dom.op == "range":
        lo, hi = dom.a
        if lo is hi:
            return EMPTY
        d = psub(hi, lo)
        if d.op == "int":
            if d.a[0] <= 0:
                return EMPTY
            if d.a[0] <= 4:
                return seq(*[subst(body, {tmp: padd(lo, I(k))}) for k in range(d.a[0])])
        if not (lo.op == "int" and lo.a[0] == 0):
            # shift to start at 0
            body = subst(body, {tmp: padd(lo, tmp)})
            dom = mk("range", I(0), d)
    h = level(body)
    b = mk("bv", h)
    return mk("for", b, dom, subst(body, {tmp: b}))


def open_for(s):
    """-> (fresh tmp, dom, body)"""
    t = fresh_bv()
    return t, s.a[1], subst(s.a[2], {s.a[0]: t})


def lam(tmps, body):
    h = level(body)
    vs = tuple(mk("bv", h + i) for i in range(len(tmps)))
    return mk("lam", vs, subst(body, dict(zip(tmps, vs))))


def apply_lam(l, args):
    return subst(l.a[1], dict(zip(l.a[0], args)))


def bind(S, f):
    """flat_map f over stream S"""
    if S.op == "empty":
        return EMPTY
    if S.op == "one":
        return f(S.a[0])
    if S.op == "seq":
        return seq(*[bind(s, f) for s in S.a])
    if S.op == "case":
        return case([(l, bind(s, f)) for l, s in S.a])
    if S.op == "for":
        t, d, b = open_for(S)
        return mkfor(t, d, bind(b, f))
    if S.op == "rev":
        # reversal does not change which elements there are; keep it outermost
        return rev(bind(S.a[0], f))
    t = fresh_bv()
    return mkfor(t, mk("elems", S), f(t))


def rev(S):
    if S.op in ("empty", "one"):
        return S
    if S.op == "rev":
        return S.a[0]
    return mk("rev", S)


def rng(lo, hi):
    t = fresh_bv()
    return mkfor(t, mk("range", lo, hi), one(t))


def smap(S, f):
    return bind(S, lambda x: one(f(x)))


def _rfor(b, d, body):
    # substitution never captures: binders are canonical levels and substituted terms are closed or tmp
    t = fresh_bv()
    body = subst(body, {b: t})
    if d.op not in ("range", "elems"):
        return bind(d, lambda x: subst(body, {t: x}))
    return mkfor(t, d, body)


def _rlam(vs, body):
    ts = [fresh_bv() for _ in vs]
    return lam(ts, subst(body, dict(zip(vs, ts))))


def elems(x):
    if x.op == "vec":
        return x.a[0]
    return mk("elems", x)


# vectors -------------------------------------------------------------
def vec(S):
    # vec(for i<len v. v[i]) = v
    if S.op == "for" and S.a[1].op == "range" and S.a[2].op == "one":
        hi = S.a[1].a[1]
        x = S.a[2].a[0]
        if x.op == "app" and x.a[0] == "index" and x.a[2] is S.a[0] and hi.op == "app" and hi.a[0] == "len" \
                and hi.a[1] is x.a[1]:
            return x.a[1]
    return mk("vec", S)


def viter(v):
    """stream of elements of a sequence value"""
    if v.op == "vec":
        return v.a[0]
    if v.op == "append":
        return seq(viter(v.a[0]), v.a[1])
    if v.op == "array":
        return seq(*[one(x) for x in v.a])
    if v.op == "app" and v.a[0] == "slice":
        b, lo, hi = v.a[1:]
        t = fresh_bv()
        return mkfor(t, mk("range", lo, hi), one(index(b, t)))
    if v.op == "app" and v.a[0] == "sorted":
        t = fresh_bv()
        return mkfor(t, mk("elems", v), one(t))
    t = fresh_bv()
    return mkfor(t, mk("range", I(0), vlen(v)), one(index(v, t)))


def vlen(v):
    if v.op == "vec":
        return count(v.a[0])
    if v.op == "array":
        return I(len(v.a))
    if v.op == "append":
        return padd(vlen(v.a[0]), count(v.a[1]))
    if v.op == "store":
        return vlen(v.a[0])
    if v.op == "app" and v.a[0] == "slice":
        return psub(v.a[3], v.a[2])
    if v.op == "app" and v.a[0] in ("sorted", "sorted_by", "sorted_key") and isT(v.a[1]):
        return vlen(v.a[1])
    return app("len", v)


def index(v, i):
    if v.op == "vec":
        S = v.a[0]
        if S.op == "for" and S.a[1].op == "range" and S.a[2].op == "one":
            return subst(S.a[2].a[0], {S.a[0]: i})
        if i.op == "int" and S.op in ("seq", "one"):
            parts = S.a if S.op == "seq" else (S,)
            if all(p.op == "one" for p in parts) and i.a[0] < len(parts):
                return parts[i.a[0]].a[0]
    if v.op == "array" and i.op == "int" and i.a[0] < len(v.a):
        return v.a[i.a[0]]
    if v.op == "app" and v.a[0] == "slice":
        return index(v.a[1], padd(v.a[2], i))
    if v.op == "store":
        if v.a[1] is i:
            return v.a[2]
        if v.a[1].op == "int" and i.op == "int":
            return index(v.a[0], i)
    return app("index", v, i)


def append(v, S):
    if S.op == "empty":
        return v
    if v.op == "vec":
        return vec(seq(v.a[0], S))
    if v.op == "append":
        return mk("append", v.a[0], seq(v.a[1], S))
    return mk("append", v, S)


def acc(kind, base, S):
    """accumulating containers: kind in 'map','set','bh'; S the stream of inserted things, in order"""
    if S.op == "empty":
        return base
    if base.op == "acc" and base.a[0] == kind:
        return mk("acc", kind, base.a[1], seq(base.a[2], S))
    return mk("acc", kind, base, S)


# reductions -----------------------------------------------------------
def SUM(S):
    if S.op == "empty":
        return I(0)
    if S.op == "one":
        return S.a[0]
    if S.op == "seq":
        r = I(0)
        for s in S.a:
            r = padd(r, SUM(s))
        return r
    if S.op == "for":
        b, d, body = S.a
        if d.op == "range" and body.op == "one" and not has(body.a[0], b):
            return pmul(psub(d.a[1], d.a[0]), body.a[0])
    if S.op == "rev":
        return SUM(S.a[0])
    return app("SUM", S)


def count(S):
    return SUM(bind(S, lambda x: one(I(1))))


def _unrev(S):
    return S.a[0] if S.op == "rev" else S


def EXT(kind, S):
    """kind 'MAX' | 'MIN' of a stream of totally ordered values"""
    parts = []

    def go(s):
        if s.op == "seq":
            for x in s.a:
                go(x)
        elif s.op == "rev":
            go(s.a[0])
        elif s.op == "one" and s.a[0].op == "ext" and s.a[0].a[0] == kind:
            go(s.a[0].a[1])
        elif s.op == "empty":
            pass
        else:
            if s not in parts:
                parts.append(s)
    go(S)
    if len(parts) == 1 and parts[0].op == "one":
        return parts[0].a[0]
    parts.sort(key=lambda s: s.id)
    return mk("ext", kind, seq(*parts))


def MAX2(a, b):
    return EXT("MAX", seq(one(a), one(b)))


def MIN2(a, b):
    return EXT("MIN", seq(one(a), one(b)))


def _rctor(adt, var, *f):
    return ctor(adt, var, *f)


def discr(t, n=None):
    if t.op == "ctor":
        d = DISCR.get((t.a[0], t.a[1]))
        if d is not None:
            return I(d)
    if t.op == "chk":
        return app("fits", t.a[0], t.a[1])
    if t.op == "nz":
        return neg(eq(t.a[0], I(0)))
    if t.op == "app" and t.a[0] == "sget":  # slice get
        return lt(t.a[2], vlen(t.a[1]), "i")
    if t.op == "app" and t.a[0] == "lastopt":
        return lt(I(0), vlen(t.a[1]), "i")
    if t.op == "app" and t.a[0] in ("maxof", "minof", "headopt"):
        return nonempty(t.a[1])
    return mk("discr2" if n == 2 else "discr", t)


def nonempty(S):
    if S.op == "empty":
        return FALSE
    if S.op == "one" or (S.op == "seq" and any(x.op == "one" for x in S.a)):
        return TRUE
    if S.op == "for" and S.a[1].op == "range" and S.a[2].op == "one":
        return lt(S.a[1].a[0], S.a[1].a[1], "i")
    return app("nonempty", S)


def head(S):
    while S.op == "seq":
        S = S.a[0]
    if S.op == "one":
        return S.a[0]
    if S.op == "for" and S.a[1].op == "range" and S.a[2].op == "one":
        return subst(S.a[2].a[0], {S.a[0]: I(0)})
    return app("head", S)


def pow_(b, e):
    if e.op == "int" and 0 <= e.a[0] <= 6:
        return ppow(b, e.a[0])
    if e.op == "poly":
        # b^(e+k) = b^e * b^k
        k = dict((m, c) for c, m in e.a).get((), 0)
        if k > 0:
            return pmul(app("pow", b, psub(e, I(k))), ppow(b, k))
    return app("pow", b, e)


def slice_(v, lo, hi):
    if lo.op == "int" and lo.a[0] == 0 and hi is vlen(v):
        return v
    if v.op == "app" and v.a[0] == "slice":
        return app("slice", v.a[1], padd(v.a[2], lo), padd(v.a[2], hi))
    return app("slice", v, lo, hi)


def contains_(s, x):
    return app("contains", s, x)


DISCR = {(OPT, "None"): 0, (OPT, "Some"): 1, (RES, "Ok"): 0, (RES, "Err"): 1, (CF, "Continue"): 0,
         (CF, "Break"): 1,
         ("core::cmp::Ordering", "Less"): -1, ("core::cmp::Ordering", "Equal"): 0,
         ("core::cmp::Ordering", "Greater"): 1}


def _rapp(f, *a):
    if f == "index" and len(a) == 2:
        return index(*a)
    if f == "len" and len(a) == 1:
        return vlen(a[0])
    if f == "SUM":
        return SUM(a[0])
    if f == "nonempty":
        return nonempty(a[0])
    if f == "head":
        return head(a[0])
    if f == "pow":
        return pow_(a[0], a[1])
    if f == "slice":
        return slice_(*a)
    if f == "contains" and a[0].op == "acc":
        return contains_(*a)
    if f == "trunc" and a[1].op == "int":
        return a[1]
    if f in ("div", "rem") and a[0].op == "int" and a[1].op == "int" and a[1].a[0]:
        x, y = a[0].a[0], a[1].a[0]
        q = abs(x) // abs(y) if (x < 0) == (y < 0) else -(abs(x) // abs(y))
        return I(q if f == "div" else x - q * y)
    return mk("app", f, *a)


_rebuild = {
    "poly": _rpoly, "ctor": _rctor, "field": field, "lt": lt, "eq": eq, "not": neg, "seq": seq,
    "case": lambda *b: case(list(b)), "lit": lit, "for": _rfor, "lam": _rlam, "vec": vec, "append": append, "acc": acc,
    "ext": EXT, "app": _rapp, "discr": discr, "discr2": lambda t: discr(t, 2), "rev": rev, "ite": ite, "one": one, "elems": elems,
}


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "int":
        return str(a[0])
    if o == "unit":
        return "()"
    if o == "sym":
        return str(a[0])
    if o == "bv":
        return "x%d" % a[0]
    if o == "tmp":
        return "t%d" % a[0]
    if o == "poly":
        r = []
        for c, m in a:
            ms = "*".join(s(x) + ("^%d" % e if e != 1 else "") for x, e in m)
            if not ms:
                r.append(str(c))
            elif c == 1:
                r.append(ms)
            elif c == -1:
                r.append("-" + ms)
            else:
                r.append("%d*%s" % (c, ms))
        return "(" + " + ".join(r) + ")"
    if o == "ctor":
        n = a[1] or ""
        return n + "(" + ", ".join(s(x) for x in a[2:]) + ")" if len(a) > 2 else n
    if o == "field":
        return "%s.%s%s" % (s(a[0]), (str(a[1]) + "#") if a[1] not in ("", None) else "", a[2])
    if o == "app":
        f = str(a[0])
        return f.split("::")[-1] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if o == "lt":
        return "%s < %s" % (s(a[0]), s(a[1]))
    if o == "eq":
        return "%s == %s" % (s(a[0]), s(a[1]))
    if o == "not":
        return "!(%s)" % s(a[0])
    if o == "one":
        return "[%s]" % s(a[0])
    if o == "empty":
        return "[]"
    if o == "seq":
        return " ++ ".join(s(x) for x in a)
    if o == "for":
        return "{%s in %s: %s}" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "range":
        return "%s..%s" % (s(a[0]), s(a[1]))
    if o == "case":
        return "case{" + "; ".join("%s -> %s" % (" & ".join(showlit(l, d + 1) for l in ls), s(x)) for ls, x in a) + "}"
    if o == "clo":
        return "closure"
    if o == "ext":
        return "%s{%s}" % (a[0].lower(), s(a[1]))
    if o == "lit":
        return showlit(t, d)
    return o + "(" + ", ".join(s(x) for x in a) + ")"


def showlit(l, d=0):
    c, v = l.a
    if c.op in ("lt", "eq") or (c.op == "app"):
        return show(c, d + 1) if v == 1 else "!(%s)" % show(c, d + 1)
    return "%s=%s" % (show(c, d + 1), v)


INTS = {"u8": (0, 2 ** 8 - 1), "u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "usize": (0, 2 ** 64 - 1),
        "i8": (-2 ** 7, 2 ** 7 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1),
        "isize": (-2 ** 63, 2 ** 63 - 1)}


def complement(a, ty):
    """`!a`: the negation of a truth value, the bitwise complement of an integer"""
    if ty is not None and ty["k"] == "prim" and ty["s"] in INTS:
        lo, hi = INTS[ty["s"]]
        return psub(mk("int", hi + lo), a)
    return neg(a)
