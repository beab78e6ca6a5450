"""Deciding equality of summaries (value terms) modulo the theory of the domain.

Identical normal forms are equal.  For two different normal forms this module looks for a *separating
interpretation* (random interpretation in the sense of Gulwani & Necula, POPL'04): every uninterpreted symbol and
function of the term algebra is given a random finite meaning, arithmetic and comprehensions their real one.  Two
summaries that differ under an interpretation are different functions; two that never do are treated as equal, so a
rewrite the normal form does not see through is never reported.  Nothing of the analysed program is executed."""
import random, zlib, time, struct, re, math
from fractions import Fraction
from terms import *


ROUND = False       # quotients of floats are rounded


class Undef(Exception):
    """meaningless under this interpretation (out of range, division by zero, panic)"""


class OutOfRange(Undef):
    """an index beyond the end of a known sequence"""


class Opaque(Exception):
    """the term contains something the analysis did not understand"""


class Panics(Undef):
    """a loop panics under this interpretation"""


class Diverges(Panics):
    """a loop comes back to a state it was in before: it never ends"""


class O(object):
    """an opaque value: just a number, with structure given by hashing"""


def TUPLE(v):
    return v[:1] == "t" and v[1:].isdigit()


VARIANTS = {}       # position of the variants of the program's own enums (None where a name is ambiguous)
C = "C"      # ("C", variant, fields...)
V = "V"      # ("V", (items...))
ST = "ST"    # stream: ("ST", (items...))


class GF(Fraction):
    """an element of the prime field of p elements: mixed with plain numbers, these are read modulo p"""

    def __new__(cls, v, p):
        if isinstance(v, Fraction):
            v = v.numerator * pow(v.denominator, -1, p)
        self = Fraction.__new__(cls, int(v) % p)
        self.p = p
        return self

    def __add__(self, o):
        return GF(int(self) + int(GF(o, self.p)), self.p)

    def __mul__(self, o):
        return GF(int(self) * int(GF(o, self.p)), self.p)

    def __pow__(self, e):
        if e < 0 and self == 0:
            raise ZeroDivisionError("inverse of 0")
        return GF(pow(int(self), int(e), self.p), self.p)

    def __neg__(self):
        return GF(-int(self), self.p)

    def __sub__(self, o):
        return self + (-GF(o, self.p))

    def __rsub__(self, o):
        return (-self) + o

    def __truediv__(self, o):
        return self * GF(o, self.p) ** -1

    def __rtruediv__(self, o):
        return self ** -1 * o

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            return int(self) == int(GF(o, self.p)) if not isinstance(o, Fraction) or o.denominator % self.p else False
        return NotImplemented

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(int(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (GF, (int(self), self.p))
    __radd__ = __add__
    __rmul__ = __mul__


def is_num(x):
    return isinstance(x, (int, Fraction))


def big(x):
    return (x.bit_length() if isinstance(x, int) else x.numerator.bit_length() + x.denominator.bit_length()) > 3000


_free = {}
_none = frozenset()


def free(t):
    """bound variables occurring free in a term"""
    r = _free.get(t)
    if r is None:
        if t.op in ("bv", "tmp"):
            r = frozenset((t,))
        elif t.op == "for":
            r = free(t.a[1]) | (free(t.a[2]) - {t.a[0]})
        elif t.op == "lam":
            r = free(t.a[1]) - frozenset(t.a[0])
        else:
            r = _none
            for x in subterms(t):
                y = free(x)
                if y:
                    r = r | y
        _free[t] = r
    return r


_hasphi = {}


def has_phi(t):
    r = _hasphi.get(t)
    if r is None:
        r = _hasphi[t] = t.op == "phi" or any(has_phi(x) for x in subterms(t))
    return r


ORDER = 0       # selects the iteration order of hash containers
TRACE = None    # see relational
STRICT = False  # only containers with random hashers are iterated in different orders, and the order of lists counts


def relational(name, mk_, leaves, value, ordered):
    """C24: the result of a summary under several orders of iteration of hash containers, all else equal.  TRACE collects
    {obligation: [interpretations, first difference or None]}"""
    global ORDER
    t = TRACE.setdefault(name, [0, None, None])
    if t[1]:
        return
    got = []
    for o in (0, 1, 2):
        ORDER = o
        try:
            I = mk_()
            hit = active(I, leaves)
            if hit is None or hit == "panic":
                got.append(str(hit))
            else:
                got.append(canon(I, value(I, hit[0]), ordered or STRICT))
        except (Undef, Opaque) as e:
            if isinstance(e, Opaque):
                t[2] = str(e)
            return
        finally:
            ORDER = 0
    t[0] += 1
    for g in got[1:]:
        if g != got[0]:
            t[1] = "%s or %s, depending on the order in which a hash container is iterated" % (short(got[0]), short(g))
            return


def short(v):
    s = pretty(v)
    return s if len(s) < 400 else s[:400] + "..."


def canon(I, v, ordered):
    """collections without an order in a form that does not depend on one"""
    if isinstance(v, tuple) and v:
        if v[0] == "A":
            if v[2] is not None:
                raise Opaque("collection")
            o = I.members(v)
            if v[1] == "map":
                o = [(C, "", I.fieldof(e, "", 0), I.fieldof(e, "", 1)) for e in o]
            return (C, v[1]) + tuple(sorted((canon(I, e, ordered) for e in o), key=repr))
        if v[0] in (V, ST, "L") and len(v) == 2:
            o = [canon(I, e, ordered) for e in v[1]]
            return (C, "list") + tuple(o if ordered else sorted(o, key=repr))
        return tuple(canon(I, e, ordered) if isinstance(e, tuple) else norm(e) for e in v)
    return norm(v)


class Interp(object):
    def __init__(self, seed, D, fixed=None, maxlen=4, funcs=None):
        self.seed, self.D, self.maxlen = seed, D, maxlen
        self.fixed = fixed or {}
        self.funcs = funcs or {}
        self.memo = {}
        self.indexed = {}
        self.steps = 0
        self.limit = 400000 if not LONG else 4000000
        self.order = ORDER
        self.owned = []         # loop variables given a value by unrolling

    def width(self, t):
        """range of an integer type; rules may narrow it (an interpretation parametric in the width)"""
        w = self.funcs.get("$widths")
        return w[t] if w and t in w else INTS.get(t)

    # ---------------------------------------------------------------- loops kept as transition systems
    def unroll(self, ph):
        """values of the variables of a loop when it is left, by following the extracted transitions from the initial values"""
        import loops
        rec = loops.BYPHI.get(ph)
        if rec is None:
            raise Opaque("loop variable")
        mine = list(rec.inits)
        depth = None

        def put(vals):
            for q in self.owned[depth:]:
                self.fixed.pop(q, None)
            del self.owned[depth:]
            for q, v in vals.items():
                self.fixed[q] = v
                self.owned.append(q)
            self.memo = {t: v for t, v in self.memo.items() if not has_phi(t)}

        def it(t):
            if t.op == "stream":
                S = t.a[0]
                if S.op == "for" and S.a[2].op == "one":
                    dom = self.domain(S.a[1], {})
                    return ("IT", tuple(self.val(S.a[2].a[0], {S.a[0]: x}) for x in dom), tuple(dom))
                return ("IT", tuple(self.stream(S, {})), None)
            return self.val(t)
        first = {q: it(rec.inits[q]) for q in mine}
        depth = len(self.owned)     # variables of outer loops, which the initial values may depend on, stay
        put(first)
        seen = None
        for step in range(200 + 3 * LONG):
            if step & (step - 1) == 0:
                seen = [self.fixed[q] for q in mine]
            elif seen == [self.fixed[q] for q in mine]:
                raise Diverges("does not terminate")
            for l in rec.panics:
                if l.val == "loop" and any(contains(x, lambda y: y.op == "phi" and y not in loops.BYPHI) for x in l.st.facts.lits[rec.n0:]):
                    continue            # within an inner loop that has a closed form
                if self.holds(l.st.facts.lits[rec.n0:]):
                    raise Panics("panic in a loop")
            for lits, new, l in rec.conts:
                if self.holds(lits):
                    put({q: it(new[q]) for q in mine})
                    break
            else:
                return
        raise Opaque("long loop")

    def holds(self, lits):
        try:
            return self.lits(lits)
        except Panics:
            raise
        except Undef:
            return False

    def h(self, *k):
        return zlib.crc32(repr((self.seed,) + k).encode())

    def code(self, *k):
        h = self.h(*k)
        if NEAR and h % 4 == 0:
            return NEAR[h // 4 % len(NEAR)]
        return h % self.D

    # ---------------------------------------------------------------- sequences
    def items(self, v):
        """elements of a sequence value"""
        if isinstance(v, tuple):
            if v[0] in (V, ST, "IT"):
                return list(v[1])
            if v[0] == "A":
                return list(v[3]) if v[2] is None else self._fail("collection")
            if v[0] == C and v[1] == "Some":
                return [v[2]]
            if v[0] == C and v[1] == "None":
                return []
        if is_num(v):
            return [self.at(v, i) for i in range(self.length(v))]
        raise Opaque("items of %r" % (v,))

    def _fail(self, w):
        raise Opaque(w)

    def length(self, v):
        if isinstance(v, tuple) and v[0] in (V, ST):
            return len(v[1])
        if is_num(v):
            f = self.funcs.get("len")
            if f:
                r = f(self, v)
                if r is not None:
                    return r
            n = self.h("len", v)
            return n % (self.maxlen + 1) + (LONG if n % 3 else 0)
        raise Opaque("len")

    def at(self, v, i):
        if isinstance(v, tuple) and v[0] in (V, ST):
            if not is_num(i):
                raise Opaque("index")
            if i < 0 or i >= len(v[1]) or i != int(i):
                raise OutOfRange("index %s of %d" % (i, len(v[1])))
            return v[1][int(i)]
        if is_num(v):
            f = self.funcs.get("index")
            if f:
                r = f(self, v, i)
                if r is not None:
                    return r
            return self.code("index", v, i)
        raise Opaque("index")

    # ---------------------------------------------------------------- values
    def fieldof(self, v, var, i):
        if isinstance(v, tuple):
            if v[0] == C:
                if v[1] != var and not (v[1] == "" or var == ""):
                    raise Undef("variant %s of %s" % (var, v[1]))
                if i + 2 >= len(v):
                    raise Opaque("field")
                return v[i + 2]
            if v[0] == "U":
                for (vv, ii), w in v[2]:
                    if ii == i and vv == var:
                        return w
                return self.fieldof(v[1], var, i)
            if v[0] == "E" and var == "":
                return v[1 + i]
        if is_num(v):
            return self.code("field", v, var, i)
        raise Opaque("field of %r" % (v,))

    def discr2(self, v):
        if isinstance(v, tuple) and v[0] == C:
            d = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1}.get(v[1], VARIANTS.get(v[1]))
            if d is None:
                raise Opaque("discr2")
            return d
        if is_num(v):
            return self.h("discr2", v) % 2
        raise Opaque("discr2 of %r" % (v,))

    def eq(self, a, b):
        return equal(self, a, b)

    def less(self, a, b):
        if is_num(a) and is_num(b):
            return a < b
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == C and b[0] == C and a[1] != b[1]:
            # derived orders: by the position of the variant
            i, j = self.discr2(a), self.discr2(b)
            return i < j
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == C and b[0] == C and a[1] == b[1] and len(a) == len(b):
            if a[1] == "Reverse" and len(a) == 3:
                return self.less(b[2], a[2])
            for x, y in zip(a[2:], b[2:]):
                if self.eq(x, y):
                    continue
                return self.less(x, y)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == V and b[0] == V:
            for x, y in zip(a[1], b[1]):
                if self.eq(x, y):
                    continue
                return self.less(x, y)
            return len(a[1]) < len(b[1])
        raise Opaque("order of %r and %r" % (a, b))

    def val(self, t, env=None):
        env = env or {}
        self.steps += 1
        if self.steps > self.limit:
            raise Opaque("budget")
        if t in env:
            return env[t]
        if t in self.fixed:
            return self.fixed[t]
        closed = not env
        if not closed and free(t).isdisjoint(env):
            env, closed = {}, True
        if closed and t in self.memo:
            r = self.memo[t]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._val(t, env)
        except (Undef, Opaque) as e:
            if closed:
                self.memo[t] = e
            raise
        if closed:
            self.memo[t] = r
        return r

    def lit(self, l, env):
        c, want = l.a
        v = self.val(c, env)
        if isinstance(v, tuple) and v[0] == C and v[1] in ("Less", "Equal", "Greater"):
            v = {"Less": -1, "Equal": 0, "Greater": 1}[v[1]]
        if isinstance(want, tuple):
            return v not in want[1:]
        return v == want

    def lits(self, ls, env=None):
        env = env or {}
        return all(self.lit(l, env) for l in ls)

    def stream(self, s, env):
        o, a = s.op, s.a
        if o == "empty":
            return []
        if o == "one":
            return [self.val(a[0], env)]
        if o == "seq":
            r = []
            for x in a:
                r += self.stream(x, env)
            return r
        if o == "case":
            for ls, x in a:
                if self.lits(ls, env):
                    return self.stream(x, env)
            return []
        if o == "for":
            r = []
            for x in self.domain(a[1], env):
                e = dict(env)
                e[a[0]] = x
                r += self.stream(a[2], e)
                if len(r) > 5000 + 4 * LONG:
                    raise Opaque("size")
            return r
        if o == "rev":
            return self.stream(a[0], env)[::-1]
        if o == "tailof":
            return self.stream(a[0], env)[1:]
        if o == "elems":
            return self.domain(s, env)
        v = self.val(s, env)
        return self.items(v)

    def domain(self, d, env):
        if d.op == "range":
            lo, hi = self.val(d.a[0], env), self.val(d.a[1], env)
            if not (is_num(lo) and is_num(hi)):
                raise Opaque("range")
            if hi - lo > 3000 + 2 * LONG:
                raise Undef("range too large")
            return list(range(int(lo), int(hi)))
        if d.op != "elems":
            raise Opaque("domain " + d.op)
        x = d.a[0]
        if x.op == "enum":
            return [("E", i, v) for i, v in enumerate(self.stream(x.a[0], env))]
        if x.op == "zip":
            return [(C, "", p, q) for p, q in zip(self.stream(x.a[0], env), self.stream(x.a[1], env))]
        if x.op == "adapt":
            return self.adapt(x, env)
        if x.op == "from":
            raise Opaque("infinite")
        if x.op == "app" and x.a[0] == "digits":
            n, B = self.val(x.a[1], env), self.val(x.a[2], env)
            if not (is_num(n) and is_num(B)):
                raise Opaque("digits")
            if B < 2:
                raise Undef("base")
            r = []
            while n > 0:
                r.append(n % B)
                n = n // B
            return r
        if x.op == "app" and x.a[0] == "successors":
            out, v = [], self.val(x.a[1], env)
            while v != (C, "None"):
                if not (isinstance(v, tuple) and v[1] == "Some") or len(out) > 500:
                    raise Opaque("successors")
                out.append(v[2])
                v = self.apply_lam(x.a[2], env, v[2])
            return out
        if x.op in ("repeat", "cycle"):
            raise Opaque("infinite")
        if x.op in ("for", "one", "seq", "case", "empty", "rev", "tailof"):
            return self.stream(x, env)
        if x.op == "app" and x.a[0] == "hashed":
            return self.shuffled(self.domain(mk("elems", x.a[1]), env))
        v = self.val(x, env)
        if is_num(v):
            f = self.funcs.get("elems")
            if f:
                r = f(self, v)
                if r is not None:
                    return r
            n = self.h("nel", v)
            n = n % (self.maxlen + 1) + (LONG if n % 3 else 0)
            return [self.code("el", v, i) for i in range(n)]
        if isinstance(v, tuple) and v[0] == "A" and v[1] in ("set", "map"):
            return self.members(v)
        return self.items(v)

    def adapt(self, x, env):
        n, S = x.a[0], self.stream(x.a[1], env)
        if n in ("take", "skip", "step_by"):
            k = int(self.val(x.a[2], env))
            return S[:k] if n == "take" else S[k:] if n == "skip" else S[::k] if k > 0 else self._undef()
        l = x.a[2]

        def f(v):
            e = dict(env)
            e[l.a[0][0]] = v
            r = self.stream(l.a[1], e)
            if len(r) != 1:
                raise Undef("predicate")
            return r[0]
        out = []
        if n == "take_while":
            for v in S:
                if not f(v):
                    break
                out.append(v)
            return out
        if n == "skip_while":
            i = 0
            while i < len(S) and f(S[i]):
                i += 1
            return S[i:]
        if n == "map_while":
            for v in S:
                r = f(v)
                if not self.discr2(r):
                    break
                out.append(self.fieldof(r, "Some", 0))
            return out
        raise Opaque("adapt " + n)

    def apply_lam(self, l, env, *xs):
        r = self.stream(l.a[1], {**env, **dict(zip(l.a[0], xs))})
        if len(r) != 1:
            raise Undef("closure")
        return r[0]

    def bsearch(self, f, a, env):
        xs = list(self.items(self.val(a[1], env)))
        if f == "partition":
            p = [bool(self.apply_lam(a[2], env, x)) for x in xs]
            if p != sorted(p, reverse=True):
                raise Opaque("search in a slice that is not partitioned")
            return sum(p)
        if f == "bsearch_by":
            o = [{"Less": -1, "Equal": 0, "Greater": 1}[self.apply_lam(a[2], env, x)[1]] for x in xs]
        else:
            if f == "bsearch_key":
                xs = [self.apply_lam(a[3], env, x) for x in xs]
            y = self.val(a[2], env)
            o = [-1 if self.less(x, y) else 1 if self.less(y, x) else 0 for x in xs]
        if o != sorted(o) or o.count(0) > 1:
            raise Opaque("search in a slice that is not sorted")
        return (C, "Ok", o.index(0)) if 0 in o else (C, "Err", o.count(-1))

    def _undef(self):
        raise Undef()

    def _val(self, t, env):
        o, a = t.op, t.a
        V_ = lambda x: self.val(x, env)
        if o == "int":
            return self.funcs["$scale"].get(a[0], a[0]) if "$scale" in self.funcs else a[0]
        if o == "phi":
            self.unroll(t)
            return self.fixed[t]
        if o == "unit":
            return (C, "()")
        if o in ("sym",):
            f = self.funcs.get("sym")
            if f:
                r = f(self, a[0])
                if r is not None:
                    return r
            return self.code("sym", a[0])
        if o == "poly":
            r = 0
            for c, m in a:
                x = c
                if not m and "$scale" in self.funcs:
                    x = self.funcs["$scale"].get(c, c)
                for u, e in m:
                    v = V_(u)
                    if not is_num(v):
                        raise Opaque("arithmetic on %r" % (v,))
                    if e < 0 and v == 0:
                        raise Undef("inverse of 0")
                    x = x * (Fraction(v) ** e if e < 0 and not isinstance(v, GF) else v ** e)
                r += x
            if big(r):
                raise Opaque("long loop" if self.owned else "size of a number")
            return r
        if o == "flt":
            if a[0] == "-inf":
                return -INF
            return INF if a[0] == "inf" else Fraction(a[0]) if isinstance(a[0], (int, float)) else self.code("flt", str(a[1]))
        if o == "str":
            return ("S", a[0])
        if o == "ctor":
            return (C, "" if a[0] == "tuple" else a[1]) + tuple(V_(x) for x in a[2:])
        if o == "field":
            return self.fieldof(V_(a[0]), a[1] if not TUPLE(a[1]) else "", a[2])
        if o == "upd":
            v, w = V_(a[0]), V_(a[2])
            k = a[1]
            if k[0] != "f":
                raise Opaque("upd")
            if isinstance(v, tuple) and v[0] == C:
                f = list(v)
                f[2 + k[2]] = w

                return tuple(f)
            if isinstance(v, tuple) and v[0] == "U":
                return ("U", v[1], tuple(x for x in v[2] if x[0] != (k[1], k[2])) + (((k[1], k[2]), w),))
            return ("U", v, (((k[1], k[2]), w),))
        if o == "lt":
            return 1 if self.less(V_(a[0]), V_(a[1])) else 0
        if o == "eq":
            return 1 if self.eq(V_(a[0]), V_(a[1])) else 0
        if o == "not":
            return 1 - V_(a[0])
        if o == "lit":
            return 1 if self.lit(t, env) else 0
        if o == "ite":
            return V_(a[2]) if self.lit(mk("lit", a[0], a[1]), env) else V_(a[3])
        if o == "discr2":
            return self.discr2(V_(a[0]))
        if o == "discr":
            v = V_(a[0])
            if isinstance(v, tuple) and v[0] == C:
                d = self.funcs.get("discr")
                if v[1] in ("Less", "Equal", "Greater"):
                    return {"Less": -1, "Equal": 0, "Greater": 1}[v[1]]
                if d and v[1] in d:
                    return d[v[1]]
                if VARIANTS.get(v[1]) is not None:
                    return VARIANTS[v[1]]
                raise Opaque("discr " + v[1])
            return self.h("discr", v) % 4
        if o == "vec":
            return (V, tuple(self.stream(a[0], env)))
        if o == "stream":
            return (ST, tuple(self.stream(a[0], env)))
        if o == "array":
            return (V, tuple(V_(x) for x in a))
        if o == "append":
            return (V, tuple(self.items(V_(a[0]))) + tuple(self.stream(a[1], env)))
        if o == "store":
            v = list(self.items(V_(a[0])))
            i = V_(a[1])
            if not is_num(i) or i < 0 or i >= len(v):
                raise Undef("store")
            v[int(i)] = V_(a[2])
            return (V, tuple(v))
        if o == "acc":
            return self.accval(a[0], V_(a[1]), self.stream(a[2], env))
        if o == "del":
            return ("DEL", V_(a[0]))
        if o == "nz":
            v = V_(a[0])
            return (C, "None") if v == 0 else (C, "Some", v)
        if o == "chk":
            return (C, "Some", V_(a[0]))
        if o == "ext":
            s = self.stream(a[1], env)
            if not s:
                raise Undef("max of nothing")
            return self.ext(a[0], s)
        if o == "gfold":
            x = V_(a[0])
            l = a[2]
            for v in self.stream(a[1], env):
                e = dict(env)
                e[l.a[0][0]], e[l.a[0][1]] = x, v
                r = self.stream(l.a[1], e)
                if len(r) != 1:
                    raise Undef("fold")
                x = r[0]
            return x
        if o == "app":
            r = self.entry_at(t, env)
            if r is not None:
                if a[0] == "get":
                    return r
                if r[1] == "None":
                    raise Undef("missing key")
                return self.fieldof(r, "Some", 0)
            return self.apply(a, env)
        if o in ("fn",):
            return ("S", str(a[0]))
        if o == "clo":
            return ("S", a[0]) + tuple(V_(x) for x in a[1:])
        if o in ("for", "one", "seq", "case", "empty", "rev"):
            return (ST, tuple(self.stream(t, env)))
        raise Opaque(o + (" " + str(a[0]) if a else ""))

    def ext(self, k, s):
        m = s[0]
        for x in s[1:]:
            if (k == "MAX" and self.less(m, x)) or (k == "MIN" and self.less(x, m)):
                m = x
        return m

    def accval(self, kind, base, S):
        if isinstance(base, tuple) and base[0] == "A":
            return ("A", kind, base[2], tuple(base[3]) + tuple(S))
        if is_num(base):
            return ("A", kind, base, tuple(S))
        raise Opaque("collection")

    def lookup(self, m, k):
        """Option value of map m at k"""
        if isinstance(m, tuple) and m[0] == "A":
            for e in reversed(m[3]):
                if e[0] == "DEL":
                    if self.eq(e[1], k):
                        return (C, "None")
                    continue
                if e[0] != C and e[0] != "E":
                    raise Opaque("map entry")
                if self.eq(self.fieldof(e, "", 0), k):
                    return (C, "Some", self.fieldof(e, "", 1))
            if m[2] is None:
                return (C, "None")
            return self.code("get", m[2], k)
        return self.code("get", m, k)

    def entry_at(self, t, env):
        """the entry of a collected map at one key, computing only the entries that can have this key (long samples); None: not of that form"""
        if t.op != "app" or t.a[0] not in ("get", "at") or not isinstance(t.a[1], T):
            return None
        m = t.a[1]
        if not LONG or m.op != "acc" or m.a[0] != "map" or m.a[1] is not EMPTYMAP:
            return None
        key = t.a[2]
        if key.op != "ctor" or key.a[0] != "tuple":
            return None
        pins = self.indexed.get(m)
        if pins is None:
            pins = self.indexed[m] = key_binders(m.a[2])
        if not pins:
            return None
        ks = [self.val(x, env) for x in key.a[2:]]
        got = self.pinned(m.a[2], env, {x: ks[i] for x, i in pins if i < len(ks)})
        return self.lookup(("A", "map", None, tuple(got)), self.val(key, env))

    def pinned(self, s, env, pins):
        if s.op == "for" and s.a[0] in pins and s.a[1].op == "range":
            lo, hi, x = self.val(s.a[1].a[0], env), self.val(s.a[1].a[1], env), pins[s.a[0]]
            if not (is_num(lo) and is_num(hi) and is_num(x)):
                raise Opaque("range")
            if not lo <= x < hi:
                return []
            return self.pinned(s.a[2], env | {s.a[0]: x}, pins)
        if s.op == "for":
            return [y for x in self.domain(s.a[1], env) for y in self.pinned(s.a[2], env | {s.a[0]: x}, pins)]
        if s.op == "case":
            for ls, x in s.a:
                if self.lits(ls, env):
                    return self.pinned(x, env, pins)
            return []
        if s.op == "seq":
            return [y for x in s.a for y in self.pinned(x, env, pins)]
        return self.stream(s, env)

    def members(self, v):
        """elements of a hash container in an arbitrary order"""
        if v[2] is not None:
            raise Opaque("iteration over a collection")
        o, ks = [], []
        for e in reversed(v[3]):
            dele = isinstance(e, tuple) and e[0] == "DEL"
            k = e[1] if dele else e if v[1] == "set" else self.fieldof(e, "", 0)
            if any(self.eq(k, q) for q in ks):
                continue
            ks.append(k)
            if not dele:
                o.append(e if v[1] == "set" else (C, "", k, self.fieldof(e, "", 1)))
        return self.shuffled(o, 0 if STRICT else self.order)

    def shuffled(self, o, order=None):
        """an order a hash container may be iterated in"""
        order = self.order if order is None else order
        if order:
            return sorted(o, key=lambda e: self.h("order", order, norm(e)))
        return sorted(o, key=lambda e: self.h("order", norm(e)))

    def has(self, s, k):
        if isinstance(s, tuple) and s[0] == "A":
            for e in reversed(s[3]):
                if isinstance(e, tuple) and e[0] == "DEL":
                    if self.eq(e[1], k):
                        return 0
                    continue
                x = e if s[1] == "set" else self.fieldof(e, "", 0)
                if self.eq(x, k):
                    return 1
            if s[2] is None:
                return 0
            return self.h("contains", s[2], k) % 2
        return self.h("contains", s, k) % 2

    def apply(self, a, env):
        f = a[0]
        if f == "rest":
            # what a loop over S has left when it stops at the first element F selects
            S, F = a[1], a[2]
            if S.op == "for" and F.op == "for" and S.a[1] is F.a[1] and S.a[2].op == "one":
                for i, x in enumerate(self.domain(F.a[1], env)):
                    if self.stream(F.a[2], {**env, F.a[0]: x}):
                        xs = tuple(self.stream(S, env)[i:])
                        d = S.a[1].a[0] if S.a[1].op == "elems" else None
                        return ("A", "bh", None, xs) if d is not None and d.op == "app" and d.a[0] == "hdrain" else (ST, xs)
                raise Undef("rest of an exhausted loop")
            raise Opaque("rest")
        if f in ("hint_lo", "hint_hi"):
            # any bounds that are correct
            n = len(self.stream(a[1], env))
            if f == "hint_lo":
                return n if self.seed % 2 else 0
            return (C, "Some", n) if self.seed % 3 else (C, "None")
        if f in ("SUM", "nonempty", "head", "headopt", "maxof", "minof") or (f.startswith("it_") and len(a) == 2):
            s = self.stream(a[1], env)
            if f == "SUM":
                r = 0
                for x in s:
                    if not is_num(x):
                        raise Opaque("sum")
                    r += x
                return r
            if f == "nonempty":
                return 1 if s else 0
            if f == "head":
                if not s:
                    raise Undef("head")
                return s[0]
            if f == "headopt":
                return (C, "Some", s[0]) if s else (C, "None")
            if f in ("maxof", "minof"):
                return (C, "Some", self.ext("MAX" if f == "maxof" else "MIN", s)) if s else (C, "None")
            if f == "it_product":
                r = 1
                for x in s:
                    r *= x
                return r
            if f == "it_last":
                return (C, "Some", s[-1]) if s else (C, "None")
            raise Opaque(f)
        if f == "nth":
            s, n = self.stream(a[1], env), self.val(a[2], env)
            if not is_num(n):
                raise Opaque("nth")
            return (C, "Some", s[int(n)]) if 0 <= n < len(s) else (C, "None")
        if f == "emptycoll":
            return ("A", a[1].a[0], None, ())
        if f == "lastof":
            s = self.stream(a[1], env)
            return s[-1] if s else self.val(a[2], env)
        if f in ("store", "scatapp", "MAX", "MIN") and len(a) == 3:
            base = list(self.items(self.val(a[1], env)))
            for e in self.stream(a[2], env):
                i, x = self.fieldof(e, "", 0), self.fieldof(e, "", 1)
                if not is_num(i) or i < 0 or i >= len(base):
                    raise Undef("store")
                base[int(i)] = x if f == "store" else (V, tuple(self.items(base[int(i)])) + (x,))
            return (V, tuple(base))
        if f == "bool" and len(a) == 4 and a[1] in ("BitAnd", "BitOr", "BitXor"):
            x, y = self.val(a[2], env), self.val(a[3], env)
            return x & y if a[1] == "BitAnd" else x | y if a[1] == "BitOr" else x ^ y
        if f == "bool" and a[1] == "isnan":
            if not is_num(self.val(a[2], env)):
                raise Opaque("isnan")
            return 0            # samples hold no NaN
        if f == "bool" and a[1] == "itereq":
            x, y = self.stream(a[2], env), self.stream(a[3], env)
            return 1 if len(x) == len(y) and all(self.eq(p, q) for p, q in zip(x, y)) else 0
        if f == "bool" and a[1] in ("is_sorted", "is_sorted_by", "is_sorted_by_key"):
            l = self.items(self.val(a[2], env))
            if a[1] != "is_sorted":
                lm = a[3]
                call = lambda *xs: [self.stream(lm.a[1], {**env, **dict(zip(lm.a[0], xs))})]
            for x, y in zip(l, l[1:]):
                if a[1] == "is_sorted":
                    ok = not self.less(y, x)
                elif a[1] == "is_sorted_by":
                    (r,) = call(x, y)
                    ok = bool(r[0])
                else:
                    (p,), (q,) = call(x), call(y)
                    ok = not self.less(q[0], p[0])
                if not ok:
                    return 0
            return 1
        if f in ("div", "rem"):
            x, y = self.val(a[1], env), self.val(a[2], env)
            if not (is_num(x) and is_num(y)):
                raise Opaque(f)
            if y == 0:
                raise Undef("division by 0")
            if isinstance(x, Fraction) or isinstance(y, Fraction):
                raise Opaque("division")
            q = abs(x) // abs(y) if (x < 0) == (y < 0) else -(abs(x) // abs(y))
            return q if f == "div" else x - q * y
        if f in ("bsearch", "bsearch_by", "bsearch_key", "partition"):
            return self.bsearch(f, a, env)
        if f in ("ilog", "ilog_opt"):
            x, y = self.val(a[1], env), self.val(a[2], env)
            if not (is_num(x) and is_num(y)):
                raise Opaque(f)
            if x <= 0 or y < 2:
                if f == "ilog":
                    raise Panics("logarithm")
                return (C, "None")
            n = 0
            while x >= y:
                x, n = x // y, n + 1
            return n if f == "ilog" else (C, "Some", n)
        if f.startswith("bits:"):
            x, w = self.val(a[1], env), self.val(a[2], env)
            if not is_num(x) or x != int(x):
                raise Opaque(f)
            x = int(x) % 2 ** w
            if f == "bits:is_power_of_two":
                return int(bin(x).count("1") == 1)
            if f == "bits:count_ones":
                return bin(x).count("1")
            if f == "bits:leading_zeros":
                return w - x.bit_length()
            if f == "bits:trailing_zeros":
                return w if x == 0 else (x & -x).bit_length() - 1
            if f == "bits:trailing_ones":
                return (~x & (x + 1)).bit_length() - 1
            n = 1 if x < 2 else 2 ** (x - 1).bit_length()
            if n >= 2 ** w:
                raise Panics("overflow")
            return n
        if f == "isqrt":
            x = self.val(a[1], env)
            if not is_num(x) or x < 0:
                raise Opaque(f)
            return math.isqrt(int(x))
        if f.startswith("fmath:"):
            return fmath(f[6:], [self.val(x, env) for x in a[1:]])
        if f in ("sorted_by", "sorted_key") and isT(a[2]) and a[2].op == "lam":
            import functools
            l, lm = self.items(self.val(a[1], env)), a[2]

            def run(*xs):
                r = self.stream(lm.a[1], {**env, **dict(zip(lm.a[0], xs))})
                if len(r) != 1:
                    raise Undef("comparison")
                return r[0]
            if f == "sorted_key":
                ks = [run(x) for x in l]
                c = lambda i, j: -1 if self.less(ks[i], ks[j]) else 1 if self.less(ks[j], ks[i]) else 0
            else:
                def c(i, j):
                    o = run(l[i], l[j])
                    if not (isinstance(o, tuple) and o[0] == C and o[1] in ("Less", "Equal", "Greater")):
                        raise Opaque("comparison")
                    return {"Less": -1, "Equal": 0, "Greater": 1}[o[1]]
            # an unstable sort may leave elements that compare equal in any order: take one the stable sort would not give
            ix = list(range(len(l)))
            if "unstable" in a[3].a[0]:
                ix.reverse()
            ix.sort(key=functools.cmp_to_key(c))
            return (V, tuple(l[i] for i in ix))
        if f in ("dedup_by", "dedup_by_key") and isT(a[2]) and a[2].op == "lam":
            l, lm = self.items(self.val(a[1], env)), a[2]

            def same(x, y):
                if f == "dedup_by":
                    r = self.stream(lm.a[1], {**env, **dict(zip(lm.a[0], (x, y)))})
                    if len(r) != 1:
                        raise Undef("comparison")
                    return bool(r[0])
                r = [self.stream(lm.a[1], {**env, lm.a[0][0]: z}) for z in (x, y)]
                return len(r[0]) == 1 and len(r[1]) == 1 and self.eq(r[0][0], r[1][0])
            out = []
            for x in l:
                if not out or not same(x, out[-1]):
                    out.append(x)
            return (V, tuple(out))
        if f in ("dedup", "unique"):
            out = []
            for x in self.items(self.val(a[1], env)):
                if not any(self.eq(x, y) for y in (out if f == "unique" else out[-1:])):
                    out.append(x)
            return (V, tuple(out))
        if f == "refcount":
            v = self.val(a[2], env)
            return self.h("refcount", a[1].a[0], v) % 3 + (1 if "strong" in a[1].a[0] else 0)
        if f in ("it_max_by", "it_min_by", "it_max_by_key", "it_min_by_key", "it_reduce") and len(a) == 3 and isT(a[2]) and a[2].op == "lam":
            l, lm = list(self.stream(a[1], env)), a[2]

            def run(*xs):
                r = self.stream(lm.a[1], {**env, **dict(zip(lm.a[0], xs))})
                if len(r) != 1:
                    raise Undef("comparison")
                return r[0]
            if not l:
                return (C, "None")
            best = l[0]
            kb = run(best) if f.endswith("_key") else None
            for x in l[1:]:
                if f == "it_reduce":
                    best = run(best, x)
                    continue
                if kb is not None:
                    kx = run(x)
                    o = "Less" if self.less(kb, kx) else "Greater" if self.less(kx, kb) else "Equal"
                else:
                    kx, r = None, run(best, x)
                    if not (isinstance(r, tuple) and r[0] == C and r[1] in ("Less", "Equal", "Greater")):
                        raise Opaque("comparison")
                    o = r[1]
                # the last of several maxima, the first of several minima
                if o in (("Less", "Equal") if "max" in f else ("Greater",)):
                    best, kb = x, kx
            return (C, "Some", best)
        if any(isinstance(x, str) for x in a[1:]):
            a = tuple(mk("str", x) if isinstance(x, str) else x for x in a)
        vs = [self.val(x, env) if isT(x) else x for x in a[1:]]
        g = self.funcs.get(f)
        if g is not None and f not in ("len", "index", "elems", "sym", "discr"):
            r = g(self, *vs)
            if r is not None:
                return r
        m = REC_NAME.match(f)
        if m:
            if FOLLOW is None:
                raise Opaque("recursive call")
            v, args = FOLLOW(self, m.group(2), vs)
            return v if m.group(1) is None else args[int(m.group(1))]
        if f in ("nextitem", "adv", "pos") and isinstance(vs[0], tuple) and vs[0][0] in ("IT", ST):
            w = vs[0]
            if f == "nextitem":
                return (C, "Some", w[1][0]) if w[1] else (C, "None")
            if f == "adv":
                return (w[0], w[1][1:]) + ((w[2] and w[2][1:],) if w[0] == "IT" else ())
            if w[0] == "IT" and w[2]:
                return w[2][0]
            raise Undef("position of an exhausted iterator")
        if f == "len":
            return self.length(vs[0])
        if f == "index":
            return self.at(vs[0], vs[1])
        if f == "sget":
            n = self.length(vs[0])
            return (C, "Some", self.at(vs[0], vs[1])) if 0 <= vs[1] < n else (C, "None")
        if f == "lastopt":
            n = self.length(vs[0])
            return (C, "Some", self.at(vs[0], n - 1)) if n else (C, "None")
        if f == "slice":
            n = self.length(vs[0])
            lo, hi = vs[1], vs[2]
            if not (0 <= lo <= hi <= n):
                raise Undef("slice")
            return (V, tuple(self.at(vs[0], i) for i in range(int(lo), int(hi))))
        if f == "reversed":
            return (V, tuple(self.items(vs[0])[::-1]))
        if f == "truncate":
            return (V, tuple(self.items(vs[0])[:int(vs[1])]))
        if f == "sorted":
            import functools
            l = self.items(vs[0])
            l.sort(key=functools.cmp_to_key(lambda x, y: -1 if self.less(x, y) else 1 if self.less(y, x) else 0))
            return (V, tuple(l))
        if f == "pow":
            if not is_num(vs[0]) or not is_num(vs[1]) or vs[1] < 0 or vs[1] > (60 if abs(vs[0]) > 2 ** 24 else 300):
                raise Undef("pow")
            return vs[0] ** int(vs[1])
        if f == "inv":
            if not is_num(vs[0]):
                raise Opaque("inv")
            if vs[0] == 0:
                raise Undef("inverse of 0")
            return Fraction(1) / vs[0]
        if f == "fits":
            w = self.width(vs[1][1]) if isinstance(vs[1], tuple) else None
            if w is None or not is_num(vs[0]):
                return 1
            return 1 if w[0] <= vs[0] <= w[1] else 0
        if f == "posn":
            return vs[0][1] if isinstance(vs[0], tuple) and vs[0][0] == "E" else self._fail("posn")
        if f == "item":
            return vs[0][2] if isinstance(vs[0], tuple) and vs[0][0] == "E" else self._fail("item")
        if f == "clamp":
            w = self.width(vs[0][1])
            if w and is_num(vs[1]):
                return min(max(vs[1], w[0]), w[1])
        if f in ("BitAnd", "BitOr", "BitXor") and is_num(vs[0]) and is_num(vs[1]):
            x, y = int(vs[0]), int(vs[1])
            return x & y if f == "BitAnd" else x | y if f == "BitOr" else x ^ y
        if f in ("bin:Shl", "bin:Shr") and is_num(vs[0]) and is_num(vs[1]) and 0 <= vs[0] and 0 <= vs[1] < 8 and vs[0] < 1 << 8 - int(vs[1]) * (f == "bin:Shl"):
            x, y = int(vs[0]), int(vs[1])        # whatever the width
            return x << y if f == "bin:Shl" else x >> y
        if f == "trunc":
            w = self.width(vs[0][1]) if isinstance(vs[0], tuple) else None
            if w and is_num(vs[1]):
                if not w[0] <= vs[1] <= w[1] and "$narrowed" in self.funcs:
                    self.funcs["$narrowed"].append("%s converted to %s" % (vs[1], vs[0][1]))
                return (vs[1] - w[0]) % (w[1] - w[0] + 1) + w[0]
            return self.code("trunc", *vs)
        if f == "get":
            return self.lookup(vs[0], vs[1])
        if f == "at":
            o = self.lookup(vs[0], vs[1])
            if isinstance(o, tuple) and o[1] == "None":
                raise Undef("missing key")
            return self.fieldof(o, "Some", 0)
        if f == "contains":
            return self.has(vs[0], vs[1])
        if f == "size":
            s = vs[0]
            if isinstance(s, tuple) and s[0] == "A" and s[2] is None:
                if s[1] == "bh":
                    return len(s[3])
                ks = []
                for e in s[3]:
                    x = e[1] if isinstance(e, tuple) and e[0] == "DEL" else e if s[1] == "set" else self.fieldof(e, "", 0)
                    if not any(self.eq(x, y) for y in ks):
                        ks.append(x)
                return sum(1 for x in ks if self.has(s, x))
            raise Opaque("size of collection")
        if f == "fpred":
            if not is_num(vs[1]):
                raise Opaque("fpred")
            fin = abs(vs[1]) < INF
            nrm = abs(vs[1]) >= Fraction(1, 2 ** 1022)
            return int({"is_finite": fin, "is_infinite": not fin, "is_nan": False, "is_normal": fin and nrm,
                        "is_subnormal": not nrm and vs[1] != 0}[vs[0][1]])
        if f in ("flt", "fle"):
            return 1 if (self.less(vs[0], vs[1]) if f == "flt" else not self.less(vs[1], vs[0])) else 0
        if f == "feq":
            return 1 if self.eq(vs[0], vs[1]) else 0
        if f == "fadd":
            return vs[0] + vs[1]
        if f == "fsub":
            return vs[0] - vs[1]
        if f == "fmul":
            return vs[0] * vs[1]
        if f == "fdiv":
            if not vs[1]:
                return self._undef()
            q = Fraction(vs[0]) / vs[1]
            return Fraction(float(q)) if ROUND else q
        if f == "i2f":
            # beyond 53 bits a float is not the integer any more
            return Fraction(float(int(vs[0]))) if is_num(vs[0]) and abs(vs[0]) > 1 << 53 and vs[0] == int(vs[0]) else vs[0]
        if f == "cmp":
            if self.eq(vs[0], vs[1]):
                return (C, "Equal")
            return (C, "Less") if self.less(vs[0], vs[1]) else (C, "Greater")
        if f in BOOLFN:
            return self.h(f, *[norm(x) for x in vs]) % 2
        if f == "panic":
            raise (Panics if "$strict" in self.funcs else Undef)("panic")
        if f in ("gcd", "lcm") and is_num(vs[0]) and is_num(vs[1]):
            import math
            return (math.gcd if f == "gcd" else math.lcm)(int(vs[0]), int(vs[1]))
        if f == "uabs" and is_num(vs[0]):
            return abs(vs[0])
        if f == "capacity" and is_num(vs[0]):       # any number not below the length
            return vs[0] + self.h(f, norm(vs[0])) % 4 * 8
        if f == "signum" and is_num(vs[0]):
            return (vs[0] > 0) - (vs[0] < 0)
        if f in ("divceil", "rem_e", "div_e") and is_num(vs[0]) and is_num(vs[1]):
            x, y = vs
            if y == 0:
                raise Undef("division by 0")
            if f == "divceil":
                return -(-x // y)
            r = x % abs(y)
            return r if f == "rem_e" else (x - r) // y
        if f.startswith("FloatTo") and is_num(vs[0]):
            kind, ty = f.split(":")
            if kind == "FloatToInt":
                lo, hi = INTRANGE[ty]
                return min(max(int(vs[0]), lo), hi)
            try:
                return vs[0] if ty == "f64" else Fraction(struct.unpack("f", struct.pack("f", float(vs[0])))[0])
            except OverflowError:
                return INF if vs[0] > 0 else -INF
        if f in INTERNAL or f.startswith(INTERNAL_PREFIX):
            raise Opaque(f)
        return self.code(f, *[norm(x) for x in vs])


REC_NAME = re.compile(r"(?:post(\d+):)?rec:(.*)")
FOLLOW = None       # (interpretation, function, arguments) -> result of a recursive function and its arguments afterwards


def fmath(f, vs):
    """functions on f64"""
    if not all(is_num(v) for v in vs) or any(abs(v) >= INF for v in vs):
        raise Opaque(f)
    x = vs[0]
    if f == "abs":
        return abs(x)
    if f in ("floor", "ceil", "trunc"):
        return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[f](Fraction(x))
    if f == "round":
        return math.floor(abs(Fraction(x)) + Fraction(1, 2)) * (-1 if x < 0 else 1)
    try:
        g = [float(v) for v in vs]
        if f in ("ln", "log2", "log10") and g[0] == 0:
            return -INF
        r = {"ln": math.log, "log2": math.log2, "log10": math.log10, "sqrt": math.sqrt, "exp": math.exp, "hypot": math.hypot,
             "log": lambda a, b: math.log(a) / math.log(b), "powi": lambda a, b: a ** b, "powf": lambda a, b: a ** b}[f](*g)
        return Fraction(r)
    except (KeyError, ValueError, OverflowError, ZeroDivisionError, TypeError):
        raise Opaque(f)


INTRANGE = {("iu"[u] + str(b)): ((0, 2 ** b - 1) if u else (-2 ** (b - 1), 2 ** (b - 1) - 1)) for u in (0, 1) for b in (8, 16, 32, 64, 128)}
INTRANGE.update(usize=INTRANGE["u64"], isize=INTRANGE["i64"])


# terms with a meaning this interpretation does not know: never given a random one
INTERNAL = {"nextitem", "hpop", "adv", "sorted_key", "hrest", "hdrain", "rest", "repeatarr", "getrange", "bool", "char",
            "drain", "nth", "uabs", "signum", "gcd", "lcm", "divceil", "rem_e", "div_e", "clamp",
            "digits", "sorted_by", "dedup", "dedup_by", "dedup_by_key", "unique", "refcount", "successors", "BitAnd", "BitOr", "BitXor", "size", "ptrcast"}
INTERNAL_PREFIX = ("FloatTo", "it_", "fmt:", "un:", "bin:", "collect:", "saturating", "overflowing", "wrapping", "iter:")


def norm(x):
    if isinstance(x, GF):
        return x
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    return x


def equal(I, a, b, multiset=True, sums=False):
    if a is b:
        return True
    if is_num(a) and is_num(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        ka, kb = a[0], b[0]
        if ka == C and kb == C:
            return a[1] == b[1] and len(a) == len(b) and all(equal(I, x, y, multiset, sums) for x, y in zip(a[2:], b[2:]))
        if ka == ST and kb == ST:
            if sums:
                return fsum_equal(I, a[1], b[1])
            return ms_equal(I, list(a[1]), list(b[1])) if multiset else len(a[1]) == len(b[1]) and all(
                equal(I, x, y) for x, y in zip(a[1], b[1]))
        if ka == V and kb == V or {ka, kb} == {V, ST}:
            return len(a[1]) == len(b[1]) and all(equal(I, x, y, multiset, sums) for x, y in zip(a[1], b[1]))
        if ka == "A" and kb == "A":
            return acc_equal(I, a, b)
        if ka == "U" or kb == "U":
            return u_equal(I, a, b)
        if ka in ("S", "DEL", "E") and ka == kb:
            return len(a) == len(b) and all(equal(I, x, y) if not isinstance(x, str) else x == y for x, y in zip(a[1:], b[1:]))
        return False
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    # eta: a number against a structure
    if is_num(a):
        a, b = b, a
    if isinstance(a, tuple) and is_num(b):
        if a[0] == C:
            if a[1] in ("Some", "None", "Ok", "Err"):
                want = {"None": 0, "Some": 1, "Ok": 0, "Err": 1}[a[1]]
                if I.discr2(b) != want:
                    return False
            return all(equal(I, x, I.fieldof(b, a[1], i)) for i, x in enumerate(a[2:]))
        if a[0] in (V,):
            return equal(I, a, (V, tuple(I.items(b))))
        if a[0] == "U":
            return u_equal(I, a, b)
        if a[0] == ST:
            raise Opaque("stream against opaque")
        if a[0] == "A":
            raise Opaque("collection against opaque") if a[3] else None
            return False
    raise Opaque("compare %r %r" % (a, b))


def u_equal(I, a, b):
    ks = set()
    for x in (a, b):
        if isinstance(x, tuple) and x[0] == "U":
            ks |= {k for k, _ in x[2]}
    for var, i in ks:
        if not equal(I, I.fieldof(a, var, i), I.fieldof(b, var, i)):
            return False
    ba = a[1] if isinstance(a, tuple) and a[0] == "U" else a
    bb = b[1] if isinstance(b, tuple) and b[0] == "U" else b
    if is_num(ba) and is_num(bb):
        return ba == bb
    if is_num(ba) != is_num(bb):
        return True
    return all(equal(I, x, y) for i, (x, y) in enumerate(zip(ba[2:], bb[2:])) if not any(k[1] == i for k in ks))


def key(x):
    x = norm(x)
    if is_num(x):
        return ("n", str(float(x)), str(x))
    return ("t", repr(x))


def ms_equal(I, xs, ys):
    if len(xs) != len(ys):
        return False
    ys = list(ys)
    for x in xs:
        for i, y in enumerate(ys):
            if equal(I, x, y):
                del ys[i]
                break
        else:
            return False
    return True


def fsum(I, xs):
    """formal sum of (coefficient, index) pairs"""
    d = {}
    for x in xs:
        c, r = I.fieldof(x, "", 0), I.fieldof(x, "", 1)
        if not is_num(c):
            raise Opaque("coefficient")
        k = norm(r)
        d[k] = d.get(k, 0) + c
    return {k: v for k, v in d.items() if v}


def fsum_equal(I, xs, ys):
    return fsum(I, xs) == fsum(I, ys)


def acc_equal(I, a, b):
    if a[2] != b[2] or a[1] != b[1]:
        if is_num(a[2]) or is_num(b[2]):
            raise Opaque("collections over different bases")
        return False
    if a[1] == "bh":
        return ms_equal(I, list(a[3]), list(b[3]))
    ks = []
    for e in tuple(a[3]) + tuple(b[3]):
        if isinstance(e, tuple) and e[0] == "DEL":
            ks.append(e[1])
        else:
            ks.append(e if a[1] == "set" else I.fieldof(e, "", 0))
    for k in ks:
        if a[1] == "set":
            if I.has(a, k) != I.has(b, k):
                return False
        else:
            if not equal(I, I.lookup(a, k), I.lookup(b, k)):
                return False
    return True


# -------------------------------------------------------------------------------------------------- functions
class Verdict(object):
    def __init__(self, status, detail="", leaf=None, samples=0):
        self.status, self.detail, self.leaf, self.samples = status, detail, leaf, samples

    def __repr__(self):
        return "<%s %s>" % (self.status, self.detail)


EQ, NE, UN = "equal", "different", "undecided"


class Leaves(list):
    """a summary, with the unsigned subtractions met on the way"""
    subs = ()


def relevant(subs):
    """subtractions that may go below zero, and are carried out whenever their path condition holds"""
    out, seen = [], set()
    for lits, v, bid, at, depth in subs:
        if depth and not any(x.op == "app" and x.a[0] == "head" for y in (v,) + lits for x in walk(y)):
            continue
        if not understood_(v) or (lits, v) in seen:
            continue
        seen.add((lits, v))
        out.append((lits, v, bid, at))
    return out


def understood_(v):
    return not free(v) and not any(x.op in ("unk", "phi") for x in walk(v))


def below_zero(I, leaves):
    """an unsigned subtraction with a negative result under an interpretation"""
    for lits, v, bid, at in getattr(leaves, "subs", ()):
        try:
            if not I.lits(lits):
                continue
            x = I.val(v)
        except (Undef, Opaque, Panics):
            continue
        if is_num(x) and x < 0:
            return "panics or wraps around: a difference in %s%s is %s" % (bid, " (%s)" % at if at else "", pretty(x))
    return None


def active(I, leaves):
    """-> the leaf whose guard holds"""
    hit, pan, undef = [], [], False
    for l in leaves:
        if l.kind == "panic" and l.val == "loop":
            continue
        try:
            if I.lits(l.st.facts.lits):
                (hit if l.kind == "ret" else pan).append(l)
        except Diverges:
            raise
        except Panics:
            return "panic"
        except Undef as e:
            undef = undef or e
            if isinstance(e, OutOfRange):
                undef = e
    if hit:
        return hit
    if pan:
        return "panic"
    if isinstance(undef, OutOfRange):
        raise undef
    if undef:
        raise Undef("guard")
    return None


NEAR = []       # values some symbols take besides the random ones
EMPTYMAP = app("emptycoll", mk("str", "map"))
LONG = 0        # length of long samples, beyond a constant of the program; 0: short ones


INF = 10 ** 400  # beyond every finite float
SCALE = 1       # unit of sampled times and distances


class Real(object):
    """a floating-point constant of a program"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Real) and self.v == o.v

    def __hash__(self):
        return hash(("real", self.v))


def scaled(d):
    """times or distances in the unit of the current samples"""
    return d if SCALE == 1 else [[x * SCALE for x in r] for r in d]


def loop_terms(rec):
    """terms of the transitions of a loop"""
    o = list(rec.inits.values())
    for lits, new, _ in rec.conts:
        o += list(lits) + list(new.values())
    return [x for x in o if isT(x)]


def consts(leaves, out=None, reals=False):
    """integer constants of a summary that may be thresholds on lengths"""
    import loops
    c, seen, todo, followed = set(), set(), [], set()
    for l in leaves:
        todo.append(l.val)
        if out:
            try:
                todo.append(out(l))
            except Exception:
                pass
        todo += l.st.facts.lits
    todo = [t for t in todo if isT(t)]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "int":
            c.add(t.a[0])
        elif t.op == "flt" and isinstance(t.a[0], (int, float)) and t.a[0] not in (0, 1):
            c.add(Real(abs(Fraction(t.a[0]))))
        elif t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith("FloatTo"):
            c.add(Real(Fraction(.7)))       # whether anything is lost
        elif t.op == "app" and t.a[0] == "trunc" and t.a[1].op == "str":
            w = {"8": 8, "16": 16, "32": 32}.get(t.a[1].a[0][1:])
            if w:
                c.add(2 ** (w if t.a[1].a[0][0] == "u" else w - 1))
        elif t.op == "app" and isinstance(t.a[0], str) and REC_NAME.match(t.a[0]) and FOLLOW is not None:
            f = REC_NAME.match(t.a[0]).group(2)
            if f not in followed:
                followed.add(f)
                try:
                    for l in FOLLOW.__self__.summary(f)[0]:
                        todo += [x for x in [l.val] + list(l.st.facts.lits) + list(l.st.cells.values()) if isT(x)]
                except Exception:
                    pass
        elif t.op == "poly":
            c |= {x for x, _ in t.a}
        elif t.op == "phi":
            rec = loops.BYPHI.get(t)
            if rec is not None:
                todo += loop_terms(rec)
        todo += subterms(t)
    if reals:
        return sorted(x.v for x in c if isinstance(x, Real))
    return sorted(x for x in c if isinstance(x, int) and 3 <= x <= 2 ** 33)


def upto(rnd, n):
    """a length below n, or one beyond the constants of the summary"""
    k = rnd.randrange(n)
    return LONG + k if LONG and rnd.random() < .7 else k


def key_binders(S):
    """[(loop variable, position in the key)] such that every entry of the stream is keyed by the variable there"""
    keys, spine = [], []

    def walk_(s, vs):
        if s.op == "for":
            spine.append(s.a[0])
            return walk_(s.a[2], vs + [s.a[0]])
        if s.op == "case":
            return all([walk_(x, vs) for _, x in s.a])
        if s.op == "seq":
            return all([walk_(x, vs) for x in s.a])
        if s.op == "empty":
            return True
        if s.op == "one" and s.a[0].op == "ctor" and s.a[0].a[0] == "tuple" and len(s.a[0].a) == 4:
            k = s.a[0].a[2]
            if k.op == "ctor" and k.a[0] == "tuple":
                keys.append((k.a[2:], vs))
                return True
        return False
    if not walk_(S, []) or not keys or len(set(spine)) != len(spine):
        return ()
    n = min(len(k) for k, _ in keys)
    return tuple((x, i) for i in range(n) for x in set(spine) if all(k[i] is x and x in vs for k, vs in keys))


def beyond(most):
    """what to add to a size whose long samples are affordable up to `most`"""
    return LONG if LONG <= most else 0


def pairs_beyond(most):
    """how many vertices have more than LONG pairs"""
    n = 2
    while n * (n - 1) // 2 <= LONG:
        n += 1
    return n if LONG <= most else 0


CONST = 0       # the constant LONG was chosen for
SEED = 0        # offset of every random choice (VERIF_SEED)


def compare(leaves, spec, out=None, n=160, fixed=None, funcs=None, mode=None, sizes=(2, 3, 4, 6, 11, 40), want_panic=None,
            need=8, seed=0, maxlen=3, long=True):
    """leaves: summary of a function (decision tree); spec(I, leaf) -> expected value, computed from the
    interpretation I; out(leaf) -> term(s) compared (default the result).  -> Verdict"""
    global LONG, NEAR
    out = out or (lambda l: l.val)
    if TRACE is not None:
        out_ = lambda I, l: I.val(out(l)) if isT(out(l)) else out(l)
        for k in range(SEED, SEED + min(n, 40)):
            D = sizes[k % len(sizes)]
            relational(TRACE["$name"], lambda: Interp(seed * 1000003 + k, D, dict(fixed(k, D)) if callable(fixed) else dict(fixed or {}),
                                                      funcs=funcs, maxlen=1 + k % maxlen if maxlen > 1 else maxlen), leaves, out_, mode is None)
        return Verdict(UN, "traced", None, 0)
    good, opq = [0], [None]
    never = not any(l.kind == "ret" for l in leaves)

    def one_(k):
        """a Verdict where the summary and the specification differ under interpretation k"""
        D = sizes[k % len(sizes)]
        I = Interp(seed * 1000003 + k, D, dict(fixed(k, D)) if callable(fixed) else dict(fixed or {}), funcs=funcs,
                   maxlen=1 + k % maxlen if maxlen > 1 else maxlen)
        mine = True             # evaluating the summary, not the specification
        try:
            hit = active(I, leaves)
            if hit is None and never and want_panic is not None and want_panic(I) is False:
                return Verdict(NE, "never returns", None, good[0])
            if hit is None or hit == "panic":
                if hit == "panic" and want_panic is not None and want_panic(I) is False:
                    return Verdict(NE, "panics on an accepted input", None, good[0])
                return None
            mine = False
            want = spec(I)
            mine = True
            if want is None:
                return None
            if want_panic is not None and want_panic(I) is False and want not in ("must panic", "panic"):
                e = below_zero(I, leaves)
                if e:
                    return Verdict(NE, e, None, good[0])
            if want == "must panic":
                return Verdict(NE, "returns %s where it has to panic" % pretty(I.val(out(hit[0])) if isT(out(hit[0])) else "a value"), hit[0], good[0])
            for l in hit[:1]:
                o = out(l)
                got = I.val(o) if isT(o) else o
                if want == "panic":
                    continue
                mine = False
                if not (mode(I, got, want) if mode else equal(I, got, want)):
                    return Verdict(NE, "summary gives %s, expected %s" % (pretty(got)[:700], pretty(want)[:700]), l, good[0])
                good[0] += 1
        except Panics as e:
            if want_panic is not None and want_panic(I) is False:
                return Verdict(NE, "%s on an accepted input" % (e if isinstance(e, Diverges) else "panics"), None, good[0])
        except OutOfRange as e:
            if mine and want_panic is not None and want_panic(I) is False:
                return Verdict(NE, "panics on an accepted input (%s)" % e, None, good[0])
        except Undef:
            pass
        except Opaque as e:
            opq[0] = str(e)
        return None
    for k in range(SEED, SEED + n):
        v = one_(k)
        if v:
            return v
    if good[0] < need or opq[0] is not None:
        return Verdict(UN, "not understood: %s (%d interpretations)" % (opq[0], good[0]), None, good[0])
    if long:
        for k in thresholds(list(leaves) + list((funcs or {}).get("$leaves", ())), out, SEED + n):
            v = one_(k)
            if v:
                return v
    return Verdict(EQ, "", None, good[0])


def thresholds(leaves, out, base, upper=70000, each=150, seconds=2, few=3):
    """interpretations beyond and around the constants of a summary: samples longer than each of them, and values near them"""
    global LONG, NEAR, SCALE, CONST
    cs = consts(leaves, out)
    NEAR = [x + d for x in cs for d in (-1, 0, 1)]
    try:
        t0 = time.time()
        for k in range(max(each, 48) if cs else 0):
            yield base + k
        for c in [x for x in cs if x <= upper][:6]:
            for at, m in ((c + 2, each), (max(1, c - 3), each)):
                LONG, CONST = at, c
                t1 = time.time()
                for k in range(m if c < 3000 else few):
                    if time.time() - t0 > 20 or time.time() - t1 > seconds:
                        break
                    yield base + 1000 + k
        LONG, NEAR = 0, []
        for c in consts(leaves, out, reals=True)[:6]:
            for SCALE in (c / 8, c / 2, c):
                t1 = time.time()
                for k in range(each):
                    if time.time() - t1 > seconds:
                        break
                    yield base + 2000 + k
    finally:
        LONG, NEAR, SCALE = 0, [], 1


def pretty(v, d=0):
    if isinstance(v, Fraction):
        return str(v)
    if isinstance(v, tuple):
        if not v:
            return "()"
        if v[0] == C:
            return (v[1] or "") + ("(" + ", ".join(pretty(x) for x in v[2:]) + ")" if len(v) > 2 else "")
        if v[0] in (V, ST):
            return "[" + ", ".join(pretty(x) for x in v[1]) + "]"
        return "(" + ", ".join(pretty(x) for x in v) + ")"
    return str(v)


def term_spec(t):
    return lambda I: I.val(t)


def outcome(I, l):
    """result of a function and what it prints"""
    import models
    v = I.val(l.val)
    if models.STDOUT in l.st.cells:
        v = (C, "", v, I.val(l.st.cells[models.STDOUT]))
    return v
