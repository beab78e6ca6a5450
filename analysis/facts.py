"""Path facts: what is known about terms at a program point (branch conditions taken so far).

A small relational domain: equalities (by rewriting), linear inequalities over polynomial atoms
(closed by Fourier-Motzkin elimination), and values of uninterpreted conditions."""
from fractions import Fraction
from terms import *


class Contradiction(Exception):
    pass


class Facts(object):
    __slots__ = ("lits", "_cl")

    def __init__(self, lits=()):
        self.lits = tuple(lits)
        self._cl = None

    def add(self, l):
        """-> Facts or None when contradictory"""
        if l is LTRUE or l in self.lits:
            return self
        if l is LFALSE:
            return None
        v = self.value(l.a[0])
        want = l.a[1]
        if v is not None:
            if isinstance(want, tuple):
                if v in want[1:]:
                    return None
            elif v != want:
                return None
            if not isinstance(want, tuple) and l.a[0].op not in ("discr", "discr2"):
                return self
        ex = self.excluded(l.a[0])
        if not isinstance(want, tuple) and want in ex:
            return None
        f = Facts(self.lits + (l,))
        if f.closure() is None:
            return None
        return f

    def addall(self, ls):
        f = self
        for l in ls:
            f = f.add(l)
            if f is None:
                return None
        return f

    # -- closure: (subst map, constraints, bool table, excluded table, neqs)
    def closure(self):
        if self._cl is None:
            self._cl = _close(self.lits) or False
        return self._cl or None

    def norm(self, t):
        cl = self.closure()
        if not cl:
            return t
        return normsub(t, cl[0])

    def excluded(self, c):
        cl = self.closure()
        if not cl:
            return ()
        return cl[3].get(self.norm(c), ())

    def value(self, c):
        """value of condition term c, or None"""
        return _value(self, c)

    def true(self, c):
        return self.value(c) == 1

    def decide_lit(self, l):
        """True / False / None"""
        if l is LTRUE:
            return True
        if l is LFALSE:
            return False
        v = self.value(l.a[0])
        w = l.a[1]
        if v is None:
            ex = self.excluded(l.a[0])
            if isinstance(w, tuple):
                if all(x in ex for x in w[1:]):
                    return True
                return None
            if w in ex:
                return False
            return None
        if isinstance(w, tuple):
            return v not in w[1:]
        return v == w


def normsub(t, mp):
    if not mp:
        return t
    for _ in range(6):
        u = subst(t, mp)
        if u is t:
            return t
        t = u
    return t


def _size(t):
    n = 0
    for _ in walk(t):
        n += 1
    return n


def _close(lits):
    sub = {}
    lits = list(lits)
    # equalities first, to a fixpoint
    for _ in range(4):
        changed = False
        for l in lits:
            c, v = l.a
            if c.op == "eq" and v == 1:
                a, b = normsub(c.a[0], sub), normsub(c.a[1], sub)
                if a is b:
                    continue
                r = _orient(a, b)
                if r is False:
                    return None
                for x, y in r:
                    if has(y, x):
                        continue
                    sub = {k: subst(w, {x: y}) for k, w in sub.items()}
                    sub[x] = y
                    changed = True
            elif c.op == "app" and c.a[0] == "cmpv":
                pass
        if not changed:
            break
    cons = []
    tab = {}
    exc = {}
    neqs = []
    for l in lits:
        c, v = l.a
        c0 = c
        c = normsub(c, sub)
        while c.op == "not":
            c = c.a[0]
            v = 1 - v
        if c.op == "int":
            ok = (c.a[0] not in v[1:]) if isinstance(v, tuple) else c.a[0] == v
            if not ok and not (c0.op == "eq" and v == 1):
                return None
            continue
        if c.op == "lt":
            a, b, k = c.a
            if v == 1:
                cons.append((_lin(psub(b, a), -1 if k in "is" else 0), k not in "is"))
            else:
                cons.append((_lin(psub(a, b), 0), False))
        elif c.op == "eq":
            if v == 1:
                d = psub(c.a[1], c.a[0])
                cons.append((_lin(d, 0), False))
                cons.append((_lin(pneg(d), 0), False))
            else:
                neqs.append((c.a[0], c.a[1]))
        elif c.op in ("discr", "discr2") and c.a[0].op == "app" and c.a[0].a[0] == "cmp":
            a, b, k = c.a[0].a[1:4]
            vs = {-1, 0, 1}
            vs = vs - set(v[1:]) if isinstance(v, tuple) else {v}
            if vs == {-1}:
                cons.append((_lin(psub(b, a), -1 if k in "is" else 0), k not in "is"))
            elif vs == {1}:
                cons.append((_lin(psub(a, b), -1 if k in "is" else 0), k not in "is"))
            elif vs == {0}:
                pass
            elif vs == {-1, 0}:
                cons.append((_lin(psub(b, a), 0), False))
            elif vs == {0, 1}:
                cons.append((_lin(psub(a, b), 0), False))
            else:
                neqs.append((a, b))
        if isinstance(v, tuple):
            e = set(exc.get(c, ())) | set(v[1:])
            exc[c] = tuple(e)
            if c in tab and tab[c] in e:
                return None
        else:
            if c in tab and tab[c] != v:
                return None
            if v in exc.get(c, ()):
                return None
            tab[c] = v
    # strengthen with x != y on integers lazily; check feasibility
    if cons and not _feasible(cons):
        return None
    for a, b in neqs:
        if a is b:
            return None
        if cons:
            d = psub(b, a)
            if not _feasible(cons + [(_lin(d, 0), True)]) and not _feasible(cons + [(_lin(pneg(d), 0), True)]):
                return None
    return sub, cons, tab, exc, neqs


def _orient(a, b):
    """pairs (x -> y) for equality a == b, False if contradictory"""
    if a.op == "ctor" and b.op == "ctor":
        if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a) != len(b.a):
            return False
        out = []
        for x, y in zip(a.a[2:], b.a[2:]):
            if x is not y:
                r = _orient(x, y)
                if r is False:
                    return False
                out += r
        return out
    if a.op == "int" and b.op == "int":
        return False
    if a.op == "poly" or b.op == "poly" or ((a.op == "int" or b.op == "int")):
        d = P(psub(a, b))
        # solve for an atom with coefficient +-1 and linear
        best = None
        for m, c in d.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                x = m[0][0]
                rest = fromP({n: (-e if c == 1 else e) for n, e in d.items() if n != m})
                if not has(rest, x):
                    if best is None or (x.op in ("tmp", "bv"), x.id) > (best[0].op in ("tmp", "bv"), best[0].id):
                        best = (x, rest)
        return [best] if best else []
    pri = {"tmp": 3, "bv": 3, "phi": 2}
    ka = (pri.get(a.op, 0), a.op != "ctor" and a.op != "int", _size(a), a.id)
    kb = (pri.get(b.op, 0), b.op != "ctor" and b.op != "int", _size(b), b.id)
    return [(a, b)] if ka > kb else [(b, a)]


def _lin(p, k):
    d = {m: Fraction(c) for m, c in P(p).items()}
    if k:
        d[()] = d.get((), 0) + k
    return d


def _feasible(cons):
    """cons: [(lin >= 0 / > 0, strict)]; atoms that are naturally non-negative get x >= 0"""
    atoms = set()
    for d, _ in cons:
        atoms |= set(d) - {()}
    cs = [(dict(d), s) for d, s in cons]
    for m in atoms:
        if all(_nonneg(t) for t, e in m):
            cs.append(({m: Fraction(1)}, False))
    for m in sorted(atoms, key=lambda m: tuple(t.id for t, e in m)):
        pos = [c for c in cs if c[0].get(m, 0) > 0]
        ng = [c for c in cs if c[0].get(m, 0) < 0]
        rest = [c for c in cs if c[0].get(m, 0) == 0]
        if len(pos) * len(ng) > 400:
            return True
        seen = set()
        for p, ps in pos:
            for n, ns in ng:
                kp, kn = -n[m], p[m]
                d = {}
                for x, c in p.items():
                    d[x] = d.get(x, 0) + c * kp
                for x, c in n.items():
                    d[x] = d.get(x, 0) + c * kn
                d = {x: c for x, c in d.items() if c and x != m}
                key = (frozenset(d.items()), ps or ns)
                if key not in seen:
                    seen.add(key)
                    rest.append((d, ps or ns))
        cs = rest
        if len(cs) > 400:
            return True
    for d, s in cs:
        c = d.get((), Fraction(0))
        if c < 0 or (s and c == 0):
            return False
    return True


NONNEG_ATOMS = set()


def _nonneg(t):
    if t in NONNEG_ATOMS:
        return True
    return t.op in ("tmp", "bv") or (t.op == "app" and t.a[0] in ("len", "nonneg", "rem", "SUM", "uabs"))


def _value(F, c):
    cl = F.closure()
    if cl is None:
        return None
    sub, cons, tab, exc, neqs = cl
    if c.op == "int":
        return c.a[0]
    c = normsub(c, sub)
    flip = False
    while c.op == "not":
        c = c.a[0]
        flip = not flip

    def out(v):
        if v is None:
            return None
        return 1 - v if flip else v
    if c.op == "int":
        return out(c.a[0])
    if c in tab:
        return out(tab[c])
    if c.op == "discr2" and exc.get(c):
        e = exc[c]
        if 0 in e:
            return out(1)
        if 1 in e:
            return out(0)
    if c.op == "lt":
        a, b, k = c.a
        lo = (_lin(psub(b, a), -1 if k in "is" else 0), k not in "is")   # a<b
        hi = (_lin(psub(a, b), 0), False)                                   # a>=b
        # with integer strengthening from disequalities
        extra = []
        for x, y in neqs:
            pass
        if not _feasible(_rel(cons, lo[0]) + [lo]):
            return out(0)
        if not _feasible(_rel(cons, hi[0]) + [hi]):
            return out(1)
        # a<=b & a!=b  => a<b
        for x, y in neqs:
            if {x, y} == {a, b}:
                gt = (_lin(psub(a, b), 0), True)
                if not _feasible(_rel(cons, gt[0]) + [gt]):
                    return out(1)
        # k integer: a < b with a+1 != b etc. : d=b-a >= 0 and d != 0
        if k in "is":
            d0 = psub(b, a)
            for x, y in neqs:
                dd = psub(y, x)
                if dd is d0 or pneg(dd) is d0:
                    gt = (_lin(psub(a, b), 0), True)
                    if not _feasible(_rel(cons, gt[0]) + [gt]):
                        return out(1)
        return None
    if c.op == "eq":
        a, b = c.a
        for x, y in neqs:
            if (x is a and y is b) or (x is b and y is a):
                return out(0)
            if x.op in ("poly", "int") or y.op in ("poly", "int"):
                dd = psub(y, x)
                d0 = psub(b, a)
                if dd is d0 or pneg(dd) is d0:
                    return out(0)
        if a.op == "ctor" and b.op == "ctor":
            if a.a[0] != b.a[0] or a.a[1] != b.a[1]:
                return out(0)
            vs = [_value(F, eq(x, y)) for x, y in zip(a.a[2:], b.a[2:])]
            if any(v == 0 for v in vs):
                return out(0)
            if all(v == 1 for v in vs):
                return out(1)
            return None
        d = psub(b, a)
        l1 = (_lin(d, 0), True)
        l2 = (_lin(pneg(d), 0), True)
        rel = _rel(cons, l1[0])
        f1, f2 = _feasible(rel + [l1]), _feasible(rel + [l2])
        if not f1 and not f2:
            return out(1)
        z = [({m: c_ for m, c_ in l1[0].items()}, False), ({m: c_ for m, c_ in l2[0].items()}, False)]
        if not _feasible(rel + z):
            return out(0)
        return None
    if c.op in ("discr", "discr2") and c.a[0].op == "app" and c.a[0].a[0] == "cmp":
        a, b, k = c.a[0].a[1:4]
        l = _value(F, lt(a, b, k))
        if l == 1:
            return out(-1)
        g = _value(F, lt(b, a, k))
        if g == 1:
            return out(1)
        if l == 0 and g == 0:
            return out(0)
        e = _value(F, eq(a, b))
        if e == 1:
            return out(0)
        return None
    return None


def _rel(cons, d):
    """constraints connected to the atoms of d"""
    atoms = set(d) - {()}
    chosen = []
    left = list(cons)
    ch = True
    while ch:
        ch = False
        nl = []
        for c in left:
            if (set(c[0]) - {()}) & atoms:
                chosen.append(c)
                atoms |= set(c[0]) - {()}
                ch = True
            else:
                nl.append(c)
        left = nl
    return chosen
