"""Shared vocabulary of the rules."""
import itertools
import random
from core import *
from facts import NONNEG_ATOMS
import follow

NOTNAN = "ordered_float::NotNan"


def tyname(t, types):
    return t.get("adt") or t.get("s")


def is_vec(t, types):
    return t.get("adt") == "alloc::vec::Vec"


def struct(ctx, adt, by, types_hint=None):
    """symbolic struct value; `by`: list of (predicate(type, types), term).  Phantom fields are units; every other
    field must be matched by exactly one predicate"""
    ad = ctx.prog.adts.get(adt)
    if ad is None or ad["kind"] != "struct":
        raise Missing("struct " + adt)
    v = ad["variants"][0]
    used = set()
    out = []
    for f in v["fields"]:
        t = ad["types"][f["ty"]]
        if t.get("adt") == "core::marker::PhantomData":
            out.append(UNIT)
            continue
        hit = [i for i, (p, _) in enumerate(by) if p(t, ad["types"])]
        if len(hit) != 1 or hit[0] in used:
            raise Undecided("fields of " + adt)
        used.add(hit[0])
        out.append(by[hit[0]][1])
    if len(used) != len(by):
        raise Undecided("fields of " + adt)
    return ctor(adt, v["name"], *out)


def wrapval(ctx, adt, *vals):
    """concrete value of a struct under an interpretation"""
    return (C, ctx.prog.adts[adt]["variants"][0]["name"]) + vals


def cell(st, name, val):
    key = ("ext", name)
    st.cells[key] = val
    return mk("ptr", key, ())


def post(l, name):
    return l.st.cells[("ext", name)]


def subsets(n, most=None):
    """nonempty sets of vertices, of at most so many elements"""
    if most is not None and most < n:
        return [list(s) for k in range(1, most + 1) for s in itertools.combinations(range(n), k)]
    return [[i for i in range(n) if m >> i & 1] for m in range(1, 1 << n)]


def symmetric(rnd, n, hi, infinite=0):
    """a symmetric matrix of distances up to hi; with this probability a few of them are infinite"""
    if infinite and n > 1 and rnd.random() < infinite:
        d = symmetric(rnd, n, hi)
        for _ in range(rnd.choice((1, 1, 2, 3))):
            i, j = rnd.sample(range(n), 2)
            d[i][j] = d[j][i] = interp.INF
        return d
    if n > 30:
        h = [rnd.randrange(0, hi + 1) for _ in range(n)]
        d = [[0 if i == j else (h[i] + h[j]) % (hi + 1) for j in range(n)] for i in range(n)]
    else:
        d = dense(rnd, n, hi)
    if n > 6 and rnd.random() < .6:     # a few points much further apart than the others
        for _ in range(rnd.choice((1, 1, 2, 3))):
            i, j = rnd.sample(range(n), 2)
            d[i][j] = d[j][i] = 2 * hi + 1
    return interp.scaled(d)


def dense(rnd, n, hi):
    d = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            d[i][j] = d[j][i] = rnd.randrange(0, hi + 1)
    return d


def rows(d):
    return (V, tuple((V, tuple(r)) for r in d))


def I_(n):
    return mk("int", n)


def each(d, f):
    """comprehension over the elements of an unknown sequence"""
    t = fresh_bv()
    return mkfor(t, mk("elems", d), f(t))


def local_iters(t):
    """local iterators a stream was not resolved into: `iter:<next>` applications"""
    out, todo, seen = [], [t], set()
    while todo:
        for x in walk(todo.pop()):
            if x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith("iter:") and x not in out:
                out.append(x)
            elif x.op == "phi" and x not in seen:
                seen.add(x)
                rec = loops.BYPHI.get(x)
                if rec is not None:
                    todo += interp.loop_terms(rec)
    return out


def followed(ctx, recs):
    """meaning of calls of recursive functions: the extracted body of the function, followed call by call"""
    F = follow.Follower(ctx)
    out = {}
    for r in recs:
        d = ctx.prog.bodies[r]
        for nm in (d["path"], "rec:" + r):
            out[nm] = lambda I, *vs, r=r: F.call(I, r, vs)[0]
            for i in range(d["args"]):
                out["post%d:%s" % (i, nm)] = lambda I, *vs, r=r, i=i: F.call(I, r, vs)[1][i]
    out["$leaves"] = [l for r in recs for l in F.summary(r)[0]]
    return out
