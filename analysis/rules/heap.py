"""Heap columns: their meaning in interpretations, and the contract of popping and draining used by callers."""
from rules.common import *

BH = "phlite::columns::BHCol"


def e3(I, e):
    """filtration value, row, coefficient of a concrete or opaque entry"""
    o = ORDER[0]
    return tuple(norm(I.fieldof(e, "ColumnEntry", i)) for i in o)


ORDER = [(0, 1, 2)]


def use(ctx):
    ORDER[0] = tuple(ctx.prog.entry_order())


def entries(I, a):
    """entries of a concrete heap or heap column"""
    if isinstance(a, tuple) and a[0] == C and a[1] == "BHCol":
        a = a[2]
    if isinstance(a, tuple) and a[0] == "A" and a[1] == "bh" and a[2] is None:
        return list(a[3])
    if isinstance(a, tuple) and a[0] == V and len(a) == 2:      # a heap made of a vector
        return list(a[1])
    raise Opaque("heap")


def heapval(es):
    return ("A", "bh", None, tuple(es))


def bhval(es):
    return (C, "BHCol", heapval(es))


def emptyval():
    return bhval([])


def top(I, es):
    """position of the largest entry"""
    k = [e3(I, e) for e in es]
    return max(range(len(es)), key=lambda i: (k[i][0], k[i][1], I.h("tie", i)))


def hpop(I, a):
    es = entries(I, a)
    return (C, "Some", es[top(I, es)]) if es else (C, "None")


def hrest(I, a):
    es = entries(I, a)
    if es:
        del es[top(I, es)]
    return heapval(es)


def formal(I, es):
    """formal sum: {(filtration, row): coefficient}"""
    d = {}
    for e in es:
        f, r, c = e3(I, e)
        if not is_num(c):
            raise Opaque("coefficient")
        d[(f, r)] = d.get((f, r), 0) + c
    return {k: v for k, v in d.items() if v}


def terms_of(I, es):
    """non-zero terms in descending order"""
    d = formal(I, es)
    return [mkentry(f, r, d[(f, r)]) for f, r in sorted(d, reverse=True)]


def mkentry(f, r, c):
    v = [None] * 3
    for i, x in zip(ORDER[0], (f, r, c)):
        v[i] = x
    return (C, "ColumnEntry") + tuple(v)


def pivot(I, h):
    t = terms_of(I, entries(I, h))
    return (C, "Some", t[0]) if t else (C, "None")


def popped(I, h):
    return bhval(terms_of(I, entries(I, h))[1:])


def drain(I, h):
    return (V, tuple(terms_of(I, entries(I, h))))


def hdrain(I, h):
    """all raw entries in descending order"""
    es = entries(I, h)
    o = []
    while es:
        o.append(es.pop(top(I, es)))
    return (V, tuple(o))


FUNCS = {"hpop": hpop, "hrest": hrest, "hdrain": hdrain, "bh:pivot": pivot, "bh:popped": popped, "bh:drain": drain,
         "bh:drained": lambda I, h: emptyval()}


# ----------------------------------------------------------------------- contracts used in place of the bodies
def _recv(ev, st, a):
    h = ev.deref(st, a)
    q = a
    while q.op == "ptr":
        w = ev.readcell(st, q.a[0], q.a[1])
        if w.op != "ptr":
            break
        q = w
    return h, q


def c_pop(ev, st, ref, args):
    h, q = _recv(ev, st, args[0])
    if q.op != "ptr":
        return None
    ev.writecell(st, q.a[0], q.a[1], app("bh:popped", h))
    return [Leaf("ret", st, app("bh:pivot", h))]


def c_drain(ev, st, ref, args):
    h, q = _recv(ev, st, args[0])
    if q.op != "ptr":
        return None
    ev.writecell(st, q.a[0], q.a[1], app("bh:drained", h))
    x = fresh_bv()
    return [Leaf("ret", st, mk("stream", mkfor(x, mk("elems", app("bh:drain", h)), one(x))))]


def c_vec(ev, st, ref, args):
    x = fresh_bv()
    return [Leaf("ret", st, vec(mkfor(x, mk("elems", app("bh:drain", ev.deref(st, args[0]))), one(x))))]


def contracts(ctx, names=("pop_pivot", "drain_sorted", "to_sorted_vec")):
    """contracts for the methods that exist; they are obligations of C03"""
    use(ctx)
    out = {}
    for n, f in (("pop_pivot", c_pop), ("drain_sorted", c_drain), ("to_sorted_vec", c_vec)):
        if n in names:
            try:
                out[ctx.inherent(BH, n)] = f
            except Missing:
                pass
    return out


def hev(ctx, **k):
    ev = ctx.ev(**k)
    ev.contracts = contracts(ctx)
    return ev


# ----------------------------------------------------------------------- random heaps
def FV(r):
    """filtration value of a row: not monotone, with ties"""
    return 200 + r * 5 % 3 + (r // 104)


def rnd_heap(rnd, nrow=4, size=5):
    """entries over few rows, so that rows repeat and cancel; the filtration value is a function of the row"""
    es = []
    if rnd.random() < .5 and not interp.LONG:
        # every row cancels with probability one half
        for r in rnd.sample(range(100, 100 + nrow), rnd.randrange(1, min(nrow, 3) + 1)):
            cs = [rnd.choice([-2, -1, 1, 2]) for _ in range(rnd.randrange(1, 3))]
            if rnd.random() < .5 and sum(cs):
                cs.append(-sum(cs))
            es += [mkentry(FV(r), r, c) for c in cs]
        rnd.shuffle(es)
        return es
    apart = interp.LONG and rnd.random() < .5       # every row once: as many terms as entries
    few = interp.LONG and rnd.random() < .5 and rnd.choice((1, 1, nrow))         # or many entries of the same row
    for i in range(interp.upto(rnd, size + 1)):
        r = 100 + (i if apart else rnd.randrange(few or nrow + interp.LONG // 2))
        es.append(mkentry(FV(r), r, rnd.choice([-2, -1, -1, 1, 1, 2])))
    return es
