"""C11: caching columns.  The summary of a cached column from an arbitrary consistent cache, and a dataflow over MIR that follows
the guards of interior-mutable cells."""
from rules.common import *
from rules import heap
import rules.matrices as mx
from rules.matrices import MO, MATRIX_M as m, c_, dflt, build, reify, same_list, UNKNOWN

GUARDS = {"Ref": "shared", "RefMut": "exclusive", "MutexGuard": "exclusive", "RwLockReadGuard": "shared", "RwLockWriteGuard": "exclusive",
          "ReentrantLockGuard": "shared"}
ACQUIRE = {"borrow": "shared", "borrow_mut": "exclusive", "lock": "exclusive", "read": "shared", "write": "exclusive",
           "try_borrow": "shared", "try_borrow_mut": "exclusive", "replace": "exclusive-now", "take": "exclusive-now", "swap": "exclusive-now",
           "replace_with": "exclusive-now", "clone": "shared-now", "eq": "shared-now"}
CELLS = ("RefCell", "Mutex", "RwLock", "ReentrantLock")
FORGET = ("forget", "leak", "into_raw")


@rule("C11")
def caching(ctx):
    mx.nn(ctx)
    heap.use(ctx)
    W = mx.adaptor(ctx, "cache_cols", MO, "cache_cols", [m])
    if W is None:
        return
    ctx.guarded("starts with an empty cache", lambda: empty(ctx, W))
    ctx.guarded("cached column", lambda: column(ctx, W))
    ctx.guarded("guards", lambda: guards_rule(ctx, W))


def cells_of(st):
    return [k for k in st.cells if isinstance(k, tuple) and k[0] == "cellref"]


def empty(ctx, W):
    st = State()
    reify(ctx, st, W)
    ks = cells_of(st)
    if len(ks) != 1:
        raise Undecided("representation of the cache")
    v = st.cells[ks[0]]
    at = ctx.at(dflt(ctx, MO, "cache_cols"))
    e = v.op == "app" and v.a[0] == "emptycoll"
    ctx.require("starts with an empty cache", at, True if e else None, "initial cache %s" % (v,))


KEYS = [100, 101, 102, 103, 104]


def column(ctx, W):
    """for every cache that holds true columns: the result is the column, the cache still holds true columns, those it held and the one
    asked for, and the wrapped matrix is asked at most once and not for a column already held"""
    st = State()
    W2 = reify(ctx, st, W)
    ks = cells_of(st)
    if len(ks) != 1:
        raise Undecided("representation of the cache")
    CM = sym("CM")
    st.cells[ks[0]] = CM
    p = cell(st, "self", W2)
    b = ctx.method(MO, W.a[0], "column")
    ev, ls = ctx.summary(b, args=[p, c_], st=st, ev=heap.hev(ctx))

    def sample(k, D):
        o = mx.smp()(k, D)
        rnd = random.Random("cache%d" % k)
        I = Interp(k, D)
        held = [x for x in KEYS if rnd.random() < 0.5]
        held += range(1000, 1000 + interp.LONG)         # a cache beyond any threshold on its size
        rnd.shuffle(held)
        o[CM] = ("A", "map", None, tuple((C, "", x, (V, tuple(I.items(mx.mcol(I, 900, x))))) for x in held))
        return o

    def held(I):
        return [e[2] for e in I.fixed[CM][3]]
    want = mk("stream", mx.colS(m, c_))
    kw = dict(fixed=sample, funcs=UNKNOWN, want_panic=lambda I: False)
    ctx.equal("cached column", b, ls, want, out=lambda l: mx.colterm(ctx, ev, l), mode=same_list, **kw)

    def agrees(I, got, w):
        old = held(I)
        for k in KEYS + [x for x in old if x >= 1000][:3] + [x for x in old if x >= 1000][-3:]:
            e = I.lookup(got, k)
            if not (isinstance(e, tuple) and e[0] == C and e[1] in ("Some", "None")):
                raise Opaque("cache")
            if e[1] == "Some" and not same_list(I, I.fieldof(e, "Some", 0), mx.mcol(I, 900, k)):
                return False
            if e[1] == "None" and (k == I.fixed[c_] or k in old):
                return False
        return True
    ctx.equal("the cache holds true columns afterwards", b, ls, lambda I: "held %s, asked %s" % (held(I), I.fixed[c_]),
              out=lambda l: l.st.cells[ks[0]], mode=agrees, **kw)

    def asked(l):
        return [n for n in l.st.notes if n[0] == "call" and str(n[1]).endswith("::column")]

    def once(I, got, w):
        return all(x == I.fixed[c_] for x in got) and len(got) <= (0 if I.fixed[c_] in held(I) else 1)
    if any(n[0] != "call" for l in ls if l.kind == "ret" for n in l.st.notes):
        raise Undecided("effects of a cached column")
    # what was asked of the wrapped matrix, as a sequence of columns
    def asks(name, b, ls):
        ctx.equal(name, b, ls, lambda I: "at most once",
                  out=lambda l: mk("array", *[n[2][-1] for n in asked(l)]), mode=lambda I, g, w: once(I, I.items(g), w), **kw)
    asks("asks the wrapped matrix at most once", b, ls)

    # other requests for a column that do not go through `column`
    def override(meth):
        b = ctx.method(mx.HRF, W.a[0], meth)
        ev = heap.hev(ctx)
        plain = ev._contract

        def contract(st, ref, args):
            r = plain(st, ref, args)
            for l in r or []:
                l.st.note("call", "$matrix::column", (ev.deref(l.st, args[1]),))
            return r
        ev._contract = contract
        st2 = st.copy()
        _, ls = ctx.summary(b, args=[p, c_], st=st2, ev=ev)
        asks("asks the wrapped matrix at most once: " + meth, b, ls)
    for im in ctx.prog.impls_of(mx.HRF):
        if ctx.prog.self_adt(im) == W.a[0]:
            for meth in sorted(im["items"]):
                if meth == "column_with_filtration":
                    ctx.guarded("asks the wrapped matrix at most once: " + meth, lambda: override(meth))


# ------------------------------------------------------------------------------------------ guards
def ty_contains(ctx, types, i, pred, seen=None, depth=0):
    """does a type hold a value satisfying pred (by value: not behind a reference)"""
    seen = seen if seen is not None else set()
    if i in seen or depth > 12:
        return False
    seen.add(i)
    t = types[i]
    if pred(t):
        return True
    if t["k"] in ("ref", "ptr", "fndef", "prim"):
        return False
    if any(ty_contains(ctx, types, j, pred, seen, depth + 1) for j in t.get("args", [])):
        return True
    ad = ctx.prog.adts.get(t.get("adt"))
    if ad:
        return any(ty_contains(ctx, ad["types"], f["ty"], pred, set(), depth + 1) for v in ad["variants"] for f in v["fields"])
    return False


def guard_kind(t):
    if t["k"] != "adt" or str(t.get("adt")).split("::")[0] not in ("core", "std", "alloc"):
        return None
    return GUARDS.get(str(t["adt"]).split("::")[-1])


def is_guard(t):
    return guard_kind(t) is not None


def cell_call(d, t):
    """(what, receiver operand) if this is a call that acquires a guard of a cell"""
    f = t["f"]
    if not isinstance(f, dict) or f.get("name") not in ACQUIRE or not t["a"]:
        return None
    types = d["types"]
    i = t["aty"][0]
    for _ in range(3):
        if types[i]["k"] == "ref":
            i = types[i]["args"][0]
    if str(types[i].get("adt")).split("::")[-1] in CELLS:
        return ACQUIRE[f["name"]]
    return None


class Guards(object):
    """forward may-analysis of one body: which guards are alive, and which local holds each of them"""

    def __init__(self, ctx, summ):
        self.ctx, self.summ = ctx, summ
        self.problems, self.unknown = [], []

    def origin(self, d, op, n=0):
        """the place a cell reference was taken from, as a field path; None if not found"""
        if n > 8 or op.get("o") not in ("move", "copy"):
            return None
        l, proj = op["p"]
        path = tuple(q[2] for q in proj if q[0] == "field")
        if l <= d["args"]:
            return (l,) + path
        defs = []
        for blk in d["blocks"]:
            for s in blk["st"]:
                if s["s"] == "assign" and s["p"][0] == l and not s["p"][1]:
                    defs.append(s["rv"])
            t = blk["term"]
            if t["t"] == "call" and t["dest"][0] == l and not t["dest"][1]:
                defs.append(t)
        if len(defs) != 1:
            return None
        r = defs[0]
        if r.get("r") in ("ref", "cfd"):
            return self._ext(self.origin(d, {"o": "copy", "p": r["p"]}, n + 1), path)
        if r.get("r") == "use":
            return self._ext(self.origin(d, r["a"], n + 1), path)
        return None

    def _ext(self, o, path):
        return None if o is None else o + path

    def body(self, bid):
        d = self.ctx.prog.bodies[bid]
        blocks = d["blocks"]
        entry = {0: frozenset()}
        todo = [0]
        escapes = set()
        n = 0
        while todo:
            n += 1
            if n > 4000:
                raise Undecided("guards of " + bid)
            i = todo.pop()
            live = entry[i]
            for s in blocks[i]["st"]:
                live = self.stmt(d, s, live)
            t = blocks[i]["term"]
            live, succ = self.term(d, t, live, bid)
            if t["t"] == "return":
                for g in live:
                    if g[1] == 0:
                        escapes.add(g)
            for j in succ:
                new = entry.get(j, frozenset()) | live
                if j not in entry or new != entry[j]:
                    entry[j] = new
                    todo.append(j)
        return escapes

    def ops(self, rv):
        if "a" in rv and isinstance(rv["a"], dict):
            yield rv["a"]
        for o in rv.get("ops", []) or []:
            yield o

    def stmt(self, d, s, live):
        if s["s"] == "dead":
            return frozenset(g for g in live if g[1] != s["l"])
        if s["s"] != "assign":
            return live
        moved = {o["p"][0] for o in self.ops(s["rv"]) if o.get("o") == "move"}
        out = set()
        for g in live:
            if g[1] in moved:
                out.add((g[0], s["p"][0], g[2], g[3]))
            elif not (g[1] == s["p"][0] and not s["p"][1]):
                out.add(g)
        return frozenset(out)

    def term(self, d, t, live, bid):
        k = t["t"]
        succ = []
        if k == "goto":
            return live, [t["to"]]
        if k == "switch":
            return live, [x[1] for x in t["v"]] + ([t["else"]] if t.get("else") is not None else [])
        if k == "drop":
            l, proj = t["p"]
            return (frozenset(g for g in live if g[1] != l) if not proj else live), [t["to"]]
        if k == "call":
            acq = cell_call(d, t)
            nm = t["f"].get("name") if isinstance(t["f"], dict) else None
            dest = t["dest"][0]
            moved = {o["p"][0] for o in t["a"] if o.get("o") == "move"}
            out = set()
            dty = t["dty"]
            for g in live:
                if g[1] in moved:
                    if nm in FORGET:
                        out.add((g[0], -1, g[2], g[3]))
                        continue
                    ty = d["types"][d["locals"][g[1]]]["s"]
                    if ty_contains(self.ctx, d["types"], dty, lambda x: x["s"] == ty or is_guard(x) or x["k"] in ("alias", "dyn")):
                        out.add((g[0], dest, g[2], g[3]))
                    # otherwise the callee consumed it: dropped
                elif g[1] != dest or t["dest"][1]:
                    out.add(g)
            live = frozenset(out)
            at = t.get("at")
            if acq:
                where = self.origin(d, t["a"][0])
                kind = acq.split("-")[0]
                if not str(nm).startswith("try_"):
                    self.conflicts(live, kind, where, at, bid)
                if not acq.endswith("-now"):
                    live = live | {((bid, at), dest, kind, where)}
            else:
                for eff in self.effects(d, t):
                    if live:
                        self.conflicts(live, eff[0], self.subst(d, eff[1], t), at, bid)
                # a local function that hands out a guard
                for c in self.targets(t):
                    for g in self.summ.get(c, (set(), set()))[1]:
                        live = live | {((bid, at), dest, g[2], self.subst(d, g[3], t))}
            return live, [t["to"]] if t.get("to") is not None else []
        for f in ("to", "ok"):
            if t.get(f) is not None:
                succ.append(t[f])
        return live, succ

    def subst(self, d, where, t):
        """a callee's place in terms of the caller's"""
        if where is None or where[0] > len(t["a"]):
            return None
        o = self.origin(d, t["a"][where[0] - 1])
        return None if o is None else o + tuple(where[1:])

    def targets(self, t):
        f = t["f"]
        if not isinstance(f, dict):
            return []
        return [c for c in (f.get("resolved"), f.get("id")) if c in self.ctx.prog.bodies][:1]

    def effects(self, d, t):
        out = set()
        for c in self.targets(t):
            out |= self.summ.get(c, (set(), set()))[0]
        return out

    def conflicts(self, live, kind, where, at, bid):
        for g in live:
            if g[2] == "shared" and kind == "shared":
                continue
            if where is None or g[3] is None:
                self.unknown.append("%s at %s" % (bid, at))
            elif where == g[3]:
                self.problems.append("%s: %s access to the cell %s at %s while the %s guard taken at %s is alive" % (
                    bid, kind, ".".join(map(str, where[1:])), at, g[2], g[0][1]))


def summaries(ctx, bodies):
    """per function: the cells it accesses (as places of its arguments), and the guards it returns"""
    summ = {b: (set(), set()) for b in bodies}
    for _ in range(4):
        changed = False
        for b in bodies:
            G = Guards(ctx, summ)
            esc = G.body(b)
            d = ctx.prog.bodies[b]
            acc = set()
            for blk in d["blocks"]:
                t = blk["term"]
                if t["t"] != "call":
                    continue
                a = cell_call(d, t)
                if a:
                    acc.add((a.split("-")[0], G.origin(d, t["a"][0])))
                for e in G.effects(d, t):
                    acc.add((e[0], G.subst(d, e[1], t)))
            new = (acc, {(None, 0, g[2], g[3]) for g in esc})
            if new != summ[b]:
                summ[b] = new
                changed = True
        if not changed:
            break
    return summ


def guards_rule(ctx, W):
    """no iterator a matrix hands out keeps a guard of an interior-mutable cell, and no cell is accessed against a live guard"""
    bodies = [b for b, d in ctx.prog.bodies.items() if d["crate"].startswith("phlite")]
    touch = set()
    for b in bodies:
        d = ctx.prog.bodies[b]
        if any(is_guard(d["types"][l]) for l in d["locals"]) or any(blk["term"]["t"] == "call" and cell_call(d, blk["term"]) for blk in d["blocks"]):
            touch.add(b)
    # callers of those, transitively
    while True:
        more = {b for b in bodies if b not in touch and any(
            blk["term"]["t"] == "call" and isinstance(blk["term"]["f"], dict) and
            (blk["term"]["f"].get("resolved") in touch or blk["term"]["f"].get("id") in touch) for blk in ctx.prog.bodies[b]["blocks"])}
        if not more:
            break
        touch |= more
    summ = summaries(ctx, sorted(touch))
    for b in sorted(touch):
        G = Guards(ctx, summ)
        esc = G.body(b)
        d = ctx.prog.bodies[b]
        ctx.analysed.add(b)
        im = ctx.prog.impl_of_item(b)
        name = "guards in " + b
        if im and im.get("trait", "") and str(im.get("trait")).startswith("phlite::matrices::") and esc:
            ctx.add(name, ctx.at(b), VIOL, "; ".join("the %s guard taken at %s is still held by what the function returns" % (g[2], g[0][1])
                                                     for g in esc))
        elif G.problems:
            ctx.add(name, ctx.at(b), VIOL, "; ".join(sorted(set(G.problems))))
        elif G.unknown:
            ctx.add(name, ctx.at(b), UNDEC, "cells of unknown origin: " + "; ".join(sorted(set(G.unknown))))
        else:
            ctx.add(name, ctx.at(b), OK)
    ctx.require("cells are found", None, bool(touch) or None, "no access to an interior-mutable cell")
