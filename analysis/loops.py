"""Loops.  No loop is unrolled: the variables a loop changes are found by a fixpoint over one abstract iteration from
an arbitrary iterate, then
 * a loop that walks a source (iterator, counter, stack, heap) becomes a comprehension over that source,
 * anything else is kept as a transition system (one-step relation over the changed variables) that rules inspect."""
from terms import *
from facts import NONNEG_ATOMS

_uid = [0]
BYPHI = {}          # loop variable -> the loop kept as a transition system it belongs to


def tainted(terms, P):
    """do the terms mention a variable of another kept loop whose transitions depend on the variables P"""
    seen, todo = set(), list(terms)
    while todo:
        for x in walk(todo.pop()):
            rec = BYPHI.get(x)
            if rec is None or id(rec) in seen:
                continue
            seen.add(id(rec))
            new = list(rec.inits.values())
            for lits, nw, l in rec.conts:
                new += list(lits) + list(nw.values())
            if any(mentions(y, P) for y in new):
                return True
            todo += new
    return False


class Rec(object):
    """a loop kept as a transition system"""

    def __init__(self, **k):
        self.__dict__.update(k)


def fresh_cell(tag):
    _uid[0] += 1
    return (tag, _uid[0])


def diff(old, new, path, out, depth=0):
    if old is new:
        return
    if depth < 8 and old.op == "ctor" and new.op == "ctor" and old.a[:2] == new.a[:2] and len(old.a) == len(new.a) \
            and len(old.a) > 2 and old.a[0] not in (OPT, RES):
        for i, (x, y) in enumerate(zip(old.a[2:], new.a[2:])):
            diff(x, y, path + (("f", old.a[1], i),), out, depth + 1)
        return
    if depth < 8 and old.op == "clo" and new.op == "clo" and old.a[0] == new.a[0] and len(old.a) == len(new.a) > 1:
        for i, (x, y) in enumerate(zip(old.a[1:], new.a[1:])):
            diff(x, y, path + (("f", "", i),), out, depth + 1)
        return
    out.add(path)


def prim_at(ev, key, path):
    """primitive type name of a location when the types say so"""
    fr = ev.frames.get(key[0]) if key and isinstance(key[0], tuple) else None
    if fr is None:
        return None
    types = fr["body"]["types"]
    t = types[fr["body"]["locals"][key[1]]] if key[1] < len(fr["body"]["locals"]) else None
    for p in path:
        if t is None:
            return None
        if p[0] == "f":
            if t["k"] == "tuple":
                t = types[t["args"][p[2]]]
            elif t["k"] == "adt" and t["adt"] in ev.prog.adts:
                ad = ev.prog.adts[t["adt"]]
                f = ad["variants"][0]["fields"]
                if p[2] >= len(f):
                    return None
                t2 = ad["types"][f[p[2]]["ty"]]
                if t2["k"] != "prim":
                    return None
                t = t2
                types = ad["types"]
            else:
                return None
        else:
            return None
    return t["s"] if t is not None and t["k"] == "prim" else None


def mentions(t, xs):
    return any(x in xs for x in walk(t))


def solve(ev, st0, run, live, where, forced=()):
    ev.depth += 1
    try:
        return solve_(ev, st0, run, live, where, forced)
    finally:
        ev.depth -= 1


def solve_(ev, st0, run, live, where, forced=()):
    """run(st) evaluates one iteration -> leaves cont / exit / ret / panic.  -> leaves with closed forms"""
    phis = {}           # (key, path) -> phi term
    order = []

    def add(loc):
        if loc in phis:
            return
        # a location inside or around an existing one: keep the outer
        for (k, p) in list(phis):
            if k == loc[0]:
                if p == loc[1][:len(p)]:
                    return
                if loc[1] == p[:len(loc[1])]:
                    ev.phi_stream.pop(phis[(k, p)], None)
                    del phis[(k, p)]
        _uid[0] += 1
        ph = mk("phi", _uid[0])
        phis[loc] = ph
        order.append(loc)
        init = ev.readcell(st0, loc[0], loc[1])
        ev.phi_init[ph] = init
        if init.op == "stream":
            S = init.a[0]
            if S.op == "for" and S.a[2].op == "one":
                ev.phi_stream[ph] = S
                if S.a[1].op == "range":
                    NONNEG_ATOMS.add(app("pos", ph))
        pt = prim_at(ev, loc[0], loc[1])
        if pt is not None:
            if pt[0] == "u":
                NONNEG_ATOMS.add(ph)

    for l in forced:
        add(l)
    nloops = len(ev.loops)
    for _ in range(12):
        del ev.loops[nloops:]
        s = st0.copy()
        for (k, p), ph in sorted(phis.items(), key=lambda kv: kv[1].id):
            ev.writecell(s, k, p, ph)
        base = dict(s.cells)
        leaves = run(s)
        new = set()
        for l in leaves:
            if l.kind != "cont":
                continue
            for k, v in base.items():
                if not live(k):
                    continue
                w = l.st.cells.get(k)
                if w is None or w is v:
                    continue
                ps = set()
                diff(v, w, (), ps)
                for p in ps:
                    if (k, p) not in phis and not any(k == k2 and p2 == p[:len(p2)] for (k2, p2) in phis):
                        new.add((k, p))
        if not new:
            break
        for loc in sorted(new, key=str):
            add(loc)
    else:
        from engine import Undecided
        raise Undecided("loop fixpoint in " + str(where))
    if any(has_ptr(ev.phi_init[ph]) and ev.phi_init[ph].op != "stream" for ph in phis.values()):
        pass
    return finish(ev, st0, phis, leaves, where, base)


def has_ptr(t):
    return contains(t, lambda x: x.op == "ptr")


def news(ev, l, phis):
    return {ph: ev.readcell(l.st, k, p) for (k, p), ph in phis.items()}


def finish(ev, st0, phis, leaves, where, base):
    from engine import Leaf
    conts = [l for l in leaves if l.kind == "cont"]
    others = [l for l in leaves if l.kind in ("exit", "ret")]
    pans = [l for l in leaves if l.kind == "panic"]
    n0 = len(st0.facts.lits)
    if not conts:
        return [goto(l) for l in others] + pans
    inits = {ph: ev.phi_init[ph] for ph in phis.values()}
    P = set(phis.values())
    cl = [(tuple(l.st.facts.lits[n0:]), news(ev, l, phis), l) for l in conts]
    src = find_source(ev, st0, phis, cl, others, n0)
    if src is not None:
        r = traverse(ev, st0, phis, inits, cl, others, pans, n0, src, where)
        if r is not None:
            return r
    rec = Rec(where=where, phis=dict(phis), inits=inits, st0=st0, conts=cl, exits=others, panics=pans,
              n0=n0, body=where[0] if where else None, src=src, base=base)
    ev.loops.append(rec)
    for ph in P:
        BYPHI[ph] = rec
    return [goto(l) for l in others] + [Leaf("panic", l.st, "loop", l.at) for l in pans]


def goto(l):
    from engine import Leaf
    if l.kind == "exit":
        return Leaf("goto", l.st, l.val, l.at)
    return l


class Src(object):
    """ph: the source variable; cond(v): literal that says there is another element; S: the stream; elem: term standing
    for the element in the leaves; aux: other literals implied by the traversal; final: value of ph afterwards"""
    def __init__(self, **k):
        self.__dict__.update(k)


def strip_lits(lits, drop):
    return tuple(l for l in lits if l not in drop)


def find_source(ev, st0, phis, cl, others, n0):
    for ph in sorted(phis.values(), key=lambda t: t.id):
        init = ev.phi_init[ph]
        vals = [nw[ph] for _, nw, _ in cl]
        # iterators
        for cand in _cands(ev, st0, ph, init, vals, phis):
            yes, no = cand.yes, cand.no
            if not all(any(x in ls for x in yes) for ls, _, _ in cl):
                continue
            # exits: those with the "no" literal are regular, the others early
            reg, early = [], []
            ok = True
            for l in others:
                ls = l.st.facts.lits[n0:]
                if any(x in ls for x in no):
                    reg.append(l)
                elif any(x in ls for x in yes):
                    early.append(l)
                else:
                    ok = False
            if not ok:
                continue
            cand.reg, cand.early = reg, early
            return cand
    return None


def _cands(ev, st0, ph, init, vals, phis):
    others = set(phis.values()) - {ph}
    v0 = vals[0]
    if any(v is not v0 for v in vals):
        return
    if v0 is app("adv", ph):
        d = mk("discr2", app("nextitem", ph))
        if ph in ev.phi_stream:
            S = ev.phi_stream[ph]
            t = app("pos", ph)
            tt = fresh_bv()
            drop = {lit(d, 1), lit(d, 0)}
            if S.a[1].op == "range":
                drop.add(lit(lt(t, S.a[1].a[1], "i"), 1))
            yield Src(ph=ph, kind="pos", S=mkfor(tt, S.a[1], one(tt)), elem=t, yes=(lit(d, 1),), no=(lit(d, 0),),
                      drop=drop, final=mk("stream", EMPTY))
        else:
            S = init.a[0] if init.op == "stream" else stream_of(init)
            yield Src(ph=ph, kind="it", S=S, elem=field(app("nextitem", ph), "Some", 0), yes=(lit(d, 1),),
                      no=(lit(d, 0),), drop={lit(d, 1), lit(d, 0)}, final=mk("stream", EMPTY))
        return
    if v0 is app("hrest", ph):
        d = mk("discr2", app("hpop", ph))
        yield Src(ph=ph, kind="it", S=elem_stream(app("hdrain", init)), elem=field(app("hpop", ph), "Some", 0),
                  yes=(lit(d, 1),), no=(lit(d, 0),), drop={lit(d, 1), lit(d, 0)}, final=_empty("bh"))
    if v0 is app("poprest", ph):
        d = mk("discr2", app("pivot", ph))
        yield Src(ph=ph, kind="it", S=elem_stream(app("drain", init)), elem=field(app("pivot", ph), "Some", 0),
                  yes=(lit(d, 1),), no=(lit(d, 0),), drop={lit(d, 1), lit(d, 0)}, final=app("emptybh"))
    sl = slice_(ph, I(0), psub(vlen(ph), I(1)))
    if v0 is sl:
        c = lt(I(0), vlen(ph), "i")
        yield Src(ph=ph, kind="it", S=rev(viter(init)), elem=index(ph, psub(vlen(ph), I(1))), yes=(lit(c, 1),),
                  no=(lit(c, 0),), drop={lit(c, 1), lit(c, 0)}, final=vec(EMPTY))
    if v0.op == "app" and v0.a[0] == "div" and v0.a[1] is ph and not mentions(v0.a[2], set(phis.values())):
        B = v0.a[2]
        c, e = lt(I(0), ph, "i"), eq(ph, I(0))
        yield Src(ph=ph, kind="it", S=elem_stream(app("digits", init, B)), elem=app("rem", ph, B),
                  yes=(lit(c, 1), lit(e, 0)), no=(lit(c, 0), lit(e, 1)),
                  drop={lit(c, 1), lit(c, 0), lit(e, 0), lit(e, 1)}, final=I(0))
    d = psub(v0, ph)
    if d.op == "int" and d.a[0] in (1, -1):
        yield Src(ph=ph, kind="counter", step=d.a[0], yes=_Bound(ev, st0, ph, init, d.a[0], others, 1),
                  no=_Bound(ev, st0, ph, init, d.a[0], others, 0))


class _Bound(object):
    """matches the literal  ph < N  (resp. its negation) and remembers N"""
    def __init__(self, *a):
        self.a = a
        self.N = set()

    def __iter__(self):
        return iter((self,))

    def __eq__(self, l):
        ev, st0, ph, init, step, others, want = self.a
        if not isT(l) or l.op != "lit":
            return False
        c, v = l.a
        # normalised comparison: lhs < rhs with ph on one side
        if c.op == "lt" and c.a[2] in ("i", "s"):
            d = psub(c.a[1], c.a[0])      # > 0 iff true
            k = dict((m, x) for m, x in P(d).items())
            co = k.get(((ph, 1),), 0)
            r = padd(d, pmul(I(-co), ph))
            if mentions(r, {ph} | others) or co == 0:
                return False
            if step == 1 and co == -1 and v == want:
                self.N.add(r)
                return True
            if step == 1 and co == 1 and v != want:
                # ph + r > 0 false: ph <= -r  i.e. ph < 1 - r
                self.N.add(psub(I(1), r))
                return True
            if step == -1 and co == 1 and v == want:
                # ph + r > 0: ph > -r
                self.N.add(pneg(r))
                return True
            if step == -1 and co == -1 and v != want:
                self.N.add(psub(r, I(1)))
                return True
        if c.op == "eq" and v == 1 - want:
            for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if x is ph and not mentions(y, {ph} | others):
                    if step == 1 and st0.facts.value(lt(y, init, "i")) == 0 or init is I(0):
                        self.N.add(y)
                        return True
                    if step == -1 and st0.facts.value(lt(init, y, "i")) == 0 or y is I(0):
                        self.N.add(y)
                        return True
        return False

    __hash__ = None


def _empty(k):
    return app("emptycoll", mk("str", k))


def elem_stream(x):
    t = fresh_bv()
    return mkfor(t, mk("elems", x), one(t))


def stream_of(v):
    return elem_stream(v)


def traverse(ev, st0, phis, inits, cl, others, pans, n0, src, where):
    from engine import Leaf
    ph = src.ph
    P = set(phis.values()) - {ph}
    if src.kind == "counter":
        # resolve the bound
        yesb = src.yes
        Ns = yesb.N
        if len(Ns) != 1:
            return None
        N = next(iter(Ns))
        init = inits[ph]
        if src.step == 1:
            S = rng(init, N)
            elem_val = None
            fin = N if st0.facts.value(lt(N, init, "i")) == 0 or init is I(0) else MAX2(init, N)
        else:
            # ph runs init, init-1, .. , N+1
            t = fresh_bv()
            S = rev(smap(rng(N, init), lambda x: padd(x, I(1))))
            fin = N if st0.facts.value(lt(init, N, "i")) == 0 or N is I(0) else MIN2(init, N)
        src.S, src.elem, src.final = S, ph, fin
        nob = src.no
        cl = [(tuple(l for l in ls if not (yesb == l)), nw, x) for ls, nw, x in cl]
        drop_no = lambda ls: tuple(l for l in ls if not (nob == l))
        drop_yes = lambda ls: tuple(l for l in ls if not (yesb == l))
    else:
        cl = [(strip_lits(ls, src.drop), nw, x) for ls, nw, x in cl]
        drop_no = drop_yes = lambda ls: strip_lits(ls, src.drop)
    S = src.S
    t = fresh_bv()
    tm = {src.elem: t}
    cl2 = []
    for ls, nw, x in cl:
        nw2 = {p: subst(nw[p], tm) for p in P}
        ls2 = tuple(subst(l, tm) for l in ls)
        cl2.append((ls2, nw2))
    early = []
    for l in src.early:
        early.append((tuple(subst(x, tm) for x in drop_yes(tuple(l.st.facts.lits[n0:]))), l))
    pan = []
    for l in pans:
        if l.val == "loop":
            continue
        pan.append(tuple(subst(x, tm) for x in drop_yes(tuple(l.st.facts.lits[n0:]))))
    # loops inside the body that were kept as transition systems run anew in every iteration
    if tainted([x for ls, nw in cl2 for x in list(ls) + list(nw.values())] + [x for ls, _ in early for x in ls], set(phis.values()) | {ph, src.elem}):
        return None
    # the source variable itself must not be used otherwise
    for ls, nw in cl2:
        for x in list(ls) + list(nw.values()):
            if mentions(x, {ph}):
                return None
    for ls, l in early:
        if any(mentions(x, {ph}) for x in ls):
            return None
    changed = {p for p in P if any(nw[p] is not p for _, nw in cl2)}
    Scont = S
    F = None
    if early:
        if any(mentions(x, P) for ls, _ in early for x in ls):
            return None
        g = lambda x: case([(tuple(subst(l, {t: x}) for l in ls), one(x)) for ls, _ in early])
        # merge to a single guard when possible
        br = case_tree([(ls, one(t)) for ls, _ in early])
        F = bind(S, lambda x: subst(br, {t: x}))
        if changed:
            x = fresh_bv()
            body = case_tree([(ls, one(TRUE)) for ls, _ in cl2] + [(ls, one(FALSE)) for ls, _ in early])
            tt = fresh_bv()
            Scont = mkfor(tt, mk("elems", mk("adapt", "take_while", S, lam([t], body))), one(tt))
    fin = closed(ev, st0, Scont, t, P, inits, cl2, pan, where)
    if fin is None:
        return None
    out = []
    fin[ph] = src.final

    def emit(l, mp, lits):
        s = l.st.copy()
        f = st0.facts
        for x in lits:
            f = f.add(subst(x, mp))
            if f is None:
                return
        s.facts = f
        keys = set(mp)
        for k, v in list(s.cells.items()):
            if isT(v) and mentions(v, keys):
                s.cells[k] = subst(v, mp)
        out.append(goto(Leaf(l.kind, s, subst(l.val, mp) if isT(l.val) else l.val, l.at)))
    done = ()
    if early:
        ne = nonempty(smap(F, lambda x: UNIT))
        done = (lit(ne, 0),)
        for ls, l in early:
            hd = head(F)
            mp = dict(fin)
            if src.kind == "counter":
                mp[ph] = hd
            else:
                mp[src.elem] = hd
                mp[ph] = app("rest", S, F)
            emit(l, mp, (lit(ne, 1),) + tuple(subst(x, {t: hd}) for x in ls))
    for l in src.reg:
        emit(l, dict(fin), done + drop_no(tuple(l.st.facts.lits[n0:])))
    if pans:
        for l in pans:
            out.append(Leaf("panic", l.st, "loop", l.at))
    return out


def closed(ev, st0, S, t, P, inits, cl, pan, where):
    """final values of the variables P after running the guarded updates cl for every element t of S"""
    fin = {}
    changed = sorted((p for p in P if any(nw[p] is not p for _, nw in cl)), key=lambda x: x.id)
    for p in P:
        if p not in changed:
            fin[p] = inits[p]
    # counters: same constant step on every path
    counters = {}
    for p in changed:
        ds = {psub(nw[p], p) for _, nw in cl}
        if len(ds) == 1 and next(iter(ds)).op == "int":
            counters[p] = next(iter(ds)).a[0]
    unchanged = {p: inits[p] for p in P if p not in changed}

    def over(g):
        """bind over S; g(x, pos)"""
        if S.op == "for" and S.a[1].op == "range" and S.a[2].op == "one":
            tt, d, b = open_for(S)
            return mkfor(tt, d, g(b.a[0], tt))
        return None

    def bindp(f, needpos):
        """f(mapping) -> stream"""
        if not needpos:
            return bind(S, lambda x: f(dict(unchanged, **{})if False else merge(unchanged, {t: x})))
        r = over(lambda x, pos: f(merge(unchanged, {t: x}, {p: padd(inits[p], pmul(I(k), pos)) for p, k in counters.items()})))
        if r is not None:
            return r
        from models import enum
        return bind(enum(S), lambda q: f(merge(unchanged, {t: field(q, "", 1)}, {
            p: padd(inits[p], pmul(I(k), field(q, "", 0))) for p, k in counters.items()})))

    for p in changed:
        br = [(ls, nw[p]) for ls, nw in cl]
        fin[p] = close_one(ev, st0, S, t, p, set(changed), counters, inits, br, pan, bindp)
        if fin[p] is None:
            return None
    return fin


def merge(*ds):
    r = {}
    for d in ds:
        r.update(d)
    return r


def dropdc(br, pan):
    """guards with the literals that only separate off panics removed"""
    from models import dontcare
    return dontcare(br, pan)


def close_one(ev, st0, S, t, p, changed, counters, inits, br, pan, bindp):
    init = inits[p]
    if p in counters:
        if counters[p] and all(True for _ in br):
            return padd(init, pmul(I(counters[p]), count(S)))
    br = merge_leaves(br, lambda v: v.id)
    br = dropdc(br, pan)

    def contrib(kind):
        out = []
        for ls, v in br:
            if v is p:
                X = EMPTY
            elif kind == "append" and v.op == "append" and v.a[0] is p:
                X = v.a[1]
            elif kind in ("set", "map", "bh") and v.op == "acc" and v.a[0] == kind and v.a[1] is p:
                X = v.a[2]
            elif kind == "add":
                d = psub(v, p)
                if mentions(d, {p}):
                    return None
                X = one(d)
            elif kind in ("MAX", "MIN") and v.op == "ext" and v.a[0] == kind:
                parts = v.a[1].a if v.a[1].op == "seq" else (v.a[1],)
                if one(p) not in parts:
                    return None
                X = seq(*[x for x in parts if x is not one(p)])
            elif kind == "store" and v.op == "store":
                b, X = v, []
                while b.op == "store":
                    X.append((b.a[1], b.a[2]))
                    b = b.a[0]
                if b is not p or len(X) != 1:
                    return None
                i, w = X[0]
                X = one(tup(i, w))
            elif kind == "scatapp" and v.op == "store" and v.a[0] is p:
                i, w = v.a[1], v.a[2]
                if w.op == "append" and w.a[0] is index(p, i):
                    X = smap(w.a[1], lambda x: tup(i, x))
                else:
                    return None
            else:
                return None
            if mentions(X, changed - set(counters)) or any(mentions(l, changed - set(counters)) for l in ls):
                return None
            out.append((ls, X))
        return out

    def build(out):
        needpos = any(mentions(x, set(counters)) for ls, X in out for x in list(ls) + [X])
        body = case_tree(out)
        return bindp(lambda mp: subst(body, mp), needpos)

    for kind in ("append", "acc", "add", "MAX", "MIN", "scatapp", "store"):
        if kind == "acc":
            ks = {v.a[0] for _, v in br if v.op == "acc"}
            if len(ks) != 1:
                continue
            kind = ks.pop()
            out = contrib(kind)
            if out is not None:
                return acc(kind, init, build(out))
            continue
        if kind == "add" and not any(_num(v, p) for _, v in br):
            continue
        out = contrib(kind)
        if out is None:
            continue
        X = build(out)
        if kind == "append":
            return append(init, X)
        if kind == "add":
            return padd(init, SUM(X))
        if kind in ("MAX", "MIN"):
            return EXT(kind, seq(one(init), X))
        return app(kind, init, X)
    # running maximum written as a branch:  if p < d { p = d }
    if len(br) == 2:
        for (l1, v1), (l2, v2) in ((br[0], br[1]), (br[1], br[0])):
            if v2 is p and v1 is not p and len(l1) == 1 and not mentions(v1, changed):
                for kind, a, b in (("MAX", p, v1), ("MIN", v1, p)):
                    for k in "ois":
                        if l1[0] in (lit(lt(a, b, k), 1), lit(lt(b, a, k), 0)):
                            body = one(v1)
                            return EXT(kind, seq(one(init), bindp(lambda mp: subst(body, mp), mentions(v1, set(counters)))))
    # flags: set to a constant under some condition
    dep = any(mentions(v, changed) for _, v in br if v is not p) or any(
        mentions(l, changed) for ls, _ in br for l in ls)
    consts = {v for _, v in br if v is not p}
    if not dep and len(consts) == 1 and next(iter(consts)).op in ("int", "ctor") and not mentions(next(iter(consts)), {t}):
        c = next(iter(consts))
        X = bindp(lambda mp: subst(case_tree([(ls, one(UNIT)) for ls, v in br if v is not p]), mp), False)
        return ite(nonempty(X), 1, c, init)
    if not dep and not mentions_counter(br, counters):
        # last assignment wins
        X = bindp(lambda mp: subst(case_tree([(ls, one(v)) for ls, v in br if v is not p]), mp), False)
        return app("lastof", X, init)
    if not any(mentions(x, changed - {p}) for ls, v in br for x in list(ls) + [v]):
        body = case_tree([(ls, one(v)) for ls, v in br])
        return mk("gfold", init, S, lam([p, t], body))
    return None


def mentions_counter(br, counters):
    return any(mentions(x, set(counters)) for ls, v in br for x in list(ls) + [v])


def _num(v, p):
    return v is not p and (v.op == "poly" or v.op == "int") and any(x is p for x in (q for m in P(v) for q, _ in m))


# ------------------------------------------------------------------ the users
def handle(ev, fr, st0, header):
    blocks = fr["cfg"].loops[header]
    live = fr["cfg"].live_in()[header]
    borrowed = borrowed_locals(fr)
    fid = fr["id"]

    def islive(k):
        if k[0] == fid:
            return k[1] in live or k[1] in borrowed
        return True

    def run(s):
        return ev.block(fr, s, header, (header, blocks))
    return solve(ev, st0, run, islive, (fr["body"]["id"], header))


def borrowed_locals(fr):
    b = fr.get("borrowed")
    if b is None:
        b = set()
        for bl in fr["body"]["blocks"]:
            for s in bl["st"]:
                if s["s"] == "assign" and s["rv"]["r"] in ("ref", "rawptr"):
                    b.add(s["rv"]["p"][0])
        fr["borrowed"] = b
    return b


def _run_src(ev, cell, body):
    """one iteration: take an element from the source cell, run body(state, element)"""
    from engine import Leaf
    import models

    def run(s):
        out = []
        for l in models.next_on(ev, s, mk("ptr", cell, ())):
            for s2, x in models.split(ev, l.st, l.val):
                if x is None:
                    out.append(Leaf("exit", s2))
                else:
                    out += body(s2, x)
        return out
    return run


def _wrap_conts(leaves, f):
    from engine import Leaf
    out = []
    for l in leaves:
        if l.kind == "ret":
            r = f(l)
            out += r if isinstance(r, list) else [Leaf("cont", l.st)]
        else:
            out.append(l)
    return out


def fold(ev, st, S, init, f):
    from engine import Leaf
    src, ac = fresh_cell("src"), fresh_cell("acc")
    st.cells[src] = mk("stream", S)
    st.cells[ac] = init

    def body(s, x):
        a = s.cells[ac]

        def put(l):
            l.st.cells[ac] = l.val
        return _wrap_conts(ev.call_value(s, f, [a, x]), put)
    ls = solve(ev, st, _run_src(ev, src, body), lambda k: True, ("fold", str(f.a[0]) if f.op == "clo" else ""), forced=[(src, ())])
    out = []
    for l in ls:
        if l.kind in ("goto", "exit"):
            v = l.st.cells.pop(ac)
            l.st.cells.pop(src, None)
            out.append(Leaf("ret", l.st, v))
        else:
            out.append(l)
    return out


def for_each(ev, st, S, f):
    from engine import Leaf
    src = fresh_cell("src")
    st.cells[src] = mk("stream", S)

    def body(s, x):
        return _wrap_conts(ev.call_value(s, f, [x]), lambda l: None)
    ls = solve(ev, st, _run_src(ev, src, body), lambda k: True, ("for_each", str(f.a[0]) if f.op == "clo" else ""), forced=[(src, ())])
    out = []
    for l in ls:
        if l.kind in ("goto", "exit"):
            l.st.cells.pop(src, None)
            out.append(Leaf("ret", l.st, UNIT))
        else:
            out.append(l)
    return out


def map_effect(ev, st, S, f, wrap):
    """lazy adaptor with a stateful closure, summarised as if consumed at once; -> leaves with a stream value"""
    from engine import Leaf
    src, oc = fresh_cell("src"), fresh_cell("acc")
    st = st.copy()
    st.cells[src] = mk("stream", S)
    st.cells[oc] = vec(EMPTY)

    def body(s, x):
        def put(l):
            l.st.cells[oc] = append(l.st.cells[oc], wrap(ev, l, x))
        return _wrap_conts(ev.call_value(s, f, [x]), put)
    ls = solve(ev, st, _run_src(ev, src, body), lambda k: True, ("map", str(f.a[0]) if f.op == "clo" else ""), forced=[(src, ()), (oc, ())])
    out = []
    for l in ls:
        if l.kind in ("goto", "exit"):
            v = l.st.cells.pop(oc)
            l.st.cells.pop(src, None)
            out.append(Leaf("ret", l.st, mk("stream", viter(v))))
        else:
            out.append(l)
    return out


def _unfold(ev, st, step, forced=()):
    """step(state) -> leaves returning Option<item>; the stream of the items until None"""
    from engine import Leaf
    import models
    oc = fresh_cell("acc")
    st = st.copy()
    st.cells[oc] = vec(EMPTY)

    def run(s):
        out = []
        for l in step(s):
            if l.kind != "ret":
                out.append(l)
                continue
            for s2, x in models.split(ev, l.st, l.val):
                if x is None:
                    out.append(Leaf("exit", s2))
                else:
                    s2 = s2.copy()
                    s2.cells[oc] = append(s2.cells[oc], one(x))
                    out.append(Leaf("cont", s2))
        return out
    ls = solve(ev, st, run, lambda k: True, ("unfold", ""), forced=list(forced) + [(oc, ())])
    out = []
    for l in ls:
        if l.kind in ("goto", "exit"):
            v = l.st.cells.pop(oc)
            out.append(Leaf("ret", l.st, mk("stream", viter(v) if v.op != "phi" else elem_stream(v))))
        else:
            out.append(l)
    return out


def while_effect(ev, st, S, f, keep):
    """map_while / take_while with a closure that changes state, summarised as if consumed at once.  keep: yield the element, not the result"""
    from engine import Leaf
    import models
    src = fresh_cell("src")
    st = st.copy()
    st.cells[src] = mk("stream", S)

    def step(s):
        out = []
        for l in models.next_on(ev, s, mk("ptr", src, ())):
            for s2, x in models.split(ev, l.st, l.val):
                if x is None:
                    out.append(Leaf("ret", s2, NONE))
                    continue
                for m in ev.call_value(s2, f, [x]):
                    if m.kind != "ret" or not keep:
                        out.append(m)
                        continue
                    for s3, b in models.bool_cases(ev, m.st, m.val):
                        out.append(Leaf("ret", s3, ctor(OPT, "Some", x) if b else NONE))
        return out
    return _unfold(ev, st, step, forced=[(src, ())])


def search_effect(ev, st, S, f, kind):
    """any / all / find / find_map / position with a closure that changes state"""
    from engine import Leaf
    import models
    src = fresh_cell("src")
    st = st.copy()
    st.cells[src] = mk("stream", models.enum(S) if kind == "position" else S)
    none = {"any": FALSE, "all": TRUE}.get(kind, NONE)

    def run(s):
        out = []
        for l in models.next_on(ev, s, mk("ptr", src, ())):
            for s2, e in models.split(ev, l.st, l.val):
                if e is None:
                    out.append(Leaf("exit", s2, none))
                    continue
                x = field(e, "", 1) if kind == "position" else e
                for m in ev.call_value(s2, f, [x]):
                    if m.kind != "ret":
                        out.append(m)
                    elif kind == "find_map":
                        for s3, y in models.split(ev, m.st, m.val):
                            out.append(Leaf("cont", s3) if y is None else Leaf("exit", s3, some(y)))
                    else:
                        for s3, b in models.bool_cases(ev, m.st, m.val):
                            stop = b if kind != "all" else not b
                            hit = {"any": TRUE, "all": FALSE, "find": some(x), "position": some(field(e, "", 0))}[kind]
                            out.append(Leaf("exit", s3, hit) if stop else Leaf("cont", s3))
        return out
    out = []
    for l in solve(ev, st, run, lambda k: True, ("search", kind), forced=[(src, ())]):
        if l.kind in ("goto", "exit"):
            l.st.cells.pop(src, None)
            out.append(Leaf("ret", l.st, l.val))
        else:
            out.append(l)
    return out


def unfold_fn(ev, st, f, args):
    return _unfold(ev, st, lambda s: ev.call_value(s, f, list(args)))


def unfold_iter(ev, st, p, v, next_id):
    """stream of the items of a local iterator struct"""
    if next_id not in ev.prog.bodies or next_id in ev.stack or next_id in ev.opaque:
        return elem_stream(app("iter:" + next_id, v))
    cell = fresh_cell("acc")
    s = st.copy()
    s.cells[cell] = v
    n = len(ev.loops)
    try:
        ls = _unfold(ev, s, lambda s: ev.call_body(next_id, [mk("ptr", cell, ())], s))
    except Exception as e:
        from engine import Undecided
        if not isinstance(e, Undecided):
            raise
        ls = []
    good = [l for l in ls if l.kind == "ret"]
    if len(good) == 1 and not contains(good[0].val, lambda x: x.op in ("phi",)):
        return good[0].val.a[0]
    return elem_stream(app("iter:" + next_id, v))
