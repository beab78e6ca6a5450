"""C20, C21: the Python entry points of the path homology crate.  The matrices they build and the reduction algorithms they call are
obligations of C08-C10 and C17-C19 and are replaced by their contracts: a matrix is what it was built from, a diagram is an
arbitrary one of the matrix that was reduced."""
from rules.common import *
from rules import heap, grpph
from rules.heap import mkentry
from rules.matrices import MO, HRF, HCB, CB, SBD, on, owned
from rules.grpph import G, Digraph, boundary, coboundary, multiset, node, edge, two

E_, n_, x_, i_ = [sym(n) for n in ("edges", "n_vertices", "x", "i")]
METHODS = ((MO, "column"), (HRF, "filtration_value"), (HCB, "basis"), (CB, "size"), (CB, "element"), (SBD, "in_dimension"))


def frozen(ev, st, t, depth=0):
    """value with pointers replaced by what they point to"""
    if not isT(t) or depth > 12:
        return t
    if t.op == "ptr":
        return frozen(ev, st, ev.deref(st, t), depth + 1)
    if t.op == "ctor":
        return ctor(t.a[0], t.a[1], *[frozen(ev, st, x, depth + 1) for x in t.a[2:]])
    if t.op == "stream":
        return vec(t.a[0])
    if t.op == "app" and str(t.a[0]).startswith("$"):
        return app(t.a[0], *[frozen(ev, st, x, depth + 1) for x in t.a[1:]])
    return t


def opaque_matrix(name):
    def c(ev, st, ref, args):
        w = ev.deref(st, args[0])
        if w.op != "app" or not str(w.a[0]).startswith("$"):
            return None
        t = app("$" + name, *[frozen(ev, st, ev.deref(st, a)) for a in args])
        if name == "column":
            x = fresh_bv()
            t = mk("stream", mkfor(x, mk("elems", t), one(x)))
        return [Leaf("ret", st, t)]
    return c


def ctor_of(name):
    def c(ev, st, ref, args):
        return [Leaf("ret", st, app(name, *[frozen(ev, st, a) for a in args]))]
    return c


def diagram_ctor(ctx, W, extra=()):
    A = ctx.adt("phlite", "Diagram")
    v = ctx.prog.adts[A]["variants"][0]
    by = {"essential": app("$essential", W, *extra), "pairings": app("$pairings", W, *extra)}
    if sorted(f["name"] for f in v["fields"]) != sorted(by):
        raise Missing("fields of Diagram")
    return ctor(A, v["name"], *[by[f["name"]] for f in v["fields"]])


def pyev(ctx):
    heap.use(ctx)
    ev = heap.hev(ctx)
    cs = ev.contracts
    for tr_, nm in METHODS:
        ids = [im["items"][nm] for im in ctx.prog.impls_of(tr_) if nm in im["items"]]
        it = ctx.prog.traits.get(tr_, {}).get(nm)
        if it:
            ids.append(it["id"])
        for b in ids:
            cs[b] = opaque_matrix(nm)
    cs[ctx.inherent(ctx.adt(G, "GrPPHCoboundary"), "build")] = ctor_of("$cob")
    cs[ctx.inherent(ctx.adt(G, "GrPPHBoundary"), "build")] = ctor_of("$bnd")
    seen = []

    def cleared(ev, st, ref, args):
        W = frozen(ev, st, args[0])
        dims = vec(models.stream(ev, st, ev.deref(st, args[1])))
        seen.append((W, dims))
        return [Leaf("ret", st, tup(app("$cleared", W, dims), diagram_ctor(ctx, W, (dims,))))]
    cs[ctx.inherent(ctx.adt("phlite", "ClearedReductionMatrix"), "build_with_diagram")] = cleared

    def standard(ev, st, ref, args):
        W = frozen(ev, st, args[0])
        return [Leaf("ret", st, tup(app("$V", W), diagram_ctor(ctx, W)))]
    cs[ctx.find_free("phlite", "standard_algo_with_diagram")] = standard
    ev.seen = seen
    return ev


# ------------------------------------------------------------------------------------------------- sampled inputs
INF = interp.INF


class Input(Digraph):
    """a digraph given by a list of weighted edges"""

    def __init__(self, seed):
        rnd = self.rnd = random.Random(seed)
        self.n = n = rnd.choice((0, 1, 2, 3, 3, 4, 4, 5)) + interp.beyond(60)
        if interp.LONG > 8 and rnd.random() < .5:
            self.n = n = interp.pairs_beyond(100) or n
        far = grpph.far_labels(rnd, False) if 60 < interp.LONG < 160 else None
        if far:
            self.n, n = far[-1] + 1, len(far)
        hi = rnd.choice((1, 2, 3, 6))
        p = rnd.choice((.3, .5, .8)) if n < 12 else rnd.choice((.1, .3, .8)) if n < 20 else rnd.choice((.5, 1)) / n
        hub = rnd.randrange(n) if n >= 20 else None         # a vertex with many edges out or in
        out = rnd.random() < .5
        es = [(i, j, INF if rnd.random() < .15 else rnd.randrange(0 if seed % 3 == 0 else 1, hi + 1)) for i in range(n) for j in range(n)
              if i != j and (rnd.random() < p or hub == (i if out else j) and rnd.random() < .97)]
        es += [(i, j, w + rnd.randrange(-1, 2) if 1 <= w < INF else INF if w < INF and rnd.random() < .2 else rnd.randrange(hi) + 1)
               for i, j, w in es if rnd.random() < .25]
        es = [(i, j, w * interp.SCALE if w < INF else w) for i, j, w in es]
        rnd.shuffle(es)
        if far:
            es = [(far[i], far[j], w) for i, j, w in es]
        self.list = es
        self.E = {(i, j) for i, j, _ in es}
        self.labels = far or range(n)
        d = {i: {} for i in self.labels}
        for i, j, w in es:
            d[i][j] = min(d[i].get(j, INF), w)
        for k in self.labels:
            for i in self.labels:
                if k in d[i]:
                    for j, t in list(d[k].items()):
                        d[i][j] = min(d[i].get(j, INF), d[i][k] + t)
        self.T = {(i, j): t for i in self.labels for j, t in d[i].items() if i != j and t < INF}

    def __str__(self):
        return "n_vertices = %d, edges = %s" % (self.n, [(i, j, "inf" if w == INF else w) for i, j, w in self.list])

    def value(self):
        return vlist((C, "", i, j, w) for i, j, w in self.list)


def looked_up(I, F, i, j):
    """edge time a local type of the crate gives: by the summary of its `edge_time`"""
    ctx = interp.FOLLOW.__self__.ctx
    sums = ctx.__dict__.setdefault("$lookups", {})
    if F[1] not in sums:
        ims = [im for im in ctx.prog.impls_of(grpph.trait_of(ctx, "DigraphFiltration"))
               if ctx.prog.self_ty(im)["k"] == "adt" and str(ctx.prog.self_ty(im).get("adt")).split("::")[-1] == F[1]]
        if len(ims) != 1:
            raise Opaque("times")
        st = State()
        S, s, t = sym("times"), sym("s"), sym("t")
        args = [cell(st, "self", S), cell(st, "ps", s), cell(st, "pt", t)]
        sums[F[1]] = ctx.summary(ims[0]["items"]["edge_time"], args=args, st=st, ev=heap.hev(ctx))[1]
    J = Interp(I.seed, I.D, {sym("times"): F, sym("s"): i, sym("t"): j}, funcs=I.funcs)
    hit = interp.active(J, sums[F[1]])
    if hit == "panic":
        raise OutOfRange("time of (%d, %d)" % (i, j))
    if hit is None:
        raise Opaque("times")
    v = J.val(hit[0].val)
    if isinstance(v, tuple) and v[0] == C and v[1] == "Some":
        return norm(v[2])
    if v == (C, "None"):
        return None
    raise Opaque("time")


def built(I, F, E, n=None):
    """digraph a matrix was built from; differences from the one the edges describe are recorded"""
    X = I.funcs["$dg"]
    pairs = isinstance(F, tuple) and F[0] == "A" and F[1] == "map"
    own = isinstance(F, tuple) and F[0] == C and F[1] not in ("", "None", "Some")
    n = (X.n if pairs or own else len(I.items(F))) if n is None else n
    key = ("built", norm(F), norm(E), norm(n))
    if key in I.funcs["$memo"]:
        return I.funcs["$memo"][key]
    Y = Digraph(1)
    if not is_num(n):
        raise Opaque("number of vertices")
    Y.n = int(n)
    Y.labels = range(Y.n)
    Y.T = {}
    if pairs:
        for e in I.members(F):
            k, t = I.fieldof(e, "", 0), I.fieldof(e, "", 1)
            k = norm(k)
            if not (isinstance(k, tuple) and k[0] == C and k[1] == "" and len(k) == 4 and is_num(k[2]) and is_num(k[3]) and is_num(norm(t))):
                raise Opaque("time")
            Y.T[int(k[2]), int(k[3])] = norm(t)
    elif isinstance(F, tuple) and F[0] == C and F[1] not in ("", "None", "Some"):
        for i in range(Y.n if Y.n <= 24 else 0):
            for j in range(Y.n):
                t = looked_up(I, F, i, j)
                if t is not None:
                    Y.T[i, j] = t
        if Y.n > 24:
            raise Opaque("times of many vertices")
    else:
        rows_ = I.items(F)
        for i in range(Y.n):
            r = I.items(rows_[i]) if i < len(rows_) else None
            if r is None or len(r) < Y.n:
                raise OutOfRange("times of vertex %d" % i)
            for j in range(Y.n):
                if isinstance(r[j], tuple) and r[j][0] == C and r[j][1] in ("None", "Some"):
                    if r[j][1] == "Some":
                        Y.T[i, j] = norm(r[j][2])
                else:
                    raise Opaque("time")
    if not (isinstance(E, tuple) and E[0] == "A" and E[2] is None):
        raise Opaque("edge set")
    Y.E = set()
    for e in I.members(E):
        Y.E.add((int(I.fieldof(e, "", 0)), int(I.fieldof(e, "", 1))))
    bad = I.funcs["$bad"]
    if Y.n != X.n:
        bad.append("the matrix is built for %d vertices" % Y.n)
    for i in range(min(X.n, Y.n)):
        for j in range(min(X.n, Y.n)):
            if X.T.get((i, j)) != Y.T.get((i, j)):
                bad.append("the time of (%d, %d) is %s instead of %s" % (i, j, Y.T.get((i, j)), X.T.get((i, j))))
    for e in sorted(X.E ^ Y.E):
        bad.append("the graph edge %s is %s" % (e, "missing" if e in X.E else "listed, though it is not in the graph"))
    # cells are enumerated without loops
    Y.T = {k: v for k, v in Y.T.items() if k[0] != k[1]}
    Y.E = {e for e in Y.E if e[0] != e[1]}
    I.funcs["$memo"][key] = Y
    return Y


def matrix(I, w):
    """('cob' | 'bnd', digraph, basis) of a matrix value"""
    if isinstance(w, tuple) and w[0] == C and w[1] == "$cob":
        return "cob", built(I, *w[2:]), None
    if isinstance(w, tuple) and w[0] == C and w[1] == "$bnd":
        B = w[4]
        if not (isinstance(B, tuple) and B[0] == C and B[1] == "PathHomSingleBasis"):
            raise Opaque("basis of the boundary matrix")
        return "bnd", built(I, *w[2:4]), [(norm(I.fieldof(e, "", 0)), norm(I.fieldof(e, "", 1))) for e in I.items(B[2])]
    return None, None, None


def find(w, name):
    """matrix values inside a value"""
    if isinstance(w, tuple):
        if w and w[0] == C and w[1] == name:
            return [w]
        return [y for x in w for y in find(x, name)]
    return []


def rv(x):
    return (C, "Reverse", x)


class Fake(object):
    """an arbitrary diagram over the cells of a digraph"""

    def __init__(self, Y, seed):
        rnd = random.Random(seed * 31 + 5)
        often = rnd.choice((.1, .7, .7, .7))
        by = [[node(i) for i in range(Y.n)], sorted(Y.edges()), sorted(Y.two_cells())]
        self.pairs, used = [], set()
        for k in (0, 1):
            many = by[k + 1] if len(by[k + 1]) < 300 else rnd.sample(by[k + 1], 300)
            for b in by[k]:
                c = [d for d in many if d not in used and Y.time(d) >= Y.time(b)]
                if b not in used and c and rnd.random() < often:
                    z = [d for d in c if Y.time(d) == Y.time(b)]
                    d = rnd.choice(z if z and rnd.random() < .5 else c)
                    self.pairs.append((d, b))
                    used |= {b, d}
        self.ess = [b for k in (0, 1) for b in by[k] if b not in used and rnd.random() < .7]


def dim(x):
    return {"Node": 0, "Edge": 1, "TwoCell": 2}[x[1]]


def fake(I, Y):
    m = I.funcs["$memo"]
    if "fake" not in m:
        m["fake"] = (Fake(Y, I.seed), Y)
    elif m["fake"][1] is not Y:
        raise Opaque("two digraphs")
    return m["fake"][0]


def dims_of(I, ds):
    o = [norm(d) for d in I.items(ds)]
    if any(not is_num(d) for d in o):
        raise Opaque("dimensions")
    for d in o:
        if d not in (0, 1):
            raise Panics("there is no basis of dimension %s" % d)
    return o


def diagram_part(which):
    def f(I, w, *rest):
        k, Y, B = matrix(I, w)
        if k == "bnd":
            return boundary_part(I, which, Y, B)
        wrap = (lambda x: x) if k == "cob" else rv
        if k is None:
            c = find(w, "$cob")
            if len(c) != 1:
                raise Opaque("matrix that is reduced")
            Y = matrix(I, c[0])[1]
        if not rest:
            raise Opaque("reduction of a matrix of both dimensions")
        F = fake(I, Y)
        ds = dims_of(I, rest[0])
        if which == "essential":
            return ("A", "set", None, tuple(wrap(x) for x in F.ess if dim(x) in ds))
        return ("A", "set", None, tuple((C, "", wrap(d), wrap(b)) for d, b in F.pairs if dim(b) in ds))
    return f


def deaths(F):
    return [d for d, b in F.pairs if dim(b) == 1]


def V_of(I, F, Y, order=None):
    """arbitrary reduction matrix of the boundary matrix restricted to the death cells, in the order given (the first one asked for
    counts): {cell: {earlier cell: coefficient}}"""
    m = I.funcs["$memo"]
    if "V" not in m:
        rnd = random.Random(I.seed * 17 + 3)
        ds = deaths(F)
        cs = [c for c in order if c in ds] if order else []
        cs += sorted((d for d in ds if d not in cs), key=lambda d: (Y.time(d), d))
        m["V"] = {c: dict([(c, 1)] + [(e, rnd.choice((1, -1, 2))) for e in cs[:k] if rnd.random() < .4]) for k, c in enumerate(cs)}
    return m["V"]


def boundary_part(I, which, Y, B):
    F = fake(I, Y)
    if which == "essential":
        return ("A", "set", None, ())
    ds = set(deaths(F))
    cs = [c for _, c in B]
    for t, c in B:
        if Y.time(c) != t:
            I.funcs["$bad20"].append("the basis of the boundary matrix lists %s with time %s" % (pretty(c), t))
    if len(set(cs)) != len(cs):
        I.funcs["$bad20"].append("the basis of the boundary matrix lists a cell twice")
    if ds - set(cs):
        I.funcs["$bad20"].append("the basis of the boundary matrix misses the death cell %s" % pretty(sorted(ds - set(cs))[0]))
    elif set(cs) - ds:
        raise Opaque("the boundary matrix is reduced over more than the death cells")
    if [t for t, _ in B] != sorted(t for t, _ in B):
        I.funcs["$bad20"].append("the basis of the boundary matrix is not in the order of the filtration")
    return ("A", "set", None, tuple((C, "", b, d) for d, b in F.pairs if d in cs and d in ds))


def f_column(I, w, c):
    c = norm(c)
    if isinstance(w, tuple) and w[0] == C and w[1] == "$V":
        k, Y, B = matrix(I, w[2])
        if k != "bnd":
            raise Opaque("reduction matrix")
        v = V_of(I, fake(I, Y), Y, [x for _, x in B])
        if c not in v:
            raise Panics("no such column")
        return slist((C, "", q, r) for r, q in v[c].items())
    k, Y, B = matrix(I, w)
    if k is None:
        raise Opaque("column")
    if k == "bnd":
        return slist((C, "", q, y) for y, q in boundary(c).items())
    return slist((C, "", q, y) for q, y, _ in coboundary(Y, c))


def f_fv(I, w, x):
    k, Y, B = matrix(I, w)
    if k is None:
        raise Opaque("filtration value")
    t = Y.time(norm(x))
    if t is None:
        raise Panics("no time for %s" % pretty(x))
    return t


def f_basis(I, w):
    if matrix(I, w)[0] != "cob":
        raise Opaque("basis")
    return (C, "$basis", w)


def f_indim(I, b, d):
    d = norm(d)
    if not is_num(d) or d not in (0, 1):
        raise Panics("dimension")
    return (C, "$sub", b, d)


def sub(I, b):
    if not (isinstance(b, tuple) and b[1] == "$sub"):
        raise Opaque("basis")
    Y = matrix(I, b[2][2])[1]
    if b[3] == 0:
        return [node(i) for i in range(Y.n)]
    es = Y.edges()
    return sorted(es, key=lambda e: (es[e], e))


def f_size(I, b):
    return len(sub(I, b))


def f_element(I, b, i):
    es = sub(I, b)
    if not is_num(i) or not 0 <= i < len(es):
        raise OutOfRange("position outside the basis")
    return es[int(i)]


# petgraph
def g_new(I, d):
    return (C, "$graph", d[1] if isinstance(d, tuple) else str(d), 0, ())


def graph(g):
    if not (isinstance(g, tuple) and g[0] == C and g[1] == "$graph"):
        raise Opaque("graph")
    return g[2:]


def g_addnode(I, g):
    d, n, es = graph(g)
    return (C, "$graph", d, n + 1, es)


def g_extend(I, g, xs):
    d, n, es = graph(g)
    new = []
    for x in I.items(xs):
        i, j, w = [norm(I.fieldof(x, "", k)) for k in range(3)]
        new.append((i, j, w))
        n = max(n, i + 1, j + 1)
    return (C, "$graph", d, n, es + tuple(new))


def g_update(I, g, a, b, w):
    d, n, es = graph(g)
    a, b, w = norm(a), norm(b), norm(w)
    es = list(es)
    for k, (i, j, _) in enumerate(es):
        if (i, j) == (a, b) or d != "directed" and (j, i) == (a, b):
            es[k] = (i, j, w)
            break
    else:
        es.append((a, b, w))
    return (C, "$graph", d, n, tuple(es))


def g_edges(I, g):
    return vlist((C, "", i, j, w) for i, j, w in graph(g)[2])


def g_around(I, g, v, d):
    """edges at a vertex, the latest first"""
    dr, n, es = graph(g)
    if dr != "directed":
        raise Opaque("neighbours in an undirected graph")
    v, out = norm(v), not (isinstance(d, tuple) and d[:2] == (C, "Incoming"))
    return vlist((C, "", i, j, w, j if out else i) for i, j, w in reversed(es) if (i if out else j) == v)


def g_dijkstra(I, g, cost, s, goal):
    d, n, _ = graph(g)
    goal = norm(goal)
    if not (isinstance(goal, tuple) and goal[0] == C and (goal[1] == "None" or is_num(goal[2]))):
        raise Opaque("shortest paths to a goal")
    goal = None if goal[1] == "None" else goal[2]
    s = norm(s)
    if not 0 <= s < n:
        raise Panics("no such vertex")
    es = []
    for x in I.items(cost):
        i, j, w = [norm(I.fieldof(x, "", k)) for k in range(3)]
        if not is_num(w):
            raise Opaque("weight")
        es += [(i, j, w)] if d == "directed" else [(i, j, w), (j, i, w)]
    dist = {s: 0}
    for _ in range(n):
        last = len(dist), sum(dist.values())
        for i, j, w in es:
            if i in dist and dist[i] + w < dist.get(j, 10 ** 12):
                dist[j] = dist[i] + w
        if last == (len(dist), sum(dist.values())):
            break
    if goal in dist:
        # the search ends when it reaches the goal: what is farther away has the length of the best path found so far, if any
        g = dist[goal]
        if any(v == g and k != goal for k, v in dist.items()):
            raise Opaque("vertices as far as the goal")
        near = {k: v for k, v in dist.items() if v < g}
        far = {}
        for i, j, w in es:
            if i in near and j not in near and j != goal:
                far[j] = min(far.get(j, near[i] + w), near[i] + w)
        dist = dict(near)
        dist.update(far)
        dist[goal] = g
    return ("A", "map", None, tuple((C, "", k, v) for k, v in dist.items()))


def mkfn(name):
    return lambda I, *a: (C, name) + a


def funcs(X):
    d = dict(heap.FUNCS)
    d.update({"column": f_column, "filtration_value": f_fv, "$cob": mkfn("$cob"), "$bnd": mkfn("$bnd"), "$cleared": mkfn("$cleared"), "$V": mkfn("$V"),
              "$essential": diagram_part("essential"), "$pairings": diagram_part("pairings"), "$column": f_column,
              "$filtration_value": f_fv, "$basis": f_basis, "$in_dimension": f_indim, "$size": f_size, "$element": f_element,
              "pg:new": g_new, "pg:addnode": g_addnode, "pg:nodes": lambda I, g: graph(g)[1], "pg:extend": g_extend,
              "pg:update": g_update, "pg:edges": g_edges, "pg:around": g_around,
              "pg:outgoing": lambda I: (C, "Outgoing"), "pg:contains": lambda I, g, a, b: int(any((i, j) == (norm(a), norm(b)) for i, j, w in graph(g)[2])), "pg:dijkstra": g_dijkstra,
              "$dg": X, "$memo": {}, "$bad": [], "$bad20": []})
    return d


def sample(k):
    X = Input(k)
    return X, {E_: X.value(), n_: X.n}, funcs(X)


NAMES = ("grpph", "grpph_with_involution")


def entry(ctx, name):
    b = ctx.find_free(G, name)
    ev = pyev(ctx)
    _, ls = ctx.summary(b, args=[n_, E_], ev=ev)
    for l in ls:
        if l.kind == "ret":
            l.val = frozen(ev, l.st, l.val)
    return b, ev, ls


def bars(I, val, which, Y, F):
    """compare a list of bars per dimension"""
    ls = I.items(I.fieldof(val, "", which))
    want = [[], []]
    if which == 0:
        for x in F.ess:
            want[dim(x)].append(Y.time(x))
    else:
        for d, b in F.pairs:
            if Y.time(d) != Y.time(b):
                want[dim(b)].append((C, "", Y.time(b), Y.time(d)))
    nm = ("essential", "finite")[which]
    if len(ls) < 2:
        return "lists %s bars of %d dimensions" % (nm, len(ls))
    for k, l in enumerate(ls):
        g = I.items(l)
        e = multiset(I, g, want[k] if k < 2 else [])
        if e:
            return "%s bars of dimension %d: %s (all: %s, expected %s)" % (nm, k, e, [pretty(x) for x in g], [pretty(x) for x in want[k]] if k < 2 else [])
    return None


def jbars(I, X, l, inv):
    val = I.val(l.val)
    e = None
    m = I.funcs["$memo"]
    if "fake" not in m:
        raise Opaque("no diagram")
    F, Y = m["fake"]
    for w in (0, 1):
        e = e or bars(I, val, w, Y, F)
    if e is None and inv:
        V_ = V_of(I, F, Y)
        want = []
        for d, b in F.pairs:
            if dim(b) == 1 and Y.time(d) != Y.time(b):
                col = {}
                for c, q in V_[d].items():
                    for y, p in boundary(c).items():
                        col[y] = col.get(y, 0) + p * q
                want.append(tuple(sorted((y[2], y[3]) for y, q in col.items() if q)))
        got = [tuple(sorted((norm(I.fieldof(x, "", 0)), norm(I.fieldof(x, "", 1))) for x in I.items(r))) for r in I.items(I.fieldof(val, "", 2))]
        if I.funcs["$bad20"]:
            e = I.funcs["$bad20"][0]
        elif sorted(got) != sorted(want):
            e = "representatives %s instead of the reduced columns %s" % (sorted(got), sorted(want))
    if e:
        return "%s; diagram: essential %s, pairings (death, birth) %s" % (
            e, [pretty(x) for x in F.ess], [(pretty(d), pretty(b)) for d, b in F.pairs])
    return None


def jtimes(I, X, l):
    I.val(l.val)
    # matrices that were built
    if "fake" not in I.funcs["$memo"]:
        raise Opaque("no matrix")
    return I.funcs["$bad"][0] if I.funcs["$bad"] else None


@rule("C20")
def c20(ctx):
    for nm in NAMES:
        inv = nm != "grpph"

        def go(nm=nm, inv=inv):
            b, ev, ls = entry(ctx, nm)
            grpph.judge_all(ctx, "bars of %s" % nm, ctx.at(b), ls, sample, lambda I, X, l: jbars(I, X, l, inv))
        ctx.guarded("bars of %s" % nm, go)
        ctx.guarded("matrix reduced by %s" % nm, lambda: reduced(ctx, nm))


@rule("C20")
def registered(ctx):
    """the module that Python loads hands out both functions: the definition the attribute generates for each is referred to by code that
    the module's initialiser reaches"""
    name = "functions registered in the Python module"

    def go():
        B = ctx.prog.bodies
        defs = {nm: ctx.find_free(G, nm) + "::_PYO3_DEF" for nm in NAMES}
        init = [k for k in B if k.startswith(G + "::") and k.endswith("__pyo3_pymodule")]
        if not init or any(d not in B for d in defs.values()):
            raise Undecided("registration of Python functions")
        seen, todo, refs = set(), list(init), set()

        def strings(x):
            if isinstance(x, str):
                yield x
            elif isinstance(x, dict):
                for y in x.values():
                    yield from strings(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    yield from strings(y)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            for k in [f] + [k for k in B if k.startswith(f + "::promoted[") or k.startswith(f + "::{closure")]:
                for s in strings(B[k]["blocks"]):
                    refs.add(s)
                    if s in B and s.startswith(G) and s not in seen:
                        todo.append(s)
        for nm, d in defs.items():
            if d not in refs:
                ctx.add(name, ctx.at(init[0]) if B[init[0]].get("at") else None, VIOL, "%s is not registered" % nm)
                return
        ctx.add(name, None, OK, "both")
    ctx.guarded(name, go)


def reduced(ctx, nm):
    """what is reduced is the coboundary matrix turned around"""
    b, ev, ls = entry(ctx, nm)
    at = ctx.at(b)
    ws = []
    for W, dims in ev.seen:
        if W not in ws:
            ws.append(W)
    if not ws:
        raise Undecided("no matrix is reduced")
    for W in ws:
        reduced_one(ctx, nm, at, W)


def reduced_one(ctx, nm, at, W):
    if W.op != "ctor":
        raise Undecided("matrix that is reduced")
    K = sym("W0")
    cobs = [x for x in walk(W) if x.op == "app" and x.a[0] == "$cob"]
    if len(cobs) != 1:
        raise Undecided("matrix that is reduced")
    # the inner matrix may be any coboundary matrix: its construction is an obligation of C21
    xs = [sym("cell")]
    name = "matrix reduced by %s" % nm
    arg = ctor(REVERSE, "Reverse", xs[0])

    def smp(kinds):
        def s(k):
            X, fixed, fn = sample(k)
            x = grpph.cells(X, k * 13, kinds)
            if x is None:
                return None
            fixed[xs[0]] = x
            return X, fixed, fn
        return s
    ev = pyev(ctx)
    ev2, bc, lc = on(ctx, MO, "column", W, [arg], ev=ev)
    outs = {id(l): mk("stream", models.stream(ev2, l.st, l.val)) for l in lc if l.kind == "ret"}

    def jc(I, X, l):
        Y = matrix(I, I.val(cobs[0]))[1]
        x = I.fixed[xs[0]]
        if Y.time(x) is None:
            return None
        return multiset(I, I.items(I.val(outs[id(l)])), [(C, "", q, rv(y)) for q, y, _ in coboundary(Y, x)])
    grpph.judge_all(ctx, name + " (columns)", at, lc, smp((0, 1)), jc)
    ev = pyev(ctx)
    _, _, lf = on(ctx, HRF, "filtration_value", W, [arg], ev=ev)

    def jf(I, X, l):
        Y = matrix(I, I.val(cobs[0]))[1]
        x = I.fixed[xs[0]]
        if Y.time(x) is None:
            return None
        g = I.val(l.val)
        return None if equal(I, g, rv(Y.time(x))) else "filtration value of Reverse(%s) is %s" % (pretty(x), pretty(g))
    grpph.judge_all(ctx, name + " (filtration values)", at, lf, smp((0, 1, 2)), jf)


@rule("C21")
def c21(ctx):
    for nm in NAMES:
        def go(nm=nm):
            b, ev, ls = entry(ctx, nm)
            grpph.judge_all(ctx, "times and edges given to %s's matrices" % nm, ctx.at(b), ls, sample, jtimes)
        ctx.guarded("times and edges given to %s's matrices" % nm, go)
