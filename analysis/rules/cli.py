"""C26: the Rips command line.  Reading, building the coboundary matrix and reducing it are replaced by their meaning (the latter two
are obligations of C08-C16); what is printed is compared with an arbitrary diagram of the matrix that was reduced."""
from rules.common import *
import ast
import struct
from rules import heap, pyfns, rips
from rules.matrices import MO, HRF, on
from rules.pyfns import frozen, ctor_of, diagram_ctor, rv, find

CLI = "phlite_rips_cli"


class Points(object):
    def __init__(self, seed):
        rnd = random.Random(seed)
        self.n = n = rnd.choice((1, 2, 2, 3, 3, 4, 5)) + (interp.beyond(6) or interp.beyond(60))
        if interp.LONG > 6 and rnd.random() < .5:
            self.n = n = interp.pairs_beyond(60) or n
        if seed % 17 == 4 and not interp.LONG:
            self.n = n = 0
        self.given = rnd.random() < .7
        self.maxdim = rnd.choice((0, 1, 1, 2)) if self.given else 1
        if n > 14:
            self.maxdim = 1 if not self.given else rnd.choice((0, 0, 1))
        often = rnd.choice((.1, .7, .7, .7))
        q = rnd.choice((1, 1, 10))
        d = symmetric(rnd, n, rnd.choice((1, 3, 8)))
        self.d = [[Fraction(x, q) if q > 1 else x for x in r] for r in d]
        if seed % 7 == 0:               # distances with many digits
            for i in range(n):
                for j in range(i):
                    if self.d[i][j]:
                        self.d[i][j] = self.d[j][i] = self.d[i][j] + Fraction(2 * rnd.randrange(1 << 20) + 1, 1 << 40)
        by = [[] for _ in range(max(self.maxdim + 2, n))]
        for s in subsets(n, self.maxdim + 2):
            by[len(s) - 1].append(tuple(s))
        self.pairs, used = [], set()
        for k in range(self.maxdim + 1):
            for b in by[k]:
                if b in used:
                    continue
                many = by[k + 1] if k + 1 < len(by) else []
                many = many if len(many) < 300 else rnd.sample(many, 300)
                c = [e for e in many if e not in used and self.time(e) >= self.time(b)]
                if c and rnd.random() < often:
                    e = rnd.choice(c)
                    self.pairs.append((e, b))
                    used |= {b, e}
        self.ess = [b for k in range(self.maxdim + 1) for b in by[k] if b not in used and rnd.random() < .7]

    def time(self, s):
        return max([0] + [self.d[i][j] for i in s for j in s])

    def code(self, s):
        return (C, "RipsIndex", sum((v + 1) * (self.n + 1) ** i for i, v in enumerate(s)))

    def __str__(self):
        return "distances %s, dimension bound %d%s; diagram: essential %s, pairings (death, birth) %s" % (
            [[str(x) for x in r] for r in self.d], self.maxdim, "" if self.given else " (default)", self.ess, self.pairs)


def digits(x, b):
    o = []
    while x > 0:
        o.append(x % b)
        x //= b
    return o


def simplex(I, x, n=None):
    """vertices of an encoded simplex"""
    if not (isinstance(x, tuple) and x[0] == C and x[1] == "RipsIndex" and is_num(x[2])):
        raise Opaque("simplex")
    n = I.funcs["$pt"].n if n is None else n
    return [q - 1 for q in digits(int(x[2]), int(n) + 1)]


def mat(I, w):
    """distance matrix and dimension bound a matrix was built with"""
    c = find(w, "$rips")
    if len(c) != 1:
        raise Opaque("matrix that is reduced")
    X = I.funcs["$pt"]
    D = [[norm(x) for x in I.items(r)] for r in I.items(c[0][2])]
    if D != [[norm(x) for x in r] for r in X.d]:
        I.funcs["$bad"].append("the matrix is built for the distances %s" % [[str(x) for x in r] for r in D])
    md = norm(c[0][3])
    if not is_num(md):
        raise Opaque("dimension bound")
    return md


def f_fv(I, w, x):
    X = I.funcs["$pt"]
    mat(I, w)
    return X.time([v for v in simplex(I, x)])


def part(which):
    def f(I, w, dims):
        X = I.funcs["$pt"]
        md = mat(I, w)
        wrap = (lambda x: x) if w[1] == "$rips" else rv
        ds = [norm(d) for d in I.items(dims)]
        for d in ds:
            if not is_num(d):
                raise Opaque("dimension")
            if d < 0 or d > md:
                raise Panics("there is no basis of dimension %s" % d)
        if which == "essential":
            return ("A", "set", None, tuple(wrap(X.code(x)) for x in X.ess if len(x) - 1 in ds))
        return ("A", "set", None, tuple((C, "", wrap(X.code(d)), wrap(X.code(b))) for d, b in X.pairs if len(b) - 1 in ds))
    return f


def f_dim(I, x, n):
    return len(simplex(I, x, norm(n))) - 1


def csv(b):
    if not (isinstance(b, tuple) and b[0] == C and b[1] == "$csv"):
        raise Opaque("reader")
    return b[2:]


def hdr(I, b, v):
    return (C, "$csv", norm(v)) + csv(b)[1:]


def option(I, name, b, v):
    """options of the reader; fields are decimal numbers, rows are of one length"""
    h, comment, delim = csv(b)
    n, v = name[1], norm(v)
    if n == "delimiter" and is_num(v):
        return (C, "$csv", h, comment, v == ord(","))
    if n == "comment" and isinstance(v, tuple) and v[1] == "None":
        return (C, "$csv", h, None, delim)
    if n == "comment" and isinstance(v, tuple) and v[1] == "Some" and is_num(v[2]):
        return (C, "$csv", h, chr(int(v[2])), delim)
    if n in ("flexible", "quoting", "double_quote", "escape", "trim", "buffer_capacity") or n == "quote" and v == ord('"'):
        return b
    raise Opaque("option %s of the reader" % n)


def text(x):
    return str(float(x)) if isinstance(x, Fraction) and x.denominator > 1 else str(x)


def records(I, rd):
    X = I.funcs["$pt"]
    if not (isinstance(rd, tuple) and rd[1] == "$reader" and isinstance(rd[3], tuple) and rd[3][1] == "stdin"):
        raise Opaque("reader")
    h, comment, delim = csv(rd[2])
    rs = [r for r in X.d if comment is None or not text(r[0]).startswith(comment)]
    rs = [vlist(r) if delim or X.n < 2 else vlist([("S", "row of several numbers")]) for r in rs]
    return vlist((C, "Ok", r) for r in (rs if h == 0 else rs[1:]))


def parse(I, x, t=None):
    """a field or argument read as a number; t: f32 or an integer type"""
    if not is_num(x):
        return (C, "Err", 0)
    if t is None:
        return (C, "Ok", x)
    if t[1] == "f32":
        return (C, "Ok", Fraction(struct.unpack("f", struct.pack("f", float(x)))[0]))
    lo, hi = interp.INTS[t[1]] if t[1] in interp.INTS else (0, 2 ** 64 - 1)
    return (C, "Ok", x) if x == int(x) and lo <= x <= hi else (C, "Err", 0)


def funcs(X):
    d = dict(heap.FUNCS)
    d.update({"$rips": pyfns.mkfn("$rips"), "$cleared": pyfns.mkfn("$cleared"), "$filtration_value": f_fv, "filtration_value": f_fv,
              "$essential": part("essential"), "$pairings": part("pairings"), "$dim": f_dim,
              "csv:new": lambda I: (C, "$csv", 1, None, True), "csv:headers": hdr, "csv:option": option, "csv:reader": pyfns.mkfn("$reader"), "stdin": pyfns.mkfn("stdin"),
              "csv:records": records, "args": lambda I: vlist([("S", "program")] + ([X.maxdim] if X.given else [])), "parse": parse,
              "$basis": pyfns.mkfn("$basis"), "$in_dimension": pyfns.mkfn("$sub"), "$size": lambda I, b: 7,
              "$pt": X, "$bad": []})
    for n in ("new", "from_str", "new_display", "new_debug", "new_const", "new_v1", "from_str_nonconst", "new_lower_exp"):
        d["fmt:" + n] = pyfns.mkfn("$" + n)
    return d


def template(name):
    """format template, as the library documents its bytes: ("text", string) and ("arg", index or None, number
    of decimals or None)"""
    b = ast.literal_eval(name)
    o, i = [], 0
    while b[i]:
        c = b[i]
        i += 1
        if c < 0x80:
            o.append(("text", b[i:i + c].decode()))
            i += c
        elif c == 0x80:
            n = b[i] + 256 * b[i + 1]
            o.append(("text", b[i + 2:i + 2 + n].decode()))
            i += 2 + n
        elif c & 0xc0 == 0xc0:
            if c & 0x30:
                raise Opaque("format with a width or precision that is not constant")
            i += 4 * (c & 1) + (c & 2)
            k = prec = None
            if c & 4:
                prec = b[i] + 256 * b[i + 1]
                i += 2
            if c & 8:
                k = b[i] + 256 * b[i + 1]
                i += 2
            o.append(("arg", k, prec))
        else:
            raise Opaque("format template")
    return o


def rounded(x, k):
    """a number as it is printed with k decimals"""
    if isinstance(x, Fraction) and x.denominator > 1 or isinstance(x, int):
        return norm(Fraction(round(Fraction(x) * 10 ** k), 10 ** k)) if abs(x) < 10 ** 300 else x
    if is_num(x):
        return x
    raise Opaque("precision of a value")


def flat(v):
    """printed tokens: strings, and values"""
    k = v[1] if isinstance(v, tuple) and v and v[0] == C else None
    if isinstance(v, tuple) and v and v[0] == "S":
        return [("text", v[1])]
    if k == "$new":
        if not (len(v) == 4 and v[2][0] == "S" and v[2][1] == "template"):
            raise Opaque("format template")
        args = [x for x in v[3][1]] if v[3][0] in (V, ST) else list(v[3][2:])
        o, n = [], 0
        for kind, x, *prec in template(v[2][2]):
            if kind == "text":
                o.append((kind, x))
                continue
            if x is None:
                x, n = n, n + 1
            new = flat(args[x])
            if prec[0] is not None:
                if any(k == "text" for k, _ in new):
                    raise Opaque("precision of a text")
                new = [(k, rounded(y, prec[0])) for k, y in new]
            o += new
        return o
    if k is not None and k.startswith("$from_str"):
        return flat(v[2])
    if k in ("$new_display", "$new_debug"):
        return [("value", norm(v[2]))]
    raise Opaque("printed value")


def lines(vs):
    """values printed on each line"""
    o, cur = [], []
    for v in vs:
        for kind, x in flat(v):
            if kind == "value":
                cur.append(x)
                continue
            for _ in range(x.count("\n")):
                o.append(cur)
                cur = []
    return o + [cur]


def indices(v):
    """simplices in a value"""
    if isinstance(v, tuple) and v and v[0] == C and v[1] == "RipsIndex":
        return [v]
    if isinstance(v, tuple):
        return [y for x in v for y in indices(x)]
    return []


def program(ctx):
    b = ctx.free(CLI + "::main")
    heap.use(ctx)
    ev = heap.hev(ctx)
    cs = ev.contracts
    for tr_, nm in pyfns.METHODS:
        ids = [im["items"][nm] for im in ctx.prog.impls_of(tr_) if nm in im["items"]]
        it = ctx.prog.traits.get(tr_, {}).get(nm)
        for x in ids + ([it["id"]] if it else []):
            cs[x] = pyfns.opaque_matrix(nm)
    cs[ctx.find_free("phlite_rips", "build_rips_coboundary_matrix")] = ctor_of("$rips")
    cs[ctx.inherent(ctx.adt("phlite_rips", "RipsIndex"), "dimension")] = ctor_of("$dim")
    seen = []

    def cleared(ev, st, ref, args):
        W = frozen(ev, st, args[0])
        dims = vec(models.stream(ev, st, ev.deref(st, args[1])))
        seen.append(W)
        return [Leaf("ret", st, tup(app("$cleared", W, dims), diagram_ctor(ctx, W, (dims,))))]
    cs[ctx.inherent(ctx.adt("phlite", "ClearedReductionMatrix"), "build_with_diagram")] = cleared
    st = State()
    st.cells[models.STDOUT] = vec(EMPTY)
    _, ls = ctx.summary(b, args=[], st=st, ev=ev)
    return b, ev, seen, ls


def sampler(ls):
    ts = {x.a[0] for l in ls if l.kind == "ret" for x in walk(l.st.cells[models.STDOUT]) if x.op == "app" and str(x.a[0]).startswith("const:b\"")}

    def sample(k):
        X = Points(k)
        F = funcs(X)
        for t in ts:
            F[t] = lambda I, t=t: ("S", "template", t[len("const:"):])
        return X, {}, F
    return sample


@rule("C26")
def c26(ctx):
    from rules.grpph import judge_all, multiset

    def go():
        b, ev, seen, ls = program(ctx)

        def judge(I, X, l):
            fin, ess = [], []
            for l_ in lines(I.items(I.val(l.st.cells[models.STDOUT]))):
                nums = tuple(x for x in l_ if is_num(x))
                ix = tuple(sorted(norm(y) for x in l_ for y in indices(x)))
                if not ix:
                    continue
                if len(nums) == 3:
                    fin.append((C, "line") + nums + ix)
                elif len(nums) == 2:
                    ess.append((C, "line") + nums + ix)
                else:
                    raise Opaque("printed line")
            want = [(C, "line", len(c) - 1, X.time(c), X.time(d)) + tuple(sorted((norm(X.code(c)), norm(X.code(d)))))
                    for d, c in X.pairs if X.time(d) - X.time(c) > Fraction(.01)]
            e = multiset(I, fin, want)
            if e:
                return "pairings printed (dimension, birth, death): %s" % e
            e = multiset(I, ess, [(C, "line", len(c) - 1, X.time(c), norm(X.code(c))) for c in X.ess])
            if e:
                return "essential classes printed (dimension, birth): %s" % e
            return I.funcs["$bad"][0] if I.funcs["$bad"] else None
        judge_all(ctx, "lines printed by the command line", ctx.at(b), ls, sampler(ls), judge)
    ctx.guarded("lines printed by the command line", go)

    def reduced():
        """what is reduced is the coboundary matrix of the input turned around"""
        b, ev, seen, ls = program(ctx)
        NM = "matrix reduced by the command line"
        ws = []
        for W in dict.fromkeys(seen):
            inner = [x for x in walk(W) if x.op == "app" and x.a[0] == "$rips"]
            if len(set(inner)) != 1:
                raise Undecided("matrix that is reduced")
            ws.append(subst(W, {inner[0]: sym("$rips")}))
        if not ws:
            raise Undecided("no matrix is reduced")
        for W in dict.fromkeys(ws):
            if W.op != "ctor":
                raise Undecided("matrix that is reduced")
            x = sym("x")
            ev2, bc, lc = on(ctx, MO, "column", W, [ctor(REVERSE, "Reverse", x)])
            l = [l for l in lc if l.kind == "ret"]
            if len(l) != 1:
                raise Undecided("column of the matrix that is reduced")
            got = vec(models.stream(ev2, l[0].st, l[0].val))
            t = fresh_bv()
            want = vec(mkfor(t, mk("elems", app("column", sym("$rips"), x)), one(tup(field(t, "", 0), ctor(REVERSE, "Reverse", field(t, "", 1))))))
            ctx.equal_terms(NM, ctx.at(b), got, want)
            _, _, lf = on(ctx, HRF, "filtration_value", W, [ctor(REVERSE, "Reverse", x)])
            r = [l for l in lf if l.kind == "ret"]
            if len(r) != 1:
                raise Undecided("filtration values of the matrix that is reduced")
            ctx.equal_terms(NM + " (filtration values)", ctx.at(b), r[0].val, ctor(REVERSE, "Reverse", app("filtration_value", sym("$rips"), x)))
    ctx.guarded("matrix reduced by the command line", reduced)
