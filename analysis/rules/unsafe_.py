"""C23: unsafe operations.  Every unsafe operation in the workspace is enumerated from the compiler's representation.  Unchecked values
are bounded as the conversions of C22 are; reinterpreted references are followed, by dataflow inside the function, from the pointer they
are made of to the reference that pointer was taken from: its type must have the same layout and its lifetime must be that of the result."""
import math
from rules.common import *
from rules import cast, pyfns
from rules.cast import owner, public, occurrences, Bound, atoms, root
from mir import succs

NONZERO, NOTNAN_, NONE_, UNREACH, BOUNDS, VALID = "non-zero", "not NaN", "present", "not reached", "in bounds", "valid"
CAST = ("cast", "cast_const", "cast_mut", "from_ref", "from_mut", "as_ptr", "from", "into", "as_ref_unchecked")


def generated(bid):
    """items the expansions of derive and attribute macros of other crates put into a crate"""
    p = bid.split("::")
    return any(x.startswith(("__pyfunction_", "__pyo3", "_PYO3", "__ctor", "__CTOR", "__INVENTORY")) or x in ("_", "make_def") or
               x.startswith("_#") for x in p)


def kind_of(path, f):
    p, n = str(path), f.get("name")
    if "NonZero" in p and n == "new_unchecked":
        return NONZERO
    if "NotNan" in p and n in ("new_unchecked", "unchecked_new"):
        return NOTNAN_
    if n == "unwrap_unchecked":
        return NONE_
    if n == "unreachable_unchecked":
        return UNREACH
    if n in ("get_unchecked", "get_unchecked_mut"):
        return BOUNDS
    if n == "transmute":
        return VALID
    return None


def unsafe_calls(ctx):
    """{(function, kind or path): [positions]}"""
    out = {}
    for bid, B in ctx.prog.bodies.items():
        if generated(bid):
            continue
        for blk in B["blocks"]:
            t = blk["term"]
            if blk.get("cleanup") or t["t"] != "call" or not isinstance(t["f"], dict) or not t["f"].get("unsafe"):
                continue
            p = str(t["f"].get("path"))
            if "fmt::Arguments" in p or p.startswith(("pyo3::", "pyo3_stub_gen::")) or local(ctx, t["f"]):
                continue
            out.setdefault((bid, kind_of(p, t["f"]) or p), []).append(t.get("at"))
        for blk in B["blocks"]:
            for s in blk["st"]:
                rv = s.get("rv")
                if not blk.get("cleanup") and rv and rv.get("r") == "cast" and rv["kind"] == "Transmute" and \
                        claims_nonzero(B["types"], rv["from"], rv["ty"]):
                    out.setdefault((bid, NONZERO), []).append(s.get("at"))
    return out


def claims_nonzero(types, frm, to):
    """an integer read as the NonZero of its own type"""
    f, t = types[frm], types[to]
    return f["k"] == "prim" and "NonZero" in str(t.get("adt")) and [types[x]["s"] for x in t["args"]] == [f["s"]]


def local(ctx, f):
    return (f.get("resolved") or f.get("id")) in ctx.prog.bodies


# ------------------------------------------------------------------------------------------------- references
class Tree(object):
    """types as trees with named parameters"""

    def __init__(self, prog):
        self.prog = prog

    def of(self, types, i, sub=None):
        t = types[i]
        k = t["k"]
        if k == "param":
            return (sub or {}).get(t["name"]) or ("param", t["name"])
        if k == "adt":
            return ("adt", t["adt"]) + tuple(self.of(types, a, sub) for a in t["args"]) + tuple(t.get("consts") or ())
        if k in ("ref", "ptr"):
            return (k, t.get("mut", False), self.of(types, t["args"][0], sub))
        if k in ("tuple", "slice", "array"):
            return (k,) + tuple(self.of(types, a, sub) for a in t["args"])
        return (k, t["s"])

    def generics(self, adt):
        """names of the type parameters of a type, from its implementations' Self types: parameters in field types in order"""
        ad = self.prog.adts[adt]
        names = []
        for im in self.prog.impls:
            t = im["types"][im["self"]]
            if t["k"] == "adt" and t["adt"] == adt and im.get("derived"):
                c = [im["types"][a] for a in t["args"]]
                if all(x["k"] == "param" for x in c):
                    return [x["name"] for x in c]
        for v in ad["variants"]:
            for f in v["fields"]:
                for n in params(self.of(ad["types"], f["ty"])):
                    if n not in names:
                        names.append(n)
        return names

    def peel(self, t):
        """type of the only field that is not zero-sized of a transparent wrapper, or None"""
        if t[0] != "adt" or t[1] not in self.prog.adts:
            return None
        ad = self.prog.adts[t[1]]
        if not ad.get("transparent") or len(ad["variants"]) != 1:
            return None
        args = [x for x in t[2:] if isinstance(x, tuple)]
        g = self.generics(t[1])
        if len(g) != len(args):
            return None
        sub = dict(zip(g, args))
        fs = [f for f in ad["variants"][0]["fields"] if ad["types"][f["ty"]].get("adt") != "core::marker::PhantomData"]
        return self.of(ad["types"], fs[0]["ty"], sub) if len(fs) == 1 else None

    def chain(self, t):
        out = [t]
        while t is not None:
            t = self.peel(t)
            if t is not None:
                out.append(t)
        return out

    def layout(self, a, b):
        """True: same layout and validity; False: not known to be; the pairs the answer depends on otherwise"""
        ca, cb = self.chain(a), self.chain(b)
        if any(x == y for x in ca for y in cb):
            return True
        if a[0] in ("ref", "ptr") and b[0] in ("ref", "ptr"):
            return self.layout(a[2], b[2])
        return None if any(unify(x, y) for x in ca for y in cb) else False


def unify(a, b):
    """can a choice of the parameters make both types the same?"""
    for x, y in ((a, b), (b, a)):
        if x[0] in ("param", "alias"):
            return not inside(x, y) or x == y
    if a[0] != b[0] or len(a) != len(b):
        return False
    return all(unify(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else x == y for x, y in zip(a[1:], b[1:]))


def inside(x, t):
    return x == t or isinstance(t, tuple) and any(inside(x, y) for y in t)


def params(t):
    if isinstance(t, tuple):
        if t[:1] == ("param",):
            yield t[1]
        else:
            for x in t:
                for y in params(x):
                    yield y


def tsubst(t, m):
    if isinstance(t, tuple):
        if t[:1] == ("param",):
            return m.get(t[1], t)
        return tuple(tsubst(x, m) for x in t)
    return t


class Flow(object):
    """where the reference or pointer in each local of a function comes from: sets of ('param', i) — a reference or pointer parameter or
    something it refers to, ('own', local) — storage of this function, ('fresh',) — the heap or a constant, ('?', why)"""

    def __init__(self, ctx, B):
        self.ctx, self.B = ctx, B
        self.types = B["types"]
        self.defs = {}
        for blk in B["blocks"]:
            if blk.get("cleanup"):
                continue
            for s in blk["st"]:
                if s["s"] == "assign":
                    self.defs.setdefault(s["p"][0], []).append(("rv", s["p"], s["rv"]))
            t = blk["term"]
            if t["t"] == "call" and t.get("dest"):
                self.defs.setdefault(t["dest"][0], []).append(("call", t["dest"], t))

    def ty(self, l):
        return self.types[self.B["locals"][l]]

    def isptr(self, l):
        return self.ty(l)["k"] in ("ref", "ptr") or self.ty(l).get("adt", "").endswith("NonNull")

    def local(self, l, seen=()):
        if l in seen:
            return set()
        out = set()
        if 1 <= l <= self.B["args"]:
            out.add(("param", l) if self.isptr(l) else ("byvalue", l))
        for k, p, d in self.defs.get(l, ()):
            out |= self.rvalue(d, seen + (l,)) if k == "rv" else self.call(d, seen + (l,))
        return out or {("?", "no definition")}

    def operand(self, o, seen):
        if o["o"] in ("copy", "move"):
            return self.place(o["p"], seen, False)
        return {("fresh",)}

    def place(self, p, seen, addr):
        """origin of the value of a place (or of its address)"""
        l, pr = p[0], p[1]
        if any(e[0] == "deref" for e in pr):
            return self.local(l, seen)
        if addr:
            # address of storage of this function; a parameter passed by value is such storage too
            return {("own", l)}
        return self.local(l, seen)

    def rvalue(self, rv, seen):
        r = rv["r"]
        if r in ("ref", "rawptr"):
            return self.place(rv["p"], seen, True)
        if r in ("use", "cast"):
            return self.operand(rv["a"], seen)
        return {("?", r)}

    def call(self, t, seen):
        f = t["f"]
        rg = f.get("regions") if isinstance(f, dict) else None
        if isinstance(f, dict) and f.get("name") in CAST + ("as_ref", "as_mut", "deref", "deref_mut", "transmute") and len(t["a"]) >= 1 \
                and (str(f.get("path")).startswith(("std::ptr", "core::ptr")) or f.get("name") == "transmute"):
            return self.operand(t["a"][0], seen)
        if not rg or not rg[-1]:
            return {("?", "result of %s" % (f.get("path") if isinstance(f, dict) else f))}
        out = set()
        for a, r in zip(t["a"], rg):
            if set(r) & set(rg[-1][:1]):
                out |= self.operand(a, seen)
        return out or {("fresh",)}

    def pointer(self, l, seen=()):
        """types (as they were before any cast) of the references a raw pointer was made of"""
        if l in seen:
            return set()
        out = set()
        for k, p, d in self.defs.get(l, ()):
            if k == "rv" and d["r"] in ("ref", "rawptr"):
                out.add(("pl", json_key(d["p"])))
            elif k == "rv" and d["r"] in ("use", "cast") and d["a"]["o"] in ("copy", "move") and not d["a"]["p"][1]:
                s = d["a"]["p"][0]
                out |= self.pointer(s, seen + (l,)) if self.ty(s)["k"] == "ptr" else {("lo", s)}
            elif k == "call" and isinstance(d["f"], dict) and d["f"].get("name") in CAST and \
                    str(d["f"].get("path")).startswith(("std::ptr", "core::ptr")) and d["a"] and d["a"][0]["o"] in ("copy", "move") and \
                    not d["a"][0]["p"][1]:
                s = d["a"][0]["p"][0]
                out |= self.pointer(s, seen + (l,)) if self.ty(s)["k"] == "ptr" else {("lo", s)}
            else:
                out.add(("?", k))
        if not self.defs.get(l):
            out.add(("?", "parameter"))
        return out

    def placetype(self, p):
        """type index of a place with dereferences and fields; fields carry their type"""
        i = self.B["locals"][p[0]]
        for e in p[1]:
            if e[0] == "deref":
                t = self.types[i]
                if t["k"] not in ("ref", "ptr"):
                    return None
                i = t["args"][0]
            elif e[0] == "field":
                i = e[3] if len(e) > 3 else None
            else:
                return None
            if i is None:
                return None
        return i


def json_key(p):
    import json
    return json.dumps(p)


def unjson(s):
    import json
    return json.loads(s)


def raw_derefs(B):
    """[(raw pointer local, how it is used, statement)]: dereferences of raw pointers"""
    out = []
    types = B["types"]

    def places(x, how, s):
        if isinstance(x, dict):
            if "p" in x and isinstance(x["p"], list) and len(x["p"]) == 2 and isinstance(x["p"][0], int):
                pl = x["p"]
                if pl[1] and pl[1][0][0] == "deref" and types[B["locals"][pl[0]]]["k"] == "ptr":
                    out.append((pl, how if how else x.get("r") or x.get("o"), x, s))
            for k, v in x.items():
                if k != "p":
                    places(v, None, s)
        elif isinstance(x, list):
            for v in x:
                places(v, None, s)
    for blk in B["blocks"]:
        if blk.get("cleanup"):
            continue
        for s in blk["st"]:
            if s["s"] == "assign":
                p = s["p"]
                if p[1] and p[1][0][0] == "deref" and types[B["locals"][p[0]]]["k"] == "ptr":
                    out.append((p, "write", None, s))
                rv = s["rv"]
                places(rv, None, s)
        t = blk["term"]
        if t["t"] == "call":
            for a in t["a"]:
                places(a, None, t)
    return out


def derefs(ctx):
    """the dereferences of raw pointers that came out of a reference or a cast; pointers the compiler makes itself for bounds checks and
    that are only measured are not dereferences"""
    tr = Tree(ctx.prog)
    out = []
    for bid, B in sorted(ctx.prog.bodies.items()):
        if generated(bid):
            continue
        for pl, how, x, s in raw_derefs(B):
            src = [d for blk in B["blocks"] for d in blk["st"] if d["s"] == "assign" and d["p"] == [pl[0], []]]
            if all(d["rv"]["r"] == "rawptr" and B["types"][B["locals"][pl[0]]]["k"] == "ptr" for d in src) and src and how != "ref" and not named(B, pl[0]):
                continue          # `&raw const (*r)` made and used by the compiler
            if src and all(d["rv"]["r"] == "cast" and d["rv"]["kind"] == "BoxDerefTransmute" for d in src):
                continue          # dereference of a Box
            out.append((bid, B, pl, how, x, s))
    return tr, out


def named(B, l):
    return any(p == [l, []] for n, p in B["names"])


def check_ref(ctx, tr, bid, B, pl, how, x, s):
    """-> (status, detail, generic obligation or None)"""
    fl = Flow(ctx, B)
    to = tr.of(B["types"], B["types"][B["locals"][pl[0]]]["args"][0])
    srcs = fl.pointer(pl[0])
    gen = []
    for q in srcs:
        if q[0] == "pl":
            i = fl.placetype(unjson(q[1]))
            a = tr.of(B["types"], i) if i is not None else None
        elif q[0] == "lo":
            t = fl.ty(q[1])
            a = tr.of(B["types"], t["args"][0]) if t["k"] == "ref" else None
        else:
            a = None
        if a is None:
            return UNDEC, "origin of the pointer", None
        ok = tr.layout(a, to)
        if ok is False:
            return VIOL, "a reference to %s is read as %s, which is not a transparent wrapper of it" % (show(a), show(to)), None
        if ok is None:
            gen.append((a, to))
    mut = how == "write" or how == "ref" and x and x.get("mut")
    if mut and any(shared(fl, B, q) for q in srcs):
        return VIOL, "a shared reference is made mutable", None
    # the lifetime of the reference made here, where it is handed out
    if how == "ref" and returned(B, s["p"][0]):
        if B["types"][B["locals"][0]]["k"] != "ref":
            return UNDEC, "lifetime inside %s" % B["types"][B["locals"][0]]["s"], None
        rg = B.get("regions")
        out = rg[-1][:1] if rg else None
        if not out:
            return UNDEC, "lifetime of the result", None
        org = fl.local(pl[0])
        for o in org:
            if o[0] == "own":
                return VIOL, "reference to storage of the function itself is returned", None
            if o[0] == "?":
                return UNDEC, "origin: %s" % o[1], None
            if o[0] == "byvalue":
                r = rg[o[1] - 1]
                if out[0] not in r:
                    return VIOL, "reference into a value the function consumes is returned", None
            if o[0] == "param":
                r = rg[o[1] - 1]
                if not r or r[0] != out[0]:
                    if out[0] in r or "'static" in (r[0] if r else ""):
                        continue
                    return VIOL, "the result may outlive the reference it is made of (%s from %s)" % (life(out[0]), life(r[0] if r else "none")), None
    if gen:
        return UNDEC, "layout of %s and %s" % tuple(show(y) for y in gen[0]), gen
    return OK, "%s" % show(to), None


def life(r):
    return r.split("::")[-1].strip(")/") if "::" in r else r


def shared(fl, B, q):
    if q[0] == "lo":
        return fl.ty(q[1])["k"] == "ref" and not fl.ty(q[1]).get("mut")
    p = unjson(q[1])
    if any(e[0] == "deref" for e in p[1]):
        return fl.ty(p[0])["k"] == "ref" and not fl.ty(p[0]).get("mut")
    return False


def returned(B, l):
    """does the reference in a local flow to the result?"""
    todo, seen = [l], set()
    while todo:
        v = todo.pop()
        if v == 0:
            return True
        if v in seen:
            continue
        seen.add(v)
        for blk in B["blocks"]:
            for s in blk["st"]:
                if s["s"] == "assign" and uses(s["rv"], v):
                    todo.append(s["p"][0])
            t = blk["term"]
            if t["t"] == "call" and t.get("dest") and any(a.get("o") in ("copy", "move") and a["p"][0] == v for a in t["a"]):
                f = t["f"]
                rg = f.get("regions") if isinstance(f, dict) else None
                if rg is None or rg[-1]:
                    todo.append(t["dest"][0])
    return False


def uses(x, v):
    if isinstance(x, dict):
        if isinstance(x.get("p"), list) and len(x["p"]) == 2 and x["p"][0] == v:
            return True
        return any(uses(y, v) for y in x.values())
    if isinstance(x, list):
        return any(uses(y, v) for y in x)
    return False


def show(t):
    if t[0] == "adt":
        a = [show(x) if isinstance(x, tuple) else str(x) for x in t[2:]]
        return t[1].split("::")[-1] + ("<%s>" % ", ".join(a) if a else "")
    if t[0] in ("ref", "ptr"):
        return ("&" if t[0] == "ref" else "*") + ("mut " if t[1] else "") + show(t[2])
    return str(t[1]) if len(t) > 1 and not isinstance(t[1], tuple) else "%s(%s)" % (t[0], ", ".join(show(x) for x in t[1:]))


def call_sites(ctx, f):
    for bid, B in ctx.prog.bodies.items():
        for blk in B["blocks"]:
            t = blk["term"]
            if t["t"] == "call" and isinstance(t["f"], dict) and (t["f"].get("resolved") or t["f"].get("id")) == f:
                yield bid, B, t


def instantiate(ctx, tr, f, gen, depth=0):
    """layout obligations over the type parameters of a function that is not public, at each of its uses"""
    B = ctx.prog.bodies[f]
    if public(ctx, f) or depth > 3:
        return VIOL if all(free(g, B) for g in gen) else UNDEC, "any caller can choose %s and %s" % tuple(show(x) for x in gen[0])
    names = [B["types"][i].get("name") for i in B.get("generics") or ()]
    n = 0
    for c, CB, t in call_sites(ctx, f):
        n += 1
        targs = t["f"].get("targs") or []
        if len(targs) != len(names):
            return UNDEC, "type arguments in %s" % c
        m = {k: tr.of(CB["types"], a) for k, a in zip(names, targs)}
        rest = []
        for a, b in gen:
            a2, b2 = tsubst(a, m), tsubst(b, m)
            ok = tr.layout(a2, b2)
            if ok is False:
                return VIOL, "in %s a reference to %s is read as %s" % (c, show(a2), show(b2))
            if ok is None:
                rest.append((a2, b2))
        if rest:
            r = instantiate(ctx, tr, owner(c), rest, depth + 1)
            if r[0] != OK:
                return r
    return (OK, "%d uses" % n) if n else (OK, "not used")


def free(g, B):
    """one of the types is chosen by the caller, whatever the other is"""
    a, b = g
    return a[0] == "param" and not inside(a, b) or b[0] == "param" and not inside(b, a)


@rule("C23")
def references(ctx):
    tr, ds = derefs(ctx)
    n = {}
    for bid, B, pl, how, x, s in ds:
        name = "raw pointer dereferenced in %s" % bid
        n[bid] = n.get(bid, 0) + 1
        if n[bid] > 1:
            name += " (%d)" % n[bid]

        def go():
            r = check_ref(ctx, tr, bid, B, pl, how, x, s)
            ctx.analysed.add(bid)
            if r[2]:
                r = instantiate(ctx, tr, owner(bid), r[2])
            ctx.add(name, s.get("at"), r[0], r[1])
        ctx.guarded(name, go, s.get("at"))
    for bid, B in sorted(ctx.prog.bodies.items()):
        if generated(bid):
            continue
        for blk in B["blocks"]:
            if blk.get("cleanup"):
                continue
            for s in blk["st"]:
                rv = s.get("rv")
                if rv and rv.get("r") == "cast" and rv["kind"] == "Transmute":
                    if claims_nonzero(B["types"], rv["from"], rv["ty"]) or claims_nonzero(B["types"], rv["ty"], rv["from"]):
                        continue

                    def tm():
                        a, b = tr.of(B["types"], rv["from"]), tr.of(B["types"], rv["ty"])
                        ok = tr.layout(a, b)
                        nm = "transmute in %s" % bid
                        st, d = (OK, "") if ok else (VIOL, "%s is read as %s" % (show(a), show(b))) if ok is False else instantiate(ctx, tr, owner(bid), [(a, b)])
                        if st == OK and a[0] == "ref" and b[0] == "ref" and b[1] and not a[1]:
                            st, d = VIOL, "a shared reference is made mutable"
                        if st == OK and a[0] == "ref" and returned(B, s["p"][0]) and B.get("regions"):
                            fl = Flow(ctx, B)
                            out = B["regions"][-1][:1]
                            for o in fl.operand(rv["a"], ()):
                                if o[0] == "own":
                                    st, d = VIOL, "reference to storage of the function itself is returned"
                                elif o[0] == "param" and out and (B["regions"][o[1] - 1] or [None])[0] != out[0]:
                                    st, d = VIOL, "the result may outlive the reference it is made of"
                        ctx.add(nm, s.get("at"), st, d)
                    ctx.guarded("transmute in %s" % bid, tm, s.get("at"))
    for st in ctx.prog.statics:
        if st.get("mut") and not generated(st["id"]):
            ctx.add("mutable static %s" % st["id"], st.get("at"), UNDEC, "access is not checked")
    ctx.add("raw pointer dereferences enumerated", None, OK, "%d" % len(ds))


# ------------------------------------------------------------------------------------------------- values
def evaluator(ctx, log):
    ev = cast.evaluator(ctx)
    ev.mark = True

    def trace(ref, args, st, fr, t):
        if not ref.d.get("unsafe") or fr is None:
            return
        k = kind_of(ref.d.get("path"), ref.d)
        if k:
            log.append((fr["body"]["id"], k, [ev.deref(st, a) if k != BOUNDS else a for a in args], st.facts.lits))
    ev.trace_calls = trace
    ev.trace_casts = lambda fr, k, v, st: log.append((fr["body"]["id"], k, [ev.deref(st, v)], st.facts.lits))
    return ev


def nonzero(ctx, ev, f, v, scope, lits):
    """-> (status, detail)"""
    if v.op == "int":
        return (PROVED, "") if v.a[0] else (VIOL, "the value is zero")
    if v.op == "app" and v.a[0] == "nz.get":
        return PROVED, ""
    lo, hi = Bound(ev.symtypes, scope, lits).iv(v)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return PROVED, ""
    zero = lambda l, s: l.a[1] == s
    for l in lits:
        c, x = l.a
        if c.op == "eq" and x == 0 and {c.a[0], c.a[1]} == {v, I(0)}:
            return PROVED, ""
    v, lits = plainly(v), tuple(lit(plainly(l.a[0]), l.a[1]) for l in lits)
    # enumeration: the residues of a prime field, or small values of the inputs
    at = leafs(v, dict(scope))
    if at is None:
        return UNDEC, "%s" % cast.pretty_t(v)
    P_ = sym("const P")
    prim = [x for x in at if x is not P_]
    others = leafs(T_all(lits), dict(scope)) if lits else set()
    if len(prim) > 3:
        return UNDEC, "%s" % cast.pretty_t(v)
    n = 0
    bad = None
    for p in primes(ctx, f):
        doms = [range(1, min(max(p, 2), 40)) if p is not None and not plain(ev, x) else values(ev, x) for x in prim]
        for pick in itertools_product(doms):
            fixed = dict(zip(prim, pick))
            if p is not None:
                fixed[P_] = p
            J = Interp(1, 7, fixed)
            try:
                if not all(J.lits([l]) for l in lits if any(y in fixed for y in walk(l))):
                    continue
                q = J.val(v)
            except (Undef, Opaque, TypeError, KeyError):
                return UNDEC, "%s" % cast.pretty_t(v)
            n += 1
            if q == 0:
                bad = "%s is zero when %s" % (cast.pretty_t(v), ", ".join("%s = %s" % (cast.pretty_t(x), y) for x, y in fixed.items()))
                break
        if bad:
            break
    if bad:
        unread = [l for l in lits if not any(y in set(at) for y in walk(l))]
        return VIOL, bad
    if n and coefficient(f):
        return ENUM, "%d values" % n
    return UNDEC, "%s" % cast.pretty_t(v)


def plainly(t):
    """the same without the marks of values taken out of NonZero"""
    isget = lambda x: x.op == "app" and x.a[0] == "nz.get"
    while True:
        g = [x for x in walk(t) if isget(x)]
        if not g:
            return t
        m = {x: x.a[1] for x in g if not any(isget(y) for y in walk(x.a[1]))}
        t = subst(t, m)


def T_all(lits):
    return tup(*[l.a[0] for l in lits])


def coefficient(bid):
    return bid.startswith("phlite::fields::")


def primes(ctx, bid):
    if not coefficient(bid):
        return (None,)
    im = ctx.prog.impl_of_item(owner(bid))
    c = ctx.prog.self_ty(im).get("consts") if im else None
    return (int(c[0]),) if c and c[0].isdigit() else tuple(range(1, 17)) + (255,)


def plain(ev, x):
    return x in ev.symtypes


def values(ev, x):
    if x.op == "app" and x.a[0] == "nz.get":
        return (1, 2, 3, 255)
    return (0, 1, 2, 3, 255)


def itertools_product(d):
    import itertools
    return itertools.product(*d)


def leafs(v, scope):
    """inputs a number is computed from"""
    if v.op in ("int", "str", "flt", "unit"):
        return set()
    if v.op == "sym":
        return {v}
    if v.op in ("poly", "app", "ite", "lt", "eq", "not", "tup", "case"):
        if v.op == "app" and v.a[0] in ("index", "item", "at", "head") and root(v).op == "sym":
            return {v}
        out = set()
        for y in subterms(v):
            x = leafs(y, scope)
            if x is None:
                return None
            out |= x
        return out
    if v.op == "field" and root(v).op == "sym":
        return {v}
    if v in scope:
        return {v} if scope[v].op == "elems" else None
    if v.op == "bv":
        return None
    return None


class NoFloat(Exception):
    pass


NAN = float("nan")


def flo(v, env):
    o, a = v.op, v.a
    if v in env:
        return env[v]
    if o == "flt":
        return float(a[0])
    if o == "int":
        return float(a[0])
    if o == "app":
        f = a[0]
        if f == "nn.get":
            return flo(a[1], env)
        if f in ("fadd", "fsub", "fmul", "fdiv"):
            x, y = flo(a[1], env), flo(a[2], env)
            if f == "fadd":
                return x + y
            if f == "fsub":
                return x - y
            if f == "fmul":
                return x * y
            return (x / y) if y else (NAN if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y))
        if f in ("i2f",):
            return 1.0
        if f in ("sqrt", "f64::sqrt"):
            x = flo(a[1], env)
            return NAN if x != x or x < 0 else math.sqrt(x)
        if f == "abs":
            return abs(flo(a[1], env))
    if o == "ite":
        c = boo(a[0], env)
        return flo(a[2] if c == bool(a[1]) else a[3], env)
    raise NoFloat(str(v)[:80])


def boo(c, env):
    if c.op == "app":
        f = c.a
        if f[0] == "bool" and f[1] == "isnan":
            x = flo(f[2], env)
            return x != x
        if f[0] == "flt":
            return flo(f[1], env) < flo(f[2], env)
        if f[0] == "fle":
            return flo(f[1], env) <= flo(f[2], env)
        if f[0] == "feq":
            return flo(f[1], env) == flo(f[2], env)
    raise NoFloat(str(c)[:80])


def fatoms(v):
    """(float inputs, NotNan inputs) or None"""
    o, a = v.op, v.a
    if o in ("flt", "int"):
        return set(), set()
    if o == "app" and a[0] == "nn.get":
        return set(), {v}
    if o == "app" and a[0] in ("fadd", "fsub", "fmul", "fdiv", "sqrt", "f64::sqrt", "abs", "i2f"):
        r = (set(), set())
        for y in a[1:]:
            if a[0] == "i2f":
                continue
            x = fatoms(y)
            if x is None:
                return None
            r = (r[0] | x[0], r[1] | x[1])
        return r
    if o == "ite":
        r = (set(), set())
        for y in (a[2], a[3]):
            x = fatoms(y)
            if x is None:
                return None
            r = (r[0] | x[0], r[1] | x[1])
        return r
    return {v}, set()


def notnan(ctx, ev, f, v, scope, lits):
    if v.op == "flt":
        return (PROVED, "") if v.a[0] != "nan" else (VIOL, "the value is NaN")
    if v.op == "app" and v.a[0] in ("nn.get", "i2f"):
        return PROVED, ""
    at = fatoms(v)
    raw, nn = at
    sc = dict(scope)
    rel = [l for l in lits if any(y in raw or y in nn or y is v for y in walk(l))]
    bad = None
    n = 0
    for pick in itertools_product([(NAN, math.inf, -math.inf, 0.0, 1.0, -1.0)] * len(raw) + [(math.inf, -math.inf, 0.0, 1.0, -1.0)] * len(nn)):
        env = dict(zip(list(raw) + list(nn), pick))
        env.update({x.a[1]: y for x, y in list(env.items()) if x in nn})
        try:
            ok = True
            for l in rel:
                ok = ok and boo(l.a[0], env) == bool(l.a[1])
            if not ok:
                continue
            x = flo(v, env)
        except NoFloat as e:
            return UNDEC, "value or condition not understood: %s" % e
        n += 1
        if x != x:
            bad = env
            break
    if bad is None:
        return ENUM, "%d kinds of operands" % n
    w = "%s is NaN when %s" % (cast.pretty_t(v), ", ".join("%s = %s" % (cast.pretty_t(x), y) for x, y in list(bad.items())[:3]))
    for x in raw:
        r = root(x)
        if x.op == "app" and x.a[0] in ("parse",):
            continue
        if r.op == "sym" or x in sc and elems_root(sc[x], sc) or parsed(x):
            continue
        return UNDEC, w
    return VIOL, w


def parsed(x):
    """a number read from text: the parser accepts NaN"""
    return any(y.op == "app" and isinstance(y.a[0], str) and "parse" in y.a[0] for y in walk(x))


def elems_root(d, sc):
    if d.op != "elems":
        return False
    r = root(d.a[0])
    return r.op == "sym" or r in sc and elems_root(sc[r], sc)


def marked(t, scope=(), lits=()):
    for x, sc, ls in occurrences(t, scope, lits, "unchecked"):
        yield x, sc, ls


JUDGE = {NONZERO: nonzero, NOTNAN_: notnan}


def judge(ctx, f, key, ev, leaves, log):
    bid, kind = key
    mine = [e for e in log if e[0] == bid and e[1] == kind]
    if not mine:
        return UNDEC, "not reached"
    worst = (PROVED, "")
    order = (PROVED, ENUM, UNDEC, VIOL)
    occ = None
    for _, _, args, lits in mine:
        v = args[0] if args else None
        if kind == UNREACH:
            r = unreachable(ctx, ev, bid, lits)
        elif kind == NONE_:
            r = present(ctx, ev, v, lits)
        elif kind == BOUNDS:
            r = inbounds(ctx, ev, args, lits)
        elif kind == VALID:
            continue
        else:
            r = JUDGE[kind](ctx, ev, bid, v, (), lits)
            if r[0] in (UNDEC, VIOL) and bound_inside(v):
                # the value depends on what an enclosing iteration goes through: judge it where it ends up
                if occ is None:
                    occ = collect(ev, leaves)
                hits = [h for h in occ if h[0].a[1].a[0] == kind]
                r = (UNDEC, "value is not part of the result") if not hits else max(
                    (JUDGE[kind](ctx, ev, bid, x.a[2], sc, ls) for x, sc, ls in hits), key=lambda q: order.index(q[0]))
        if order.index(r[0]) > order.index(worst[0]):
            worst = r
    return worst


def bound_inside(v):
    return any(x.op in ("bv", "phi") for x in walk(v))


def collect(ev, leaves):
    out = set()
    for l in leaves:
        for t in ([l.val] if isT(l.val) else []) + list(l.st.cells.values()) + list(l.st.facts.lits):
            if isT(t):
                for x, sc, ls in marked(t):
                    out.add((x, sc, ls + tuple(l.st.facts.lits)))
    for t, ls in cast.loop_terms(ev):
        for x, sc, l2 in marked(t):
            out.add((x, sc, l2 + ls))
    return out


def satisfiable(ctx, ev, bid, lits):
    """a choice of the inputs under which all the conditions hold; False when there is none; None when they are not conditions on the
    inputs alone"""
    names = set()
    lits = [lit(plainly(l.a[0]), l.a[1]) for l in lits]
    for l in lits:
        x = leafs(l.a[0], {})
        if x is None:
            return None
        names |= x
    P_ = sym("const P")
    names = sorted(names - {P_}, key=str)
    if len(names) > 3:
        return None
    finite = coefficient(bid) and not any(plain(ev, x) for x in names)
    for p in primes(ctx, bid):
        doms = [range(1, min(max(p, 2), 40)) if p is not None and not plain(ev, x) else values(ev, x) for x in names]
        for pick in itertools_product(doms):
            fixed = dict(zip(names, pick))
            if p is not None:
                fixed[P_] = p
            J = Interp(1, 7, fixed)
            try:
                if all(J.lits([l]) for l in lits):
                    return ", ".join("%s = %s" % (cast.pretty_t(x), y) for x, y in fixed.items()) or "always"
            except (Undef, Opaque, TypeError, KeyError):
                return None
    return False if finite else None


def unreachable(ctx, ev, bid, lits):
    w = satisfiable(ctx, ev, bid, lits)
    if w is False:
        return ENUM, ""
    if w is None:
        if alien(ctx, lits):
            return VIOL, "reached when " + " and ".join("%s = %s" % (cast.pretty_t(l.a[0]), l.a[1]) for l in lits)
        return UNDEC, "the path is not shown to be impossible"
    return VIOL, "reached when " + w


def alien(ctx, lits):
    """all the conditions say which variant an argument is, or that something is not found: whatever the objects hold, a caller can ask
    for what they do not have"""
    traits = {n for t in ctx.prog.traits.values() for n in t}
    me = lambda x: isT(x) and root(x).op == "sym" and root(x).a[0] == "self"
    kinds = {}
    for l in lits:
        c, v = l.a
        if c.op in ("discr", "discr2"):
            x = c.a[0]
            if root(x).op == "sym":
                if me(x) or not isinstance(v, int) or kinds.setdefault(x, v) != v:
                    return False
                continue
            if v != 0 or x.op != "app" or x.a[0] not in traits | {"get", "lookup", "index?"}:
                return False
            args = x.a[1:]
        elif c.op == "app" and c.a[0] in ("contains", "contains_key") and v == 0:
            args = c.a[1:]
        else:
            return False
        leaf = {y for a in args[1:] if isT(a) for y in walk(a) if y.op in ("sym", "app", "bv", "tmp", "phi")}
        if not leaf or not all(y.op == "sym" and y.a[0] != "self" for y in leaf):
            return False
    return bool(kinds) or bool(lits)


def present(ctx, ev, v, lits):
    if v.op == "ctor":
        return (PROVED, "") if v.a[1] in ("Some", "Ok") else (VIOL, "the value is %s" % v.a[1])
    for l in lits:
        if any(y is v for y in walk(l.a[0])):
            return UNDEC, "%s" % cast.pretty_t(v)
    r = root(v)
    names = {"get", "first", "last", "lookup", "index?"} | {n for t in ctx.prog.traits.values() for n in t}
    if r.op == "sym" or v.op == "app" and v.a[0] in names and all(root(y).op in ("sym", "int") for y in v.a[1:] if isT(y)):
        return VIOL, "%s can be None" % cast.pretty_t(v)
    return UNDEC, "%s" % cast.pretty_t(v)


def inbounds(ctx, ev, args, lits):
    v, i = args[0], args[1]
    if root(i).op == "sym" and not any(any(y is i for y in walk(l)) for l in lits):
        return VIOL, "index %s is not checked" % cast.pretty_t(i)
    for l in lits:
        c, x = l.a
        if c.op == "lt" and x == 1 and c.a[0] is i and c.a[1].op == "app" and c.a[1].a[0] in ("len", "size"):
            return PROVED, ""
    return UNDEC, "index %s" % cast.pretty_t(i)


@rule("C23")
def values_given(ctx):
    up = cast.callers(ctx)
    cache = {}
    ent = cast.entries(ctx)
    outside = lambda f: public(ctx, f) or f in ent

    def summ(f):
        if f not in cache:
            log = []
            try:
                cache[f] = ctx.summary(f, ev=evaluator(ctx, log)) + (log,)
            except (Undecided, Opaque, Undef, RecursionError) as e:
                cache[f] = e
        return cache[f]
    ss = unsafe_calls(ctx)
    for key in sorted(ss):
        bid, kind = key
        at = ss[key][0]
        name = "%s value in %s" % (kind, bid) if kind in JUDGE else "%s in %s" % (kind, bid)
        if kind not in (NONZERO, NOTNAN_, NONE_, UNREACH, BOUNDS, VALID):
            ctx.add("call of %s in %s" % (kind, bid), at, UNDEC, "no rule for this operation")
            continue
        if kind == VALID:
            continue

        def go():
            todo, seen, res = [owner(bid)], set(), []
            while todo:
                f = todo.pop()
                if f in seen:
                    continue
                seen.add(f)
                s = summ(f)
                r = (UNDEC, "%s: %s" % (type(s).__name__, s)) if isinstance(s, Exception) else judge(ctx, f, key, *s)
                if r[0] in (VIOL, UNDEC) and not outside(f) and up.get(f):
                    todo += sorted(x for x in up[f] if not generated(x))
                    continue
                if r[0] == VIOL and not outside(f):
                    r = (OK, "not reachable from outside")
                res.append((r[0], (r[1] + " [from %s]" % f) if r[1] else ""))
            for st in (VIOL, UNDEC):
                for r in res:
                    if r[0] == st:
                        ctx.add(name, at, st, r[1])
                        return
            ctx.add(name, at, next((s for s in (ENUM, PROVED) if any(r[0] == s for r in res)), OK), "; ".join(sorted({r[1] for r in res if r[1]})))
        ctx.guarded(name, go, at)
    ctx.add("unsafe calls enumerated", None, OK, "%d places" % sum(len(v) for v in ss.values()))


# ------------------------------------------------------------------------------------------------- threads
NOT_SYNC = ("core::cell::RefCell", "core::cell::Cell", "core::cell::UnsafeCell", "core::cell::OnceCell", "core::cell::LazyCell",
            "alloc::rc::Rc", "alloc::rc::Weak")
NOT_SEND = ("alloc::rc::Rc", "alloc::rc::Weak")


def contained(prog, types, i, seen):
    """(kind, name) of the types found in a value of a type"""
    t = types[i]
    if t["k"] == "ptr":
        yield "ptr", t["s"]
        return
    if t["k"] == "adt":
        yield "adt", t["adt"]
        if t["adt"].split("::")[-1] in ("PhantomData", "Mutex", "RwLock"):
            return
    for a in t.get("args") or ():
        for x in contained(prog, types, a, seen):
            yield x
    if t["k"] == "adt" and t["adt"] in prog.adts and t["adt"] not in seen:
        seen.add(t["adt"])
        ad = prog.adts[t["adt"]]
        for v in ad["variants"]:
            for f in v["fields"]:
                for x in contained(prog, ad["types"], f["ty"], seen):
                    yield x


@rule("C23")
def threads(ctx):
    """a type said to be Send or Sync by hand is one whose fields are"""
    n = 0
    for im in ctx.prog.impls:
        tr_ = str(im.get("trait")).split("::")[-1]
        if tr_ not in ("Send", "Sync") or generated(im["id"]):
            continue
        n += 1
        name = "%s for %s" % (tr_, im["types"][im["self"]]["s"])
        bad = NOT_SYNC if tr_ == "Sync" else NOT_SEND
        hit = [x for k, x in contained(ctx.prog, im["types"], im["self"], set()) if k == "adt" and x in bad]
        if hit:
            ctx.add(name, im.get("at"), VIOL, "it contains a %s, which two threads must not use at once" % hit[0].split("::")[-1])
        else:
            ctx.add(name, im.get("at"), UNDEC, "the promise is not checked")
    ctx.add("implementations of Send and Sync enumerated", None, OK, "%d" % n)
