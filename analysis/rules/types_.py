"""C25: invariants of the core types that the type system, visibility and constructors protect.  (a) visibility of the fields; (b) every
function the outside can call that makes a coefficient makes a valid one; (c) no such function hands out a mutable reference into a
guarded type or takes its inner representation; (d) programs against the crates' interface that must be rejected by the type checker,
each next to a twin that must be accepted."""
import os, re, subprocess, tempfile, json, shutil, itertools
from concurrent.futures import ThreadPoolExecutor
from math import gcd
from rules.common import *
from rules import cast

PRIMES = (2, 3, 4, 5, 6, 7, 9, 11, 13, 17)
MUTABLE = ("PeekMut", "IterMut", "ValuesMut", "RefMut", "ChunksMut", "OccupiedEntry", "VacantEntry", "Entry")
GUARDED = [("phlite", "ZP"), ("phlite", "Q"), ("phlite", "BHCol"), ("phlite", "ClearedReductionMatrix"), ("phlite_rips", "RipsIndex")]


@rule("C25")
def visibility(ctx):
    for crate, n in GUARDED:
        def go():
            a = ctx.adt(crate, n)
            ad = ctx.prog.adts[a]
            pub = [f["name"] for v in ad["variants"] for f in v["fields"] if f.get("pub")]
            ctx.add("fields of " + n + " are private", ad.get("at"), VIOL if pub and ad.get("reachable") else OK,
                    "field %s of %s is public: code outside the crate can build or change one freely" % (", ".join(pub), n) if pub else "")
        ctx.guarded("fields of " + n + " are private", go)

    def z2():
        a = ctx.adt("phlite", "Z2")
        ad = ctx.prog.adts[a]
        vs = ad["variants"]
        ctx.add("Z2 has one value", ad.get("at"), OK if len(vs) == 1 and not vs[0]["fields"] else VIOL if len(vs) > 1 else UNDEC,
                "Z2 has %d variants and %d fields" % (len(vs), len(vs[0]["fields"])))
    ctx.guarded("Z2 has one value", z2)


# ------------------------------------------------------------------------------------------------- constructors
def callable_(B):
    return B["kind"] in ("fn", "assoc", "const") and B.get("vis") == "pub" and not B.get("unsafe")


def types_in(types, i, seen=None):
    """indices of all types a type is made of"""
    seen = set() if seen is None else seen
    if not isinstance(i, int) or i in seen:
        return seen
    seen.add(i)

    def sub(x):
        if isinstance(x, int) and not isinstance(x, bool):
            types_in(types, x, seen)
        elif isinstance(x, list):
            for y in x:
                sub(y)
    t = types[i]
    for k, v in t.items():
        if k == "args":
            sub(v)
    return seen


def mutates(B, adt):
    """parameters that are mutable references to a type holding the guarded one"""
    out = []
    for k in range(1, B["args"] + 1):
        t = B["types"][B["locals"][k]]
        if t["k"] == "ref" and t.get("mut") and any(B["types"][j].get("adt") == adt for j in types_in(B["types"], B["locals"][k])):
            out.append(k)
    return out


def makers(ctx, adt):
    """functions the outside can call that yield or change a value of the type; private ones that build one are reached from those"""
    up = cast.callers(ctx)
    out = set()
    for bid, B in ctx.prog.bodies.items():
        if B["kind"] in ("fn", "assoc", "const") and (adt in (B.get("ret_hidden") or []) or mutates(B, adt)):
            out.add(bid)
        for blk in B["blocks"]:
            if blk.get("cleanup"):
                continue
            for s in blk["st"]:
                rv = s.get("rv") or {}
                if rv.get("r") == "agg" and rv.get("adt") == adt:
                    out.add(cast.owner(bid))
    todo, seen = sorted(out), set()
    while todo:
        f = todo.pop()
        if f in seen or f not in ctx.prog.bodies:
            continue
        seen.add(f)
        if callable_(ctx.prog.bodies[f]):
            yield f
        elif not ctx.prog.bodies[f].get("unsafe"):
            todo += sorted(up.get(f, ()))


class Maker(object):
    """symbolic arguments of a constructor and the values they range over"""

    def __init__(self, ctx, adt):
        self.ctx, self.adt = ctx, adt
        self.dom = {}
        self.pairs = []
        self.q = [a for a in ctx.prog.adts if a.split("::")[-1] == "Q" and a.startswith("phlite::")]
        self.zp = [a for a in ctx.prog.adts if a.split("::")[-1] == "ZP" and a.startswith("phlite::")]

    def arg(self, name, types, i, st):
        t = types[i]
        k = t["k"]
        ad = self.ctx.prog.adts
        if t.get("adt") in self.zp:
            x = sym(name)
            self.dom[x] = "zp"
            return ctor(t["adt"], ad[t["adt"]]["variants"][0]["name"], x)
        if t.get("adt") in self.q:
            n, d = sym(name + ".n"), sym(name + ".d")
            v = ad[t["adt"]]["variants"][0]
            fs = [ad[t["adt"]]["types"][f["ty"]]["s"] for f in v["fields"]]
            if len(fs) != 2 or sum(s.startswith("i") for s in fs) != 1:
                raise Undecided("representation of the rationals")
            self.pairs.append((n, d))
            return ctor(t["adt"], v["name"], *([n, d] if fs[0].startswith("i") else [d, n]))
        if k == "ref":
            inner = self.arg(name, types, t["args"][0], st)
            return cell(st, name, inner)
        if t.get("s") in INTS:
            x = sym(name)
            self.dom[x] = t["s"]
            return x
        if "NonZero" in t.get("s", ""):
            x = sym(name)
            self.dom[x] = "nz"
            return x
        if t.get("s") == "bool":
            x = sym(name)
            self.dom[x] = "bool"
            return x
        if k == "tuple" and len(t["args"]) <= 3:
            return tup(*[self.arg("%s.%d" % (name, j), types, a, st) for j, a in enumerate(t["args"])]) if t["args"] else UNIT
        return sym(name)

    def values(self, x, p):
        d = self.dom[x]
        if d == "zp":
            return list(range(1, p))
        P_ = p or 7
        if d == "bool":
            return [0, 1]
        lo, hi = INTS.get(d, (1, 255))
        return sorted({v for v in (-1, 0, 1, 2, 3, P_ - 1, P_, P_ + 1, 2 * P_, 6, 10, 100) if lo <= v <= hi} | ({255, 254} if hi == 255 else set()))

    def assignments(self, p):
        xs = sorted(self.dom, key=str)
        if len(xs) > 3:
            raise Undecided("inputs")
        rnd = random.Random("C25%d" % interp.SEED)
        fr = [(s * n, m) for n in range(1, 10) for m in range(1, 10) for s in (1, -1) if gcd(n, m) == 1]
        for pick in itertools.product(*[self.values(x, p) for x in xs]):
            base = dict(zip(xs, pick))
            if not self.pairs:
                yield base
                continue
            for k in range(400 if self.ctx.thorough else 150):
                b = dict(base)
                prev = None
                for n, d in self.pairs:
                    f = rnd.choice(fr)
                    if k % 8 == 0 and prev:
                        f = (-prev[0], prev[1])
                    b[n], b[d] = f
                    prev = f
                yield b
            if len(xs) > 1:
                return


def primes_of(ctx, B):
    """the modulus: fixed by the types of the function, or any"""
    cs = set()
    for i in [B.get("ret")] + B["locals"][1:B["args"] + 1]:
        for j in types_in(B["types"], i) if isinstance(i, int) else ():
            t = B["types"][j]
            if t.get("adt", "").endswith("::ZP"):
                cs |= set(t.get("consts") or [])
    im = ctx.prog.impl_of_item(B["id"])
    if im:
        cs |= set(ctx.prog.self_ty(im).get("consts") or [])
    fixed = {int(c) for c in cs if c.isdigit()}
    if len(fixed) == 1 and all(c.isdigit() for c in cs):
        return sorted(fixed)
    return PRIMES


def coefficients(t, adt):
    return [x for x in walk(t) if x.op == "ctor" and x.a[0] == adt]


def made(I, x, adt, variant):
    """fields of the values of a type that a result builds.  A value built under a binder is looked for in the value of the result"""
    bound = False
    for y in coefficients(x, adt):
        try:
            vals = [I.val(z) for z in y.a[2:]]
        except Opaque as e:
            if not str(e).startswith("bv"):
                raise
            bound = True
            continue
        yield vals
    if bound:
        todo = [I.val(x)]
        while todo:
            v = todo.pop()
            if isinstance(v, tuple):
                if v[:2] == (C, variant):
                    yield list(v[2:])
                todo += [u for u in v if isinstance(u, tuple)]


def constructors_of(ctx, crate, tname):
    adt = ctx.adt(crate, tname)
    ad = ctx.prog.adts[adt]
    fs = [ad["types"][f["ty"]]["s"] for f in ad["variants"][0]["fields"]]
    signed = [i for i, t in enumerate(fs) if t.startswith("i")]
    isq = tname == "Q"
    if isq and (len(fs) != 2 or len(signed) != 1) or not isq and len(fs) != 1:
        raise Undecided("representation of " + tname)
    for f in sorted(set(makers(ctx, adt))):
        B = ctx.prog.bodies[f]
        name = "%s made by %s" % (tname, f)

        def go():
            ps = (None,) if isq else primes_of(ctx, B)
            n = 0
            # every optional argument both absent and present
            opt = [k for k in range(1, B["args"] + 1) if B["types"][B["locals"][k]].get("adt") == "core::option::Option"]
            for absent in itertools.product((True, False), repeat=len(opt)):
                m = Maker(ctx, adt)

                def args(ev, st):
                    out = []
                    for k in range(1, B["args"] + 1):
                        i = B["locals"][k]
                        if k in opt:
                            a = NONE if absent[opt.index(k)] else some(m.arg("a%d" % k, B["types"], B["types"][i]["args"][0], st))
                        else:
                            a = m.arg("a%d" % k, B["types"], i, st)
                        out.append(a)
                    return out
                ev, ls = ctx.summary(f, args=args, ev=ctx.ev())
                for p in ps:
                    for asg in m.assignments(p):
                        fixed = dict(asg)
                        if p is not None:
                            fixed[sym("const P")] = p
                        I = Interp(len(fixed), 7, fixed)
                        for l in ls:
                            if l.kind != "ret":
                                continue
                            if not I.lits(l.st.facts.lits):
                                continue
                            outs = [l.val] + [v for c, v in l.st.cells.items() if isT(v) and c[0] == "ext"]
                            for x in outs:
                                for vals in made(I, x, adt, ad["variants"][0]["name"]):
                                    n += 1
                                    where = ", ".join("%s = %s" % (cast.pretty_t(k), v) for k, v in fixed.items()) or "always"
                                    if isq:
                                        a, b = vals[signed[0]], vals[1 - signed[0]]
                                        ok = is_num(a) and is_num(b) and a != 0 and b >= 1 and gcd(int(a), int(b)) == 1
                                        if not ok:
                                            ctx.add(name, ctx.at(f), VIOL, "makes the rational %s / %s, which is %s, when %s" % (
                                                pretty(a), pretty(b), "zero" if a == 0 and b else "not in lowest terms" if b else "no number", where))
                                            return
                                    elif not is_num(vals[0]) or not 1 <= vals[0] <= p - 1:
                                        ctx.add(name, ctx.at(f), VIOL, "makes the element %s of the integers mod %s when %s" % (pretty(vals[0]), p, where))
                                        return
            ctx.add(name, ctx.at(f), (ENUM if not isq else RI) if n else OK, "%d values" % n)
        ctx.guarded(name, go, ctx.at(f))


@rule("C25")
def constructors(ctx):
    for c, n in (("phlite", "ZP"), ("phlite", "Q")):
        ctx.guarded("constructors of " + n, lambda: constructors_of(ctx, c, n))


# ------------------------------------------------------------------------------------------------- ways in
@rule("C25")
def ways_in(ctx):
    for crate, n in GUARDED:
        def go():
            adt = ctx.adt(crate, n)
            seen = 0
            for f, B in sorted(ctx.prog.bodies.items()):
                if not callable_(B):
                    continue
                ty = B["types"]
                has = [k for k in range(1, B["args"] + 1) if any(ty[j].get("adt") == adt for j in types_in(ty, B["locals"][k]))]
                mut = [k for k in has if k in mutates(B, adt)]
                direct = [k for k in mut if ty[ty[B["locals"][k]]["args"][0]].get("adt") == adt]
                name = "%s keeps %s closed" % (f, n)
                if has:
                    seen += 1
                    # a mutable reference to something inside
                    r = types_in(ty, B["ret"])
                    inside = [ty[j] for j in r if ty[j]["k"] == "ref" and ty[j].get("mut") and ty[ty[j]["args"][0]].get("adt") != adt]
                    hidden = [h.split("::")[-1] for h in B.get("ret_hidden") or [] if h.split("::")[-1] in MUTABLE and not h.startswith("phlite")]
                    opaque = any(ty[j]["k"] == "alias" for j in r)
                    inside = inside or opaque and any(h.startswith("mut:") and n not in h.split("<")[0] for h in B.get("ret_hidden") or [])
                    if (inside or hidden) and direct:
                        ctx.add(name, B.get("at"), VIOL, "%s gives the caller %s into a %s" % (
                            f, "a mutable reference" if inside else hidden[0], n))
                if direct and n in ("ClearedReductionMatrix", "RipsIndex"):     # coefficients: judged by the values left (constructors)
                    changed = writes(ctx, f, direct)
                    ctx.add(name, B.get("at"), VIOL if changed else OK if changed is False else UNDEC,
                            "%s changes the %s it is given" % (f, n) if changed else "what it does to it is not known" if changed is None else "")
            if n == "ClearedReductionMatrix":
                inner(ctx, adt)
            ctx.add("functions taking a %s" % n, ctx.prog.adts[adt].get("at"), OK, "%d" % seen)
        ctx.guarded("ways into " + n, go)


def writes(ctx, f, ks):
    """does a function assign through a mutable parameter: directly (True), not at all (False), by passing it on (None)"""
    B = ctx.prog.bodies[f]
    alias = set(ks)
    changed = True
    while changed:
        changed = False
        for blk in B["blocks"]:
            if blk.get("cleanup"):
                continue
            for s in blk["st"]:
                rv = s.get("rv") or {}
                if s.get("s") != "assign" or s["p"][1]:
                    continue
                src = rv.get("p") if rv.get("r") in ("ref", "rawptr") else rv["a"].get("p") if rv.get("r") == "use" else None
                if src and src[0] in alias and s["p"][0] not in alias:
                    if rv["r"] == "use" and B["types"][B["locals"][s["p"][0]]]["k"] != "ref":
                        continue
                    if rv["r"] == "ref" and not rv.get("mut"):
                        continue
                    alias.add(s["p"][0])
                    changed = True
    passed = False
    for blk in B["blocks"]:
        if blk.get("cleanup"):
            continue
        for s in blk["st"]:
            if s.get("s") == "assign" and s["p"][0] in alias and s["p"][1]:
                return True
        t = blk["term"]
        if t["t"] == "call" and any(a.get("p") and a["p"][0] in alias for a in t["a"]):
            if (t["f"].get("name") or "") in ("shrink_to_fit", "reserve", "as_ref", "deref", "borrow", "len", "get", "iter"):
                continue
            if t["f"].get("resolved") in ctx.prog.bodies or t["f"].get("trait") in ctx.prog.traits:
                passed = True
            else:
                return True
    return None if passed else False


def inner(ctx, adt):
    """functions that take the stored columns and make a reduction matrix of them"""
    ad = ctx.prog.adts[adt]
    stored = set()
    for f in ad["variants"][0]["fields"]:
        for j in types_in(ad["types"], f["ty"]):
            a = ad["types"][j].get("adt")
            if a and a.startswith("phlite") and a != adt or a == "std::collections::hash::map::HashMap":
                stored.add(a)
    for f, B in sorted(ctx.prog.bodies.items()):
        if not callable_(B) or adt not in (B.get("ret_hidden") or []):
            continue
        ty = B["types"]
        for k in range(1, B["args"] + 1):
            js = types_in(ty, B["locals"][k])
            if any(ty[j].get("adt") == adt for j in js):
                continue
            hit = sorted({ty[j].get("adt") for j in js} & stored)
            if hit:
                ctx.add("%s builds a reduction matrix of its own" % f, B.get("at"), VIOL,
                        "%s makes a reduction matrix of a %s the caller provides" % (f, hit[0].split("::")[-1]))


# ------------------------------------------------------------------------------------------------- witnesses
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "witness")
REJECT = {"E0271", "E0277", "E0308", "E0282", "E0283", "E0369", "E0416", "E0423", "E0451", "E0599", "E0594", "E0596", "E0603", "E0605", "E0606",
          "E0609", "E0610", "E0614", "E0616", "E0624", "E0631", "E0560", "E0532", "E0061"}


def programs():
    for line in open(os.path.join(HERE, "programs.txt")):
        line = line.rstrip("\n")
        if not line or line.startswith("#"):
            continue
        w = line.split(" | ")
        if len(w) != 4:
            raise Undecided("witness: " + line)
        yield tuple(x.replace("/|", "|") for x in w)


def rmeta(target, crate):
    c = []
    for dp, dn, fn in os.walk(target):
        for f in fn:
            if re.match(r"lib%s-[0-9a-f]+\.rmeta$" % crate, f):
                c.append(os.path.join(dp, f))
    if not c:
        raise Undecided("no metadata of " + crate)
    return max(c, key=os.path.getmtime)


def dirs(target):
    return sorted({dp for dp, dn, fn in os.walk(target) if any(f.endswith((".rmeta", ".rlib", ".so")) for f in fn)})


@rule("C25")
def witnesses(ctx):
    ext = [("phlite", rmeta(ctx.target, "phlite")), ("phlite_rips", rmeta(ctx.target, "phlite_rips"))]
    ds = dirs(ctx.target)
    prelude = open(os.path.join(HERE, "prelude.rs")).read()
    tmp = tempfile.mkdtemp(prefix="c25")

    def compile_(k, body):
        d = os.path.join(tmp, str(k))
        os.makedirs(d)
        src = os.path.join(d, "w.rs")
        with open(src, "w") as fh:
            fh.write(prelude + "\npub fn witness() {\n    %s\n}\n" % body)
        cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=json", "-o", os.path.join(d, "w.rmeta"), src]
        for n, p in ext:
            cmd += ["--extern", "%s=%s" % (n, p)]
        for x in ds:
            cmd += ["-L", "dependency=" + x]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        errs = []
        for l in r.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("level") == "error" and not m["message"].startswith("aborting"):
                errs.append(((m.get("code") or {}).get("code"), m["message"]))
        return r.returncode, errs
    try:
        rc, errs = compile_("prelude", "")
        if rc:
            ctx.add("witnesses", None, UNDEC, "the interface the witnesses are written against has changed: %s" % errs[:3])
            return
        ps = list(programs())
        with ThreadPoolExecutor(8) as ex:
            good = list(ex.map(lambda kp: compile_("g%d" % kp[0], kp[1][2]), enumerate(ps)))
            bad = list(ex.map(lambda kp: compile_("b%d" % kp[0], kp[1][3]), enumerate(ps)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    at = {}
    for b, B in ctx.prog.bodies.items():
        if callable_(B) and b.startswith("phlite::"):
            at.setdefault(B.get("name"), B.get("at"))
    for a, d in ctx.prog.adts.items():
        if a.startswith("phlite"):
            at.setdefault(a.split("::")[-1], d.get("at"))
    for (anchor, what, ok, no), (rg, eg), (rb, eb) in zip(ps, good, bad):
        name = "%s [%s]" % (what, anchor)
        if rg:
            ctx.add(name, at.get(anchor), UNDEC, "the accepted twin no longer type-checks: %s" % eg[:2])
        elif not rb:
            ctx.add(name, at.get(anchor), VIOL, "this program type-checks against the crates' interface: " + no)
        elif all(c in REJECT for c, _ in eb) and eb:
            ctx.add(name, at.get(anchor), OK, "rejected: %s" % eb[0][1].replace(tmp + "/", ""))
        else:
            ctx.add(name, at.get(anchor), UNDEC, "rejected for another reason: %s" % eb[:2])
