"""Abstract evaluation of MIR bodies into value terms (see terms.py).

Each function is evaluated once, over symbolic inputs, into a decision tree of guarded results.  Branches fork on
uninterpreted conditions, local helpers and closures are inlined, loops are never unrolled: a loop becomes a stream
(comprehension / accumulation) when it is a traversal, otherwise a transition system over havocked variables whose
one-step relation the rules inspect."""
from terms import *
from facts import Facts, NONNEG_ATOMS
from mir import CFG
import models

ENTRY = "phlite::columns::ColumnEntry"
REVERSE = "core::cmp::Reverse"


class Undecided(Exception):
    pass


class State(object):
    __slots__ = ("cells", "facts", "notes")

    def __init__(self, cells=None, facts=None, notes=()):
        self.cells = cells if cells is not None else {}
        self.facts = facts or Facts()
        self.notes = notes

    def copy(self):
        return State(dict(self.cells), self.facts, self.notes)

    def assume(self, c, v):
        """-> new state or None"""
        l = lit(c, v)
        f = self.facts.add(l)
        if f is None:
            return None
        s = State(dict(self.cells), f, self.notes)
        return s

    def note(self, *n):
        self.notes = self.notes + (n,)


class Leaf(object):
    __slots__ = ("kind", "st", "val", "at")

    def __init__(self, kind, st, val=None, at=None):
        self.kind, self.st, self.val, self.at = kind, st, val, at

    def __repr__(self):
        return "<%s %s | %s>" % (self.kind, self.val, " & ".join(showlit(l) for l in self.st.facts.lits))


class Ev(object):
    def __init__(self, prog, opaque=(), budget=60000):
        self.prog = prog
        self.cfgs = {}
        self.fid = 0
        self.stack = []
        self.opaque = set(opaque)
        self.opaque_pred = None
        self.contracts = {}        # function -> summary to use instead of its body (verified separately)
        self.steps = 0
        self.budget = budget
        self.loops = []          # records of generic loops met
        self.calls = []          # (caller id, callee, at) actually evaluated
        self.inlined = set()
        self.external = set()      # library functions without a model (opaque)
        self.modelled = set()
        self.depth = 0             # loops and closures around what is evaluated
        self.subs = []             # (path condition, value, function, position, depth) of unsigned subtractions
        self.arith = []            # (path condition, value, type, function) of plain integer operations
        self.loopdepth = 0
        self.casts = []            # (function, from, to, value, kind, path condition) of integer conversions that may change a value
        self.symtypes = {}
        self.trace_calls = None
        self.trace_casts = None
        self.mark = False          # keep unchecked constructions and the values taken out of NonZero and NotNan apart
        self.abstract_field = False
        self.phi_stream = {}     # loop variable -> the simple stream it walks
        self.phi_init = {}
        self.frames = {}
        self.recursions = []
        self.rec_same = {}       # function -> argument positions left unchanged by a recursive call (induction hypothesis)

    # ------------------------------------------------------------------ entry
    def cfg(self, body):
        c = self.cfgs.get(body["id"])
        if c is None:
            c = self.cfgs[body["id"]] = CFG(body)
        return c

    def expand(self, st, types, ti, name, depth=0):
        """symbolic value of a parameter of the given type"""
        t = types[ti]
        k = t["k"]
        if k == "ref":
            if t.get("mut"):
                key = ("ext", name)
                st.cells[key] = self.expand(st, types, t["args"][0], name, depth + 1)
                return mk("ptr", key, ())
            return self.expand(st, types, t["args"][0], name, depth)
        if k == "tuple":
            return tup(*[self.expand(st, types, a, "%s.%d" % (name, i), depth + 1) for i, a in enumerate(t["args"])])
        if k == "adt":
            a = t["adt"]
            if a.startswith("alloc::") and a.split("::")[-1] in ("Box", "Rc", "Arc"):
                return self.expand(st, types, t["args"][0], name, depth)
            if a == "core::marker::PhantomData":
                return UNIT
            if a == "core::cell::RefCell":
                key = ("cellref", name)
                st.cells[key] = sym(name + ".cell")
                return mk("ptr", key, ())
            if a == REVERSE:
                return ctor(REVERSE, "Reverse", self.expand(st, types, t["args"][0], name + ".0", depth + 1))
            if a == "core::num::nonzero::NonZero":
                s = sym(name)
                NONNEG_ATOMS.add(s)
                return s
            ad = self.prog.adts.get(a)
            if ad and ad["kind"] == "struct" and depth < 6 and a not in self.keep_opaque:
                v = ad["variants"][0]
                if not v["fields"]:
                    return ctor(a, v["name"])
                fs = [self.expand(st, ad["types"], f["ty"], "%s.%s" % (name, f["name"]), depth + 1)
                      for f in v["fields"]]
                return ctor(a, v["name"], *fs)
        s = sym(name)
        if k == "prim":
            self.symtypes[s] = t["s"]
        if k == "prim" and t["s"] in ("usize", "u8", "u16", "u32", "u64"):
            NONNEG_ATOMS.add(s)
        return s

    keep_opaque = {"phlite::columns::BHCol"}

    def params(self, bid, st, names=None):
        b = self.prog.bodies[bid]
        nm = {}
        for n, pl in b["names"]:
            if not pl[1] and 1 <= pl[0] <= b["args"]:
                nm.setdefault(pl[0], n)
        out = []
        for i in range(1, b["args"] + 1):
            n = (names[i - 1] if names else None) or nm.get(i, "arg%d" % i)
            out.append(self.expand(st, b["types"], b["locals"][i], n))
        return out

    def run(self, bid, args=None, st=None, names=None):
        """evaluate function bid on symbolic (or given) arguments -> leaves"""
        st = st or State()
        if args is None:
            args = self.params(bid, st, names)
        return self.call_body(bid, args, st)

    # ------------------------------------------------------------------ cells
    def readcell(self, st, key, path):
        v = st.cells.get(key)
        if v is None:
            return unk("uninit", str(key))
        for p in path:
            v = self.step(v, p)
        return v

    def step(self, v, p):
        if p[0] == "f":
            return field(v, p[1], p[2])
        return index(v, p[1])

    def setpath(self, v, path, new):
        if not path:
            return new
        p = path[0]
        sub = self.setpath(self.step(v, p), path[1:], new)
        if p[0] == "f":
            if v.op == "ctor" and p[2] < len(v.a) - 2 and v.a[1] == p[1]:
                f = list(v.a[2:])
                f[p[2]] = sub
                return ctor(v.a[0], v.a[1], *f)
            if v.op == "clo":
                a = list(v.a)
                a[1 + p[2]] = sub
                return mk("clo", *a)
            if field(v, p[1], p[2]) is sub:
                return v
            sd = self.struct_named(p[1])
            if sd is not None:
                return ctor(sd[0], p[1], *[sub if i == p[2] else field(v, p[1], i) for i in range(sd[1])])
            if v.op == "upd" and v.a[1] == p:
                v = v.a[0]
            return mk("upd", v, p, sub)
        return store(v, p[1], sub)

    def struct_named(self, name):
        """(adt, number of fields) of the only local struct with this name"""
        if self._structs is None:
            d = {}
            for a, ad in self.prog.adts.items():
                if ad["kind"] == "struct":
                    v = ad["variants"][0]
                    d.setdefault(v["name"], []).append((a, len(v["fields"])))
            self._structs = {k: v[0] for k, v in d.items() if len(v) == 1}
        return self._structs.get(name)

    _structs = None

    def writecell(self, st, key, path, val):
        if not path:
            st.cells[key] = val
        else:
            st.cells[key] = self.setpath(st.cells.get(key, unk("uninit", str(key))), path, val)

    def deref(self, st, v):
        """value behind a pointer (identity for by-value references)"""
        n = 0
        while v.op == "ptr" and n < 20:
            v = self.readcell(st, v.a[0], v.a[1])
            n += 1
        return v

    def freeze(self, st, v):
        """replace pointers inside a value by what they point to (used when a value escapes into a term)"""
        if v.op == "ptr":
            return self.freeze(st, self.deref(st, v))
        return v

    # ------------------------------------------------------------------ places
    def locate(self, fr, st, place):
        """-> ('loc', key, path) or ('val', term)"""
        key, path = (fr["id"], place[0]), ()
        for i, pr in enumerate(place[1]):
            k = pr[0]
            if k == "deref":
                v = self.readcell(st, key, path)
                if v.op == "ptr":
                    key, path = v.a[0], v.a[1]
            elif k == "downcast":
                pass
            elif k == "field":
                var = self._variant(fr, st, place, i, key, path)
                if key[0] == "box":
                    continue
                pt = self.place_type(fr, place, i)
                if pt is not None and pt["k"] == "adt" and pt["adt"] in (
                        "alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
                    continue
                path = path + (("f", var, pr[1]),)
            elif k == "index":
                path = path + (("i", self.readcell(st, (fr["id"], pr[1]), ())),)
            elif k == "cindex":
                off = pr[1]
                if len(pr) > 3 and pr[3]:
                    path = path + (("i", psub(vlen(self.deref(st, self.readcell(st, key, path))), I(off))),)
                else:
                    path = path + (("i", I(off)),)
            else:
                return ("val", unk("proj " + k))
        return ("loc", key, path)

    def _variant(self, fr, st, place, i, key, path):
        if i > 0 and place[1][i - 1][0] == "downcast":
            return place[1][i - 1][1]
        # struct or tuple: look at the value when it is a constructor, else at the static type
        v = self.readcell(st, key, path)
        if v.op == "ctor":
            return v.a[1]
        if v.op == "clo":
            return ""
        ty = self.place_type(fr, place, i)
        if ty is not None:
            if ty["k"] == "adt":
                return ty["adt"].split("::")[-1]
            if ty["k"] == "tuple":
                return tupvar(len(ty["args"]))
        return ""

    def place_type(self, fr, place, i):
        """static type of the place with the first i projections"""
        types = fr["body"]["types"]
        t = types[fr["body"]["locals"][place[0]]]
        for pr in place[1][:i]:
            if pr[0] == "deref":
                if t["k"] in ("ref", "ptr") or (t["k"] == "adt" and t["adt"] == "alloc::boxed::Box"):
                    t = types[t["args"][0]]
                else:
                    return None
            elif pr[0] == "field":
                t = types[pr[3]]
            elif pr[0] == "downcast":
                pass
            elif pr[0] in ("index", "cindex"):
                if t["k"] in ("array", "slice"):
                    t = types[t["args"][0]]
                else:
                    return None
            else:
                return None
        return t

    def read(self, fr, st, place):
        l = self.locate(fr, st, place)
        if l[0] == "val":
            return l[1]
        v = self.readcell(st, l[1], l[2])
        return v

    def write(self, fr, st, place, val):
        l = self.locate(fr, st, place)
        if l[0] == "val":
            return
        self.writecell(st, l[1], l[2], val)

    # ------------------------------------------------------------------ operands / rvalues
    def operand(self, fr, st, o):
        if o["o"] in ("copy", "move"):
            return self.read(fr, st, o["p"])
        return self.const(fr, st, o["k"])

    def const(self, fr, st, k):
        c = k["c"]
        if c in ("int", "bool"):
            t = fr["body"]["types"][k["ty"]]
            if t["k"] == "prim" and t["s"] == "char":
                return app("char", I(k["v"]))
            return I(k["v"])
        if c == "unit":
            return UNIT
        if c == "float":
            return floatconst(k["v"], fr["body"]["types"][k["ty"]], k["s"])
        if c == "fn":
            return mk("fn", FnRef.of(k["fn"], fr["body"]["crate"]))
        if c == "str":
            return mk("str", k["s"])
        if c == "param" and fr["body"].get("kind") == "ext":
            return unk("const", k["name"])
        if c == "param":
            s = sym("const " + k["name"])
            NONNEG_ATOMS.add(s)
            return fr.get("consts", {}).get(k["name"], s)
        if c == "promoted" or k.get("id") in self.prog.bodies or k.get("id") in self.prog.ext:
            i = k.get("id")
            if i in self.prog.bodies or i in self.prog.ext:
                ls = self.call_body(i, [], st)
                if len(ls) == 1 and ls[0].kind == "ret":
                    st.cells.update(ls[0].st.cells)
                    return ls[0].val
            return unk("const", str(i))
        t = fr["body"]["types"][k["ty"]] if k.get("ty") is not None else None
        if t is not None:
            if t["k"] == "adt":
                if t["adt"] == "core::marker::PhantomData":
                    return UNIT
                ad = self.prog.adts.get(t["adt"])
                if ad and ad["kind"] == "struct" and not ad["variants"][0]["fields"]:
                    return ctor(t["adt"], ad["variants"][0]["name"])
                if t["adt"] == OPT and "None" in k["s"]:
                    return NONE
            if t["k"] == "fndef" and k.get("fn"):
                return mk("fn", FnRef.of(k["fn"], fr["body"]["crate"]))
            if t["k"] == "closure":
                return mk("clo", t["def"])
        nm = k.get("id") or k["s"]
        if nm.endswith("::INFINITY") or k["s"] in ("inff64", "f64::INFINITY"):
            return mk("flt", "inf", "inf")
        return app("const:" + str(nm))

    def rvalue(self, fr, st, r, place=None):
        k = r["r"]
        if k == "use":
            return self.operand(fr, st, r["a"])
        if k in ("ref", "rawptr"):
            l = self.locate(fr, st, r["p"])
            if l[0] == "val":
                return l[1]
            mut = r.get("mut")
            if mut or l[1][0] == "box":
                v = self.readcell(st, l[1], l[2])
                if v.op == "ptr" and not l[2] and False:
                    return v
                return mk("ptr", l[1], l[2])
            last = r["p"][1][-1] if r["p"][1] else ()
            if len(last) > 3 and last[0] == "field" and str(fr["body"]["types"][last[3]].get("adt")).startswith("core::cell::"):
                return mk("ptr", l[1], l[2])
            return self.readcell(st, l[1], l[2])
        if k == "cast":
            v = self.operand(fr, st, r["a"])
            kind = r["kind"]
            ty = fr["body"]["types"][r["ty"]]
            frm = fr["body"]["types"][r["from"]]
            if kind == "IntToInt":
                return self.intcast(st, fr, v, frm["s"], ty["s"])
            if kind == "IntToFloat":
                if v.op == "int" and v.a[0] == 0:
                    return mk("flt", 0, "0f64")
                return app("i2f", v)
            if kind in ("FloatToFloat", "FloatToInt"):
                return app(kind + ":" + ty["s"], v)
            if kind == "PtrToPtr" and frm["k"] == "ptr" and ty["k"] == "ptr" and v.op != "ptr":
                return self.ptrcast(v, fr["body"]["types"], frm["args"][0], ty["args"][0])
            if kind == "Transmute":
                return self.transmute(st, fr, v, frm, ty, r)
            return v
        if k == "bin":
            a = self.operand(fr, st, r["a"])
            b = self.operand(fr, st, r["b"])
            ty = fr["body"]["types"][r["ty"]]
            v = self.binop(r["op"], self.deref(st, a), self.deref(st, b), ty)
            if r["op"] in ("Add", "Sub", "Mul") and ty["k"] == "prim" and ty["s"] in INTS and v.op != "int":
                self.arith.append((tuple(st.facts.lits), v, ty["s"], fr["body"]["id"]))
                if r["op"] == "Sub" and ty["s"][0] == "u":
                    self.subs.append((tuple(st.facts.lits), v, fr["body"]["id"], r.get("at"), self.depth))
            return v
        if k == "un":
            a = self.deref(st, self.operand(fr, st, r["a"]))
            if r["op"] == "Neg":
                return pneg(a)
            if r["op"] == "Not":
                return complement(a, fr["body"]["types"][r["ty"]])
            if r["op"] == "PtrMetadata":
                return vlen(a)
            return app("un:" + r["op"], a)
        if k == "discr":
            v = self.deref(st, self.read(fr, st, r["p"]))
            return self.discr_of(fr, v, fr["body"]["types"][r["ty"]] if r.get("ty") is not None else None, r["p"])
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in r["ops"]]
            kd = r["kind"]
            if kd == "tuple":
                return tup(*ops)
            if kd == "array":
                return mk("array", *ops)
            if kd == "closure":
                return self.closure(st, r["def"], ops)
            if kd == "adt":
                if r["adt"] == "core::marker::PhantomData":
                    return UNIT
                return ctor(r["adt"], r["variant"], *ops)
            return unk("agg " + kd, *ops)
        if k == "repeat":
            v = self.operand(fr, st, r["a"])
            try:
                n = int(str(r["n"]).split("_")[0])
                if n <= 8:
                    return mk("array", *([v] * n))
            except ValueError:
                pass
            return app("repeatarr", v, mk("str", str(r["n"])))
        if k == "cfd":
            return self.read(fr, st, r["p"])
        return unk("rv " + k)

    def discr_of(self, fr, v, ty, place):
        if v.op == "ctor":
            ad = self.prog.adts.get(v.a[0])
            if ad:
                for i, var in enumerate(ad["variants"]):
                    if var["name"] == v.a[1]:
                        return I(int(var["discr"]) if var.get("discr") is not None else i)
        n = None
        t = self.place_type(fr, place, len(place[1]))
        while t is not None and t["k"] == "ref":
            t = fr["body"]["types"][t["args"][0]]
        if t is not None and t["k"] == "adt":
            if t["adt"] == COW:
                return app("cowvariant", v)
            if t["adt"] in (OPT, RES, CF):
                n = 2
            else:
                ad = self.prog.adts.get(t["adt"])
                if ad:
                    n = len(ad["variants"])
                    if n == 1:
                        return I(0)
        return discr(v, n)

    WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
             "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128, "bool": 1, "char": 32}

    def intcast(self, st, fr, v, a, b):
        wa, wb = self.WIDTH.get(a, 64), self.WIDTH.get(b, 64)
        ua, ub = a[0] == "u" or a in ("bool", "char"), b[0] == "u"
        note = lambda how: self.casts.append((fr["body"]["id"], a, b, v, how, st.facts.lits))
        if v.op == "int":
            lo = 0 if ub else -2 ** (wb - 1)
            note("fits" if lo <= v.a[0] < 2 ** (wb if ub else wb - 1) else "const")
            return v
        ok = (ua and ub and wb >= wa) or (ua and not ub and wb > wa) or (not ua and not ub and wb >= wa)
        if ok:
            return v
        if ua != ub and wa == wb == 64:
            note("sign")
            return v
        if wb >= 32 and v.op == "app" and v.a[0] in ("pos", "posn", "len"):
            note("pos")
            return v                      # positions and lengths of collections in memory
        note("trunc")
        return app("trunc", mk("str", b), v)

    def ptrcast(self, v, types, fa, ta):
        """cast of a pointer between T and a repr(transparent) wrapper of T"""
        ft, tt = types[fa], types[ta]
        ad = self.prog.adts.get(tt.get("adt")) if tt["k"] == "adt" else None
        if ad and ad.get("transparent") and len(ad["variants"][0]["fields"]) >= 1:
            return ctor(tt["adt"], ad["variants"][0]["name"], v)
        ad = self.prog.adts.get(ft.get("adt")) if ft["k"] == "adt" else None
        if ad and ad.get("transparent"):
            return field(v, ad["variants"][0]["name"], 0)
        if ft["k"] == "alias" or ft["k"] == "param" or tt["s"] == ft["s"]:
            return v if tt["s"] == ft["s"] else unk("ptrcast", v)
        return unk("ptrcast", v)

    def binop(self, op, a, b, ty=None):
        flt = ty is not None and ty["k"] == "prim" and ty["s"] in ("f32", "f64")
        sg = "s" if ty is not None and ty["k"] == "prim" and ty["s"][0] == "i" else "i"
        if op in ("Add", "AddUnchecked"):
            return app("fadd", a, b) if flt else padd(a, b)
        if op in ("Sub", "SubUnchecked"):
            return app("fsub", a, b) if flt else psub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return app("fmul", a, b) if flt else pmul(a, b)
        if op == "Div":
            if flt:
                return app("fdiv", a, b)
            if b.op == "int" and b.a[0] == 1:
                return a
            return rebuild("app", ("div", a, b))
        if op == "Rem":
            return rebuild("app", ("rem", a, b))
        if flt:
            if op == "Lt":
                return app("flt", a, b)
            if op == "Gt":
                return app("flt", b, a)
            if op == "Le":
                return app("fle", a, b)
            if op == "Ge":
                return app("fle", b, a)
            if op == "Eq":
                return app("feq", *sorted((a, b), key=lambda t: t.id))
            if op == "Ne":
                return neg(app("feq", *sorted((a, b), key=lambda t: t.id)))
        if op == "Lt":
            return lt(a, b, sg)
        if op == "Gt":
            return lt(b, a, sg)
        if op == "Le":
            return neg(lt(b, a, sg))
        if op == "Ge":
            return neg(lt(a, b, sg))
        if op == "Eq":
            return boolEq(a, b, ty)
        if op == "Ne":
            return neg(boolEq(a, b, ty))
        if op in ("BitAnd", "BitOr", "BitXor"):
            isb = ty is not None and ty["s"] == "bool"
            if isb:
                if a.op == "int":
                    a, b = b, a
                if b.op == "int":
                    t = b.a[0]
                    if op == "BitAnd":
                        return a if t else FALSE
                    if op == "BitOr":
                        return TRUE if t else a
                    return neg(a) if t else a
                return app("bool", op, a, b)
            if a.op == "int" and b.op == "int":
                x, y = a.a[0], b.a[0]
                return I(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
            if op == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if y.op == "int" and y.a[0] > 0 and (y.a[0] & (y.a[0] + 1)) == 0:
                        return rebuild("app", ("rem_e" if sg == "s" else "rem", x, I(y.a[0] + 1)))
            return app(op, a, b)
        if op in ("Shl", "ShlUnchecked") and b.op == "int":
            return pmul(a, I(1 << b.a[0]))
        if op in ("Shr", "ShrUnchecked") and b.op == "int":
            return rebuild("app", ("div_e" if sg == "s" else "div", a, I(1 << b.a[0])))
        if op == "Cmp":
            return cmpterm(a, b, sg)
        return app("bin:" + op, a, b)

    # ------------------------------------------------------------------ bodies
    def call_body(self, bid, args, st, consts=None):
        """inline a local body; -> leaves of kind ret / panic"""
        body = self.prog.bodies.get(bid) or self.prog.ext[bid]
        if len(self.stack) > 40:
            raise Undecided("call depth at " + bid)
        self.fid += 1
        fr = {"id": ("fr", self.fid), "body": body, "cfg": self.cfg(body), "consts": consts or {}}
        self.frames[fr["id"]] = fr
        s = st
        for i, a in enumerate(args):
            s.cells[(fr["id"], i + 1)] = a
        self.stack.append(bid)
        self.inlined.add(bid)
        try:
            leaves = self.block(fr, s, 0, None)
        finally:
            self.stack.pop()
        out = []
        for l in leaves:
            # drop the callee's frame unless pointers into it escape
            fid = fr["id"]
            keep = set()
            if l.kind == "ret":
                keep = ptrs_into(l.val, fid)
            # pointers held by other cells into this frame
            if any(k[0] == fid for k in l.st.cells):
                live = set(keep)
                if live:
                    for k in list(live):
                        live |= closure_ptrs(l.st, k, fid)
                for k in [k for k in l.st.cells if k[0] == fid and k not in live]:
                    del l.st.cells[k]
            out.append(l)
        return out

    def block(self, fr, st, b, loop):
        """evaluate from block b; loop = (header, blockset) when inside the evaluation of one loop iteration"""
        leaves = []
        work = [(b, st, True)]
        bl = fr["body"]["blocks"]
        first = True
        while work:
            b, st, entered = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.budget:
                    raise Undecided("evaluation budget exceeded in " + fr["body"]["id"])
                if loop is not None and not first:
                    if b == loop[0]:
                        leaves.append(Leaf("cont", st))
                        break
                    if b not in loop[1]:
                        leaves.append(Leaf("exit", st, None, b))
                        break
                if b in fr["cfg"].loops and not (loop is not None and b == loop[0]):
                    res = self.loop(fr, st, b)
                    first = False
                    nxt = []
                    for l in res:
                        if l.kind == "goto":
                            nxt.append((l.at, l.st, False))
                        else:
                            leaves.append(l)
                    if not nxt:
                        break
                    for x in nxt[1:]:
                        work.append(x)
                    b, st, _ = nxt[0]
                    continue
                first = False
                for s in bl[b]["st"]:
                    self.stmt(fr, st, s)
                t = bl[b]["term"]
                k = t["t"]
                if k == "goto" or k == "drop" or k == "assert":
                    b = t["to"]
                    continue
                if k == "return":
                    v = st.cells.get((fr["id"], 0), UNIT)
                    leaves.append(Leaf("ret", st, v))
                    break
                if k == "unreachable":
                    break
                if k == "resume":
                    break
                if k == "switch":
                    d = self.deref(st, self.operand(fr, st, t["d"]))
                    outs = self.switch(st, d, t)
                    if not outs:
                        break
                    for x, y in outs[1:]:
                        work.append((x, y, False))
                    b, st = outs[0]
                    continue
                if k == "call":
                    res = self.call(fr, st, t)
                    nxt = []
                    for l in res:
                        if l.kind == "ret":
                            if t.get("to") is None:
                                leaves.append(Leaf("panic", l.st, l.val, t.get("at")))
                                continue
                            self.write(fr, l.st, t["dest"], l.val)
                            nxt.append((t["to"], l.st))
                        else:
                            if l.at is None:
                                l.at = t.get("at")
                            leaves.append(l)
                    if not nxt:
                        break
                    for x, y in nxt[1:]:
                        work.append((x, y, False))
                    b, st = nxt[0]
                    continue
                raise Undecided("terminator " + k)
        return leaves

    def stmt(self, fr, st, s):
        k = s["s"]
        if k == "assign":
            v = self.rvalue(fr, st, s["rv"], s["p"])
            self.write(fr, st, s["p"], v)
        elif k == "dead":
            pass

    def switch(self, st, d, t):
        vals = [(self._sv(v, d), b) for v, b in t["v"]]
        els = t["else"]
        if d.op == "int":
            for v, b in vals:
                if v == d.a[0]:
                    return [(b, st)]
            return [(els, st)]
        if d.op == "ite":
            out = []
            for v, arm in ((d.a[1], d.a[2]), (None, d.a[3])):
                s2 = st.assume(d.a[0], d.a[1] if v is not None else ("no", d.a[1]))
                if s2 is not None:
                    out += self.switch(s2, arm, t)
            return out
        kv = st.facts.value(d)
        if kv is not None:
            for v, b in vals:
                if v == kv:
                    return [(b, st)]
            return [(els, st)]
        out = []
        bools = is_boolcond(d) or d.op == "not"
        boolty = bools or (d.op in ("discr2",))
        for v, b in vals:
            s2 = st.assume(d, v)
            if s2 is not None:
                out.append((b, s2))
        if els is not None and not (boolty and {0, 1} <= {v for v, _ in vals}):
            if boolty and len(vals) == 1:
                s2 = st.assume(d, 1 - vals[0][0])
            else:
                s2 = st.assume(d, ("no",) + tuple(v for v, _ in vals))
            if s2 is not None:
                out.append((els, s2))
        return out

    def _sv(self, v, d):
        v = int(v)
        if d.op in ("discr",) and v >= 255 and v in (255, 2 ** 16 - 1, 2 ** 32 - 1, 2 ** 64 - 1, 2 ** 128 - 1):
            return -1
        if d.op == "int" and d.a[0] == -1 and v in (255, 2 ** 64 - 1, 2 ** 128 - 1):
            return -1
        return v

    def transmute(self, st, fr, v, frm, ty, r):
        """between an integer and its NonZero: a statement that the value is not zero, or the value"""
        if frm["k"] == "prim" and "NonZero" in str(ty.get("adt")):
            if self.trace_casts is not None:
                self.trace_casts(fr, "non-zero", v, st)
            v = self.deref(st, v)
            return app("unchecked", mk("str", "non-zero"), v) if self.mark and v.op not in ("int", "flt") else v
        if ty["k"] == "prim" and "NonZero" in str(frm.get("adt")):
            v = self.deref(st, v)
            return app("nz.get", v) if self.mark and v.op not in ("int", "flt") else v
        return v

    # ------------------------------------------------------------------ calls
    def call(self, fr, st, t):
        f = t["f"]
        args = [self.operand(fr, st, a) for a in t["a"]]
        if not isinstance(f, dict) or "id" not in f:
            # call through a function value
            fv = f.get("op") if isinstance(f, dict) else None
            v = self.operand(fr, st, fv) if isinstance(fv, dict) else unk("fnptr")
            return self.call_value(st, v, args, fr)
        ref = FnRef.of(f, fr["body"]["crate"])
        return self.call_ref(st, ref, args, fr, t)

    def call_ref(self, st, ref, args, fr=None, t=None):
        if self.trace_calls is not None:
            self.trace_calls(ref, args, st, fr, t)
        self.calls.append((fr["body"]["id"] if fr else None, ref.id, t.get("at") if t else None))
        r = self._dispatch(st, ref, args, fr, t)
        return r

    def is_opaque(self, ref):
        if ref.id in self.opaque or (ref.resolved and ref.resolved in self.opaque):
            return True
        return self.opaque_pred is not None and self.opaque_pred(ref)

    def _dispatch(self, st, ref, args, fr, t):
        prog = self.prog
        c = self.contracts.get(ref.resolved) or self.contracts.get(ref.id)
        if c is not None:
            r = c(self, st, ref, args)
            if r is not None:
                return r
        if self.is_opaque(ref):
            return self.opaque_call(st, ref, args)
        # enum / struct constructors used as functions
        if ref.d.get("ctor_adt"):
            return [Leaf("ret", st, ctor(ref.d["ctor_adt"], ref.d.get("ctor_variant"), *args))]
        if ref.trait and ref.trait.split("::")[-1] in ("Fn", "FnMut", "FnOnce") and ref.name in ("call", "call_mut", "call_once"):
            return models._fncall(self, st, ref, args)
        target = None
        if ref.resolved in prog.bodies:
            target = ref.resolved
        elif ref.id in prog.bodies and not ref.trait:
            target = ref.id
        if target is not None and ref.trait and ref.trait.split("::")[-1] == "Iterator" and args and self.walks_stream(st, args[0]):
            target = None       # a local iterator already turned into the stream of its items
        if target is not None:
            im = prog.impl_of_item(target)
            derived = im is not None and im.get("derived")
            if not derived:
                # a default method body: an implementation for the constructor at hand takes precedence
                if ref.trait in prog.traits and prog.traits[ref.trait].get(ref.name, {}).get("id") == target:
                    o = self._ctor_impl(st, ref, args)
                    if o:
                        target = o
                    elif self._contract(st, ref, args):
                        return self._contract(st, ref, args)
                if target in self.stack and not self._may_recurse(target, args, st):
                    return self.recursive_call(st, ref, target, args)
                return self.call_body(target, args, st, ref.consts(self))
        m = models.lookup(ref)
        if m is not None:
            r = m(self, st, ref, args)
            if r is not None:
                self.modelled.add(ref.path)
                return r
        if ref.trait in prog.traits:
            o = self._ctor_impl(st, ref, args)
            if o:
                if o in self.stack and not self._may_recurse(o, args, st):
                    return self.recursive_call(st, ref, o, args)
                return self.call_body(o, args, st)
            c = self._contract(st, ref, args)
            if c:
                return c
            it = prog.traits[ref.trait].get(ref.name)
            if it and it.get("default") and it["id"] in prog.bodies:
                return self.call_body(it["id"], args, st)
            return self.opaque_call(st, ref, args)
        # deref impls of local adts etc.
        o = self._ctor_impl(st, ref, args)
        if o and not prog.impl_of_item(o).get("derived"):
            if o in self.stack and not self._may_recurse(o, args, st):
                return self.recursive_call(st, ref, o, args)
            return self.call_body(o, args, st)
        target = ref.resolved if ref.resolved in prog.ext else ref.id
        if target in prog.ext and target not in self.stack:
            r = self.external_body(st, target, args)
            if r is not None:
                return r
        self.external.add(ref.path)
        return self.opaque_call(st, ref, args, ext=True)

    def walks_stream(self, st, p):
        v = self.deref(st, p)
        while v.op == "app" and v.a[0] == "adv":
            v = v.a[1]
        if v.op == "phi":
            v = self.phi_init.get(v, v)
        return v.op == "stream"

    def external_body(self, st, target, args):
        """a function of another crate without a model: its own MIR, where that is understood completely"""
        keep = len(self.stack)
        try:
            ls = self.call_body(target, list(args), st.copy())
        except (Undecided, KeyError, IndexError, AttributeError, TypeError):
            del self.stack[keep:]
            return None
        for l in ls:
            if l.kind == "ret" and (contains(l.val, lambda x: x.op == "unk") or any(
                    contains(v, lambda x: x.op == "unk") for c, v in l.st.cells.items() if st.cells.get(c) is not v)):
                return None
        return ls

    def _may_recurse(self, target, args, st):
        # a delegating wrapper around another instance of the same type is finite; bound by constructor depth
        if self.stack.count(target) > 6:
            return False
        a = self.deref(st, args[0]) if args else None
        if a is None or a.op != "ctor":
            return False
        prev = self._rec_args.get((target, len(self.stack)))
        # strictly smaller receiver than every active call
        key = target
        act = self._active.get(key, [])
        return all(a is not p and has(p, a) for p in act) if act else False

    _rec_args = {}
    _active = {}

    def recursive_call(self, st, ref, target, args):
        self.recursions.append((target, [self.deref(st, a) for a in args], st))
        return self.opaque_call(st, ref, args, rec=target)

    def _ctor_impl(self, st, ref, args):
        """implementation of a trait method chosen by the constructor of the receiver"""
        if not ref.trait or not args:
            return None
        v = self.deref(st, args[0])
        if v.op != "ctor":
            return None
        cands = []
        for im in self.prog.impls_of(ref.trait):
            if self.prog.self_adt(im) == v.a[0] and self.prog.self_ty(im)["k"] == "adt":
                if ref.name in im["items"]:
                    cands.append(im["items"][ref.name])
        if len(cands) == 1 and cands[0] in self.prog.bodies:
            return cands[0]
        return None

    def _contract(self, st, ref, args):
        """column_with_filtration of an unknown matrix: entries of the column with the filtration of their rows"""
        if ref.trait == "phlite::matrices::HasRowFiltration" and ref.name == "column_with_filtration":
            m, c = self.deref(st, args[0]), self.deref(st, args[1])
            if m.op == "ctor":
                return None
            s = bind(elems_of_column(m, c), lambda x: one(self.prog.entry(
                app("filtration_value", m, field(x, "", 1)), field(x, "", 1), field(x, "", 0))))
            return [Leaf("ret", st, mk("stream", s))]
        return None

    def opaque_call(self, st, ref, args, ext=False, rec=None):
        vals = [self.deref(st, a) for a in args]
        nm = ref.name if (ref.trait in self.prog.traits or rec) else ref.path
        if rec and ref.trait not in self.prog.traits:
            nm = "rec:" + rec
        if ext:
            r = mk("unk", "call " + ref.path, *vals)
        else:
            r = app(nm, *vals)
        for i, a in enumerate(args):
            if a.op == "ptr" and rec and i in self.rec_same.get(rec, ()):
                continue
            if a.op == "ptr":
                self.writecell(st, a.a[0], a.a[1],
                               (mk("unk", "mut%d %s" % (i, ref.path), *vals) if ext else app("post%d:%s" % (i, nm), *vals)))
        st.note("call", ref.id if not rec else rec, tuple(vals))
        return [Leaf("ret", st, r)]

    def closure(self, st, bid, ops):
        """a closure value.  One that changes what it captured by value lives in a cell of its own, so that the change survives a call"""
        t = mk("clo", bid, *ops)
        if not ops or not self.keeps_state(bid):
            return t
        self.fid += 1
        key = ("env", self.fid)
        st.cells[key] = t
        return mk("ptr", key, ())

    def keeps_state(self, bid):
        """whether a closure body changes, or lends out mutably, something it holds by value"""
        b = self.prog.bodies.get(bid) or self.prog.ext.get(bid)
        if b is None:
            return False
        r = b.get("$state")
        if r is None:
            r = b["$state"] = _keeps_state(b)
        return r

    def call_value(self, st, fv, args, fr=None):
        """call a closure / function value with a list of arguments"""
        p = fv
        fv = self.deref(st, fv) if fv.op == "ptr" else fv
        while p.op == "ptr" and self.readcell(st, p.a[0], p.a[1]).op == "ptr":
            p = self.readcell(st, p.a[0], p.a[1])
        if fv.op == "clo":
            bid = fv.a[0]
            if bid not in self.prog.bodies and bid not in self.prog.ext:
                return [Leaf("ret", st, unk("closure " + bid))]
            recv = p if p.op == "ptr" else fv
            self.depth += 1
            try:
                return self.call_body(bid, [recv] + list(args), st)
            finally:
                self.depth -= 1
        if fv.op == "fn":
            return self.call_ref(st, fv.a[0], list(args), fr, None)
        return [Leaf("ret", st, app("callfn", fv, *[self.deref(st, a) for a in args]))]

    # ------------------------------------------------------------------ loops
    def loop(self, fr, st0, header):
        import loops
        return loops.handle(self, fr, st0, header)


def _keeps_state(b):
    def own(p):
        if p[0] != 1:
            return None
        ks = [x[0] for x in p[1]]
        if ks[:2] != ["deref", "field"] or "deref" in ks[1:]:
            return None
        return p[1][1]
    for bl in b["blocks"]:
        for s in bl["st"]:
            if s.get("s") != "assign":
                continue
            if own(s["p"]):
                return True
            rv = s["rv"]
            if rv.get("r") in ("ref", "addr", "rawptr") and isinstance(rv.get("p"), list):
                f = own(rv["p"])
                if f and (rv.get("mut") or rv["r"] != "ref" or "Cell" in str(b["types"][f[3]].get("s")) if len(f) > 3 else f):
                    return True
        t = bl["term"]
        if t.get("t") == "call" and own(t["dest"]):
            return True
    return False


def floatconst(bits, ty, s):
    import struct
    bits = int(bits)
    x = struct.unpack("<f", struct.pack("<I", bits))[0] if ty.get("s") == "f32" else struct.unpack("<d", struct.pack("<Q", bits))[0]
    if x == 0:
        return mk("flt", 0, "0f64")
    if x != x:
        return mk("flt", "nan", s)
    if x in (float("inf"), float("-inf")):
        return mk("flt", "inf", "inf") if x > 0 else mk("flt", "-inf", "-inf")
    return mk("flt", x, s)


def ptrs_into(v, fid):
    out = set()
    for x in walk(v):
        if x.op == "ptr" and x.a[0][0] == fid:
            out.add(x.a[0])
    return out


def closure_ptrs(st, key, fid):
    out = {key}
    todo = [key]
    while todo:
        k = todo.pop()
        v = st.cells.get(k)
        if v is None:
            continue
        for q in ptrs_into(v, fid):
            if q not in out:
                out.add(q)
                todo.append(q)
    return out


def elems_of_column(m, c):
    t = fresh_bv()
    return mkfor(t, mk("elems", app("column", m, c)), one(t))


def store(v, i, x):
    if index(v, i) is x:
        return v
    if v.op == "store" and v.a[1] is i:
        v = v.a[0]
    if v.op == "store" and v.a[1].op == "int" and i.op == "int" and v.a[1].a[0] > i.a[0]:
        return mk("store", store(v.a[0], i, x), v.a[1], v.a[2])
    if v.op == "array" and i.op == "int" and i.a[0] < len(v.a):
        a = list(v.a)
        a[i.a[0]] = x
        return mk("array", *a)
    return mk("store", v, i, x)


import terms as _t
_t._rebuild["store"] = store


def boolEq(a, b, ty):
    if ty is not None and ty["s"] == "bool":
        if a.op == "int":
            a, b = b, a
        if b.op == "int":
            return a if b.a[0] == 1 else neg(a)
    return eq(a, b)


def cmpterm(a, b, k="o"):
    if a is b:
        return ctor("core::cmp::Ordering", "Equal")
    return app("cmp", a, b, k)


class FnRef(object):
    """a resolved callee; interned so that it can sit inside terms"""
    _tab = {}
    __slots__ = ("d", "crate", "id", "path", "name", "trait", "resolved", "key")

    @staticmethod
    def of(d, crate):
        key = (d.get("id"), d.get("resolved"), str(d.get("targs")), str(d.get("self")), crate)
        r = FnRef._tab.get(key)
        if r is None:
            r = FnRef()
            r.d, r.crate, r.key = d, crate, key
            r.id, r.path, r.name = d.get("id"), d.get("path"), d.get("name")
            r.trait, r.resolved = d.get("trait"), d.get("resolved")
            FnRef._tab[key] = r
        return r

    def types(self, prog):
        return prog.crates[self.crate]["types"]

    def targ(self, prog, i):
        return self.types(prog)[self.d["targs"][i]]

    def selfty(self, prog):
        s = self.d.get("self")
        return self.types(prog)[s] if s is not None else None

    def consts(self, ev):
        return {}

    def __repr__(self):
        return "fn " + str(self.path)

    def __str__(self):
        return "fn " + str(self.path)
