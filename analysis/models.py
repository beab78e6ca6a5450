"""Summaries of the standard-library functions the code is built from.

lookup(ref) -> function(ev, st, ref, args) -> list of leaves, or None when the callee is not known."""
import re
from terms import *

_memo = {}


def norm_path(p):
    out, d, i = [], 0, 0
    while i < len(p):
        if p.startswith("::<", i) and d == 0:
            d = 1
            i += 3
            continue
        c = p[i]
        if d:
            if c == "<":
                d += 1
            elif c == ">" and p[i - 1] != "-":
                d -= 1
        else:
            out.append(c)
        i += 1
    return "".join(out)


TRAIT = {}
FUNC = {}


def tr(*names):
    def w(f):
        for n in names:
            TRAIT[n] = f
        return f
    return w


def fn(*names):
    def w(f):
        for n in names:
            FUNC[n] = f
        return f
    return w


def lookup(ref):
    k = ref.key
    if k in _memo:
        return _memo[k]
    r = None
    if ref.trait:
        r = TRAIT.get(ref.trait.split("::")[-1] + "." + (ref.name or ""))
    elif ref.path:
        p = norm_path(ref.path).split("::")
        r = FUNC.get("::".join(p[-2:])) or FUNC.get("::".join(p[-3:]))
        if r is None and "::impl" not in ref.path:
            m = re.search(r"<impl ([^>]*?)>+::(\w+)$", ref.path)
    _memo[k] = r
    return r


def Lf(st, v):
    from engine import Leaf
    return Leaf("ret", st, v)


def R(st, v):
    return [Lf(st, v)]


def panic(st, why=None):
    from engine import Leaf
    return Leaf("panic", st, why)


ORD = "core::cmp::Ordering"
LESS, EQUAL, GREATER = (mk("ctor", ORD, x) for x in ("Less", "Equal", "Greater"))
UNORDERED = ("HashMap", "HashSet", "BinaryHeap", "BTreeMap", "BTreeSet", "IndexMap")


def strip(types, t):
    while t is not None and (t["k"] in ("ref", "ptr") or (t["k"] == "adt" and t["adt"] in (
            "alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc", "alloc::rcs::rc::Rc", "alloc::rcs::arc::Arc", "alloc::borrow::Cow"))):
        if t["adt" if False else "k"] == "adt" and not t["args"]:
            break
        t = types[t["args"][-1 if t["k"] == "adt" and t["adt"] == "alloc::borrow::Cow" else 0]]
    return t


def selfty(ev, ref):
    t = ref.selfty(ev.prog)
    return strip(ref.types(ev.prog), t)


def intkind(t):
    if t is not None and t["k"] == "prim":
        if t["s"][0] == "u" or t["s"] in ("char",):
            return "i"
        if t["s"][0] == "i":
            return "s"
        if t["s"][0] == "f":
            return "f"
        if t["s"] == "bool":
            return "b"
    return "o"


def adtname(t):
    return t["adt"].split("::")[-1] if t is not None and t["k"] == "adt" else None


# ------------------------------------------------------------------ options
def split(ev, st, o, res=False):
    """-> [(state, payload or None)] for an Option (or Ok/Err for a Result: payload, or ('err', e))"""
    o = ev.deref(st, o)
    if o.op == "ctor":
        if o.a[1] in ("Some", "Ok", "Continue"):
            return [(st, o.a[2])]
        if o.a[1] == "None":
            return [(st, None)]
        return [(st, ("err", o.a[2] if len(o.a) > 2 else UNIT))]
    if o.op == "ite":
        out = []
        for v, arm in ((o.a[1], o.a[2]), (("no", o.a[1]), o.a[3])):
            s2 = st.assume(o.a[0], v)
            if s2 is not None:
                out += split(ev, s2, arm, res)
        return out
    d = discr(o, 2)
    out = []
    if res:
        s1 = st.assume(d, 0)
        if s1 is not None:
            out.append((s1, field(o, "Ok", 0)))
        s2 = st.assume(d, 1) if is_boolcond(d) or d.op == "not" else st.assume(d, ("no", 0))
        if s2 is not None:
            out.append((s2, ("err", field(o, "Err", 0))))
        return out
    s1 = st.assume(d, 1)
    if s1 is not None:
        out.append((s1, field(o, "Some", 0)))
    s2 = st.assume(d, 0)
    if s2 is not None:
        out.append((s2, None))
    return out


def isres(ev, ref, o=None):
    return "Result" in norm_path(ref.path).split("::")


def reopt(ev, st, o):
    return o


def bool_cases(ev, st, c):
    c = ev.deref(st, c)
    if c.op == "int":
        return [(st, c.a[0] == 1)]
    out = []
    s = st.assume(c, 1)
    if s is not None:
        out.append((s, True))
    s = st.assume(c, 0)
    if s is not None:
        out.append((s, False))
    return out


def call(ev, st, f, *args):
    return ev.call_value(st, f, list(args))


def pure_call(ev, st, f, *args):
    """a call of a closure whose result is used as a function of its arguments"""
    ls = call(ev, st.copy(), f, *args)
    if effects(ev, st, ls):
        from engine import Undecided
        raise Undecided("a closure that changes state where a function is expected")
    return ls


def mapret(leaves, g):
    out = []
    for l in leaves:
        if l.kind == "ret":
            l2 = Lf(l.st, g(l.val))
            l2.at = l.at
            out.append(l2)
        else:
            out.append(l)
    return out


def opt_map(wrap):
    def m(ev, st, ref, args):
        out = []
        for s, p in split(ev, st, args[0], isres(ev, ref)):
            if p is None:
                out.append(Lf(s, NONE))
            elif isinstance(p, tuple):
                out.append(Lf(s, mk("ctor", RES, "Err", p[1])))
            else:
                w = (lambda v: v) if not wrap else (some if not isres(ev, ref) else (lambda v: mk("ctor", RES, "Ok", v)))
                out += mapret(call(ev, s, args[1], p), w)
        return out
    return m


FUNC["Option::map"] = opt_map(True)
FUNC["Option::and_then"] = opt_map(False)
FUNC["Result::map"] = opt_map(True)
FUNC["Result::and_then"] = opt_map(False)


@fn("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked")
def _unwrap(ev, st, ref, args):
    out = []
    for s, p in split(ev, st, args[0], isres(ev, ref)):
        if p is None or isinstance(p, tuple):
            l = panic(s)
            out.append(l)
        else:
            out.append(Lf(s, p))
    return out


@fn("Option::unwrap_or", "Result::unwrap_or")
def _unwrap_or(ev, st, ref, args):
    return [Lf(s, args[1] if p is None or isinstance(p, tuple) else p)
            for s, p in split(ev, st, args[0], isres(ev, ref))]


@fn("Option::unwrap_or_else", "Result::unwrap_or_else", "Option::unwrap_or_default", "Result::unwrap_or_default")
def _unwrap_or_else(ev, st, ref, args):
    out = []
    for s, p in split(ev, st, args[0], isres(ev, ref)):
        if p is None or isinstance(p, tuple):
            if len(args) > 1:
                out += call(ev, s, args[1], *([] if p is None else [p[1]]))
            else:
                out.append(Lf(s, app("default")))
        else:
            out.append(Lf(s, p))
    return out


@fn("Option::map_or", "Result::map_or")
def _map_or(ev, st, ref, args):
    out = []
    for s, p in split(ev, st, args[0], isres(ev, ref)):
        if p is None or isinstance(p, tuple):
            out.append(Lf(s, args[1]))
        else:
            out += call(ev, s, args[2], p)
    return out


@fn("Option::map_or_else", "Result::map_or_else")
def _map_or_else(ev, st, ref, args):
    out = []
    for s, p in split(ev, st, args[0], isres(ev, ref)):
        if p is None:
            out += call(ev, s, args[1])
        elif isinstance(p, tuple):
            out += call(ev, s, args[1], p[1])
        else:
            out += call(ev, s, args[2], p)
    return out


@fn("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def _is_some(ev, st, ref, args):
    o = ev.deref(st, args[0])
    n = ref.name
    if o.op == "ite":
        return [Lf(s, TRUE if (p is not None) == (n == "is_some") else FALSE) for s, p in split(ev, st, o)]
    d = discr(o, 2)
    return R(st, d if n in ("is_some", "is_err") else neg(d))


@fn("Option::is_some_and", "Option::is_none_or", "Result::is_ok_and")
def _is_some_and(ev, st, ref, args):
    out = []
    for s, p in split(ev, st, args[0], isres(ev, ref)):
        if p is None or isinstance(p, tuple):
            out.append(Lf(s, TRUE if ref.name == "is_none_or" else FALSE))
        else:
            out += call(ev, s, args[1], p)
    return out


@fn("Option::filter")
def _ofilter(ev, st, ref, args):
    out = []
    for s, p in split(ev, st, args[0]):
        if p is None:
            out.append(Lf(s, NONE))
            continue
        for l in call(ev, s, args[1], p):
            if l.kind != "ret":
                out.append(l)
                continue
            for s2, b in bool_cases(ev, l.st, l.val):
                out.append(Lf(s2, some(p) if b else NONE))
    return out


@fn("Option::or", "Option::or_else")
def _or(ev, st, ref, args):
    out = []
    for s, p in split(ev, st, args[0]):
        if p is not None:
            out.append(Lf(s, some(p)))
        elif ref.name == "or":
            out.append(Lf(s, args[1]))
        else:
            out += call(ev, s, args[1])
    return out


@fn("Option::and")
def _and(ev, st, ref, args):
    return [Lf(s, NONE if p is None else args[1]) for s, p in split(ev, st, args[0])]


@fn("Option::zip")
def _ozip(ev, st, ref, args):
    out = []
    for s, p in split(ev, st, args[0]):
        if p is None:
            out.append(Lf(s, NONE))
            continue
        for s2, q in split(ev, s, args[1]):
            out.append(Lf(s2, NONE if q is None else some(tup(p, q))))
    return out


@fn("Option::ok_or", "Option::ok_or_else")
def _okor(ev, st, ref, args):
    out = []
    for s, p in split(ev, st, args[0]):
        if p is not None:
            out.append(Lf(s, mk("ctor", RES, "Ok", p)))
        elif ref.name == "ok_or":
            out.append(Lf(s, mk("ctor", RES, "Err", args[1])))
        else:
            out += mapret(call(ev, s, args[1]), lambda v: mk("ctor", RES, "Err", v))
    return out


@fn("Result::ok", "Result::err")
def _ok(ev, st, ref, args):
    out = []
    for s, p in split(ev, st, args[0], True):
        good = not isinstance(p, tuple)
        if ref.name == "ok":
            out.append(Lf(s, some(p) if good else NONE))
        else:
            out.append(Lf(s, NONE if good else some(p[1])))
    return out


@fn("Result::map_err", "Result::or_else")
def _map_err(ev, st, ref, args):
    out = []
    for s, p in split(ev, st, args[0], True):
        out.append(Lf(s, mk("ctor", RES, "Ok", p) if not isinstance(p, tuple) else mk("ctor", RES, "Err", unk("err"))))
    return out


@fn("Option::flatten")
def _oflat(ev, st, ref, args):
    return [Lf(s, NONE if p is None else p) for s, p in split(ev, st, args[0])]


@fn("Option::take", "mem::take", "Option::replace", "mem::replace", "Option::insert", "mem::swap")
def _take(ev, st, ref, args):
    p = args[0]
    v = ev.deref(st, p)
    n = ref.name
    if p.op != "ptr":
        return None
    if n == "swap":
        q = args[1]
        w = ev.deref(st, q)
        ev.writecell(st, p.a[0], p.a[1], w)
        if q.op == "ptr":
            ev.writecell(st, q.a[0], q.a[1], v)
        return R(st, UNIT)
    if n == "take":
        new = NONE if "Option" in ref.path else empty_for(ev, ref.targ(ev.prog, 0) if ref.d["targs"] else None)
        if new is None:
            new = emptylike(v)
    elif n == "replace":
        new = args[1] if "mem" in ref.path else some(args[1])
    else:
        new = some(args[1])
    ev.writecell(st, p.a[0], p.a[1], new)
    return R(st, v)


def emptylike(v):
    if v.op in ("vec", "append"):
        return vec(EMPTY)
    return app("default")


IDENT = ["Option::as_ref", "Option::as_deref", "Option::copied", "Option::cloned", "Result::as_ref", "Vec::as_slice", "Vec::as_mut_slice", "slice::to_vec",
         "Box::new", "Rc::new", "Arc::new", "Cow::into_owned",
         "Cow::to_mut", "String::as_str", "black_box", "hint::black_box",
         "ManuallyDrop::new", "Wrapping::new", "RefCell::into_inner",
         "RefCell::new", "Cell::new", "Cell::into_inner", "RefCell::get_mut", "Ref::clone",
         "Rc::clone", "Rc::as_ref", "convert::identity", "Iterator::by_ref", "Box::pin", "Pin::new",
         "vec::into_iter", "borrow::to_owned", "Vec::leak", "Vec::into_vec", "cell::UnsafeCell::new"]


@fn("Option::as_mut", "Option::as_deref_mut")
def _as_mut(ev, st, ref, args):
    """a reference to the payload, where it lives"""
    p = args[0]
    if p.op != "ptr":
        return R(st, p)
    while True:
        w = ev.readcell(st, p.a[0], p.a[1])
        if w.op != "ptr":
            break
        p = w
    out = []
    for s, x in split(ev, st, w):
        out.append(Lf(s, NONE if x is None else some(x if x.op == "ptr" else mk("ptr", p.a[0], p.a[1] + (("f", "Some", 0),)))))
    return out


@fn(*IDENT)
def _ident(ev, st, ref, args):
    return R(st, args[0])


@tr("Clone.clone", "Borrow.borrow", "BorrowMut.borrow_mut", "AsRef.as_ref", "ToOwned.to_owned", "AsMut.as_mut",
    "Clone.clone_from", "Iterator.by_ref")
def _clone(ev, st, ref, args):
    if ref.name == "clone_from":
        if args[0].op == "ptr":
            ev.writecell(st, args[0].a[0], args[0].a[1], ev.deref(st, args[1]))
        return R(st, UNIT)
    if ref.name in ("borrow_mut", "as_mut", "by_ref"):
        return R(st, args[0])
    v = ev.deref(st, args[0])
    o = ev._ctor_impl(st, ref, args)
    if o is not None and not ev.prog.impl_of_item(o).get("derived") and o in ev.prog.bodies:
        return ev.call_body(o, args, st)
    return R(st, v)


@tr("Deref.deref", "DerefMut.deref_mut")
def _deref(ev, st, ref, args):
    v = ev.deref(st, args[0])
    if v.op == "ctor" and v.a[0] in ev.prog.adts:
        o = ev._ctor_impl(st, ref, args)
        if o is not None:
            return ev.call_body(o, args, st)
    if is_ctor(v, PEEKT):
        if ref.name == "deref_mut":
            return None
        return R(st, field(app("hpop", ev.deref(st, v.a[2])), "Some", 0))
    if ref.name == "deref_mut":
        return R(st, args[0])
    if ev.mark and v.op not in ("int", "flt") and adtname(selfty(ev, ref)) == "NotNan":
        return R(st, app("nn.get", v))
    return R(st, v)


@fn("RefCell::borrow", "Cell::get", "RwLock::read")
def _rborrow(ev, st, ref, args):
    return R(st, ev.deref(st, args[0]))


@fn("RefCell::borrow_mut")
def _rborrowm(ev, st, ref, args):
    return R(st, args[0])


@fn("Cell::set", "RefCell::replace", "Cell::replace")
def _cellset(ev, st, ref, args):
    old = ev.deref(st, args[0])
    if args[0].op == "ptr":
        ev.writecell(st, args[0].a[0], args[0].a[1], args[1])
        return R(st, UNIT if ref.name == "set" else old)
    return None


@tr("Try.branch")
def _branch(ev, st, ref, args):
    t = selfty(ev, ref)
    res = adtname(t) == "Result"
    out = []
    for s, p in split(ev, st, args[0], res):
        if p is None:
            out.append(Lf(s, mk("ctor", CF, "Break", NONE)))
        elif isinstance(p, tuple):
            out.append(Lf(s, mk("ctor", CF, "Break", mk("ctor", RES, "Err", p[1]))))
        else:
            out.append(Lf(s, mk("ctor", CF, "Continue", p)))
    return out


@tr("FromResidual.from_residual", "Try.from_output")
def _resid(ev, st, ref, args):
    if ref.name == "from_output":
        t = selfty(ev, ref)
        return R(st, mk("ctor", RES, "Ok", args[0]) if adtname(t) == "Result" else some(args[0]))
    return R(st, args[0])


@fn("bool::then", "bool::then_some")
def _then(ev, st, ref, args):
    out = []
    for s, b in bool_cases(ev, st, args[0]):
        if not b:
            out.append(Lf(s, NONE))
        elif ref.name == "then":
            out += mapret(call(ev, s, args[1]), some)
        else:
            out.append(Lf(s, some(args[1])))
    return out


# ------------------------------------------------------------------ numbers
@fn("num::checked_add", "num::checked_sub", "num::checked_mul", "num::checked_pow", "NonZero::checked_add",
    "NonZero::checked_mul", "NonZero::checked_pow", "num::checked_next_power_of_two")
def _checked(ev, st, ref, args):
    a, b = ev.deref(st, args[0]), ev.deref(st, args[1])
    n = ref.name
    v = padd(a, b) if n == "checked_add" else psub(a, b) if n == "checked_sub" else pmul(a, b) if n == "checked_mul" \
        else pow_(a, b)
    if n == "checked_sub" and "impl u" in ref.path:
        return R(st, ite(lt(a, b, "i"), 0, some(v), NONE))
    m = re.search(r"impl (\w+)>", ref.path) or re.search(r"NonZero::<(\w+)>", ref.path)
    w = m.group(1) if m else "?"
    if v.op == "int" and 0 <= v.a[0] < 128:
        return R(st, some(v))
    return R(st, mk("chk", v, w))


@fn("num::pow", "num::wrapping_add", "num::wrapping_sub", "num::wrapping_mul", "num::saturating_add",
    "num::saturating_mul", "num::saturating_sub", "num::wrapping_pow", "num::saturating_pow", "num::abs_diff",
    "num::overflowing_add", "num::unchecked_add", "num::unchecked_sub", "num::unchecked_mul", "num::strict_add",
    "num::strict_mul")
def _arith(ev, st, ref, args):
    a, b = ev.deref(st, args[0]), ev.deref(st, args[1])
    n = ref.name
    if n.startswith("saturating_sub"):
        return R(st, ite(lt(a, b, "i"), 1, I(0), psub(a, b)))
    if n in ("saturating_add", "saturating_mul"):
        m = re.search(r"impl ([ui](?:8|16|32|64|size))\b", ref.path)
        if m:
            return R(st, app("clamp", mk("str", m[1]), padd(a, b) if n.endswith("add") else pmul(a, b)))
    if n.startswith("saturating"):
        return R(st, app(n, a, b))
    if n.startswith("wrapping") and n[9:] in ("add", "sub", "mul"):
        m = re.search(r"impl (u8|u16|u32|u64|usize)\b", ref.path)
        v = padd(a, b) if n.endswith("add") else psub(a, b) if n.endswith("sub") else pmul(a, b)
        if m:
            return R(st, app("trunc", mk("str", m[1]), v))
        return R(st, app(n, a, b))
    if n.startswith("wrapping") or n.startswith("overflowing"):
        return R(st, app(n, a, b))
    if n == "abs_diff":
        return R(st, ite(lt(a, b, "i"), 1, psub(b, a), psub(a, b)))
    if n.endswith("pow"):
        m = re.search(r"impl ([ui](?:8|16|32|64|size))\b", ref.path)
        v = pow_(a, b)
        if m and v.op != "int":
            ev.arith.append((tuple(st.facts.lits), v, m[1], ref.path))
        return R(st, v)
    return R(st, padd(a, b) if n.endswith("add") else psub(a, b) if n.endswith("sub") else pmul(a, b))


@fn("num::rem_euclid", "num::div_euclid", "num::div_ceil", "num::checked_rem", "num::checked_div",
    "num::checked_rem_euclid", "num::checked_div_euclid")
def _rem(ev, st, ref, args):
    a, b = ev.deref(st, args[0]), ev.deref(st, args[1])
    u = "impl u" in ref.path
    k = "rem" if "rem" in ref.name else "div"
    if ref.name == "div_ceil":
        v = app("divceil", a, b)
    else:
        v = rebuild("app", (k if u or "euclid" not in ref.name else k + "_e", a, b))
    if ref.name.startswith("checked"):
        return R(st, ite(eq(b, I(0)), 1, NONE, some(v)))
    return R(st, v)


@fn("num::unsigned_abs", "num::abs")
def _uabs(ev, st, ref, args):
    a = ev.deref(st, args[0])
    return R(st, app("uabs", a))


@fn("num::signum")
def _signum(ev, st, ref, args):
    return R(st, app("signum", ev.deref(st, args[0])))


@fn("num::is_power_of_two", "num::count_ones", "num::trailing_zeros", "num::trailing_ones", "num::leading_zeros", "num::next_power_of_two")
def _misc1(ev, st, ref, args):
    m = re.search(r"<impl ([iu]\w+)>", str(ref.path))
    if not m or m.group(1) not in INTS:
        return R(st, app(ref.name, ev.deref(st, args[0])))
    w = (INTS[m.group(1)][1] - INTS[m.group(1)][0] + 1).bit_length() - 1
    t = app("bits:" + ref.name, ev.deref(st, args[0]), I(w))
    return R(st, neg(eq(t, I(0))) if ref.name == "is_power_of_two" else t)


@fn("num::is_multiple_of")
def _ismult(ev, st, ref, args):
    return R(st, eq(rebuild("app", ("rem", ev.deref(st, args[0]), ev.deref(st, args[1]))), I(0)))


@tr("Integer.gcd", "Integer.lcm", "Integer.is_even", "Integer.is_odd", "Integer.div_rem", "Integer.mod_floor",
    "Integer.div_floor")
def _integer(ev, st, ref, args):
    v = [ev.deref(st, a) for a in args]
    if ref.name in ("is_even", "is_odd"):
        r = eq(app("rem", v[0], I(2)), I(0))
        return R(st, r if ref.name == "is_even" else neg(r))
    if ref.name in ("gcd", "lcm"):
        v.sort(key=lambda t: t.id)
    return R(st, app(ref.name, *v))


@fn("NotNan::new")
def _nnnew(ev, st, ref, args):
    v = ev.deref(st, args[0])
    if v.op == "flt" and v.a[1] != "NaN":
        return R(st, mk("ctor", RES, "Ok", v))
    out = []
    c = app("bool", "isnan", v)
    s = st.assume(c, 0)
    if s is not None:
        out.append(Lf(s, mk("ctor", RES, "Ok", v)))
    s = st.assume(c, 1)
    if s is not None:
        out.append(Lf(s, mk("ctor", RES, "Err", unk("FloatIsNan"))))
    return out


@fn("NonZero::new")
def _nznew(ev, st, ref, args):
    v = ev.deref(st, args[0])
    if v.op == "int":
        return R(st, some(v) if v.a[0] else NONE)
    return R(st, mk("nz", v))


@fn("NonZero::new_unchecked", "NotNan::new_unchecked")
def _nzu(ev, st, ref, args):
    v = ev.deref(st, args[0])
    if ev.mark and v.op not in ("int", "flt"):
        return R(st, app("unchecked", mk("str", "non-zero" if "NonZero" in ref.d["path"] else "not NaN"), v))
    return R(st, args[0])


@fn("NonZero::get", "NotNan::into_inner")
def _nzget(ev, st, ref, args):
    v = ev.deref(st, args[0])
    if ev.mark and v.op not in ("int", "flt"):
        return R(st, app("nz.get" if "NonZero" in ref.d["path"] else "nn.get", v))
    return R(st, args[0])


BITS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "usize": (0, 2 ** 64 - 1)}


@tr("TryFrom.try_from", "TryInto.try_into")
def _tryfrom(ev, st, ref, args):
    to = ref.targ(ev.prog, 0 if ref.name == "try_from" else 1)
    v = ev.deref(st, args[0])
    c = app("fits", v, mk("str", to["s"]))
    out = []
    s = st.assume(c, 1)
    if s is not None:
        out.append(Lf(s, mk("ctor", RES, "Ok", v)))
    s = st.assume(c, 0)
    if s is not None:
        out.append(Lf(s, mk("ctor", RES, "Err", unk("TryFromIntError"))))
    return out


@tr("Into.into", "From.from")
def _into(ev, st, ref, args):
    if ref.name == "into":
        frm, to = ref.targ(ev.prog, 0), ref.targ(ev.prog, 1)
    else:
        to, frm = ref.targ(ev.prog, 0), ref.targ(ev.prog, 1)
    types = ref.types(ev.prog)
    # a local From implementation whose heads match
    cands = []
    for im in ev.prog.impls_of("core::convert::From"):
        it = im["types"][im["self"]]
        src = im["types"][im["targs"][-1]]
        if _head(it) == _head(to) and _headm(im["types"], src, types, frm):
            cands.append(im["items"].get("from"))
    if len(cands) == 1 and cands[0] in ev.prog.bodies:
        return ev.call_body(cands[0], args, st)
    v = ev.deref(st, args[0])
    if adtname(to) == "Option" and adtname(frm) != "Option":
        return R(st, some(v))
    if cands:
        return None
    return R(st, v)


def _head(t):
    return (t["k"], t.get("adt") or (len(t.get("args", [])) if t["k"] == "tuple" else t["s"] if t["k"] == "prim" else ""))


def _headm(ta, a, tb, b):
    if a["k"] in ("param", "alias") or b["k"] in ("param", "alias"):
        return True
    if _head(a) != _head(b):
        return False
    if a["k"] == "ref":
        return _headm(ta, ta[a["args"][0]], tb, tb[b["args"][0]])
    return True


@tr("NonZeroCoefficient.one", "NonZeroCoefficient.additive_inverse", "Invertible.mult_inverse")
def _cf(ev, st, ref, args):
    t = selfty(ev, ref)
    if t is not None and t["k"] == "adt" and not ev.abstract_field:
        return None
    if ref.name == "one":
        return R(st, I(1))
    v = ev.deref(st, args[0])
    if v.op == "ctor":
        return None
    if ref.name == "additive_inverse":
        return R(st, pneg(v))
    return R(st, app("inv", v))


@tr("Add.add", "Mul.mul", "Sub.sub", "Neg.neg", "Div.div", "Rem.rem", "AddAssign.add_assign", "SubAssign.sub_assign",
    "MulAssign.mul_assign", "Not.not", "BitAnd.bitand", "BitOr.bitor", "BitXor.bitxor", "Shl.shl", "Shr.shr",
    "DivAssign.div_assign", "RemAssign.rem_assign")
def _ops(ev, st, ref, args):
    t = selfty(ev, ref)
    n = ref.name
    a = ev.deref(st, args[0])
    b = ev.deref(st, args[1]) if len(args) > 1 else None
    if n.endswith("_assign"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}[n.split("_")[0]]
        if args[0].op == "ptr" and (t is None or t["k"] == "prim"):
            ev.writecell(st, args[0].a[0], args[0].a[1], ev.binop(op, a, b, t))
            return R(st, UNIT)
        return None
    if t is not None and t["k"] == "prim":
        if n == "neg":
            return R(st, pneg(a))
        if n == "not":
            return R(st, complement(a, t))
        op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd",
              "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}[n]
        return R(st, ev.binop(op, a, b, t))
    if adtname(t) == "NotNan":
        if n in ("add", "sub", "mul"):
            return R(st, app("f" + n, a, b))
        return None
    if n == "mul":
        if a.op == "ctor":
            return None
        return R(st, pmul(a, b))
    if n == "add":
        if a.op == "ctor":
            return None
        rt = ref.targ(ev.prog, 1) if len(ref.d["targs"]) > 1 else None
        if adtname(strip(ref.types(ev.prog), rt)) == "Option" or b.op in ("nz", "chk") or is_ctor(b, OPT):
            return [Lf(s, some(a) if p is None else mk_nz(padd(a, p))) for s, p in split(ev, st, b)]
        return R(st, mk_nz(padd(a, b)))
    return None


def mk_nz(p):
    if p.op == "int":
        if p.a[0] == 0:
            return NONE
        if p.a[0] == 1:
            return some(p)
    return mk("nz", p)


import terms as _t
_t._rebuild["nz"] = mk_nz


# ------------------------------------------------------------------ comparison
def lexcmp(ev, st, a, b, t, types):
    """-> [(state, 'Less'|'Equal'|'Greater')]"""
    a, b = ev.deref(st, a), ev.deref(st, b)
    if a is b:
        return [(st, EQUAL)]
    t = strip(types, t) if t is not None else None
    if a.op == "ctor" and b.op == "ctor" and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
        if a.a[0] == "core::cmp::Reverse":
            r = lexcmp(ev, st, b.a[2], a.a[2], None, types)
            return r
        fs = list(zip(a.a[2:], b.a[2:]))
        if a.a[0] == "tuple":
            sub = [types[x] for x in t["args"]] if t is not None and t["k"] == "tuple" else [None] * len(fs)
        else:
            ad = ev.prog.adts.get(a.a[0])
            sub = [None] * len(fs)
            if ad:
                v = [v for v in ad["variants"] if v["name"] == a.a[1]][0]
                sub = [ad["types"][f["ty"]] for f in v["fields"]]
        out, todo = [], [st]
        for (x, y), ty in zip(fs, sub):
            nxt = []
            for s in todo:
                for s2, o in lexcmp(ev, s, x, y, ty, types):
                    if o is EQUAL:
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            todo = nxt
        return out + [(s, EQUAL) for s in todo]
    k = intkind(t)
    if k in "fb":
        k = "o"
    out = []
    for c, o in ((lt(a, b, k), LESS), (lt(b, a, k), GREATER), (eq(a, b), EQUAL)):
        s = st.assume(c, 1)
        if s is not None:
            out.append((s, o))
    return out


def _derived_or_std(ev, ref, st, args):
    """a hand-written local implementation must be evaluated instead of the structural one"""
    o = ev._ctor_impl(st, ref, args)
    if o is not None and o in ev.prog.bodies and not ev.prog.impl_of_item(o).get("derived"):
        return o
    return None


def handwritten(ev, ref, name=None):
    """the hand-written implementation of a comparison of a local type, found by the type of what is compared"""
    t = selfty(ev, ref)
    if t is None or t["k"] != "adt" or not ref.trait or t["adt"] not in ev.prog.adts:
        return None
    im = [i for i in ev.prog.impls_of(ref.trait) if ev.prog.self_adt(i) == t["adt"] and ev.prog.self_ty(i)["k"] == "adt"]
    if len(im) != 1 or im[0].get("derived"):
        return None
    b = im[0]["items"].get(name or ref.name)
    return b if b in ev.prog.bodies else None


@tr("Ord.cmp", "PartialOrd.partial_cmp", "PartialOrd.lt", "PartialOrd.le", "PartialOrd.gt", "PartialOrd.ge")
def _cmp(ev, st, ref, args):
    n = ref.name
    t = selfty(ev, ref)
    o = _derived_or_std(ev, ref, st, args)
    if o is not None:
        return ev.call_body(o, args, st)
    types = ref.types(ev.prog)
    a, b = ev.deref(st, args[0]), ev.deref(st, args[1])
    o = handwritten(ev, ref) if a.op != "ctor" else None
    if o is not None:
        return ev.call_body(o, [a, b], st)
    if n in ("lt", "le", "gt", "ge") and a.op != "ctor":
        o = handwritten(ev, ref, "partial_cmp")
        if o is not None:
            out = []
            for l in ev.call_body(o, [a, b], st):
                if l.kind != "ret":
                    out.append(l)
                    continue
                out += [Lf(s, _ordtest(n, p) if p is not None else FALSE) for s, p in split(ev, l.st, l.val)]
            return out
    if str((t or {}).get("adt")) == "log::Level" and n in ("lt", "le"):
        return R(st, FALSE)                # logging is off; it has no effect on results
    if n in ("lt", "le", "gt", "ge"):
        comp = a.op == "ctor" and b.op == "ctor" and len(a.a) > 2
        if not comp:
            k = intkind(t)
            if k == "f":
                return R(st, app("flt", a, b) if n == "lt" else app("fle", a, b) if n == "le" else app("flt", b, a)
                         if n == "gt" else app("fle", b, a))
            x = lt(a, b, k) if n in ("lt", "ge") else lt(b, a, k)
            return R(st, x if n in ("lt", "gt") else neg(x))
        if ref.trait and ev.prog.impls_of("core::cmp::Ord"):
            im = [i for i in ev.prog.impls_of("core::cmp::Ord") if ev.prog.self_adt(i) == a.a[0] and not i.get("derived")]
            if im and "cmp" in im[0]["items"]:
                out = []
                for l in ev.call_body(im[0]["items"]["cmp"], args, st):
                    out.append(Lf(l.st, _ordtest(n, l.val)) if l.kind == "ret" else l)
                return out
        return [Lf(s, _ordtest(n, o)) for s, o in lexcmp(ev, st, a, b, t, types)]
    w = (lambda x: x) if n == "cmp" else some
    return [Lf(s, w(o)) for s, o in lexcmp(ev, st, a, b, t, types)]


def _ordtest(n, o):
    if o.op != "ctor":
        return unk("ordtest", o)
    v = {"lt": o is LESS, "le": o is not GREATER, "gt": o is GREATER, "ge": o is not LESS}[n]
    return TRUE if v else FALSE


@tr("PartialEq.eq", "PartialEq.ne")
def _eq(ev, st, ref, args):
    n = ref.name
    a, b = ev.deref(st, args[0]), ev.deref(st, args[1])
    t = selfty(ev, ref)
    o = ev._ctor_impl(st, ref, args)
    if o is None and a.op == "ctor" and n == "ne":
        im = [i for i in ev.prog.impls_of("core::cmp::PartialEq") if ev.prog.self_adt(i) == a.a[0]]
        if len(im) == 1 and not im[0].get("derived"):
            o = im[0]["items"].get("eq")
            return mapret(ev.call_body(o, args, st), neg)
    if o is not None and not ev.prog.impl_of_item(o).get("derived"):
        return ev.call_body(o, args, st)
    if o is None and a.op != "ctor":
        o = handwritten(ev, ref)
        if o is not None:
            return ev.call_body(o, [a, b], st)
        o = handwritten(ev, ref, "eq") if n == "ne" else None
        if o is not None:
            return mapret(ev.call_body(o, [a, b], st), neg)
    w = neg if n == "ne" else (lambda x: x)
    if a.op == "ctor" and a.a[0] == ORD and b.op != "ctor":
        a, b = b, a
    if intkind(t) == "f":
        return R(st, w(app("feq", *sorted((a, b), key=lambda x: x.id))))
    if intkind(t) == "b":
        from engine import boolEq
        return R(st, w(boolEq(a, b, t)))
    if adtname(t) == "Option" and (a.op == "ctor") != (b.op == "ctor"):
        if a.op == "ctor":
            a, b = b, a
        if b.a[1] == "None":
            return R(st, w(neg(discr(a, 2))))
        out = []
        for s, p in split(ev, st, a):
            out.append(Lf(s, w(FALSE if p is None else eq(p, b.a[2]))))
        return out
    return [Lf(s, w(v)) for s, v in eqsplit(st, a, b)]


def eqsplit(st, a, b):
    if a.op == "ctor" and b.op == "ctor" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
        fs = [(x, y) for x, y in zip(a.a[2:], b.a[2:]) if x is not y]
        if len(fs) == 0:
            return [(st, TRUE)]
        if len(fs) == 1:
            return eqsplit(st, *fs[0])
        out, cur = [], [st]
        for x, y in fs:
            nxt = []
            for s in cur:
                for s2, v in eqsplit(s, x, y):
                    s3 = s2.assume(v, 1)
                    if s3 is not None:
                        nxt.append(s3)
                    s4 = s2.assume(v, 0)
                    if s4 is not None:
                        out.append((s4, FALSE))
            cur = nxt
        return out + [(s, TRUE) for s in cur]
    return [(st, eq(a, b))]


@tr("Ord.max", "Ord.min", "Ord.clamp")
def _max(ev, st, ref, args):
    a, b = ev.deref(st, args[0]), ev.deref(st, args[1])
    if ref.name == "clamp":
        return R(st, MIN2(MAX2(a, b), ev.deref(st, args[2])))
    return R(st, MAX2(a, b) if ref.name == "max" else MIN2(a, b))


@fn("cmp::max", "cmp::min", "f64::max", "f64::min")
def _max2(ev, st, ref, args):
    a, b = ev.deref(st, args[0]), ev.deref(st, args[1])
    return R(st, MAX2(a, b) if ref.name == "max" else MIN2(a, b))


@fn(*["%s::%s" % (t, n) for t in ("f64", "num") for n in ("is_finite", "is_infinite", "is_nan", "is_normal", "is_subnormal")])
def _fpred(ev, st, ref, args):
    return R(st, app("fpred", mk("str", ref.name), ev.deref(st, args[0])))


@fn("Ordering::reverse")
def _ordrev(ev, st, ref, args):
    o = args[0]
    if o.op == "ctor":
        return R(st, {LESS: GREATER, GREATER: LESS, EQUAL: EQUAL}[o])
    return None


@fn("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def _ordis(ev, st, ref, args):
    o = args[0]
    n = ref.name[3:]
    if o.op != "ctor":
        return None
    if n in ("eq", "ne"):
        return R(st, TRUE if (o is EQUAL) == (n == "eq") else FALSE)
    return R(st, _ordtest(n, o))


@fn("Ordering::then", "Ordering::then_with")
def _ordthen(ev, st, ref, args):
    o = args[0]
    if o.op != "ctor":
        return None
    if o is not EQUAL:
        return R(st, o)
    if ref.name == "then":
        return R(st, args[1])
    return call(ev, st, args[1])


# ------------------------------------------------------------------ streams
RANGE = "core::ops::range::Range"
RANGEI = "core::ops::range::RangeInclusive"


@fn("RangeInclusive::new")
def _rinew(ev, st, ref, args):
    return R(st, mk("ctor", RANGEI, "RangeInclusive", args[0], args[1]))


@fn("RangeInclusive::start", "RangeInclusive::end")
def _ristart(ev, st, ref, args):
    return R(st, ev.deref(st, args[0]).a[2 if ref.name == "start" else 3])


def stream(ev, st, v, t=None, types=None):
    """the stream of items of an iterator / iterable value"""
    p = v
    v = ev.deref(st, v)
    if v.op == "stream":
        return v.a[0]
    if v.op == "ctor":
        a = v.a[0]
        if a == RANGE:
            return rng(v.a[2], v.a[3])
        if a == RANGEI:
            return rng(v.a[2], padd(v.a[3], I(1)))
        if a == OPT:
            return one(v.a[2]) if v.a[1] == "Some" else EMPTY
        if a in ev.prog.adts:
            # local types: a collection implementing IntoIterator, or a local iterator
            for im in ev.prog.impls_of("core::iter::traits::iterator::Iterator"):
                if ev.prog.self_adt(im) == a and "next" in im["items"]:
                    import loops
                    return loops.unfold_iter(ev, st, p, v, im["items"]["next"])
            for im in ev.prog.impls_of("core::iter::traits::collect::IntoIterator"):
                if ev.prog.self_adt(im) == a and "into_iter" in im["items"]:
                    ls = ev.call_body(im["items"]["into_iter"], [p], st)
                    if len(ls) == 1 and ls[0].kind == "ret":
                        return stream(ev, ls[0].st, ls[0].val)
    if v.op in ("vec", "append", "array", "store"):
        return viter(v)
    if v.op == "app" and v.a[0] == "sorted":
        return viter(v)
    if v.op == "acc" and v.a[1].op == "app" and v.a[1].a[0] == "emptycoll" and v.a[0] == "bh":
        return v.a[2]
    if v.op in ("nz", "chk"):
        return case([((lit(discr(v), 1),), one(v.a[0]))])
    n = None
    if t is not None:
        t = strip(types, t)
        n = adtname(t)
        if n == "Vec" or t["k"] in ("slice", "array"):
            return viter(v)
        if n == "Option":
            return case([((lit(discr(v, 2), 1),), one(field(v, "Some", 0)))])
        if n == "IntoIter" and "option" in t["adt"]:
            return case([((lit(discr(v, 2), 1),), one(field(v, "Some", 0)))])
        if n == "Range":
            return rng(field(v, "Range", 0), field(v, "Range", 1))
        if n in ("BTreeMap", "BTreeSet"):
            return viter(app("sorted", vec(_elems(v))))
        if n in ("HashMap", "HashSet") and hashed(types, t, v):
            return _elems(app("hashed", v))
    return _elems(v)


HASHED = False      # mark iterations of unknown hash containers ("random": of all with random hashers), to vary their order (C24)


def randomly(types, t):
    """a hash container whose order is different every time"""
    t = strip(types, t)
    return adtname(t) in ("HashMap", "HashSet") and any("RandomState" in types[a]["s"] for a in t.get("args") or [] if isinstance(a, int))


def hashed(types, t, v):
    if not HASHED or v is EMPTYMAP or v is EMPTYSET:
        return False
    if HASHED == "random":
        return t is not None and randomly(types, t)
    return v.op in ("sym", "field", "app")


def _elems(v):
    x = fresh_bv()
    return mkfor(x, mk("elems", v), one(x))


def S_of(ev, st, ref, args, i=0):
    t = ref.selfty(ev.prog) if i == 0 else None
    if i and len(ref.d.get("targs") or []) > i:
        t = ref.targ(ev.prog, i)
    return stream(ev, st, args[i], t, ref.types(ev.prog))


def SV(st, S):
    return R(st, mk("stream", S))


@tr("IntoIterator.into_iter")
def _into_iter(ev, st, ref, args):
    v = ev.deref(st, args[0])
    t0 = ref.selfty(ev.prog)
    if t0["k"] == "ref" and t0.get("mut") and args[0].op == "ptr" and v.op not in ("stream",):
        ts = strip(ref.types(ev.prog), t0)
        if adtname(ts) == "Vec" or ts["k"] in ("slice", "array"):
            return _iter_mut(ev, st, ref, args)
        return R(st, args[0])
    if v.op == "stream":
        return R(st, args[0] if args[0].op == "ptr" else v)
    if v.op == "ctor" and v.a[0] in ev.prog.adts:
        return SV(st, stream(ev, st, args[0]))
    return SV(st, S_of(ev, st, ref, args))


FUNC["slice::iter"] = FUNC["StringRecord::iter"] = FUNC["Option::iter"] = FUNC["HashMap::iter"] = FUNC["HashSet::iter"] = FUNC["BinaryHeap::iter"] = \
    FUNC["Vec::iter"] = FUNC["BTreeMap::iter"] = FUNC["BTreeSet::iter"] = lambda ev, st, ref, args: SV(st, _iter_of(ev, st, ref, args))
FUNC["BinaryHeap::into_sorted_vec"] = lambda ev, st, ref, args: R(st, app("sorted", vec(_iter_of(ev, st, ref, args))))
FUNC["BinaryHeap::into_vec"] = lambda ev, st, ref, args: R(st, vec(_iter_of(ev, st, ref, args)))


def _iter_of(ev, st, ref, args):
    v = ev.deref(st, args[0])
    p = norm_path(ref.path)
    if v.op == "stream":
        return v.a[0]
    if "slice" in p or "Vec" in p:
        return viter(v)
    if "Option" in p:
        out = []
        if v.op == "ctor":
            return one(v.a[2]) if v.a[1] == "Some" else EMPTY
        return case([((lit(discr(v, 2), 1),), one(field(v, "Some", 0)))])
    if "BTree" in p:
        return viter(app("sorted", vec(stream(ev, st, v))))
    if "Hash" in p and hashed(ref.types(ev.prog), ref.selfty(ev.prog), v):
        return _elems(app("hashed", v))
    return stream(ev, st, v)


@fn("HashMap::keys", "HashMap::values", "HashMap::into_keys", "HashMap::into_values",
    "BTreeMap::keys", "BTreeMap::values", "BTreeMap::into_keys", "BTreeMap::into_values")
def _keys(ev, st, ref, args):
    S = stream(ev, st, args[0])
    if "BTree" in norm_path(ref.path):
        S = viter(app("sorted", vec(S)))
    elif HASHED:
        v = ev.deref(st, args[0])
        if hashed(ref.types(ev.prog), ref.selfty(ev.prog), v):
            S = _elems(app("hashed", v))
    i = 0 if "keys" in ref.name else 1
    return SV(st, smap(S, lambda x: field(x, "", i)))


@fn("slice::iter_mut", "Vec::iter_mut")
def _iter_mut(ev, st, ref, args):
    p = args[0]
    v = ev.deref(st, p)
    if p.op != "ptr":
        return SV(st, viter(v))
    while True:
        w = ev.readcell(st, p.a[0], p.a[1])
        if w.op != "ptr":
            break
        p = w
    t = fresh_bv()
    return SV(st, mkfor(t, mk("range", I(0), vlen(v)), one(mk("ptr", p.a[0], p.a[1] + (("i", t),)))))


def pure_case(ev, st, leaves, mkstream):
    """leaves of a closure evaluated on an element -> stream with guards; panics are don't-cares"""
    n = len(st.facts.lits)
    br = []
    pan = []
    for l in leaves:
        ls = tuple(l.st.facts.lits[n:])
        if l.kind == "ret":
            br.append((ls, mkstream(l)))
        elif l.kind == "panic" and l.val != "loop":
            pan.append((ls, None))
    if not pan:
        return case_tree(br)
    return case([(a, b if b is not None else one(app("panic"))) for a, b in dontcare(br, [p for p, _ in pan], True)])


STRICT = False      # keep what leads to panics apart from what does not


def dontcare(br, pan, keep=False):
    """drop the literals that only separate results from panics; merge equal results"""
    if STRICT:
        return [(tuple(a), b) for a, b in br] + [(tuple(p), None) for p in pan if keep]
    ls = [(a, b) for a, b in br] + [(tuple(p), None) for p in pan]
    changed = True
    while changed:
        changed = False
        for i in range(len(ls)):
            for j in range(len(ls)):
                if i == j:
                    continue
                if ls[j][1] is not None and ls[j][1] is not ls[i][1]:
                    continue
                a, b = set(ls[i][0]), set(ls[j][0])
                d1, d2 = a - b, b - a
                if ls[j][1] is None and len(d2) == 1 and len(d1) >= 1:
                    y = next(iter(d2))
                    cx = [x for x in d1 if x.a[0] is y.a[0] and complementary(x.a[0], x.a[1], y.a[1])]
                    if cx and all(1 for _ in d1):
                        # every non-panic continuation of this prefix keeps its own guard; drop the literal
                        pre = b - {y}
                        x = cx[0]
                        ls = [(tuple(l for l in g if not (l is x and pre <= set(g))), s) for k, (g, s) in enumerate(ls) if k != j]
                        changed = True
                        break
                if ls[j][1] is ls[i][1] and len(d1) == 1 and len(d2) == 1:
                    x, y = next(iter(d1)), next(iter(d2))
                    if x.a[0] is y.a[0] and complementary(x.a[0], x.a[1], y.a[1]):
                        ls[i] = (tuple(l for l in ls[i][0] if l is not x), ls[i][1])
                        del ls[j]
                        changed = True
                        break
            if changed:
                break
    return ls if keep else [(a, b) for a, b in ls if b is not None]


def effects(ev, st, leaves):
    """cells of st changed by a closure call"""
    ch = set()
    for l in leaves:
        for k, v in l.st.cells.items():
            if k in st.cells and st.cells[k] is not v:
                ch.add(k)
    return ch


def elementwise(ev, st, S, f, wrap, byref=True):
    """bind S with closure f; wrap(leaf, element) -> stream.  None when f has side effects"""
    import loops
    bad = []

    def g(x):
        s = st.copy()
        ls = call(ev, s, f, x)
        eff = effects(ev, st, ls)
        if eff:
            bad.append(eff)
        r = pure_case(ev, st, ls, lambda l: wrap(ev, l, x))
        own = {y for y in walk(x) if y.op == "tmp"}
        if own and loops.tainted([r], own):
            # a loop kept as a transition system that depends on the element: it runs anew for every element
            bad.append({"loop"})
        return r
    r = bind(S, g)
    if bad:
        return ("eff", bad[0])
    return r


def it(wrap):
    def m(ev, st, ref, args):
        S = S_of(ev, st, ref, args)
        r = elementwise(ev, st, S, args[1], wrap)
        if isinstance(r, tuple):
            return effectful(ev, st, ref, S, args[1], wrap)
        return SV(st, r)
    return m


def effectful(ev, st, ref, S, f, wrap):
    """a lazy adaptor whose closure mutates captured state: summarise as an eager loop producing a stream"""
    import loops
    r = loops.map_effect(ev, st, S, f, wrap)
    if r is None:
        return SV(st, mk("unk", "effect " + ref.path, S))
    return r


def w_one(ev, l, x):
    return one(ev.freeze(l.st, l.val) if l.val.op != "ptr" else l.val)


def w_opt(ev, l, x):
    v = ev.deref(l.st, l.val)
    if v.op == "ctor":
        return one(v.a[2]) if v.a[1] in ("Some", "Ok") else EMPTY
    if v.op == "ite":
        a, b = w_optv(v.a[2]), w_optv(v.a[3])
        return case([((lit(v.a[0], v.a[1]),), a), ((lit(v.a[0], ("no", v.a[1])),), b)])
    return w_optv(v)


def w_optv(v):
    if v.op == "ctor":
        return one(v.a[2]) if v.a[1] in ("Some", "Ok") else EMPTY
    return case([((lit(discr(v, 2), 1),), one(field(v, "Some", 0)))])


def w_filter(ev, l, x):
    v = ev.deref(l.st, l.val)
    return case([((lit(v, 1),), one(x))])


def w_flat(ev, l, x):
    return stream(ev, l.st, l.val, None, None) if l.val.op != "stream" else l.val.a[0]


TRAIT["Iterator.map"] = it(w_one)
TRAIT["Iterator.filter"] = it(w_filter)
TRAIT["Iterator.filter_map"] = it(w_opt)
TRAIT["Iterator.inspect"] = it(lambda ev, l, x: one(x))


@tr("Iterator.flat_map")
def _flat_map(ev, st, ref, args):
    S = S_of(ev, st, ref, args)
    ut = None
    types = ref.types(ev.prog)
    for i in ref.d["targs"][1:2]:
        ut = types[i]
    r = elementwise(ev, st, S, args[1], lambda ev, l, x: stream(ev, l.st, l.val, ut, types))
    if isinstance(r, tuple):
        return SV(st, mk("unk", "effect flat_map", S))
    return SV(st, r)


@tr("Iterator.flatten")
def _flatten(ev, st, ref, args):
    S = S_of(ev, st, ref, args)
    it_ = item_type(ev, ref)
    return SV(st, bind(S, lambda x: stream(ev, st, x, it_, ref.types(ev.prog))))


def item_type(ev, ref):
    """best effort item type of Self: IntoIterator for the inner collection"""
    types = ref.types(ev.prog)
    t = selfty(ev, ref)
    n = adtname(t)
    if n in ("IntoIter", "Iter", "Option", "Vec") and t.get("args"):
        a = [types[x] for x in t["args"]]
        return a[0] if a else None
    return None


@tr("Iterator.chain")
def _chain(ev, st, ref, args):
    return SV(st, seq(S_of(ev, st, ref, args), S_of(ev, st, ref, args, 1)))


@tr("Iterator.cloned", "Iterator.copied", "Iterator.fuse", "Iterator.peekable", "Itertools.sorted_unstable",
    "ExactSizeIterator.by_ref", "Iterator.into_iter")
def _same(ev, st, ref, args):
    return SV(st, S_of(ev, st, ref, args))


@tr("Iterator.rev")
def _rev(ev, st, ref, args):
    return SV(st, rev(S_of(ev, st, ref, args)))


def simple_range(S):
    return S.op == "for" and S.a[1].op == "range" and S.a[2].op == "one"


@tr("Iterator.enumerate")
def _enum(ev, st, ref, args):
    return SV(st, enum(S_of(ev, st, ref, args)))


def enum(S):
    if S.op == "one":
        return one(tup(I(0), S.a[0]))
    if S.op == "empty":
        return S
    if S.op == "seq" and all(x.op == "one" for x in S.a):
        return seq(*[one(tup(I(i), x.a[0])) for i, x in enumerate(S.a)])
    if simple_range(S):
        t, d, b = open_for(S)
        return mkfor(t, d, one(tup(t, b.a[0])))
    if S.op == "rev":
        pass
    t = fresh_bv()
    return mkfor(t, mk("elems", mk("enum", S)), one(tup(app("posn", t), app("item", t))))


def _renum(S):
    r = enum(S)
    return r


def nth_elem(S):
    """(len, f) when S is {t in 0..n: [f t]}"""
    if simple_range(S):
        b, d, body = S.a
        return d.a[1], lambda i: subst(body.a[0], {b: i})
    return None


def cycled(S):
    """element i of a stream repeated endlessly"""
    f, x = (lambda e: e), S
    if S.op == "for" and S.a[2].op == "one":
        f = lambda e: subst(S.a[2].a[0], {S.a[0]: e})
        x = S.a[1]
    if x.op == "elems" and x.a[0].op == "cycle":
        v = vec(x.a[0].a[0])
        return lambda i: f(index(v, rebuild("app", ("rem", i, vlen(v)))))
    if x.op == "elems" and x.a[0].op == "repeat":
        return lambda i: f(x.a[0].a[0])
    return None


@tr("Iterator.zip")
def _zip(ev, st, ref, args):
    A, B = S_of(ev, st, ref, args), S_of(ev, st, ref, args, 1)
    for C1, S1, at in ((cycled(A), B, 1), (cycled(B), A, 0)):
        if C1 and not cycled(S1):
            return SV(st, bind(enum(S1), lambda q: one(
                tup(C1(field(q, "", 0)), field(q, "", 1)) if at else tup(field(q, "", 1), C1(field(q, "", 0))))))
    a, b = nth_elem(A), nth_elem(B)
    if a and b:
        t = fresh_bv()
        n = a[0] if a[0] is b[0] else MIN2(a[0], b[0])
        return SV(st, mkfor(t, mk("range", I(0), n), one(tup(a[1](t), b[1](t)))))
    if a and B.op == "for" and B.a[1].op == "elems" and B.a[1].a[0].op == "from":
        t = fresh_bv()
        return SV(st, mkfor(t, mk("range", I(0), a[0]), one(tup(a[1](t), padd(B.a[1].a[0].a[0], t)))))
    t = fresh_bv()
    return SV(st, mkfor(t, mk("elems", mk("zip", A, B)), one(t)))


@tr("Iterator.take", "Iterator.skip", "Iterator.step_by", "Iterator.take_while", "Iterator.skip_while",
    "Iterator.map_while", "Iterator.scan", "Iterator.cycle")
def _take_n(ev, st, ref, args):
    n = ref.name
    v0 = ev.deref(st, args[0])
    if n == "map_while":
        # repeat(()).map_while(f): an unfold
        if v0.op == "stream" and v0.a[0].op == "for" and v0.a[0].a[1].op == "elems" and v0.a[0].a[1].a[0].op == "repeat":
            import loops
            x = v0.a[0].a[1].a[0].a[0]
            return loops.unfold_fn(ev, st, args[1], [x])
    S = S_of(ev, st, ref, args)
    if n == "take_while" and successors(S):
        return take_successors(ev, st, *successors(S), args[1])
    if n == "cycle":
        t = fresh_bv()
        return SV(st, mkfor(t, mk("elems", mk("cycle", S)), one(t)))
    c = cycled(S)
    if n == "take" and c:
        t = fresh_bv()
        return SV(st, mkfor(t, mk("range", I(0), ev.deref(st, args[1])), one(c(t))))
    if n in ("take", "skip"):
        k = ev.deref(st, args[1])
        a = nth_elem(S)
        if a:
            t = fresh_bv()
            if n == "take":
                v = st.facts.value(lt(a[0], k, "i"))
                hi = k if v == 0 else a[0] if v == 1 else MIN2(a[0], k)
                if k is a[0]:
                    hi = k
                return SV(st, mkfor(t, mk("range", I(0), hi), one(a[1](t))))
            v = st.facts.value(lt(a[0], k, "i"))
            if v == 0 or True:
                return SV(st, mkfor(t, mk("range", k, a[0]), one(a[1](t))))
        if S.op == "for" and S.a[1].op == "elems" and S.a[1].a[0].op == "repeat" and n == "take":
            t = fresh_bv()
            return SV(st, mkfor(t, mk("range", I(0), k), one(S.a[1].a[0].a[0])))
        if S.op in ("seq", "one") and k.op == "int" and all(x.op == "one" for x in (S.a if S.op == "seq" else (S,))):
            p = S.a if S.op == "seq" else (S,)
            return SV(st, seq(*(p[:k.a[0]] if n == "take" else p[k.a[0]:])))
    t = fresh_bv()
    extra = ()
    if n in ("take_while", "skip_while", "map_while"):
        x = fresh_bv()
        ls = call(ev, st.copy(), args[1], x)
        if effects(ev, st, ls):
            if n == "skip_while":
                return SV(st, mk("unk", "effect " + ref.path, S))
            import loops
            return loops.while_effect(ev, st, S, args[1], n == "take_while")
        extra = (lam([x], pure_case(ev, st, ls, lambda l: w_one(ev, l, x))),)
    else:
        extra = tuple(ev.deref(st, a) for a in args[1:2])
    return SV(st, mkfor(t, mk("elems", mk("adapt", n, S, *extra)), one(t)))


@fn("iter::once")
def _once(ev, st, ref, args):
    return SV(st, one(args[0]))


@fn("iter::once_with")
def _once_with(ev, st, ref, args):
    return mapret(call(ev, st, args[0]), lambda v: mk("stream", one(v)))


@fn("iter::empty")
def _empty(ev, st, ref, args):
    return SV(st, EMPTY)


@fn("iter::repeat")
def _repeat(ev, st, ref, args):
    t = fresh_bv()
    return SV(st, mkfor(t, mk("elems", mk("repeat", args[0])), one(t)))


@fn("iter::repeat_n", "repeat_n::repeat_n")
def _repeat_n(ev, st, ref, args):
    t = fresh_bv()
    return SV(st, mkfor(t, mk("range", I(0), args[1]), one(args[0])))


@fn("iter::from_fn", "from_fn::from_fn")
def _from_fn(ev, st, ref, args):
    import loops
    return loops.unfold_fn(ev, st, args[0], [])


@fn("iter::zip")
def _izip(ev, st, ref, args):
    return None


@tr("Iterator.sum", "Iterator.product", "Iterator.count", "Iterator.max", "Iterator.min", "ExactSizeIterator.len",
    "Iterator.last")
def _reduce(ev, st, ref, args):
    S = S_of(ev, st, ref, args)
    n = ref.name
    if n == "sum":
        return R(st, SUM(S))
    if n in ("count", "len"):
        return R(st, count(S))
    if n in ("max", "min"):
        o = app("maxof" if n == "max" else "minof", _unrev(S))
        if S.op == "empty":
            o = NONE
        return R(st, o)
    if n == "last":
        a = nth_elem(S)
        if a:
            return R(st, ite(lt(I(0), a[0], "i"), 1, some(a[1](psub(a[0], I(1)))), NONE))
    return R(st, app("it_" + n, S))


def _unrev(S):
    return S.a[0] if S.op == "rev" else S


@tr("Iterator.max_by", "Iterator.min_by", "Iterator.max_by_key", "Iterator.min_by_key", "Iterator.reduce")
def _maxby(ev, st, ref, args):
    S = S_of(ev, st, ref, args)
    n = ref.name
    if n.endswith("_key"):
        x = fresh_bv()
        ls = pure_call(ev, st, args[1], x)
        key = lam([x], pure_case(ev, st, ls, lambda l: w_one(ev, l, x)))
        return R(st, app("it_" + n, S, key))
    x, y = fresh_bv(), fresh_bv()
    ls = pure_call(ev, st, args[1], x, y)
    body = pure_case(ev, st, ls, lambda l: w_one(ev, l, x))
    if n == "reduce" and body.op == "one" and body.a[0].op == "ext":
        e = body.a[0]
        if EXT(e.a[0], seq(one(x), one(y))) is e:
            return R(st, app("maxof" if e.a[0] == "MAX" else "minof", S))
    if n in ("max_by", "min_by") and is_cmp(body, x, y):
        return R(st, app("maxof" if n == "max_by" else "minof", S))
    return R(st, app("it_" + n, S, lam([x, y], body)))


def is_cmp(body, x, y):
    """the closure is a.cmp(b)"""
    if body.op != "case":
        return False
    want = {(lit(lt(x, y, k), 1), o) for k in "ois" for o in (LESS,)}
    return any((ls[0], s.a[0]) in want for ls, s in body.a if len(ls) == 1 and s.op == "one")


def is_sorted(ev, st, n, S, args):
    if n == "is_sorted":
        return app("bool", n, vec(S))
    vs = [fresh_bv() for _ in range(2 if n == "is_sorted_by" else 1)]
    ls = pure_call(ev, st, args[1], *vs)
    return app("bool", n, vec(S), lam(vs, pure_case(ev, st, ls, lambda l: w_one(ev, l, vs[0]))))


@fn("slice::is_sorted", "slice::is_sorted_by", "slice::is_sorted_by_key")
def _slsorted(ev, st, ref, args):
    return R(st, is_sorted(ev, st, ref.name, viter(ev.deref(st, args[0])), args))


@tr("Iterator.any", "Iterator.all", "Iterator.find", "Iterator.find_map", "Iterator.position", "Iterator.nth",
    "Iterator.is_sorted", "Iterator.is_sorted_by", "Iterator.is_sorted_by_key")
def _search(ev, st, ref, args):
    n = ref.name
    if n == "nth" and args[1] == I(0):
        return next_on(ev, st, args[0])
    S = S_of(ev, st, ref, args)
    if n.startswith("is_sorted"):
        return R(st, is_sorted(ev, st, n, S, args))
    if n == "nth":
        k = args[1]
        a = nth_elem(S)
        if a:
            return R(st, ite(lt(k, a[0], "i"), 1, some(a[1](k)), NONE))
        c = cycled(S)
        if c:
            src = S.a[1] if S.op == "for" and S.a[2].op == "one" else S
            v = some(c(k))
            return R(st, v if src.a[0].op == "repeat" else ite(lt(I(0), vlen(vec(src.a[0].a[0])), "i"), 1, v, NONE))
        return R(st, app("nth", S, k))
    if n == "position":
        S2 = enum(S)

        bad = []

        def g(x):
            ls = call(ev, st.copy(), args[1], field(x, "", 1))
            bad.extend(effects(ev, st, ls))
            return pure_case(ev, st, ls, lambda l: case([((lit(ev.deref(l.st, l.val), 1),), one(field(x, "", 0)))]))
        r = bind(S2, g)
        if bad:
            import loops
            return loops.search_effect(ev, st, S, args[1], n)
        return R(st, mk_headopt(r))
    if n == "find_map":
        r = elementwise(ev, st, S, args[1], w_opt)
    elif n == "all":
        r = elementwise(ev, st, S, args[1],
                        lambda ev, l, x: case([((lit(ev.deref(l.st, l.val), 0),), one(x))]))
    else:
        r = elementwise(ev, st, S, args[1], w_filter)
    if isinstance(r, tuple):
        import loops
        return loops.search_effect(ev, st, S, args[1], n)
    if n in ("any", "all"):
        b = nonempty(smap(r, lambda x: UNIT))
        return R(st, b if n == "any" else neg(b))
    return R(st, mk_headopt(r))


def mk_headopt(S):
    if S.op == "empty":
        return NONE
    if S.op == "one":
        return some(S.a[0])
    return app("headopt", S)


@tr("Iterator.fold", "Iterator.for_each", "Iterator.try_fold", "Iterator.try_for_each", "Iterator.rfold")
def _fold(ev, st, ref, args):
    import loops
    S = S_of(ev, st, ref, args)
    if ref.name == "rfold":
        S = rev(S)
    if ref.name in ("fold", "rfold"):
        return loops.fold(ev, st, S, args[1], args[2])
    if ref.name == "for_each":
        return loops.for_each(ev, st, S, args[1])
    return None


@tr("Iterator.size_hint")
def _size_hint(ev, st, ref, args):
    S = S_of(ev, st, ref, args)
    return R(st, tup(app("hint_lo", S), app("hint_hi", S)))


@tr("Iterator.eq", "Iterator.ne")
def _iteq(ev, st, ref, args):
    r = mk("app", "bool", "itereq", S_of(ev, st, ref, args), S_of(ev, st, ref, args, 1))
    return R(st, r if ref.name == "eq" else neg(r))


@fn("itertools::equal", "itertools::free::equal", "free::equal")
def _equal(ev, st, ref, args):
    return R(st, mk("app", "bool", "itereq", stream(ev, st, args[0]), stream(ev, st, args[1])))


@tr("Iterator.collect", "FromIterator.from_iter", "Itertools.collect_vec")
def _collect(ev, st, ref, args):
    S = S_of(ev, st, ref, args) if ref.name != "from_iter" else stream(ev, st, args[0])
    if ref.name == "collect_vec":
        return R(st, vec(S))
    to = ref.targ(ev.prog, 1 if ref.name == "collect" else 0)
    if to["k"] == "adt" and to["adt"] in ev.prog.adts:
        for im in ev.prog.impls_of("core::iter::traits::collect::FromIterator"):
            if ev.prog.self_adt(im) == to["adt"] and im["items"].get("from_iter") in ev.prog.bodies:
                return ev.call_body(im["items"]["from_iter"], [mk("stream", S)], st)
    return R(st, collect(ev, to, S, ref.types(ev.prog)))


def collect(ev, to, S, types):
    n = adtname(strip(types, to)) if to["k"] == "adt" else None
    if to["k"] == "adt" and to["adt"].endswith("Box"):
        n = "Vec"
    if n in ("Vec", "VecDeque"):
        return vec(S)
    if n in ("HashMap", "BTreeMap"):
        return acc("map", EMPTYMAP, S)
    if n in ("HashSet", "BTreeSet"):
        return acc("set", EMPTYSET, S)
    if n == "BinaryHeap":
        return acc("bh", EMPTYBH, S)
    return app("collect:" + (n or to["s"]), S)


EMPTYMAP = app("emptycoll", mk("str", "map"))
EMPTYSET = app("emptycoll", mk("str", "set"))
EMPTYBH = app("emptycoll", mk("str", "bh"))


def empty_for(ev, t):
    n = adtname(t)
    if n in ("Vec", "VecDeque"):
        return vec(EMPTY)
    if n in ("HashMap", "BTreeMap"):
        return EMPTYMAP
    if n in ("HashSet", "BTreeSet"):
        return EMPTYSET
    if n == "BinaryHeap":
        return EMPTYBH
    if n == "Option":
        return NONE
    if n == "PhantomData":
        return UNIT
    if t is not None and t["k"] == "prim":
        if t["s"][0] in "ui":
            return I(0)
        if t["s"] == "bool":
            return FALSE
        if t["s"][0] == "f":
            return mk("flt", 0, "0f64")
    return None


@tr("Default.default")
def _default(ev, st, ref, args):
    t = ref.selfty(ev.prog)
    types = ref.types(ev.prog)
    if t["k"] == "tuple":
        vs = [empty_for(ev, types[a]) for a in t["args"]]
        if all(v is not None for v in vs):
            return R(st, tup(*vs))
        return None
    if t["k"] == "adt" and t["adt"].split("::")[-1] in ("RefCell", "Cell", "Box"):
        t = types[t["args"][0]]
    v = empty_for(ev, t)
    if v is not None:
        return R(st, v)
    if t["k"] == "adt" and t["adt"] in ev.prog.adts:
        for im in ev.prog.impls_of("core::default::Default"):
            if ev.prog.self_adt(im) == t["adt"] and im["items"].get("default") in ev.prog.bodies:
                return ev.call_body(im["items"]["default"], [], st)
    return R(st, unk("default " + t["s"]))


for _n, _v in (("Vec", vec(EMPTY)), ("HashMap", EMPTYMAP), ("HashSet", EMPTYSET), ("BinaryHeap", EMPTYBH),
               ("BTreeMap", EMPTYMAP), ("BTreeSet", EMPTYSET), ("VecDeque", vec(EMPTY))):
    for _m in ("new", "with_capacity", "with_hasher", "with_capacity_and_hasher"):
        FUNC[_n + "::" + _m] = (lambda v: lambda ev, st, ref, args: R(st, v))(_v)


@fn("vec::from_elem")
def _from_elem(ev, st, ref, args):
    t = fresh_bv()
    n = ev.deref(st, args[1])
    return R(st, vec(mkfor(t, mk("range", I(0), n), one(args[0]))))


# ------------------------------------------------------------------ vectors
def upd(ev, st, p, v):
    if p.op != "ptr":
        return
    while True:
        w = ev.readcell(st, p.a[0], p.a[1])
        if w.op != "ptr":
            break
        p = w
    ev.writecell(st, p.a[0], p.a[1], v)


@fn("Vec::push", "VecDeque::push_back")
def _push(ev, st, ref, args):
    v = ev.deref(st, args[0])
    upd(ev, st, args[0], append(v, one(ev.freeze(st, args[1]))))
    return R(st, UNIT)


@fn("Vec::pop")
def _pop(ev, st, ref, args):
    v = ev.deref(st, args[0])
    S, base = (v.a[1], v.a[0]) if v.op == "append" else (v.a[0], None) if v.op == "vec" else (None, None)
    if S is not None:
        parts = S.a if S.op == "seq" else (S,)
        if parts and parts[-1].op == "one":
            rest = seq(*parts[:-1])
            upd(ev, st, args[0], (append(base, rest) if base is not None else vec(rest)))
            return R(st, some(parts[-1].a[0]))
        if S.op == "empty" and base is None:
            return R(st, NONE)
    out = []
    o = app("lastopt", v)
    for s, p in split(ev, st, o):
        if p is None:
            out.append(Lf(s, NONE))
        else:
            s = s.copy()
            upd(ev, s, args[0], slice_(v, I(0), psub(vlen(v), I(1))))
            out.append(Lf(s, some(p)))
    return out


@fn("slice::last", "Vec::last")
def _last(ev, st, ref, args):
    v = ev.deref(st, args[0])
    S = v.a[1] if v.op == "append" else v.a[0] if v.op == "vec" else None
    if S is not None:
        parts = S.a if S.op == "seq" else (S,)
        if parts and parts[-1].op == "one":
            return R(st, some(parts[-1].a[0]))
        if S.op == "empty" and v.op == "vec":
            return R(st, NONE)
    return R(st, app("lastopt", v))


@fn("slice::first", "Vec::first")
def _first(ev, st, ref, args):
    v = ev.deref(st, args[0])
    return R(st, app("sget", v, I(0)))


@fn("slice::len", "Vec::len", "VecDeque::len", "slice::is_empty", "Vec::is_empty", "StringRecord::len", "StringRecord::is_empty")
def _len(ev, st, ref, args):
    n = vlen(ev.deref(st, args[0]))
    return R(st, n if ref.name == "len" else eq(n, I(0)))


@fn("HashSet::len", "HashMap::len", "BinaryHeap::len", "HashSet::is_empty", "HashMap::is_empty", "BinaryHeap::is_empty")
def _clen(ev, st, ref, args):
    v = ev.deref(st, args[0])
    if ref.name == "is_empty" and "BinaryHeap" in ref.path:
        return R(st, neg(discr(app("hpop", v), 2)))
    n = app("size", v)
    return R(st, n if ref.name == "len" else eq(n, I(0)))


@fn("Vec::capacity", "VecDeque::capacity", "HashMap::capacity", "HashSet::capacity", "BinaryHeap::capacity")
def _capacity(ev, st, ref, args):
    v = ev.deref(st, args[0])
    return R(st, app("capacity", app("size", v) if any(n in ref.path for n in ("HashMap", "HashSet", "BinaryHeap")) else vlen(v)))


@fn("Vec::extend_from_slice", "Vec::append")
def _efs(ev, st, ref, args):
    v, w = ev.deref(st, args[0]), ev.deref(st, args[1])
    upd(ev, st, args[0], append(v, viter(w)))
    if ref.name == "append":
        upd(ev, st, args[1], vec(EMPTY))
    return R(st, UNIT)


@tr("Extend.extend")
def _extend(ev, st, ref, args):
    v = ev.deref(st, args[0])
    t = selfty(ev, ref)
    n = adtname(t)
    types = ref.types(ev.prog)
    ts = ref.d["targs"]
    S = stream(ev, st, args[1], types[ts[-1]] if len(ts) > 1 else None, types)
    if n == "Vec":
        upd(ev, st, args[0], append(v, S))
    elif n in ("HashMap", "BTreeMap"):
        upd(ev, st, args[0], acc("map", v, S))
    elif n in ("HashSet", "BTreeSet"):
        upd(ev, st, args[0], acc("set", v, S))
    elif n == "BinaryHeap":
        upd(ev, st, args[0], acc("bh", v, S))
    else:
        return None
    return R(st, UNIT)


@fn("Vec::clear", "HashMap::clear", "HashSet::clear", "BinaryHeap::clear")
def _clear(ev, st, ref, args):
    p = norm_path(ref.path)
    upd(ev, st, args[0], vec(EMPTY) if "Vec" in p else EMPTYMAP if "Map" in p else EMPTYSET if "Set" in p else EMPTYBH)
    return R(st, UNIT)


@fn("Vec::reserve", "BinaryHeap::reserve", "HashMap::reserve", "HashSet::reserve", "Vec::shrink_to_fit",
    "Vec::reserve_exact", "HashMap::shrink_to_fit", "mem::drop", "mem::forget", "Vec::try_reserve")
def _nop(ev, st, ref, args):
    return R(st, UNIT)


@fn("Vec::insert", "Vec::remove", "Vec::swap_remove", "Vec::truncate", "Vec::retain", "Vec::dedup", "slice::reverse",
    "slice::swap", "slice::fill", "Vec::resize", "slice::rotate_left", "slice::rotate_right", "Vec::retain_mut",
    "Vec::split_off", "Vec::drain", "Vec::dedup_by_key", "Vec::dedup_by", "slice::sort_by", "slice::sort_unstable_by",
    "slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def _vmut(ev, st, ref, args):
    v = ev.deref(st, args[0])
    n = ref.name
    p = args[0]
    if n == "reverse":
        if v.op == "vec":
            upd(ev, st, p, vec(rev(v.a[0])))
        else:
            upd(ev, st, p, app("reversed", v))
        return R(st, UNIT)
    if n == "truncate":
        k = ev.deref(st, args[1])
        upd(ev, st, p, app("truncate", v, k))
        return R(st, UNIT)
    if n == "insert":
        i, x = ev.deref(st, args[1]), args[2]
        a, b = slice_(v, I(0), i), slice_(v, i, vlen(v))
        upd(ev, st, p, vec(seq(viter(a), one(x), viter(b))))
        return R(st, UNIT)
    if n == "remove":
        i = ev.deref(st, args[1])
        a, b = slice_(v, I(0), i), slice_(v, padd(i, I(1)), vlen(v))
        upd(ev, st, p, vec(seq(viter(a), viter(b))))
        return R(st, index(v, i))
    if n == "retain":
        r = elementwise(ev, st, viter(v), args[1], w_filter)
        if not isinstance(r, tuple):
            upd(ev, st, p, vec(r))
            return R(st, UNIT)
        out = []
        for l in effectful(ev, st, ref, viter(v), args[1], w_filter):
            if l.kind == "ret":
                upd(ev, l.st, p, vec(l.val.a[0]))
                l = Lf(l.st, UNIT)
            out.append(l)
        return out
    if n == "dedup":
        upd(ev, st, p, app("dedup", v))
        return R(st, UNIT)
    if n in ("dedup_by", "dedup_by_key"):
        vs = [fresh_bv() for _ in range(2 if n == "dedup_by" else 1)]
        ls = pure_call(ev, st, args[1], *vs)
        upd(ev, st, p, app(n, v, lam(vs, pure_case(ev, st, ls, lambda l: w_one(ev, l, vs[0])))))
        return R(st, UNIT)
    if n in ("sort_by", "sort_unstable_by"):
        x, y = fresh_bv(), fresh_bv()
        ls = pure_call(ev, st, args[1], x, y)
        body = pure_case(ev, st, ls, lambda l: w_one(ev, l, x))
        upd(ev, st, p, app("sorted", v) if is_cmp(body, x, y) else app("sorted_by", v, lam([x, y], body), mk("str", n)))
        return R(st, UNIT)
    if n.startswith("sort"):
        x = fresh_bv()
        ls = pure_call(ev, st, args[1], x)
        body = pure_case(ev, st, ls, lambda l: w_one(ev, l, x))
        upd(ev, st, p, app("sorted", v) if body is one(x) else app("sorted_key", v, lam([x], body), mk("str", n)))
        return R(st, UNIT)
    if n == "drain":
        b = range_bounds(v, ev.deref(st, args[1]))
        if b is not None:
            upd(ev, st, p, vec(seq(viter(slice_(v, I(0), b[0])), viter(slice_(v, b[1], vlen(v))))) if b != (I(0), vlen(v)) else vec(EMPTY))
            return SV(st, viter(slice_(v, *b) if b != (I(0), vlen(v)) else v))
    if n == "split_off":
        i = ev.deref(st, args[1])
        upd(ev, st, p, vec(viter(slice_(v, I(0), i))))
        return R(st, vec(viter(slice_(v, i, vlen(v)))))
    vals = [ev.deref(st, a) for a in args]
    upd(ev, st, p, mk("unk", "vec." + n, *vals))
    return R(st, mk("unk", "vec." + n, *vals))


@fn("slice::sort", "slice::sort_unstable")
def _sort(ev, st, ref, args):
    v = ev.deref(st, args[0])
    if not (v.op == "app" and v.a[0] == "sorted"):
        upd(ev, st, args[0], app("sorted", v))
    return R(st, UNIT)


@tr("Itertools.dedup", "Itertools.unique")
def _itdedup(ev, st, ref, args):
    return SV(st, viter(app(ref.name, vec(S_of(ev, st, ref, args)))))


@tr("Itertools.sorted")
def _itsorted(ev, st, ref, args):
    return SV(st, viter(app("sorted", vec(S_of(ev, st, ref, args)))))


def range_bounds(v, r):
    """(lo, hi) of an index range value, or None"""
    if r.op == "ctor":
        n = r.a[0].split("::")[-1]
        if n == "Range":
            return r.a[2], r.a[3]
        if n == "RangeFrom":
            return r.a[2], vlen(v)
        if n == "RangeTo":
            return I(0), r.a[2]
        if n == "RangeFull":
            return I(0), vlen(v)
        if n == "RangeInclusive":
            return r.a[2], padd(r.a[3], I(1))
        if n == "RangeToInclusive":
            return I(0), padd(r.a[2], I(1))
    return None


@tr("Index.index", "IndexMut.index_mut")
def _index(ev, st, ref, args):
    v = ev.deref(st, args[0])
    i = ev.deref(st, args[1])
    t = selfty(ev, ref)
    n = adtname(t)
    if n in ("HashMap", "BTreeMap"):
        return R(st, app("at", v, i))
    if n == "Vec" or (t is not None and t["k"] in ("slice", "array")):
        rb = range_bounds(v, i)
        if rb:
            return R(st, slice_(v, *rb))
        if ref.name == "index_mut" and args[0].op == "ptr":
            p = args[0]
            while True:
                w = ev.readcell(st, p.a[0], p.a[1])
                if w.op != "ptr":
                    break
                p = w
            return R(st, mk("ptr", p.a[0], p.a[1] + (("i", i),)))
        return R(st, index(v, i))
    o = ev._ctor_impl(st, ref, args)
    if o is not None:
        return None
    return None


@fn("slice::get", "Vec::get", "slice::get_unchecked", "StringRecord::get")
def _get(ev, st, ref, args):
    v = ev.deref(st, args[0])
    i = ev.deref(st, args[1])
    rb = range_bounds(v, i)
    if ref.name == "get_unchecked":
        return R(st, index(v, i))
    if rb:
        return R(st, app("getrange", v, *rb))
    return R(st, app("sget", v, i))


@fn("slice::get_mut", "slice::last_mut", "slice::first_mut")
def _get_mut(ev, st, ref, args):
    p = args[0]
    v = ev.deref(st, p)
    if p.op != "ptr":
        return None
    while True:
        w = ev.readcell(st, p.a[0], p.a[1])
        if w.op != "ptr":
            break
        p = w
    i = ev.deref(st, args[1]) if ref.name == "get_mut" else I(0) if ref.name == "first_mut" else psub(vlen(v), I(1))
    c = lt(i, vlen(v), "i") if ref.name == "get_mut" else lt(I(0), vlen(v), "i")
    out = []
    s = st.assume(c, 1)
    if s is not None:
        out.append(Lf(s, some(mk("ptr", p.a[0], p.a[1] + (("i", i),)))))
    s = st.assume(c, 0)
    if s is not None:
        out.append(Lf(s, NONE))
    return out


@fn("slice::split_at", "slice::split_first", "slice::split_last")
def _split_at(ev, st, ref, args):
    v = ev.deref(st, args[0])
    n = vlen(v)
    if ref.name == "split_at":
        i = ev.deref(st, args[1])
        return R(st, tup(slice_(v, I(0), i), slice_(v, i, n)))
    out = []
    c = lt(I(0), n, "i")
    s = st.assume(c, 1)
    if s is not None:
        if ref.name == "split_first":
            out.append(Lf(s, some(tup(index(v, I(0)), slice_(v, I(1), n)))))
        else:
            out.append(Lf(s, some(tup(index(v, psub(n, I(1))), slice_(v, I(0), psub(n, I(1)))))))
    s = st.assume(c, 0)
    if s is not None:
        out.append(Lf(s, NONE))
    return out


@fn("slice::contains", "Vec::contains")
def _vcontains(ev, st, ref, args):
    v = ev.deref(st, args[0])
    x = ev.deref(st, args[1])
    return R(st, nonempty(bind(viter(v), lambda y: case([((lit(eq(y, x), 1),), one(UNIT))]))))


@fn("slice::iter_concat")
def _vopaque(ev, st, ref, args):
    return R(st, mk("unk", ref.name, *[ev.deref(st, a) for a in args]))


@fn("slice::concat")
def _concat(ev, st, ref, args):
    v = ev.deref(st, args[0])
    return R(st, vec(bind(_iter_of(ev, st, ref, args), lambda y: viter(ev.deref(st, y)))))


@fn("slice::windows", "slice::chunks", "slice::chunks_exact")
def _windows(ev, st, ref, args):
    v, k = ev.deref(st, args[0]), ev.deref(st, args[1])
    if k.op == "int" and k.a[0] == 0:
        return [panic(st, "size 0")]
    t = fresh_bv()
    n = vlen(v)
    if ref.name == "windows":
        return SV(st, mkfor(t, mk("range", I(0), psub(padd(n, I(1)), k)), one(slice_(v, t, padd(t, k)))))
    lo = pmul(t, k)
    if ref.name == "chunks":
        return SV(st, mkfor(t, mk("range", I(0), app("divceil", n, k)), one(slice_(v, lo, MIN2(n, padd(lo, k))))))
    return SV(st, mkfor(t, mk("range", I(0), rebuild("app", ("div", n, k))), one(slice_(v, lo, padd(lo, k)))))


@fn("slice::binary_search", "slice::binary_search_by", "slice::binary_search_by_key", "slice::partition_point")
def _bsearch(ev, st, ref, args):
    """of a slice in the order searched; where it is not, the result is not specified"""
    v = ev.deref(st, args[0])
    if ref.name == "binary_search":
        return R(st, app("bsearch", v, ev.deref(st, args[1])))
    x = fresh_bv()
    l = lam([x], pure_case(ev, st, pure_call(ev, st, args[-1], x), lambda l: w_one(ev, l, x)))
    if ref.name == "binary_search_by_key":
        return R(st, app("bsearch_key", v, ev.deref(st, args[1]), l))
    return R(st, app("bsearch_by" if ref.name == "binary_search_by" else "partition", v, l))


@fn("num::ilog", "num::ilog2", "num::ilog10", "num::checked_ilog", "num::checked_ilog2", "num::checked_ilog10", "num::isqrt")
def _ilog(ev, st, ref, args):
    a = ev.deref(st, args[0])
    if ref.name == "isqrt":
        return R(st, app("isqrt", a))
    b = ev.deref(st, args[1]) if ref.name.endswith("ilog") else I(2) if ref.name.endswith("2") else I(10)
    return R(st, app("ilog_opt" if ref.name.startswith("checked") else "ilog", a, b))


@fn("f64::ln", "f64::log", "f64::log2", "f64::log10", "f64::sqrt", "f64::floor", "f64::ceil", "f64::round", "f64::trunc", "f64::powi",
    "f64::powf", "f64::exp", "f64::abs", "f64::hypot", "f64::fract", "f64::signum", "f64::cbrt")
def _fmath(ev, st, ref, args):
    return R(st, app("fmath:" + ref.name, *[ev.deref(st, a) for a in args]))


@fn("iter::successors", "successors::successors")
def _successors(ev, st, ref, args):
    x = fresh_bv()
    l = lam([x], pure_case(ev, st, pure_call(ev, st, args[1], x), lambda l: w_one(ev, l, x)))
    t = fresh_bv()
    return SV(st, mkfor(t, mk("elems", app("successors", ev.deref(st, args[0]), l, args[1])), one(t)))


def successors(S):
    """(first, next) of a stream of successors"""
    if S.op == "for" and S.a[1].op == "elems" and S.a[1].a[0].op == "app" and S.a[1].a[0].a[0] == "successors" \
            and S.a[2].op == "one" and S.a[2].a[0] is S.a[0]:
        return S.a[1].a[0].a[1], S.a[1].a[0].a[3]
    return None


def take_successors(ev, st, first, nxt, pred):
    """successors(first, next).take_while(pred): an unfold"""
    import loops
    cur = loops.fresh_cell("acc")
    st = st.copy()
    st.cells[cur] = first

    def step(s):
        out = []
        for s1, x in split(ev, s, s.cells[cur]):
            if x is None:
                out.append(Lf(s1, NONE))
                continue
            for l in call(ev, s1, pred, x):
                if l.kind != "ret":
                    out.append(l)
                    continue
                for s2, yes in bool_cases(ev, l.st, l.val):
                    if not yes:
                        out.append(Lf(s2, NONE))
                        continue
                    for l2 in call(ev, s2, nxt, x):
                        if l2.kind == "ret":
                            l2.st.cells[cur] = ev.deref(l2.st, l2.val)
                            out.append(Lf(l2.st, some(x)))
                        else:
                            out.append(l2)
        return out
    return loops._unfold(ev, st, step, forced=[(cur, ())])


# ------------------------------------------------------------------ maps, sets, heaps
def map_get(m, k):
    """lookup in an accumulated map when decidable"""
    if m.op == "acc" and m.a[0] == "map":
        parts = m.a[2].a if m.a[2].op == "seq" else (m.a[2],)
        if parts and parts[-1].op == "one":
            kv = parts[-1].a[0]
            if field(kv, "", 0) is k:
                return some(field(kv, "", 1))
    if m is EMPTYMAP:
        return NONE
    return app("get", m, k)


@fn("HashMap::get", "HashMap::contains_key", "BTreeMap::get", "BTreeMap::contains_key", "HashMap::get_mut",
    "HashMap::remove", "HashMap::get_key_value")
def _mget(ev, st, ref, args):
    m, k = ev.deref(st, args[0]), ev.deref(st, args[1])
    o = map_get(m, k)
    if ref.name == "contains_key":
        return R(st, discr(o, 2))
    if ref.name == "remove":
        upd(ev, st, args[0], acc("map", m, one(mk("del", k))))
        return R(st, o)
    if ref.name in ("get_mut", "get_key_value"):
        return R(st, unk(ref.name, m, k))
    return R(st, o)


@fn("HashMap::insert", "BTreeMap::insert")
def _minsert(ev, st, ref, args):
    m, k, v = ev.deref(st, args[0]), ev.deref(st, args[1]), ev.freeze(st, args[2])
    upd(ev, st, args[0], acc("map", m, one(tup(k, v))))
    return R(st, app("get", m, k))


ENTRYT = "std::map::Entry"


@fn("HashMap::entry")
def _entry(ev, st, ref, args):
    return R(st, mk("ctor", ENTRYT, "Entry", args[0], ev.deref(st, args[1])))


@fn("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def _orins(ev, st, ref, args):
    e = args[0]
    if not is_ctor(e, ENTRYT):
        return None
    p, k = e.a[2], e.a[3]
    m = ev.deref(st, p)
    out = []
    for s, x in split(ev, st, map_get(m, k)):
        if x is not None:
            out.append(Lf(s, x))
            continue
        if ref.name == "or_insert":
            ls = R(s, args[1])
        elif ref.name == "or_insert_with":
            ls = call(ev, s, args[1])
        else:
            ls = R(s, unk("default"))
        for l in ls:
            if l.kind == "ret":
                s2 = l.st.copy()
                m2 = ev.deref(s2, p)
                v = ev.freeze(s2, l.val)
                upd(ev, s2, p, acc("map", m2, one(tup(k, v))))
                out.append(Lf(s2, v))
            else:
                out.append(l)
    return out


@fn("Entry::and_modify")
def _andmod(ev, st, ref, args):
    import loops
    e = args[0]
    if not is_ctor(e, ENTRYT):
        return None
    p, k = e.a[2], e.a[3]
    out = []
    for s, x in split(ev, st, map_get(ev.deref(st, p), k)):
        if x is None:
            out.append(Lf(s, e))
            continue
        slot = loops.fresh_cell("slot")
        s = s.copy()
        s.cells[slot] = x
        for l in call(ev, s, args[1], mk("ptr", slot, ())):
            if l.kind == "ret":
                s2 = l.st.copy()
                v = ev.freeze(s2, s2.cells[slot])
                if v is not x:
                    upd(ev, s2, p, acc("map", ev.deref(s2, p), one(tup(k, v))))
                l = Lf(s2, e)
            out.append(l)
    return out


@fn("HashSet::retain", "BTreeSet::retain", "BinaryHeap::retain")
def _sretain(ev, st, ref, args):
    s = ev.deref(st, args[0])
    p = norm_path(ref.path)
    S = _iter_of(ev, st, ref, args)
    mkc = (lambda x: acc("bh", EMPTYBH, x)) if "BinaryHeap" in p else (lambda x: acc("set", EMPTYSET, x))
    r = elementwise(ev, st, S, args[1], w_filter)
    if not isinstance(r, tuple):
        upd(ev, st, args[0], mkc(r))
        return R(st, UNIT)
    out = []
    for l in effectful(ev, st, ref, S, args[1], w_filter):
        if l.kind == "ret":
            upd(ev, l.st, args[0], mkc(l.val.a[0]))
            l = Lf(l.st, UNIT)
        out.append(l)
    return out


@fn("HashMap::retain", "BTreeMap::retain")
def _mretain(ev, st, ref, args):
    import loops
    S = _iter_of(ev, st, ref, args)
    slot = loops.fresh_cell("slot")

    def g(x):
        s = st.copy()
        s.cells[slot] = field(x, "", 1)
        ls = call(ev, s, args[1], field(x, "", 0), mk("ptr", slot, ()))
        if effects(ev, st, ls):
            from engine import Undecided
            raise Undecided("a closure that changes state where a function is expected")
        return pure_case(ev, s, ls, lambda l: case([((lit(ev.deref(l.st, l.val), 1),), one(tup(field(x, "", 0), l.st.cells[slot])))]))
    upd(ev, st, args[0], acc("map", EMPTYMAP, bind(S, g)))
    return R(st, UNIT)


@fn("Rc::strong_count", "Arc::strong_count", "Rc::weak_count", "Arc::weak_count")
def _refcount(ev, st, ref, args):
    return R(st, app("refcount", mk("str", ref.name), ev.deref(st, args[0])))


@fn("HashSet::insert", "BTreeSet::insert", "HashSet::replace")
def _sinsert(ev, st, ref, args):
    s, x = ev.deref(st, args[0]), ev.freeze(st, args[1])
    upd(ev, st, args[0], acc("set", s, one(x)))
    return R(st, neg(app("contains", s, x)))


@fn("HashSet::remove", "BTreeSet::remove", "HashSet::take")
def _sremove(ev, st, ref, args):
    s, x = ev.deref(st, args[0]), ev.deref(st, args[1])
    upd(ev, st, args[0], acc("set", s, one(mk("del", x))))
    return R(st, app("contains", s, x))


@fn("HashSet::contains", "BTreeSet::contains")
def _scontains(ev, st, ref, args):
    s, x = ev.deref(st, args[0]), ev.deref(st, args[1])
    return R(st, app("contains", s, x))


# ------------------------------------------------------------------ petgraph
@fn("Graph::new", "Graph::new_undirected", "Graph::with_capacity")
def _pgnew(ev, st, ref, args):
    return R(st, app("pg:new", mk("str", "undirected" if "undirected" in ref.name or any(
        str(ref.types(ev.prog)[t].get("adt", "")).endswith("::Undirected") for t in ref.d.get("targs") or [] if isinstance(t, int)) else "directed")))


@fn("Graph::add_node")
def _pgnode(ev, st, ref, args):
    g = ev.deref(st, args[0])
    upd(ev, st, args[0], app("pg:addnode", g))
    return R(st, app("pg:nodes", g))


@fn("Graph::node_count")
def _pgcount(ev, st, ref, args):
    return R(st, app("pg:nodes", ev.deref(st, args[0])))


@fn("Graph::add_edge", "Graph::update_edge")
def _pgedge(ev, st, ref, args):
    g, a, b, w = [ev.deref(st, x) for x in args]
    if ref.name == "update_edge":
        upd(ev, st, args[0], app("pg:update", g, a, b, w))
    else:
        upd(ev, st, args[0], app("pg:extend", g, vec(one(tup(a, b, w)))))
    return R(st, app("pg:edgeidx", g))


@fn("Graph::extend_with_edges", "Graph::from_edges")
def _pgextend(ev, st, ref, args):
    S = stream(ev, st, args[-1])
    if ref.name == "from_edges":
        return R(st, app("pg:extend", app("pg:new", mk("str", "directed")), vec(S)))
    upd(ev, st, args[0], app("pg:extend", ev.deref(st, args[0]), vec(S)))
    return R(st, UNIT)


@fn("NodeIndex::new", "NodeIndex::index", "EdgeReference::weight", "EdgeReference::source", "EdgeReference::target")
def _pgidx(ev, st, ref, args):
    v = ev.deref(st, args[0])
    if ref.name == "new":                 # stored as u32
        v = ev.intcast(st, {"body": {"id": "petgraph::graph::NodeIndex::new"}}, v, "usize", "u32")
    i = {"weight": 2, "source": 0, "target": 1}.get(ref.name)
    return R(st, v if i is None else field(v, "", i))


@fn("Graph::edges", "Graph::edges_directed", "Graph::neighbors", "Graph::neighbors_directed", "Graph::edge_references")
def _pgout(ev, st, ref, args):
    g, n = ev.deref(st, args[0]), ref.name
    x = fresh_bv()
    if n == "edge_references":
        return R(st, mk("stream", mkfor(x, mk("elems", app("pg:edges", g)), one(x))))
    d = ev.deref(st, args[2]) if len(args) > 2 else app("pg:outgoing")
    S = mk("elems", app("pg:around", g, ev.deref(st, args[1]), d))
    return R(st, mk("stream", mkfor(x, S, one(x if n.startswith("edges") else field(x, "", 3)))))


@fn("Graph::find_edge", "Graph::contains_edge")
def _pgfind(ev, st, ref, args):
    vs = [ev.deref(st, a) for a in args]
    if ref.name == "contains_edge":
        return R(st, app("pg:contains", *vs))
    return None


@tr("EdgeRef.weight", "EdgeRef.source", "EdgeRef.target")
def _pgref(ev, st, ref, args):
    return _pgidx(ev, st, ref, args)


@fn("algo::dijkstra", "dijkstra::dijkstra")
def _dijkstra(ev, st, ref, args):
    g = ev.deref(st, args[0])
    x = fresh_bv()
    ls = pure_call(ev, st, args[3], x)
    body = pure_case(ev, st, ls, lambda l: one(tup(field(x, "", 0), field(x, "", 1), ev.deref(l.st, l.val))))
    return R(st, app("pg:dijkstra", g, vec(mkfor(x, mk("elems", app("pg:edges", g)), body)), ev.deref(st, args[1]), ev.deref(st, args[2])))


@fn("BinaryHeap::push")
def _hpush(ev, st, ref, args):
    h = ev.deref(st, args[0])
    upd(ev, st, args[0], acc("bh", h, one(ev.freeze(st, args[1]))))
    return R(st, UNIT)


@fn("BinaryHeap::pop", "BinaryHeap::peek")
def _hpop(ev, st, ref, args):
    h = ev.deref(st, args[0])
    if h is EMPTYBH:
        return R(st, NONE)
    if ref.name == "pop":
        upd(ev, st, args[0], app("hrest", h))
    return R(st, app("hpop", h))


PEEKT = "std::PeekMut"


@fn("BinaryHeap::peek_mut")
def _hpeekmut(ev, st, ref, args):
    h = ev.deref(st, args[0])
    if h is EMPTYBH:
        return R(st, NONE)
    return [Lf(s, NONE if x is None else some(mk("ctor", PEEKT, "PeekMut", args[0]))) for s, x in split(ev, st, app("hpop", h))]


@fn("PeekMut::pop")
def _peekpop(ev, st, ref, args):
    if not is_ctor(args[0], PEEKT):
        return None
    p = args[0].a[2]
    h = ev.deref(st, p)
    out = []
    for s, x in split(ev, st, app("hpop", h)):
        if x is not None:
            s = s.copy()
            upd(ev, s, p, app("hrest", h))
            out.append(Lf(s, x))
    return out


@fn("BinaryHeap::append")
def _happend(ev, st, ref, args):
    h, g = ev.deref(st, args[0]), ev.deref(st, args[1])
    x = fresh_bv()
    S = g.a[2] if g.op == "acc" and g.a[1] is EMPTYBH else mkfor(x, mk("elems", g), one(x))
    upd(ev, st, args[0], acc("bh", h, S))
    upd(ev, st, args[1], EMPTYBH)
    return R(st, UNIT)


# ------------------------------------------------------------------ next
@tr("Iterator.next")
def _next(ev, st, ref, args):
    v = ev.deref(st, args[0])
    if v.op == "ctor" and v.a[0] in ev.prog.adts:
        return None          # local iterator: evaluate its body
    return next_on(ev, st, args[0])


@fn("Peekable::peek")
def _peek(ev, st, ref, args):
    v = ev.deref(st, args[0])
    if v.op == "ctor" and v.a[0] in ev.prog.adts:
        return None
    return next_on(ev, st, v)


@fn("Peekable::next_if", "Peekable::next_if_eq")
def _next_if(ev, st, ref, args):
    v = ev.deref(st, args[0])
    if v.op == "ctor" and v.a[0] in ev.prog.adts:
        return None
    out = []
    for l in next_on(ev, st.copy(), v):
        if l.kind != "ret":
            out.append(l)
            continue
        x = field(l.val, "Some", 0)
        s = l.st.assume(discr(l.val, 2), 0)
        if s is not None:
            out.append(Lf(s, NONE))
        s = l.st.assume(discr(l.val, 2), 1)
        if s is None:
            continue
        ls = call(ev, s, args[1], x) if ref.name == "next_if" else R(s, eq(x, ev.deref(s, args[1])))
        for k in ls:
            if k.kind != "ret":
                out.append(k)
                continue
            c = ev.deref(k.st, k.val)
            s0 = k.st.assume(c, 0)
            if s0 is not None:
                out.append(Lf(s0, NONE))
            s1 = k.st.assume(c, 1)
            if s1 is not None:
                out += next_on(ev, s1.copy(), args[0])
    return out


def next_on(ev, st, p):
    v = ev.deref(st, p)
    q = p
    while q.op == "ptr":
        w = ev.readcell(st, q.a[0], q.a[1])
        if w.op != "ptr":
            break
        q = w
    if v.op == "stream":
        S = v.a[0]
        if S.op == "empty":
            return R(st, NONE)
        if S.op == "one" or (S.op == "seq" and S.a[0].op == "one"):
            rest = EMPTY if S.op == "one" else seq(*S.a[1:])
            if q.op == "ptr":
                ev.writecell(st, q.a[0], q.a[1], mk("stream", rest))
            return R(st, some((S if S.op == "one" else S.a[0]).a[0]))
        if q.op == "ptr":
            ev.writecell(st, q.a[0], q.a[1], mk("stream", mk("tailof", S)))
        return R(st, mk_headopt(S))
    if v.op == "ctor" and v.a[0] == RANGE:
        lo, hi = v.a[2], v.a[3]
        out = []
        s = st.assume(lt(lo, hi, "i"), 1)
        if s is not None:
            s = s.copy()
            if q.op == "ptr":
                ev.writecell(s, q.a[0], q.a[1], mk("ctor", RANGE, "Range", padd(lo, I(1)), hi))
            out.append(Lf(s, some(lo)))
        s = st.assume(lt(lo, hi, "i"), 0)
        if s is not None:
            out.append(Lf(s, NONE))
        return out
    if v in ev.phi_stream:
        S = ev.phi_stream[v]
        d = mk("discr2", app("nextitem", v))
        pos = app("pos", v)
        out = []
        s = st.assume(d, 1)
        if s is not None:
            if S.a[1].op == "range":
                s = s.assume(lt(pos, S.a[1].a[1], "i"), 1)
        if s is not None:
            if q.op == "ptr":
                ev.writecell(s, q.a[0], q.a[1], app("adv", v))
            out.append(Lf(s, some(subst(S.a[2].a[0], {S.a[0]: pos}))))
        s = st.assume(d, 0)
        if s is not None:
            if q.op == "ptr":
                ev.writecell(s, q.a[0], q.a[1], app("adv", v))
            out.append(Lf(s, NONE))
        return out
    if q.op == "ptr":
        ev.writecell(st, q.a[0], q.a[1], app("adv", v))
    return R(st, app("nextitem", v))


# ------------------------------------------------------------------ functions, formatting, misc
@tr("Fn.call", "FnMut.call_mut", "FnOnce.call_once")
def _fncall(ev, st, ref, args):
    f = args[0]
    t = args[1]
    if t.op == "unit":
        xs = []
    elif t.op == "ctor" and t.a[0] == "tuple":
        xs = list(t.a[2:])
    else:
        try:
            n = len(ref.targ(ev.prog, 1)["args"])
        except (KeyError, IndexError, TypeError, AttributeError):
            n = 1
        t = ev.deref(st, t)
        xs = [field(t, "", i) for i in range(n)] if n > 1 else [field(t, "t1", 0)]
    return ev.call_value(st, f, xs)


def _ignore(ev, st, ref, args):
    return R(st, UNIT)


for _n in ("io::_print", "io::_eprint", "__private_api::log", "stdio::_print", "stdio::_eprint"):
    FUNC[_n] = lambda ev, st, ref, args: _log(ev, st, ref, args)


def _log(ev, st, ref, args):
    st.note("print", ref.path, tuple(ev.deref(st, a) for a in args))
    return R(st, UNIT)


@fn("Arguments::new", "Arguments::from_str", "Arguments::from_str_nonconst", "Argument::new_debug",
    "Argument::new_display", "Arguments::new_const", "Arguments::new_v1", "rt::Argument::new_display",
    "__private_api::loc", "Argument::new_lower_exp", "fmt::format", "Argument::new_lower_hex")
def _fmt(ev, st, ref, args):
    return R(st, app("fmt:" + ref.name, *[ev.deref(st, a) for a in args]))


STDOUT = ("io", "stdout")


@fn("io::_print", "stdio::_print")
def _print(ev, st, ref, args):
    if STDOUT in st.cells:
        st.cells[STDOUT] = append(st.cells[STDOUT], one(ev.freeze(st, args[0])))
        return R(st, UNIT)
    return None


CSVOPT = ("delimiter", "comment", "flexible", "quoting", "double_quote", "escape", "quote", "trim", "buffer_capacity", "ascii")


@fn(*["ReaderBuilder::" + n for n in CSVOPT] + ["ReaderBuilder::new", "ReaderBuilder::has_headers", "ReaderBuilder::from_reader", "Reader::records", "Reader::into_records", "Reader::deserialize", "Reader::into_deserialize", "Reader::from_reader",
    "io::stdin", "stdio::stdin", "env::args"])
def _csv(ev, st, ref, args):
    vs = [ev.deref(st, a) for a in args]
    n = ref.name
    if n == "new":
        return R(st, app("csv:new"))
    if n == "has_headers":
        t = app("csv:headers", *vs)
        if args[0].op == "ptr":
            upd(ev, st, args[0], t)
            return R(st, args[0])
        return R(st, t)
    if n in CSVOPT:
        if len(vs) != 2:
            return None
        t = app("csv:option", mk("str", n), *vs)
        if args[0].op == "ptr":
            upd(ev, st, args[0], t)
            return R(st, args[0])
        return R(st, t)
    if n == "from_reader":
        return R(st, app("csv:reader", *([app("csv:new")] + vs if len(vs) == 1 else vs)))
    if n in ("records", "into_records"):
        return R(st, app("csv:records", vs[0]))
    if n in ("deserialize", "into_deserialize"):
        t = ref.types(ev.prog)[ref.d["targs"][-1]]
        return R(st, app("csv:records", vs[0])) if re.search(r"Vec<f64>$", t["s"]) else None
    return R(st, app(n))


@fn("str::parse")
def _parse(ev, st, ref, args):
    t = ref.targ(ev.prog, 0)
    s = t["s"] if t and t["k"] == "prim" else ""
    if s == "f32" or s in INTS:
        return R(st, app("parse", ev.deref(st, args[0]), mk("str", s)))
    return R(st, app("parse", ev.deref(st, args[0])))


@fn("Stdin::lock")
def _lock(ev, st, ref, args):
    return R(st, ev.deref(st, args[0]))


@fn("log::max_level")
def _lvl(ev, st, ref, args):
    return R(st, ctor("log::LevelFilter", "Off"))


@fn("panicking::panic_fmt", "panicking::panic", "rt::panic_fmt", "panicking::assert_failed", "panicking::unreachable_display",
    "panicking::panic_display", "option::unwrap_failed", "option::expect_failed", "result::unwrap_failed",
    "rt::begin_panic", "process::exit", "process::abort", "panicking::panic_explicit")
def _panic(ev, st, ref, args):
    return [panic(st)]


@fn("const_ptr::cast", "mut_ptr::cast", "const_ptr::cast_mut", "mut_ptr::cast_const")
def _cast(ev, st, ref, args):
    types = ref.types(ev.prog)
    t = ref.d["targs"]
    if len(t) >= 2:
        return R(st, ev.ptrcast(ev.deref(st, args[0]), types, t[0], t[1]))
    return None


@fn("ptr::from_ref", "ptr::from_mut", "ptr::addr_of")
def _fromref(ev, st, ref, args):
    return R(st, args[0])


@fn("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec", "boxed::into_vec", "Vec::into_boxed_slice")
def _outofbox(ev, st, ref, args):
    return R(st, ev.deref(st, args[0]))


@fn("Box::new_uninit")
def _boxuninit(ev, st, ref, args):
    ev.fid += 1
    key = ("box", ev.fid)
    st.cells[key] = unk("uninit")
    return R(st, mk("ptr", key, ()))


@fn("process::id", "Instant::now", "SystemTime::now", "thread_rng", "random")
def _nondet(ev, st, ref, args):
    return R(st, unk("nondet " + ref.path))
