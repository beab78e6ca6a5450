"""Context for the rules: locating the public anchors in the dumped program, summarising functions, collecting obligations."""
import sys, traceback
sys.setrecursionlimit(20000)
from terms import *
from mir import Program
from engine import Ev, State, Leaf, FnRef, Undecided
import models, loops
from interp import *
import interp

ITER = "core::iter::traits::iterator::Iterator"
M = "phlite::matrices::"
ENTRY = "phlite::columns::ColumnEntry"
REVERSE = "core::cmp::Reverse"

PROVED, ENUM, RI, INV, VIOL, UNDEC, OK = "normal form", "finite domain", "random interpretation", "inductive invariant", "violation", "undecided", "rule"


class Ob(object):
    def __init__(self, prop, name, at, status, detail=""):
        self.prop, self.name, self.at, self.status, self.detail = prop, name, at, status, detail

    def key(self):
        return "%s/%s" % (self.prop, self.name)


class Missing(Exception):
    pass


class TimeUp(Exception):
    pass


def deadline(secs):
    """what is not decided by then stays undecided"""
    import signal

    def up(*_):
        raise TimeUp()
    signal.signal(signal.SIGALRM, up)
    signal.alarm(secs)


class Ctx(object):
    def __init__(self, prog, thorough=False):
        self.prog = prog
        self.obs = []
        self.thorough = thorough
        self.prop = None
        self.analysed = set()
        self.inlined = set()
        self.externals = set()
        self.modelled = set()
        self.samples = 0
        self.built = {}            # constructor -> its summary
        self.missing = []
        self.late = False
        import follow
        interp.FOLLOW = follow.Follower(self).call
        interp.VARIANTS.clear()
        for a in prog.adts.values():
            if a["kind"] == "enum":
                for i, v in enumerate(a["variants"]):
                    interp.VARIANTS[v["name"]] = i if interp.VARIANTS.get(v["name"], i) == i else None

    # ------------------------------------------------------------ anchors
    def method(self, trait, adt, name, self_pred=None, default=True):
        """body implementing trait method `name` for type `adt` (ids), or the trait's default body"""
        prog = self.prog
        c = []
        for im in prog.impls_of(trait):
            t = prog.self_ty(im)
            if t["k"] == "adt" and t["adt"] == adt and (self_pred is None or self_pred(t, im)):
                c.append(im)
        if not c:
            raise Missing("no implementation of %s for %s" % (trait, adt))
        if len(c) > 1:
            raise Missing("ambiguous implementation of %s for %s" % (trait, adt))
        im = c[0]
        b = im["items"].get(name)
        if b in prog.bodies:
            return b
        if default:
            it = prog.traits.get(trait, {}).get(name)
            if it and it["id"] in prog.bodies:
                return it["id"]
        raise Missing("no body for %s::%s of %s" % (trait, name, adt))

    def inherent(self, adt, name, self_pred=None):
        c = []
        for im in self.prog.impls:
            if im.get("trait"):
                continue
            t = self.prog.self_ty(im)
            if t["k"] == "adt" and t["adt"] == adt and name in im["items"] and (self_pred is None or self_pred(t, im)):
                c.append(im["items"][name])
        if len(c) != 1 or c[0] not in self.prog.bodies:
            raise Missing("no method %s of %s" % (name, adt))
        return c[0]

    def free(self, path):
        if path in self.prog.bodies:
            return path
        raise Missing("no function " + path)

    def find_free(self, crate, name):
        """public free function by name anywhere in a crate"""
        c = [b for b, d in self.prog.bodies.items() if d["crate"].split(".")[0] == crate and b.split("::")[-1] == name
             and not d.get("impl") and d["kind"] == "fn"]
        if len(c) != 1:
            raise Missing("no function %s in %s" % (name, crate))
        return c[0]

    def adt(self, crate, name):
        c = [a for a in self.prog.adts if a.split("::")[0] == crate and a.split("::")[-1] == name]
        if len(c) != 1:
            raise Missing("no type %s in %s" % (name, crate))
        return c[0]

    def fieldname(self, adt, pred):
        """position of the only field of a struct whose type satisfies pred(type, types)"""
        ad = self.prog.adts[adt]
        c = [i for i, f in enumerate(ad["variants"][0]["fields"]) if pred(ad["types"][f["ty"]], ad["types"])]
        if len(c) != 1:
            raise Missing("field of " + adt)
        return c[0]

    def at(self, bid):
        return self.prog.bodies[bid].get("at") if bid in self.prog.bodies else bid

    # ------------------------------------------------------------ summaries
    def ev(self, **k):
        e = Ev(self.prog, **k)
        e.budget = 400000 if self.thorough else 150000
        return e

    def summary(self, bid, names=None, setup=None, args=None, opaque=(), ev=None, st=None):
        ev = ev or self.ev(opaque=opaque)
        if setup:
            setup(ev)
        self.analysed.add(bid)
        st = st or State()
        if callable(args):
            args = args(ev, st)
        n0 = len(ev.subs)
        leaves = interp.Leaves(ev.run(bid, args=args, st=st, names=names))
        leaves.subs = interp.relevant(ev.subs[n0:])
        self.inlined |= ev.inlined
        self.externals |= ev.external
        self.modelled |= ev.modelled
        return ev, leaves

    # ------------------------------------------------------------ obligations
    def add(self, name, at, status, detail=""):
        self.obs.append(Ob(self.prop, name, at, status, detail))

    def require(self, name, at, cond, detail=""):
        """structural rule: cond True (holds) / False (violated) / None (not decided)"""
        self.add(name, at, OK if cond else UNDEC if cond is None else VIOL, detail if not cond else "")

    def guarded(self, name, f, at=None):
        """run one rule; anything it does not understand is undecided"""
        if self.late:
            self.add(name, at, UNDEC, "out of time")
            return None
        try:
            return f()
        except (Undecided, Opaque, Undef) as e:
            self.add(name, at, UNDEC, "%s: %s" % (type(e).__name__, e))
        except Missing as e:
            self.missing.append("%s: %s" % (name, e))
            self.add(name, at, UNDEC, "missing: %s" % e)
        except RecursionError as e:
            self.add(name, at, UNDEC, "recursion")
        except TimeUp:
            self.late = True
            self.add(name, at, UNDEC, "out of time")
        except Exception as e:
            self.add(name, at, UNDEC, "internal: %s: %s %s" % (type(e).__name__, e, traceback.format_exc().splitlines()[-3:]))

    def fallback(self, name, at, first, second):
        """first: an inductive argument; where it does not establish its obligations (the loop may be written in another way than
        the argument expects) second decides the function as a whole by following the extracted loop transitions"""
        keep = self.obs
        self.obs = mine = []
        try:
            self.guarded(name, first, at)
        finally:
            self.obs = keep
        if mine and all(o.status not in (VIOL, UNDEC) for o in mine):
            self.obs += mine
            return
        self.guarded(name, second, at)

    def equal(self, name, bid, leaves, spec, out=None, **kw):
        """summary of bid equals spec.  spec: a term, or a list of (lits, term), or None where unconstrained"""
        at = self.at(bid)
        out = out or (lambda l: l.val)
        if isT(spec):
            spec = [((), spec)]
        # normal form
        rets = [l for l in leaves if l.kind == "ret"]
        if not callable(spec) and self.same(rets, spec, out):
            self.add(name, at, PROVED)
            return True
        memo = {}

        def sp(I):
            if callable(spec):
                return spec(I)
            for ls, t in spec:
                if I.lits(ls):
                    return I.val(t) if t is not None else None
            return None
        kw.setdefault("n", 600 if self.thorough else 200)
        finite = kw.pop("finite", False)
        if finite:
            kw["long"] = False
        if interp.TRACE is not None:
            interp.TRACE["$name"] = name
        v = compare(leaves, sp, out=out, **kw)
        self.samples += v.samples
        if v.status == EQ:
            self.add(name, at, ENUM if finite and v.samples >= kw["n"] else RI, "%d interpretations" % v.samples)
            return True
        if v.status == NE:
            g = " when " + " and ".join(showlit(x) for x in v.leaf.st.facts.lits) if v.leaf is not None and v.leaf.st.facts.lits else ""
            self.add(name, at, VIOL, (v.detail + g)[:1500])
            return False
        self.add(name, at, UNDEC, v.detail)
        return None

    def steps(self, name, bid, rec, leaves, sample, good, denote, out, roles, measure=None, funcs=None, eq=None):
        """functional loop invariant of a loop kept as a transition system: `denote` of the loop variables is
        preserved by every step and is what the loop leaves with; `good` holds of every reached state"""
        at = self.at(bid)
        n = 600 if self.thorough else 200
        checked = 0
        eq = eq or eqv

        def indices():
            yield from range(interp.SEED, interp.SEED + n)
            steps = [Leaf("ret", State(), x) for lits, nw, l in rec.conts for x in list(lits) + list(nw.values()) if isT(x)]
            yield from interp.thresholds(list(leaves) + steps, None, interp.SEED + n, each=150)
        for k in indices():
            s = sample(k)
            if s is None:
                continue
            fixed, vals = s
            I = Interp(k, 7, dict(fixed), funcs=funcs)
            for r, ph in roles.items():
                I.fixed[ph] = vals[r]
            if not good(I, vals):
                continue
            want = denote(I, vals)
            taken = False
            for lits, nw, l in rec.conts:
                try:
                    if not I.lits(lits):
                        continue
                    new = dict(vals)
                    for r, ph in roles.items():
                        new[r] = I.val(nw[ph])
                except Undef:
                    continue
                taken = True
                if not good(I, new):
                    self.add(name, at, VIOL, "a step of the loop breaks its invariant: %s -> %s" % (pvals(vals), pvals(new)))
                    return False
                d = denote(I, new)
                if not eq(I, d, want):
                    self.add(name, at, VIOL, "a step of the loop changes the result: state %s stands for %s, next state %s for %s" % (
                        pvals(vals), pretty(want), pvals(new), pretty(d)))
                    return False
                if measure and not measure(vals, new):
                    self.add(name, at, VIOL, "a step of the loop makes no progress: %s" % pvals(vals))
                    return False
                checked += 1
            P = set(roles.values())
            for l in leaves:
                if l.kind != "ret" or not any(mentions(x, P) for x in l.st.facts.lits):
                    continue
                try:
                    if not I.lits(l.st.facts.lits):
                        continue
                    got = out(I, l)
                except Undef:
                    continue
                if taken:
                    self.add(name, at, UNDEC, "loop not understood")
                    return None
                if not eq(I, got, want):
                    self.add(name, at, VIOL, "leaves the loop with %s instead of %s, in state %s" % (pretty(got), pretty(want), pvals(vals)))
                    return False
                checked += 1
        self.samples += checked
        if checked < 20:
            self.add(name, at, UNDEC, "only %d steps understood" % checked)
            return None
        self.add(name, at, INV, "%d step interpretations" % checked)
        return True

    def same(self, rets, spec, out):
        for l in rets:
            hit = None
            for ls, t in spec:
                ds = [l.st.facts.decide_lit(x) for x in ls]
                if all(d is True for d in ds):
                    hit = t
                    break
                if any(d is False for d in ds):
                    continue
                return False
            if hit is None:
                return False
            if norm_term(l.st.facts.norm(out(l))) is not norm_term(l.st.facts.norm(hit)):
                return False
        return bool(rets)

    def equal_terms(self, name, at, a, b, **kw):
        l = Leaf("ret", State(), a)
        if a is b:
            self.add(name, at, PROVED)
            return True
        v = compare([l], lambda I: I.val(b), **kw)
        self.add(name, at, RI if v.status == EQ else VIOL if v.status == NE else UNDEC, v.detail)
        return v.status == EQ


def norm_term(t):
    """order of a stream does not matter for a column"""
    return t


def guards(l):
    return l.st.facts.lits


def understood(t):
    return not contains(t, lambda x: x.op == "unk")


def lets(*a):
    return list(a)


def mentions(t, P):
    return contains(t, lambda x: x in P)


def pvals(v):
    return ", ".join("%s=%s" % (k, pretty(x)) for k, x in sorted(v.items()) if is_num(x))


def eqv(I, a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eqv(I, x, y) for x, y in zip(a, b))
    return equal(I, a, b)


def vlist(xs):
    return (V, tuple(xs))


def slist(xs):
    return (ST, tuple(xs))


RULES = {}


def rule(pid):
    def w(f):
        RULES.setdefault(pid, []).append(f)
        return f
    return w
