"""Recursive functions: calls in a concrete interpretation follow the extracted body of the function, call by call."""
from terms import sym, mk
from facts import NONNEG_ATOMS
from engine import State
from interp import Interp, Opaque, Panics, norm, active

UNSIGNED = ("usize", "u8", "u16", "u32", "u64")


class Follower(object):
    def __init__(self, ctx, deepest=400):
        self.ctx, self.sums, self.memo, self.depth, self.deepest = ctx, {}, {}, 0, deepest

    def summary(self, r):
        """-> leaves of the body, symbols of the arguments, {position: name} of the arguments passed by mutable reference"""
        if r not in self.sums:
            d = self.ctx.prog.bodies.get(r)
            if d is None:
                raise Opaque("recursive call")
            self.sums[r] = None
            st, args, syms, muts = State(), [], [], {}
            for i in range(d["args"]):
                t = d["types"][d["locals"][i + 1]]
                x = sym("$arg%d of %s" % (i, r))
                if t["s"] in UNSIGNED:
                    NONNEG_ATOMS.add(x)
                if t["k"] == "ref" and t.get("mut"):
                    muts[i] = "$arg%d" % i
                    st.cells[("ext", muts[i])] = x
                    args.append(mk("ptr", ("ext", muts[i]), ()))
                else:
                    args.append(x)
                syms.append(x)
            _, ls = self.ctx.summary(r, args=args, st=st)
            self.sums[r] = (ls, syms, muts)
        if self.sums[r] is None:
            raise Opaque("recursive call")
        return self.sums[r]

    def call(self, I, r, vs):
        key = (r, id(I.funcs), tuple(norm(v) for v in vs))
        if key in self.memo:
            return self.memo[key][0]
        ls, syms, muts = self.summary(r)
        if self.depth > self.deepest:
            raise Opaque("deep recursion")
        self.depth += 1
        try:
            J = Interp(I.seed, I.D, dict(zip(syms, vs)), funcs=I.funcs)
            hit = active(J, ls)
            if hit == "panic":
                raise Panics("panics")
            if hit is None:
                raise Opaque("no result of a recursive call")
            l = hit[0]
            got = (J.val(l.val), {i: J.val(l.st.cells[("ext", muts[i])]) if i in muts else vs[i] for i in range(len(vs))})
        finally:
            self.depth -= 1
        if len(self.memo) > 100000:
            self.memo.clear()
        self.memo[key] = (got, I.funcs)
        return got
