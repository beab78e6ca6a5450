"""C22: several numbers packed into one key of a map or set.  The key is read off the summary of the function that fills the container;
it is a number in a mixed radix, and two different tuples of digits share a key when a digit can reach the weight of the next one."""
from rules.common import *
from rules.cast import Bound, public, callers, owner
from rules import heap

PACK = ("Shl", "ShlUnchecked", "Mul", "MulWithOverflow", "MulUnchecked", "BitOr", "BitXor")


def fills(ctx, bid):
    """functions that fill a keyed container with keys computed by shifting or multiplying"""
    def body(b):
        return [x for x, B in ctx.prog.bodies.items() if x == b or x.startswith(b + "::{closure")]
    mine = body(bid)
    if not any(k in str(blk["term"].get("f", {}).get("path", "")) + str(blk["term"].get("f", {}).get("name", ""))
               for b in mine for blk in ctx.prog.bodies[b]["blocks"] if isinstance(blk["term"].get("f"), dict)
               for k in ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "collect", "extend")):
        return False
    near = set(mine)
    for b in mine:
        for blk in ctx.prog.bodies[b]["blocks"]:
            f = blk["term"].get("f")
            for p in {f.get("resolved"), f.get("id")} if isinstance(f, dict) else ():
                near |= set(body(p)) if p in ctx.prog.bodies else set()
    return any((x.get("rv") or {}).get("r") == "bin" and x["rv"]["op"] in PACK
               for b in near if not b.startswith("phlite::fields::") for blk in ctx.prog.bodies[b]["blocks"] for x in blk["st"])


def inserted(t, scope=(), lits=()):
    """keys put into maps and sets: (key, binders, guards)"""
    seen, st = set(), [(t, scope, lits, None)]
    while st:
        x, sc, ls, kind = st.pop()
        if (x, sc, ls, kind) in seen:
            continue
        seen.add((x, sc, ls, kind))
        if x.op == "acc" and x.a[0] in ("map", "set"):
            st.append((x.a[1], sc, ls, None))
            st.append((x.a[2], sc, ls, x.a[0]))
        elif x.op == "one" and kind:
            k = x.a[0]
            if kind == "map":
                k = k.a[2] if k.op == "ctor" and len(k.a) > 3 else None
            if k is not None:
                yield k, sc, ls
        elif x.op == "for":
            st.append((x.a[1], sc, ls, None))
            st.append((x.a[2], sc + ((x.a[0], x.a[1]),), ls, kind))
        elif x.op == "case":
            for g, b in x.a:
                st.append((b, sc, ls + tuple(g), kind))
        else:
            for y in subterms(x):
                st.append((y, sc, ls, kind if x.op == "seq" else None))


def packed(k):
    """[(weight, digit)] of a key that is a number in a mixed radix, lightest first"""
    if k.op != "poly" or len(k.a) < 2:
        return None
    out = []
    for c, m in k.a:
        if len(m) != 1 or m[0][1] != 1 or c <= 0 or int(c) != c:
            return None
        out.append((int(c), m[0][0]))
    out.sort(key=lambda x: x[0])
    return out if out[0][0] == 1 and out[1][0] >= 16 and len({c for c, _ in out}) == len(out) else None


def shared(types, ds, scope, lits):
    """a digit that can reach the weight of the next one"""
    scope = dict(scope)
    top = {}
    for w, x in ds:
        if x in scope and scope[x].op == "range" and scope[x].a[1].op == "sym" and scope[x].a[1] in types:
            top[x] = (INTS[types[scope[x].a[1]]][1] - 1, scope[x].a[1])
        elif x in types:
            top[x] = (INTS[types[x]][1], None)
        else:
            return None
    for (w, x), (w2, y) in zip(ds, ds[1:]):
        q = w2 // w
        hi, n = top[x]
        if hi < q or top[y][0] < 1:
            continue
        # x = q, y = 0 and x = 0, y = 1
        for vals in ({x: q, y: 0}, {x: 0, y: 1}, {x: q, y: 1}):
            fx = {z: vals.get(z, 2) for _, z in ds}
            for _, z in ds:
                if top[z][1] is not None:
                    fx[top[z][1]] = top[z][0]
            for l in lits:
                names = {z for z in walk(l) if z.op == "sym" or z in scope}
                if names and names <= set(fx):
                    try:
                        if not Interp(1, 7, fx).lits([l]):
                            break
                    except (Undef, Opaque, KeyError, TypeError):
                        pass
            else:
                continue
            break
        else:
            return "%s = %d with %s = 0 and %s = 0 with %s = 1 have the same key" % (x, q, y, x, y)
    return None


@rule("C22")
def packed_keys(ctx):
    n = 0
    for bid, B in sorted(ctx.prog.bodies.items()):
        if owner(bid) != bid or B.get("kind") == "closure" or bid.startswith("phlite::fields::") or bid.endswith("::main") or not fills(ctx, bid):
            continue
        name = "keys packed in " + bid

        def go():
            ev, ls = ctx.summary(bid, ev=heap.hev(ctx))
            got = 0
            for l in ls:
                if l.kind != "ret":
                    continue
                for t in [l.val] + list(l.st.cells.values()):
                    for k, sc, g in inserted(t) if isT(t) else ():
                        ds = packed(k)
                        if ds is None:
                            continue
                        got += 1
                        r = shared(ev.symtypes, ds, sc, tuple(l.st.facts.lits) + g)
                        if r:
                            ctx.add(name, ctx.at(bid), VIOL if public(ctx, bid) else UNDEC, r)
                            return
            ctx.add(name, ctx.at(bid), OK, "%d packed keys" % got)
        ctx.guarded(name, go, ctx.at(bid))
        n += 1
    ctx.add("functions that pack keys", None, OK, "%d" % n)
