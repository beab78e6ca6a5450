"""C24: results are functions of the input.

Sources of anything else are enumerated from the type-checked program: clocks, randomness, identities of threads and processes, the
environment, addresses, shared mutable state, and iterations of hash containers.  What a value of the first kind can reach is followed
by dataflow through the function.  For iterations of hash containers, the summaries of the public functions they take part in are
interpreted under several orders of iteration, all else equal, and must have the same value."""
import re
from rules.common import *
from rules import cast
from rules.cast import owner, callers, public
from rules.unsafe_ import generated
from mir import succs
import interp, models, core

# ------------------------------------------------------------------------------------------------- sources
SOURCES = [(r"time::Instant::now$|time::SystemTime::now$|Instant::elapsed$|SystemTime::elapsed$", "the clock"),
           (r"^rand::|^rand_\w+::|^getrandom::|^fastrand::|RandomState::new$|RandomState as .*Default|BuildHasher::hash_one$|RandomState", "randomness"),
           (r"thread::current$|thread::id$|process::id$|Thread::id$|available_parallelism$|ThreadId", "the identity of the thread or process"),
           (r"env::(var|vars|args|args_os|var_os|temp_dir|current_dir|current_exe|home_dir)", "the environment"),
           (r"^std::fs::|fs::File::|path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|read_dir|read_link|canonicalize)$"
           r"|process::Command::|^std::net::|path::Path::.*canonicalize$", "the file system"),
           (r"::addr$|expose_provenance$|::addr_eq$|ptr::hash$|ptr::eq$|Rc::ptr_eq$|Arc::ptr_eq$|fmt::Pointer", "an address"),
           (r"thread::spawn$|thread::scope$|scope::Scope.*::spawn$|^rayon|par_iter|mpsc::", "the schedule of threads"),
           (r"sync::atomic::.*::(fetch_\w+|load|swap|compare_exchange\w*)$", "shared mutable state"),
           (r"LocalKey.*::(with\w*|get|take|replace)$|try_with$", "shared mutable state")]
QUIET = re.compile(r"^(std|core|alloc)::(fmt|io)::|_print$|_eprint$|Duration|^log::|^tracing|format$|::elapsed$|duration_since$|Argument")


def calls(B):
    for i, blk in enumerate(B["blocks"]):
        t = blk["term"]
        if not blk.get("cleanup") and t["t"] == "call" and isinstance(t["f"], dict):
            yield i, t


def source(path):
    for rx, what in SOURCES:
        if re.search(rx, path):
            return what
    return None


def places(x):
    """locals read in an operand, place or rvalue"""
    if isinstance(x, dict):
        if "p" in x and isinstance(x["p"], list) and x["p"] and isinstance(x["p"][0], int):
            yield x["p"][0]
            for pr in x["p"][1]:
                if pr and pr[0] == "index":
                    yield pr[1]
        for k, v in x.items():
            if k not in ("p", "at", "ty", "from"):
                for y in places(v):
                    yield y
    elif isinstance(x, list):
        for v in x:
            for y in places(v):
                yield y


def lty(B, l):
    x = B["locals"][l]
    return x["ty"] if isinstance(x, dict) else x


def writes(B, l):
    """a mutable reference or pointer, or something made of one"""
    return writing(B["types"], lty(B, l))


def writing(types, ty, depth=0):
    t = types[ty]
    if t["k"] == "ptr" or t["k"] == "ref" and bool(t.get("mut")) or \
            t["k"] == "adt" and t["adt"].split("::")[-1] in ("NonNull", "IterMut", "Unique", "Box", "ChunksMut", "Drain", "ValuesMut"):
        return True
    # an option, an iterator or a tuple of such
    return t["k"] in ("adt", "tuple") and depth < 6 and any(isinstance(a, int) and writing(types, a, depth + 1) for a in t.get("args") or ())


def postdominators(B):
    """immediate post-dominator of every block (None: leaves the function)"""
    bl = B["blocks"]
    live = [i for i, b in enumerate(bl) if not b.get("cleanup") and b["term"]["t"] != "unreachable"]
    EXIT, alive = -1, set(live)
    sc = {i: [x for x in succs(bl[i]["term"]) if x in alive] or [EXIT] for i in live}
    pd = {i: None for i in live}
    full = frozenset(live) | {EXIT}
    S = {i: full for i in live}
    S[EXIT] = frozenset((EXIT,))
    ch = True
    while ch:
        ch = False
        for i in reversed(live):
            n = frozenset.intersection(*[S[x] for x in sc[i]]) | {i}
            if n != S[i]:
                S[i] = n
                ch = True
    for i in live:
        c = S[i] - {i}
        # the nearest one is post-dominated by all the others
        pd[i] = next((x for x in c if x != EXIT and len(S[x]) == len(c)), None)
    return pd, sc


def reaches(ctx, B, start, branches=True):
    """what values flowing from the locals in start reach, through data and (branches) through the branches they decide"""
    bad = set(start)
    pd = sc = None
    region = set()
    out = []
    def assigned(blk):
        for s in blk["st"]:
            if s["s"] == "assign":
                yield s["p"][0]
        t = blk["term"]
        if t["t"] == "call":
            yield t["dest"][0]
            for p in places(t["a"]):
                if writes(B, p):
                    yield p
    while True:
        n = len(bad)
        for i, blk in enumerate(B["blocks"]):
            if blk.get("cleanup"):
                continue
            for s in blk["st"]:
                if s["s"] != "assign":
                    continue
                if any(p in bad for p in places(s["rv"])):
                    bad.add(s["p"][0])
                # what is written through a pointer or a mutable reference
                if s["p"][0] in bad and not s["p"][1] and writes(B, s["p"][0]):
                    bad.update(places(s["rv"]))
            t = blk["term"]
            if t["t"] == "call":
                if any(p in bad for p in places(t["a"])):
                    bad.add(t["dest"][0])
                    bad.update(p for p in places(t["a"]) if writes(B, p))
                elif t["dest"][0] in bad and writes(B, t["dest"][0]):
                    bad.update(places(t["a"]))
            if branches and t["t"] == "switch" and any(p in bad for p in places(t["d"])):
                if pd is None:
                    pd, sc = postdominators(B)
                todo = list(sc.get(i, ()))
                while todo:
                    x = todo.pop()
                    if x in region or x == pd.get(i):
                        continue
                    if x == -1:
                        if not out:
                            out.append(("whether the function goes on", t.get("at")))
                        continue
                    region.add(x)
                    todo += sc[x]
                    bad.update(assigned(B["blocks"][x]))
        if len(bad) == n:
            break
    for i, blk in enumerate(B["blocks"]):
        if blk.get("cleanup"):
            continue
        t = blk["term"]
        if t["t"] == "call" and (i in region or any(p in bad for p in places(t["a"]))):
            if isinstance(t["f"], dict) and (t["f"].get("resolved") or t["f"].get("id")) in ctx.prog.bodies:
                pure = not any(writes(B, p) for p in places(t["a"]))
                out.append((("a call of " if not pure else "the call of ") + str(t["f"].get("path")), t.get("at")))
    if 0 in bad and B["types"][lty(B, 0)]["s"] not in ("()", "!"):
        out.append(("the result", None))
    for a in range(1, B["args"] + 1):
        if a in bad:
            out.append(("a parameter", None))
    return out


def sources(ctx):
    n = 0
    for bid in sorted(ctx.prog.bodies):
        B = ctx.prog.bodies[bid]
        if generated(bid):
            continue
        n += 1
        hits = []
        for i, t in calls(B):
            p = str(t["f"].get("path"))
            w = source(p)
            aty = t.get("aty") or []
            if not w and p.split("::")[-1] in ("cmp", "partial_cmp", "lt", "le", "gt", "ge", "max", "min", "hash", "eq", "ne") and aty and rawptr(B["types"], aty[0]):
                w = "an address"
            if w:
                hits.append((w, p, [t["dest"][0]], t.get("at")))
            elif CELLS.search(p) and aty and t["a"] and from_parameter(B, t["a"][0]):
                hits.append(("state kept in an object", p, [t["dest"][0]], t.get("at")))
        for blk in B["blocks"]:
            if blk.get("cleanup"):
                continue
            for s in blk["st"]:
                rv = s.get("rv") or {}
                sh = shared_static(B, s)
                if sh and not fixed_once(ctx, B, s["p"][0]):
                    hits.append(("shared mutable state", "a static " + sh, [s["p"][0]], s.get("at")))
                if rv.get("r") == "cast" and "ExposeProvenance" in rv["kind"]:
                    hits.append(("an address", "a pointer turned into an integer", [s["p"][0]], s.get("at")))
                if rv.get("r") == "bin" and rv.get("op") not in ("Offset",) and any(isptr(B, rv.get(k)) for k in ("a", "b")):
                    hits.append(("an address", ("an equality" if rv.get("op") in ("Eq", "Ne") else "an order") + " of pointers", [s["p"][0]], s.get("at")))
        for w, p, start, at in hits:
            name = "%s in %s" % (w, bid)
            if w == "the environment" and B.get("name") == "main":
                ctx.add(name, at, OK, "arguments of a program are its input")
                continue
            if w == "the schedule of threads":
                ctx.add(name, at, UNDEC, p + ": threads are not analysed")
                continue
            try:
                r = reaches(ctx, B, start)
            except (KeyError, TypeError, IndexError) as e:
                ctx.add(name, at, UNDEC, "internal: %r" % e)
                continue
            if w == "state kept in an object":
                # a table of earlier results or room for temporary values may be invisible
                if r and any(x == "the result" for x, _ in r):
                    if "Cached" in str(B["types"][lty(B, 1)]["s"]) and B["crate"].split(".")[0] == "phlite":
                        ctx.add(name, at, OK, "the cache of columns (C11)")
                        continue
                    ctx.add(name, at, UNDEC, "%s (%s) reaches %s" % (w, p, ", ".join(x for x, _ in r)))
            elif r and w == "shared mutable state" and "Once" not in p and "Lazy" not in p and found_by_arguments(ctx, B):
                # a table of earlier results found by all the arguments may be invisible
                ctx.add(name, at, UNDEC, "%s (%s) reaches %s" % (w, p, ", ".join(x for x, _ in r)))
            elif r and w != "shared mutable state" and (p.split("::")[-1] in ("eq", "ne", "ptr_eq", "addr_eq") or "equality" in p):
                # a shortcut for identical objects may be invisible
                ctx.add(name, at, UNDEC, "%s (%s) reaches %s" % (w, p, ", ".join(x for x, _ in r)))
            elif r:
                ctx.add(name, at, VIOL, "%s (%s) reaches %s" % (w, p, ", ".join(x for x, _ in r)))
            else:
                ctx.add(name, at, OK, "reaches nothing but output")
    # shared mutable state
    for s in ctx.prog.statics:
        if generated(s["id"] if isinstance(s, dict) and "id" in s else str(s)):
            continue
        t = next((b["types"] for b in ctx.prog.bodies.values() if b["crate"].split(".")[0] == s["id"].split("::")[0]), None)
        if t and "pyo3" in str(t[s["ty"]].get("adt")) or s["id"].endswith("::INTERNED"):
            continue        # names interned by the binding layer
        if s.get("mut") or not s.get("freeze", True):
            ctx.add("static %s" % s.get("id"), s.get("at"), UNDEC, "shared mutable state")
    ctx.add("clocks, randomness, addresses, environment and shared state", None, OK, "%d functions looked at" % n)
    ctx.obligation_count = n


SHARED = ("Mutex", "RwLock", "RefCell", "Cell", "OnceLock", "OnceCell", "LazyLock", "LazyCell", "UnsafeCell", "Once", "DashMap", "ArcSwap")


def shared_static(B, s):
    """the kind of interior mutability of the static whose address the statement takes"""
    rv = s.get("rv") or {}
    a = rv.get("a")
    if rv.get("r") != "use" or not isinstance(a, dict) or a.get("o") != "const" or not str(a.get("k", {}).get("s")).startswith("{alloc"):
        return None
    t = B["types"][a["k"]["ty"]]
    if t["k"] == "ptr" and t.get("mut"):
        return "mut"
    if t["k"] in ("ref", "ptr"):
        u = B["types"][t["args"][0]] if t.get("args") else None
        n = str(u.get("adt", "")).split("::")[-1] if u and u["k"] == "adt" else ""
        if n in SHARED or n.startswith("Atomic"):
            return n
    return None


def fixed_once(ctx, B, x):
    """a static initialised once, by something that looks at nothing of the call: what it holds is a constant"""
    held = {x}
    ok = False
    for _ in range(3):
        for blk in B["blocks"]:
            for s in blk["st"]:
                if s["s"] == "assign" and not s["p"][1] and (s["rv"].get("r") in ("ref", "use", "copyforderef")) and any(y in held for y in places(s["rv"])):
                    held.add(s["p"][0])
    for blk in B["blocks"]:
        if blk.get("cleanup"):
            continue
        t = blk["term"]
        if t["t"] != "call" or not any(y in held for y in places(t["a"])):
            continue
        p = str(t["f"].get("path")) if isinstance(t["f"], dict) else ""
        n = p.split("::")[-1]
        if ("LazyLock" in p or "LazyCell" in p or "Deref" in p) and n in ("deref", "force"):
            ok = True
        elif n in ("get_or_init",) and "Once" in p:
            f = t["a"][1]
            y = next(iter(places(f)), None)
            if y is not None and captures(B, y):
                return False
            ok = True
        else:
            return False
    return ok


def captures(B, x):
    """a closure value that looks at something of the function around it"""
    for blk in B["blocks"]:
        for s in blk["st"]:
            if s["s"] == "assign" and s["p"][0] == x and not s["p"][1]:
                rv = s["rv"]
                if rv.get("r") == "agg" and rv.get("kind") == "closure":
                    return bool(rv.get("ops"))
                if rv.get("r") == "use":
                    ys = list(places(rv))
                    return bool(ys) and captures(B, ys[0])
    return True


PURE = ("clone", "to_owned", "deref", "as_ref", "borrow", "as_slice", "to_vec", "into", "from", "cloned", "copied", "as_str", "iter")
KEYED = ("get", "get_mut", "entry", "contains_key", "insert", "eq", "ne", "remove", "get_or_insert_with")


def found_by_arguments(ctx, B):
    """keys and comparisons in the function and its closures are made of every one of its arguments, unchanged"""
    defs = {}
    keys = set()
    for blk in B["blocks"]:
        if blk.get("cleanup"):
            continue
        for s in blk["st"]:
            if s["s"] != "assign":
                continue
            rv = s["rv"]
            if rv.get("r") in ("ref", "use", "agg", "copyforderef"):
                defs.setdefault(s["p"][0], []).append(list(places(rv)))
                if rv.get("kind") == "closure":
                    keys.update(places(rv))
            elif rv.get("r") == "bin" and rv.get("op") in ("Eq", "Ne"):
                keys.update(places(rv))
        t = blk["term"]
        if t["t"] == "call" and isinstance(t["f"], dict):
            n = str(t["f"].get("path")).split("::")[-1]
            if n in PURE:
                defs.setdefault(t["dest"][0], []).append(list(places(t["a"])))
            if n in KEYED:
                keys.update(places(t["a"]))
    got, todo, seen = set(), list(keys), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if 1 <= x <= B["args"]:
            got.add(x)
        for ys in defs.get(x, ()):
            todo += ys
    return set(range(1, B["args"] + 1)) <= got


def rawptr(types, ty):
    t = types[ty]
    while t["k"] == "ref":
        t = types[t["args"][0]]
    return t["k"] == "ptr" or t["k"] == "adt" and t["adt"].split("::")[-1] == "NonNull" or \
        t["k"] == "tuple" and any(isinstance(a, int) and rawptr(types, a) for a in t.get("args") or ())


def from_parameter(B, o):
    """the operand is a reference to something inside a parameter (or something captured)"""
    todo, seen = list(places(o)), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if 1 <= x <= B["args"]:
            return True
        for blk in B["blocks"]:
            for s in blk["st"]:
                if s["s"] == "assign" and s["p"][0] == x and not s["p"][1] and s["rv"].get("r") in ("ref", "use", "copyforderef", "cast"):
                    todo += places(s["rv"])
            t = blk["term"]
            if t["t"] == "call" and t["dest"][0] == x and isinstance(t["f"], dict) and str(t["f"].get("path")).split("::")[-1] in PURE:
                todo += places(t["a"])
    return False


CELLS = re.compile(r"cell::(Cell|RefCell|OnceCell)\b.*::(get|take|replace|borrow|borrow_mut|try_borrow|swap|get_or_init|update)$"
                   r"|sync::.*(Mutex|RwLock|OnceLock)\b.*::(lock|read|write|try_lock|get|get_or_init)$")


def isptr(B, o):
    if isinstance(o, dict) and o.get("o") in ("copy", "move") and not o["p"][1]:
        return B["types"][lty(B, o["p"][0])]["k"] == "ptr"
    return False


# ------------------------------------------------------------------------------------------------- iterations of hash containers
ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain", "extract_if", "union",
        "intersection", "difference", "symmetric_difference", "into_iter"}


def hashty(types, ty):
    t = types[ty] if isinstance(ty, int) else ty
    while t["k"] in ("ref", "ptr"):
        t = types[t["args"][0]]
    return t["k"] == "adt" and t["adt"].split("::")[-1] in ("HashMap", "HashSet") or \
        t["k"] == "adt" and re.search(r"(hash|hashbrown)::(map|set)::", t["adt"]) is not None and t["adt"].split("::")[-1] not in (
            "Entry", "OccupiedEntry", "VacantEntry", "RawEntryMut", "RawEntryBuilder")


def container(types, ty):
    t = types[ty]
    while t["k"] in ("ref", "ptr"):
        t = types[t["args"][0]]
    return t["k"] == "adt" and t["adt"].split("::")[-1] in ("HashMap", "HashSet")


def hash_sites(ctx):
    """{function: [(what, position, block)]}: places where a hash container is iterated"""
    out = {}
    for bid in sorted(ctx.prog.bodies):
        B = ctx.prog.bodies[bid]
        if generated(bid):
            continue
        for i, t in calls(B):
            f = t["f"]
            p, n = str(f.get("path")), f.get("name")
            at = t.get("aty") or []
            if not at:
                continue
            first = container(B["types"], at[0])
            loc = (f.get("resolved") or f.get("id")) in ctx.prog.bodies
            if first and not loc and (n in ITER):
                out.setdefault(bid, []).append((n, t.get("at"), i))
            elif first and not loc and n == "fmt":
                out.setdefault(bid, []).append((n, t.get("at"), i))
            elif not loc and any(container(B["types"], a) and B["types"][a]["k"] != "ref" for a in at[1 if first or True else 0:]) \
                    and n in ("extend", "zip", "chain", "eq", "cmp", "partial_cmp"):
                out.setdefault(bid, []).append((n, t.get("at"), i))
            elif not loc and n in ("from_iter",) and container(B["types"], at[0]):
                out.setdefault(bid, []).append((n, t.get("at"), i))
    return out


# ---- local rule
KEEP = {"map", "filter", "filter_map", "flat_map", "cloned", "copied", "inspect", "by_ref", "into_iter", "iter", "flatten", "chain",
        "deref", "as_ref", "peekable", "fuse", "borrow", "rev", "deref_mut", "as_mut_slice", "as_slice", "into", "from", "from_iter", "collect"}
TOTAL = {"sort", "sort_unstable", "sorted", "sorted_unstable"}
COMM = {"any", "all", "count", "len", "is_empty", "contains"}
PICK = {"next", "last", "nth", "find", "find_map", "position", "next_back", "first", "pop"}


def local_rule(ctx, bid, block):
    """follows the iterator made in a block to what consumes it: (OK|None, reason)"""
    B = ctx.prog.bodies[bid]
    types = B["types"]
    l = B["blocks"][block]["term"]["dest"][0]
    for _ in range(40):
        users = [(i, t) for i, t in calls(B) if any(p == l for p in places(t["a"]))]
        moves = []
        for blk in B["blocks"]:
            if blk.get("cleanup"):
                continue
            for s in blk["st"]:
                if s["s"] == "assign" and any(p == l for p in places(s["rv"])):
                    moves.append(s)
        if len(users) + len(moves) != 1:
            # a for loop: only printed?
            break
        if moves:
            s = moves[0]
            if s["p"][1]:
                break
            l = s["p"][0]
            continue
        i, t = users[0]
        n = t["f"].get("name")
        dt = types[t["dty"]] if "dty" in t else None
        if n in COMM:
            return True, "only %s of it is used" % n
        if n in ("sum", "product", "max", "min") and dt is not None:
            u = dt
            if u["k"] == "adt" and u["adt"].endswith("Option"):
                u = types[u["args"][0]]
            while u["k"] == "ref":
                u = types[u["args"][0]]
            if n in ("max", "min") or u["k"] == "prim" and u["s"][0] in "iu":
                return True, "only its %s is used" % n
            break
        if n in ("collect", "from_iter", "sorted", "sorted_unstable") and dt is not None:
            nm = dt["adt"].split("::")[-1] if dt["k"] == "adt" else ""
            if nm in ("HashSet", "BTreeSet"):
                return True, "collected into a set"
            if n.startswith("sorted"):
                return True, "sorted"
        if n in KEEP:
            l = t["dest"][0]
            continue
        break
    return None, None


def only_printed(ctx, bid, block):
    B = ctx.prog.bodies[bid]
    l = B["blocks"][block]["term"]["dest"][0]
    return B.get("name") == "main" and all(x.startswith("the call of") for x, _ in reaches(ctx, B, [l]))


PROPS = {"phlite": ("C08", "C09", "C10", "C11", "C27", "C28", "C03", "C06", "C07"), "phlite_rips": ("C16", "C14", "C13", "C15"),
         "phlite_rips_cli": ("C26",), "phlite_grpph": ("C19", "C17", "C18", "C20"), "phlite_py": ("C01",), "phlite_grpph_cli": ()}


def traced(ctx, prop, cache, random=False):
    """run the rules of a property for the summaries they make, comparing each under several orders of hash containers"""
    if (prop, random) not in cache:
        sub = Ctx(ctx.prog, ctx.thorough)
        sub.prop = prop
        sub.target = getattr(ctx, "target", None)
        interp.TRACE, models.HASHED, interp.STRICT = {"$name": ""}, "random" if random else True, random
        try:
            for f in core.RULES[prop]:
                sub.guarded(f.__name__, lambda: f(sub))
            t = interp.TRACE
        finally:
            interp.TRACE, models.HASHED, interp.STRICT = None, False, False
        t.pop("$name")
        cache[prop, random] = (sub.analysed | sub.inlined, t)
        ctx.analysed |= sub.analysed
    return cache[prop, random]


def random_order(ctx):
    """lists returned to Python must not be in the order of a container with a random hasher"""
    where = []
    for bid, ss in hash_sites(ctx).items():
        B = ctx.prog.bodies[bid]
        for n, at, i in ss:
            f = B["blocks"][i]["term"]["f"]
            if any(models.randomly(B["types"], B["types"][a]) for a in f.get("aty") or B["blocks"][i]["term"].get("aty") or []):
                where.append((bid, at, n))
    if not where:
        ctx.add("iteration of containers with random hashers", None, OK, "none in the workspace")
        return
    cache = {}
    _, t = traced(ctx, "C20", cache, random=True)
    bad = [(nm, d) for nm, (n, d, _) in sorted(t.items()) if d]
    for nm, d in bad:
        ctx.add("order of results (%s)" % nm, where[0][1], VIOL, "%s; containers with a random hasher are iterated in %s" % (
            d, ", ".join("%s at %s" % (b, a) for b, a, _ in where)))
    if not bad:
        ctx.add("iteration of containers with random hashers", where[0][1], RI if sum(n for n, _, _ in t.values()) > 20 else UNDEC,
                "the order of the lists returned to Python does not depend on it")


def hashes(ctx):
    sites = hash_sites(ctx)
    by = {}
    for bid, ss in sites.items():
        by.setdefault(owner(bid), []).append((bid, ss))
    cache, told = {}, set()
    for f in sorted(by):
        where = [a for _, ss in by[f] for _, a, _ in ss]
        name = "iteration of hash containers in %s" % f
        detail = ", ".join("%s at %s" % (n, a) for _, ss in by[f] for n, a, _ in ss)
        crate = ctx.prog.bodies[f]["crate"].split(".")[0]
        crates = [crate] + sorted({ctx.prog.bodies[c]["crate"].split(".")[0] for c in reach_up(ctx, f)} - {crate})
        good, bad = 0, None
        for c in crates:
            for p in PROPS.get(c, ()):
                if p not in core.RULES:
                    continue
                bodies, t = traced(ctx, p, cache)
                if not any(owner(b) == f for b in bodies):
                    continue
                for nm, (n, diff, op) in sorted(t.items()):
                    if diff and (p, nm) not in told:
                        told.add((p, nm))
                        bad = True
                        ctx.add("%s: %s" % (nm, f), where[0], VIOL, diff)
                    elif diff:
                        bad = True
                    good += n if op is None else 0
        if bad:
            continue
        rest = []
        for bid, ss in by[f]:
            for n, a, i in ss:
                ok, why = local_rule(ctx, bid, i)
                if not ok and only_printed(ctx, bid, i):
                    ok, why = True, "only printed, as bars without an order"
                if not ok:
                    rest.append((n, a))
        if not rest:
            ctx.add(name, where[0], OK, detail)
        elif good >= 20:
            ctx.samples += good
            ctx.add(name, where[0], RI, "%s; %d results compared under three orders" % (detail, good))
        else:
            ctx.add(name, where[0], UNDEC, "%s: not followed" % (", ".join("%s at %s" % x for x in rest)))


def reach_up(ctx, f):
    up = callers(ctx)
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        for y in up.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


@rule("C24")
def c24(ctx):
    ctx.guarded("sources of nondeterminism", lambda: sources(ctx))
    ctx.guarded("hash containers", lambda: hashes(ctx))
    ctx.guarded("containers with random hashers", lambda: random_order(ctx))
