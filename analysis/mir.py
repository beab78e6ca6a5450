"""Loading of the MIR dumps and per-body CFG facts (dominators, natural loops, liveness)."""
import json, os, glob


class Program(object):
    def __init__(self, outdir):
        self.crates = {}
        self.bodies = {}
        self.ext = {}          # MIR of called functions of other crates
        self.adts = {}
        self.traits = {}
        self.impls = []
        self.statics = []
        for f in sorted(glob.glob(os.path.join(outdir, "*.json"))):
            d = json.load(open(f))
            key = os.path.basename(f)[:-5]
            self.crates[key] = d
            for i, b in d["bodies"].items():
                b["id"] = i
                b["crate"] = key
                b["types"] = d["types"]
                self.bodies[i] = b
            for i, b in d.get("ext", {}).items():
                b["id"] = i
                b["crate"] = key
                b["types"] = d["types"]
                self.ext.setdefault(i, b)
            self.adts.update(d["adts"])
            for a in d["adts"].values():
                a["types"] = d["types"]
            for im in d["impls"]:
                im["crate"] = key
                im["types"] = d["types"]
                self.impls.append(im)
            self.traits.update(d["traits"])
            self.statics += d["statics"]
        self._impl_by_trait = {}
        for im in self.impls:
            self._impl_by_trait.setdefault(im.get("trait"), []).append(im)
        self._impl_of_item = {}
        for im in self.impls:
            for n, i in im["items"].items():
                self._impl_of_item[i] = im
        self.local_crates = {k.split(".")[0] for k in self.crates}

    ENTRY = "phlite::columns::ColumnEntry"

    def entry_order(self):
        """positions of filtration value, row and coefficient in a column entry"""
        fs = [f["name"] for f in self.adts[self.ENTRY]["variants"][0]["fields"]]
        return [fs.index(n) for n in ("filtration_value", "row_index", "coeff")]

    def entry(self, fv, row, coeff):
        from terms import ctor
        o = self.entry_order()
        v = [None] * 3
        for i, x in zip(o, (fv, row, coeff)):
            v[i] = x
        return ctor(self.ENTRY, "ColumnEntry", *v)

    def ventry(self, fv, row, coeff):
        o = self.entry_order()
        v = [None] * 3
        for i, x in zip(o, (fv, row, coeff)):
            v[i] = x
        return ("C", "ColumnEntry") + tuple(v)

    def impls_of(self, trait):
        return self._impl_by_trait.get(trait, [])

    def impl_of_item(self, item):
        return self._impl_of_item.get(item)

    def self_adt(self, im):
        t = im["types"][im["self"]]
        while t["k"] == "ref":
            t = im["types"][t["args"][0]]
        return t.get("adt") if t["k"] == "adt" else None

    def self_ty(self, im):
        return im["types"][im["self"]]

    def find_impl(self, trait, adt, self_str=None):
        r = []
        for im in self.impls_of(trait):
            t = im["types"][im["self"]]
            if t["k"] == "adt" and t["adt"] == adt and (self_str is None or t["s"] == self_str):
                r.append(im)
        return r


def succs(t):
    k = t["t"]
    if k == "goto":
        return [t["to"]]
    if k == "switch":
        return [b for _, b in t["v"]] + ([t["else"]] if t["else"] is not None else [])
    if k in ("drop", "assert"):
        return [t["to"]]
    if k == "call":
        return [t["to"]] if t.get("to") is not None else []
    return []


class CFG(object):
    def __init__(self, body):
        self.body = body
        bl = body["blocks"]
        n = len(bl)
        self.succ = {}
        reach = set()
        order = []
        # reverse postorder
        state = [(0, iter(succs(bl[0]["term"])))]
        reach.add(0)
        while state:
            b, it = state[-1]
            adv = False
            for s in it:
                if s not in reach:
                    reach.add(s)
                    state.append((s, iter(succs(bl[s]["term"]))))
                    adv = True
                    break
            if not adv:
                order.append(b)
                state.pop()
        self.rpo = order[::-1]
        self.reach = reach
        self.succ = {b: [s for s in succs(bl[b]["term"])] for b in reach}
        self.pred = {b: [] for b in reach}
        for b in reach:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._dom()
        self._loops()
        self._live = None

    def _dom(self):
        idx = {b: i for i, b in enumerate(self.rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        for b in self.reach:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])

    def live_in(self):
        """locals live at block entry (syntactic; a reference taken to a local counts as a use)"""
        if self._live is not None:
            return self._live
        bl = self.body["blocks"]
        use, df = {}, {}
        borrowed = set()
        for b in self.reach:
            u, d = set(), set()

            def rd(p):
                if p[0] not in d:
                    u.add(p[0])
                for pr in p[1]:
                    if pr[0] == "index" and pr[1] not in d:
                        u.add(pr[1])

            def op(o):
                if isinstance(o, dict) and o.get("o") in ("copy", "move"):
                    rd(o["p"])
            for s in bl[b]["st"]:
                if s["s"] == "assign":
                    r = s["rv"]
                    for k in ("a", "b"):
                        op(r.get(k))
                    for o in r.get("ops", []) or []:
                        op(o)
                    if "p" in r:
                        rd(r["p"])
                        if r["r"] in ("ref", "rawptr"):
                            borrowed.add(r["p"][0])
                    if s["p"][1]:
                        rd(s["p"])
                    else:
                        d.add(s["p"][0])
                elif s["s"] == "dead":
                    d.add(s["l"])
                elif "p" in s:
                    rd(s["p"])
            t = bl[b]["term"]
            for o in t.get("a", []) if isinstance(t.get("a"), list) else []:
                op(o)
            op(t.get("d"))
            if t["t"] == "drop":
                pass
            if t["t"] == "call":
                if isinstance(t["f"], dict) and t["f"].get("o") in ("copy", "move"):
                    op(t["f"])
                if isinstance(t["f"], dict) and isinstance(t["f"].get("op"), dict):
                    op(t["f"]["op"])
                if t["dest"][1]:
                    rd(t["dest"])
                else:
                    d.add(t["dest"][0])
            if t["t"] == "return":
                if 0 not in d:
                    u.add(0)
            use[b], df[b] = u, d
        live = {b: set() for b in self.reach}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - df[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._live = live
        return live
