"""Loads the facts written by the driver and offers the resolved program: functions (MIR), types,
ADTs, impls, call graph."""
import json, os, re, sys
sys.setrecursionlimit(20000)


class Fn:
    __slots__ = ("n", "k", "file", "line", "args", "pub", "abi", "unsafe", "self_ty", "trait", "derived", "g", "gi",
                 "root", "l", "vars", "b", "crate", "_live", "_loop", "_body", "_preds", "_cg", "_rpo")

    def __repr__(self):
        return "<fn %s>" % self.n


class Facts:
    def __init__(self, d):
        self.dir = d
        self.tys = []
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.prom = {}
        for c in ("mrp", "protobuf", "ringrtc"):
            self._load(c, os.path.join(d, c + ".jsonl"))
        self._cg = None
        self._callers = None
        self.kids = {}
        for n in self.fns:
            i = n.rfind("::{closure#")
            if i > 0 and n.endswith("}"):
                self.kids.setdefault(n[:i], []).append(n)
        self.impl_of = {}
        for im in self.impls:
            for it, tit in im["items"]:
                if tit:
                    self.impl_of.setdefault(tit, []).append((im["self_s"], it))
        self.by_tail = {}
        for n in self.fns:
            self.by_tail.setdefault(tail(n), []).append(n)

    data = None

    def _load(self, crate, path):
        if self.data is None:
            self.data = {}
        base = len(self.tys)
        ended = False
        rows = []
        with open(path, encoding="utf-8") as f:
            for line in f:
                rows.append(json.loads(line))
        nty = sum(1 for r in rows if r["t"] == "ty")
        self.tys.extend([None] * nty)
        for r in rows:
            t = r["t"]
            if t == "ty":
                r["a"] = [base + x for x in r.get("a", ())]
                self.tys[base + r["i"]] = r
            elif t == "fn":
                if base:
                    rebase(r, base)
                name = r["n"]
                if name in self.fns and crate == "ringrtc" and not name.startswith(("ringrtc", "<ringrtc")):
                    if self.fns[name].crate == "mrp":
                        continue
                f = Fn()
                f.n = name; f.k = r["k"]; f.file = r["file"]; f.line = r["line"]; f.args = r["args"]
                f.pub = r.get("pub"); f.abi = r.get("abi"); f.unsafe = r.get("unsafe"); f.self_ty = r.get("self")
                f.trait = r.get("trait"); f.derived = r.get("derived"); f.g = r.get("g", ()); f.gi = r.get("gi", ())
                f.root = r.get("root"); f.l = r["l"]; f.vars = r["vars"]; f.b = r["b"]; f.crate = crate
                f._body = f._live = f._loop = f._preds = f._cg = f._rpo = None
                self.fns[name] = f
            elif t == "adt":
                for v in r["vs"]:
                    for fl in v[2]:
                        fl[1] += base
                self.adts.setdefault(r["n"], r)
            elif t == "impl":
                r["self_s"] = self.tys[base + r["self"]]["s"]
                r["self"] += base
                r["crate"] = crate
                self.impls.append(r)
            elif t == "data":
                self.data[r["n"]] = bytes.fromhex(r["hex"])
            elif t == "end":
                ended = True
        if not ended:
            raise RuntimeError("facts truncated: " + path)

    # ---- types
    def ts(self, i):
        return self.tys[i]["s"]

    def ty(self, i):
        return self.tys[i]

    def adt_of(self, i):
        t = self.tys[i]
        while t["k"] in ("ref", "ptr") and t["a"]:
            t = self.tys[t["a"][0]]
        return t.get("d") if t["k"] == "adt" else None

    # ---- call graph
    def edges(self, f):
        """[(block, callee fnref)] plus function/closure values mentioned by f"""
        if f._cg is None:
            out = []
            for bi, b in enumerate(f.b):
                t = b["t"]
                if t["k"] == "call":
                    fo = t["f"]
                    if fo["k"] == "fn":
                        out.append((bi, "call", fo["f"]))
                    for o in t["a"]:
                        if o["k"] == "fn":
                            out.append((bi, "val", o["f"]))
                for pl, rv, ln in b["s"]:
                    if rv["r"] == "agg" and rv["ak"] == "closure":
                        out.append((bi, "val", {"fn": rv["d"], "ga": []}))
                    for key in ("o", "a", "b"):
                        o = rv.get(key)
                        if isinstance(o, dict) and o.get("k") == "fn":
                            out.append((bi, "val", o["f"]))
                    for o in rv.get("os", ()):
                        if o["k"] == "fn":
                            out.append((bi, "val", o["f"]))
            f._cg = out
        return f._cg

    def targets(self, ref):
        """names of bodies a resolved reference may run (trait methods fan out to all impls)"""
        n = ref.get("r") or ref["fn"]
        if n in self.fns and not ref.get("unres") and not ref.get("dyn"):
            return [n]
        if ref.get("dyn") or ref.get("unres"):
            out = [it for _, it in self.impl_of.get(ref["fn"], ()) if it in self.fns]
            if ref["fn"] in self.fns:
                out.append(ref["fn"])
            return out
        return []

    def callgraph(self):
        if self._cg is None:
            cg = {}
            for n, f in self.fns.items():
                s = set()
                for bi, kind, ref in self.edges(f):
                    s.update(self.targets(ref))
                cg[n] = s
            self._cg = cg
        return self._cg

    def callers(self):
        if self._callers is None:
            c = {}
            for n, s in self.callgraph().items():
                for m in s:
                    c.setdefault(m, set()).add(n)
            self._callers = c
        return self._callers

    def reach(self, roots):
        cg = self.callgraph()
        seen = set()
        st = [r for r in roots if r in cg]
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            st.extend(cg[n] - seen)
        return seen

    def find(self, pat):
        """function names matching a regex (search)"""
        r = re.compile(pat)
        return sorted(n for n in self.fns if r.search(n))

    def one(self, pat):
        x = self.find(pat)
        if len(x) != 1:
            raise Missing("function /%s/: %d matches %s" % (pat, len(x), x[:4]))
        return x[0]


class Missing(Exception):
    """an anchor of a rule is not in the program: fail closed"""


def tail(n):
    """last two path segments, closures kept with their parent"""
    if n.startswith("<"):
        m = re.match(r"<(.*) as (.*)>::(\w+)(.*)$", n)
        if m:
            return re.sub(r"<.*", "", m.group(1)).split("::")[-1] + "::" + m.group(3) + m.group(4)
    parts = n.split("::")
    i = len(parts)
    while i and parts[i - 1].startswith("{"):
        i -= 1
    return "::".join(parts[max(0, i - 2):])


def rebase(x, b):
    """adds b to every type index inside a function row"""
    x["l"] = [i + b for i in x["l"]]
    if "self" in x:
        x["self"] += b

    def place(p):
        for e in p[1:]:
            if isinstance(e, list) and e[0] == "f":
                e[4] += b

    def fnref(f):
        f["ga"] = [i + b for i in f["ga"]]
        if "rga" in f:
            f["rga"] = [i + b for i in f["rga"]]

    def op(o):
        if "p" in o:
            place(o["p"])
        if "ty" in o:
            o["ty"] += b
        if "f" in o:
            fnref(o["f"])

    for v in x["vars"]:
        place(v[1])
    for bl in x["b"]:
        for pl, rv, ln in bl["s"]:
            place(pl)
            if "p" in rv:
                place(rv["p"])
            if "ty" in rv:
                rv["ty"] += b
            for k in ("o", "a", "b"):
                if isinstance(rv.get(k), dict):
                    op(rv[k])
            for o in rv.get("os", ()):
                op(o)
        t = bl["t"]
        if "ty" in t:
            t["ty"] += b
        if t["k"] == "switch":
            op(t["d"])
        elif t["k"] == "call":
            op(t["f"])
            for o in t["a"]:
                op(o)
            place(t["d"])
        elif t["k"] == "assert":
            op(t["c"])
            for o in t["ops"]:
                op(o)
        elif t["k"] == "drop":
            place(t["p"])


# ---- CFG helpers
def succs(b):
    t = b["t"]
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [x[1] for x in t["ts"]] + [t["o"]]
    if k in ("call", "drop", "assert"):
        return [t["t"]] if t["t"] is not None else []
    return []


def loop_blocks(f):
    """blocks on a cycle, and loop heads (targets of DFS back edges)"""
    if f._loop is not None:
        return f._loop
    n = len(f.b)
    idx = [None] * n
    low = [0] * n
    on = [False] * n
    st = []
    inl = set()
    cnt = 0
    for r in range(n):
        if idx[r] is not None:
            continue
        work = [(r, iter(succs(f.b[r])))]
        idx[r] = low[r] = cnt; cnt += 1
        st.append(r); on[r] = True
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if idx[w] is None:
                    idx[w] = low[w] = cnt; cnt += 1
                    st.append(w); on[w] = True
                    work.append((w, iter(succs(f.b[w]))))
                    adv = True
                    break
                elif on[w]:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); on[w] = False
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in succs(f.b[v]):
                    inl.update(comp)
    heads = set()
    backs = []
    color = [0] * n
    work = [(0, iter(succs(f.b[0])))] if n else []
    if n:
        color[0] = 1
    while work:
        v, it = work[-1]
        for w in it:
            if color[w] == 1:
                if w not in heads or (v, w) not in backs:
                    backs.append((v, w))
                heads.add(w)
            elif color[w] == 0:
                color[w] = 1
                work.append((w, iter(succs(f.b[w]))))
                break
        else:
            color[v] = 2
            work.pop()
    f._loop = (inl, heads)
    preds = [[] for _ in range(n)]
    for v in range(n):
        for w in succs(f.b[v]):
            preds[w].append(v)
    bodies = {}
    for u, h in backs:
        b = bodies.setdefault(h, {h})
        st = [u]
        while st:
            x = st.pop()
            if x not in b:
                b.add(x)
                st.extend(preds[x])
    f._body = bodies
    return f._loop


def loop_body(f, h):
    loop_blocks(f)
    return f._body[h]


def preds_count(f):
    if f._preds is None:
        c = [0] * len(f.b)
        for b in f.b:
            for s in succs(b):
                c[s] += 1
        f._preds = c
    return f._preds


def place_locals(p):
    yield p[0]
    for e in p[1:]:
        if isinstance(e, list) and e[0] == "i":
            yield e[1]


def op_locals(o):
    if "p" in o:
        yield from place_locals(o["p"])


def liveness(f):
    """live-in set of non-address-taken locals per block; address-taken locals are never killed here"""
    if f._live is not None:
        return f._live
    n = len(f.b)
    taken = set()
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    for bi, b in enumerate(f.b):
        u, d = use[bi], dfn[bi]

        def see(ls):
            for l in ls:
                if l not in d:
                    u.add(l)
        for pl, rv, ln in b["s"]:
            r = rv["r"]
            if r == "dead":
                continue
            if r == "ref" and not (len(rv["p"]) > 1 and rv["p"][1] == "*"):
                taken.add(rv["p"][0])
            if "p" in rv:
                see(place_locals(rv["p"]))
            for k in ("o", "a", "b"):
                if isinstance(rv.get(k), dict):
                    see(op_locals(rv[k]))
            for o in rv.get("os", ()):
                see(op_locals(o))
            if len(pl) == 1:
                d.add(pl[0])
            else:
                see(place_locals(pl))
        t = b["t"]
        if t["k"] == "switch":
            see(op_locals(t["d"]))
        elif t["k"] == "call":
            see(op_locals(t["f"]))
            for o in t["a"]:
                see(op_locals(o))
            if len(t["d"]) == 1:
                d.add(t["d"][0])
            else:
                see(place_locals(t["d"]))
        elif t["k"] == "assert":
            see(op_locals(t["c"]))
            for o in t["ops"]:
                see(op_locals(o))
        elif t["k"] == "drop":
            see(place_locals(t["p"]))
        elif t["k"] == "ret":
            see([0])
    live = [set(u) for u in use]
    changed = True
    while changed:
        changed = False
        for bi in range(n - 1, -1, -1):
            out = set()
            for s in succs(f.b[bi]):
                out |= live[s]
            new = use[bi] | (out - dfn[bi])
            if new != live[bi]:
                live[bi] = new
                changed = True
    f._live = (live, taken)
    return f._live


_cache = {}


def load(d=None):
    if d is None:
        import extract
        d = extract.extract()
    if d not in _cache:
        _cache[d] = Facts(d)
    return _cache[d]


if __name__ == "__main__":
    import time
    t = time.time()
    F = load()
    print(len(F.fns), len(F.tys), len(F.adts), len(F.impls), time.time() - t)
    for n in F.find(sys.argv[1] if len(sys.argv) > 1 else "handle_received_hangup"):
        print(n, F.fns[n].file, F.fns[n].line, len(F.fns[n].b))
