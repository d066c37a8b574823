"""Check harness and the generic rules: automata over the state graph, path tables, evidence."""
import json, os, re, sys, time, traceback
import facts, absint
from absint import Policy, explore, desc, full, strip, is_field, mentions_field, mentions, show, short, Val, mk, K, lin, INF, subvals, chain
from facts import tail, Missing

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVD = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))


class Check:
    def __init__(self, pid, title=""):
        self.pid = pid
        self.t0 = time.time()
        self.viol = []      # (key, message, trace)
        self.obs = []       # obligations: (rule, instance, ok)
        self.cov = {"functions": set(), "states": 0, "transitions": 0, "call_sites": 0}
        self.notes = []
        self.assumptions = []
        self.floors = []
        self._F = None
        self.rule_text = {}

    @property
    def F(self):
        if self._F is None:
            self._F = facts.load()
        return self._F

    def rule(self, name, text):
        self.rule_text[name] = text

    def ob(self, rule, inst, ok, msg="", trace=()):
        """one obligation"""
        self.obs.append((rule, inst, bool(ok)))
        if not ok:
            self.bad(rule, inst, msg, trace)
        return ok

    def bad(self, rule, inst, msg, trace=()):
        key = "%s/%s" % (rule, inst)
        if key not in [v[0] for v in self.viol]:
            self.viol.append((key, msg, list(trace)))

    def floor(self, rule, n, least):
        self.floors.append((rule, n, least))
        if n < least:
            self.bad(rule, "floor", "only %d instances of rule '%s' were found, %d were confirmed by hand: the anchor moved or the construct is gone" % (n, rule, least))

    def graph(self, entry, **kw):
        F = self.F
        if entry not in F.fns:
            entry = F.one(entry)
        pol = Policy(F, **kw)
        g = explore(F, entry, pol)
        g.name = entry
        self.cov["functions"] |= g.fns
        self.cov["states"] += len(g.nodes)
        self.cov["transitions"] += sum(len(n.succ) for n in g.nodes)
        self.cov["call_sites"] += sum(1 for n in g.nodes for e in n.ev if e[0] in ("call", "enter", "mcall"))
        if g.truncated:
            self.bad("engine", tail(entry), "state graph of %s exceeded %d states: not analysed completely" % (entry, pol.max_nodes))
        return g

    def auto(self, rule, inst, g, q0, step, msg=None, end=None):
        r = run_auto(g, q0, step, end)
        if r is None:
            self.ob(rule, inst, True)
        else:
            m, path = r
            self.ob(rule, inst, False, "%s%s" % (msg + ": " if msg else "", m), g.trace(path))
        return r is None

    def finish(self, level="other", explanation=""):
        known = load_known(self.pid)
        tier = os.environ.get("VERIF_TIER", "quick")
        new = []
        shown = []
        for key, msg, tr in self.viol:
            k = known.get(key)
            if k is not None:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
                shown.append(key)
            else:
                new.append((key, msg, tr))
        nob = len(self.obs)
        nok = sum(1 for o in self.obs if o[2])
        per = {}
        for r, i, ok in self.obs:
            d = per.setdefault(r, [0, 0])
            d[0] += 1
            d[1] += ok
        ev = {
            "property": self.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
            "coverage": {
                "explanation": explanation or "static analysis of the type-checked program (MIR) of /repo's current tree",
                "obligations": nob, "discharged": nok,
                "rules": {r: {"text": self.rule_text.get(r, ""), "instances": d[0], "hold": d[1]} for r, d in sorted(per.items())},
                "functions_analysed": len(self.cov["functions"]),
                "program_points": self.cov["states"], "edges": self.cov["transitions"], "call_sites": self.cov["call_sites"],
                "samples": ["%s: %s" % (r, i) for r, i, ok in self.obs[:12]],
                "floors": [{"rule": r, "found": n, "least": l} for r, n, l in self.floors],
                "notes": self.notes[:40],
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        for k, v in getattr(self, "extra", {}).items():
            ev["coverage"][k] = v
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(EVD), exist_ok=True)
        with open(os.path.join(EVD, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        if new:
            rd = os.path.join(EVD, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + ".txt")
            with open(rp, "w") as f:
                for key, msg, tr in new:
                    f.write("VIOLATION %s\n  %s\n" % (key, msg))
                    for s in tr:
                        f.write("    %s\n" % s)
            for key, msg, tr in new:
                print("%s: %s" % (key, msg))
                for s in tr[-14:]:
                    print("    " + s)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: %d obligations hold in %d functions, %d program points (%.1fs)" % (self.pid, nok, len(self.cov["functions"]), self.cov["states"], time.time() - self.t0))
        return 0


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    out = {}
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f).get("known", []):
                if e["property"] == pid:
                    out[e["key"]] = e["what"]
    return out


# ---------------------------------------------------------------- automata
class Bad:
    def __init__(self, msg):
        self.msg = msg


DEAD = object()


def run_auto(g, q0, step, end=None):
    """Runs a property automaton over every path of g. step(q, ev) -> q' | Bad | DEAD.  Returns None or
    (message, path of node ids)."""
    par = {}
    start = (g.entry, q0)
    work = [start]
    par[start] = None
    while work:
        cur = work.pop()
        i, q = cur
        n = g.nodes[i]
        for e in n.ev:
            q = step(q, e)
            if isinstance(q, Bad):
                return q.msg, unwind(par, cur)
            if q is DEAD:
                break
        if q is DEAD:
            continue
        if not n.succ and end is not None:
            m = end(q, n)
            if m:
                return m, unwind(par, cur)
        for evs, j in n.succ:
            q2 = q
            for e in evs:
                q2 = step(q2, e)
                if isinstance(q2, Bad):
                    return q2.msg, unwind(par, cur)
                if q2 is DEAD:
                    break
            if q2 is DEAD:
                continue
            nx = (j, q2)
            if nx not in par:
                par[nx] = cur
                work.append(nx)
    return None


def unwind(par, cur):
    p = []
    while cur is not None:
        p.append(cur[0])
        cur = par[cur]
    return p[::-1]


# ---------------------------------------------------------------- path tables for small functions
class Path:
    __slots__ = ("ev", "ass", "ret", "kind", "nodes", "_rng", "_set")

    def rng(self, d):
        """interval known for the linear term described by {desc: coef}"""
        lo, hi = -INF, INF
        ne = set()
        want = {k: c for k, c in d.items() if c}
        for e in self.ass:
            _, t, f = e
            if f[0] != "r":
                continue
            c, terms = lin(t)
            got = {}
            for x, k in terms.items():
                dx = desc(x)
                got[dx] = got.get(dx, 0) + k
            if got == want:
                lo, hi = max(lo, f[1] - c), min(hi, f[2] - c)
                ne |= {z - c for z in f[3]}
            elif got == {k: -c2 for k, c2 in want.items()}:
                lo, hi = max(lo, -f[2] + c), min(hi, -f[1] + c)
                ne |= {-z + c for z in f[3]}
        return lo, hi, ne

    def variant(self, F, d):
        """possible variants (names) of the enum value described by d, or None if never tested"""
        out = None
        for e in self.ass:
            _, t, f = e
            if t.op == "discr" and f[0] == "e" and desc(t.a[0]) == d:
                a = F.adts.get(t.a[1])
                names = frozenset(v[0] for v in a["vs"] if int(v[1]) in f[1]) if a else f[1]
                out = names if out is None else out & names
        return out

    def truth(self, d):
        """0/1/None for the boolean value described by d"""
        for e in reversed(self.ass):
            _, t, f = e
            if f[0] == "e" and desc(t) == d and len(f[1]) == 1:
                return next(iter(f[1]))
        return None

    def calls(self, pat):
        r = re.compile(pat)
        return [e for e in self.ev if e[0] in ("call", "mcall", "enter") and r.search(e[1])]

    def stores(self, owner, field):
        out = []
        for e in self.ev:
            if e[0] == "store":
                p = store_path(e)
                if p and p[-1] == (owner, field):
                    out.append(e)
        return out


def store_path(e):
    """[(owner, field), ...] of a heap store, outermost container first"""
    root, projs = e[1], e[2]
    out = []
    if root[0] == "H":
        ch, b = chain(root[1])
        out = list(reversed(ch))
    elif root[0] == "T":
        out = [(root[1], root[2])]
    for p in projs:
        if p[0] == "f":
            out.append((short(p[2]), p[1]))
        elif p[0] == "i":
            out.append(("", "[]"))
    return out


def paths(g, limit=20000):
    """every acyclic path of a (small) graph from entry to return / panic"""
    out = []
    stack = [(g.entry, (), (), frozenset())]
    while stack:
        i, ev, nodes, seen = stack.pop()
        n = g.nodes[i]
        ev = ev + tuple(n.ev)
        nodes = nodes + (i,)
        if not n.succ:
            p = Path()
            p.ev = ev
            p.ass = [e for e in ev if e[0] == "assume"]
            last = n.ev[-1] if n.ev else ("end",)
            p.kind = last[0]
            p.ret = last[1] if last[0] == "ret" else None
            p.nodes = nodes
            out.append(p)
            if len(out) > limit:
                raise RuntimeError("too many paths in %s" % g.name)
            continue
        for evs, j in n.succ:
            if j in seen:
                continue
            stack.append((j, ev + tuple(evs), nodes, seen | {i}))
    return out


def variant_of(v):
    return v.a[2] if v is not None and v.op == "agg" else None


def payload(v, i=0):
    if v.op == "agg" and len(v.a[5]) > i:
        return v.a[5][i]
    return None


def agg_field(v, name):
    if v.op == "upd":
        b = v
        while b.op == "upd":
            if b.a[1][0] == "f" and b.a[1][1] == name:
                return b.a[2]
            b = b.a[0]
        v = b
    if v.op == "agg" and name in v.a[4]:
        return v.a[5][v.a[4].index(name)]
    return None


def main(fn):
    """runs one check; every outcome is exit 0 or exit 1 with a VIOLATION line"""
    pid = fn.__name__.upper() if not getattr(fn, "pid", None) else fn.pid
    c = Check(pid)
    try:
        level, expl = fn(c)
    except Missing as e:
        c.bad("anchor", "missing", "a construct this rule is about is not in the program: %s" % e)
        level, expl = "other", "anchor missing"
    except Exception as e:
        traceback.print_exc()
        c.bad("engine", "error", "analysis failed: %r" % (e,))
        level, expl = "other", "analysis failed"
    return c.finish(level, expl)


# ---------------------------------------------------------------- whole-program helpers
def field_writes(F, owner, field, fns=None):
    """[(fn, kind, rvalue, line)]: assignments to owner.field, &mut borrows of it, aggregate constructions"""
    out = []
    for n, f in F.fns.items():
        if fns is not None and n not in fns:
            continue
        for bi, b in enumerate(f.b):
            if b["c"]:
                continue
            for pl, rv, ln in b["s"]:
                if rv["r"] == "dead":
                    continue
                last = [e for e in pl[1:] if isinstance(e, list) and e[0] == "f"]
                if last and last[-1][2] == field and short(last[-1][3]) == owner and pl[-1] is last[-1]:
                    out.append((n, "set", rv, ln))
                elif any(e[2] == field and short(e[3]) == owner for e in last[:-1]) or (last and last[-1][2] == field and short(last[-1][3]) == owner):
                    out.append((n, "set-inside", rv, ln))
                if rv["r"] == "ref" and rv.get("m"):
                    fs = [e for e in rv["p"][1:] if isinstance(e, list) and e[0] == "f"]
                    if any(e[2] == field and short(e[3]) == owner for e in fs):
                        out.append((n, "mutref", rv, ln))
                if rv["r"] == "agg" and rv["ak"] == "adt" and short(rv["d"]) == owner and field in rv["fs"]:
                    out.append((n, "new", rv, ln))
            t = b["t"]
            if t["k"] == "call":
                last = [e for e in t["d"][1:] if isinstance(e, list) and e[0] == "f"]
                if any(e[2] == field and short(e[3]) == owner for e in last):
                    out.append((n, "set", t, t.get("line", 0)))
    return out


def call_sites(F, pat):
    """[(fn, block, ref, term)] of calls whose (resolved) callee matches"""
    r = re.compile(pat)
    out = []
    for n, f in F.fns.items():
        for bi, b in enumerate(f.b):
            t = b["t"]
            if t["k"] == "call" and t["f"]["k"] == "fn":
                ref = t["f"]["f"]
                if r.search(ref.get("r") or ref["fn"]) or r.search(ref["fn"]):
                    out.append((n, bi, ref, t))
    return out


# ---------------------------------------------------------------- small spec helpers
def need(p, alts):
    """one of the alternatives ({desc: coef}, lo, hi) is implied by what path p assumed"""
    for terms, lo, hi in alts:
        a, b, ne = p.rng(terms)
        if lo is not None:
            while a in ne:
                a += 1
        if hi is not None:
            while b in ne:
                b -= 1
        if (lo is None or a >= lo) and (hi is None or b <= hi):
            return True
    return False


def is_closure_call(e, i):
    """the event calls the function's i-th parameter (a closure or function)"""
    return e[0] == "call" and re.search(r"::(call_once|call_mut|call)$", e[1]) and e[2] and desc(e[2][0]).rstrip("~") == "arg%d" % i


def ret_is(v, variant):
    v0 = v
    return v is not None and v.op == "agg" and v.a[2] == variant


def ok_ret(v):
    """True/False/None: the returned Result is surely Ok / surely Err / unknown"""
    if v is None:
        return None
    if v.op == "agg" and v.a[0] == "adt":
        if v.a[2] in ("Ok", "Some"):
            return True
        if v.a[2] in ("Err", "None"):
            return False
    return None


def err_of(v):
    return payload(v) if v is not None and v.op == "agg" and v.a[2] == "Err" else None


def rngfact(e, terms):
    """(lo, hi) the assume event says about the linear term, or None"""
    _, t, f = e
    if f[0] != "r":
        return None
    c, ts = lin(t)
    got = {}
    for x, k in ts.items():
        d = desc(x)
        got[d] = got.get(d, 0) + k
    if got == terms:
        return f[1] - c, f[2] - c, {z - c for z in f[3]}
    if got == {k: -v for k, v in terms.items()}:
        return -f[2] + c, -f[1] + c, {c - z for z in f[3]}
    return None


def assumed(e):
    """(desc, set of values) of a boolean / discriminant assumption"""
    if e[0] == "assume" and e[2][0] == "e":
        return desc(e[1]), e[2][1]
    return None, None


def only_called_from(F, fn, allowed, depth=4):
    """every caller of the helper fn (transitively) is one of the allowed functions"""
    seen = set()
    work = [(fn, depth)]
    while work:
        x, d = work.pop()
        cs = {y.split("::{closure")[0] for y in F.callers().get(x, ())}
        if not cs and x == fn:
            return False
        for y in cs:
            if y in allowed or y in seen:
                continue
            if d == 0 or y == x:
                return False
            seen.add(y)
            work.append((y, d - 1))
            if not F.callers().get(y):
                return False
    return True


def ordfact(e):
    """('>=' or '<', desc a, desc b) of an assumption that orders two non-integer values"""
    if e[0] == "assume" and e[1].op == "ord" and e[2][0] == "e" and len(e[2][1]) == 1:
        return ("<" if next(iter(e[2][1])) == 1 else ">="), desc(e[1].a[0]), desc(e[1].a[1])
    return None


def optfact(e):
    """(desc of an Option/Result/two-variant value, discriminant 0 or 1) known from an assumption, in any of its forms"""
    if e[0] != "assume":
        return None
    _, t, f = e
    if t.op == "discr":
        d = desc(t.a[0])
    elif f[0] == "r":
        c, ts = lin(t)
        if c or len(ts) != 1:
            return None
        x, k = next(iter(ts.items()))
        if k != 1 or x.op != "discr":
            return None
        d = desc(x.a[0])
    else:
        return None
    if f[0] == "e":
        return (d, next(iter(f[1]))) if len(f[1]) == 1 else None
    lo, hi, ne = f[1], f[2], f[3]
    if lo == hi:
        return d, lo
    if lo >= 1 or 0 in ne and hi <= 1 or ne == {0}:
        return d, 1
    if hi <= 0 or ne == {1}:
        return d, 0
    return None


def each_elem(is_src, is_act, what="an element", skip=None):
    """automaton: is_act happens for every element taken from the collection described by is_src(desc), in a
    loop or in a closure handed to an iterator adaptor.  start state: ('idle', None)"""
    def step(q, e):
        st, clo = q
        if e[0] == "enter" and len(e) > 4 and e[4] == "maybe":
            if any(v.op == "carg" and any(is_src(desc(s)) for s in v.a[4]) for v in e[2]):
                return ("have", e[1])
        if e[0] == "assume":
            o = optfact(e)
            if o and "::next(" in o[0] and is_src(o[0]):
                if st == "have":
                    return Bad("%s is passed over" % what)
                return ("have", None) if o[1] == 1 else ("done", None)
            if skip and skip(e) and st == "have":
                return ("between", clo)
        if is_act(e):
            if st == "have":
                return ("between", clo)
        if e[0] == "exit" and clo == e[1]:
            if st == "have":
                return Bad("%s is passed over" % what)
            return ("done", None)
        if e[0] == "ret":
            if st == "have":
                return Bad("%s is passed over" % what)
            if st == "between" and ok_ret(e[1]) is not False:
                return Bad("stops before every element was looked at")
        return q
    return step


def evs(g):
    """every event of a graph once"""
    for n in g.nodes:
        yield from n.ev
        for es, _ in n.succ:
            yield from es


def callev(e, pat):
    return e[0] in ("call", "mcall", "enter") and re.search(pat, e[1]) is not None


def released(e):
    """desc of what a lock guard that goes away protected, or None"""
    if e[0] == "drop" and re.search(r"(Mutex|RwLockRead|RwLockWrite)Guard", e[1]):
        return desc(e[2])
    if e[0] == "mcall" and e[1].endswith("mem::drop") and mentions(e[2][0], lambda x: x.op == "call" and re.search(r"(Mutex|RwLock)::(lock|read|write)$", x.a[2]) is not None):
        return desc(e[2][0])
    return None
