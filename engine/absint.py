"""Path-sensitive interprocedural dataflow over MIR facts.

An abstract state is a program point (inlined call string, basic block) with an abstract value for every
live local and touched heap location, plus branch facts (sets of possible variants / intervals of linear
terms).  Values are constants, aggregates, references and provenance terms (where a value came from).
Unknown branches go both ways; loops are widened at their heads; calls to code outside the crates are
effects.  Nothing is executed and no solver is used: facts only decide a branch when they contain its
outcome.  The result is a graph of program points whose nodes list events (calls, stores, assumptions,
drops, returns); rules are automata over that graph (see rules.py)."""
import re
from facts import succs, loop_blocks, loop_body, liveness, preds_count, tail

_tab = {}


class Val:
    __slots__ = ("op", "a", "id", "sites", "depth", "size")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + a
    v = _tab.get(key)
    if v is None:
        v = Val()
        v.op = op
        v.a = a
        v.id = len(_tab)
        d = 0
        sites = None
        size = 1
        st = list(a)
        while st:
            x = st.pop()
            if isinstance(x, Val):
                if x.depth > d:
                    d = x.depth
                size += x.size
                if x.sites:
                    sites = x.sites if sites is None else (sites | x.sites)
            elif type(x) is tuple:
                st.extend(x)
        v.depth = d + 1
        v.size = size
        if op in ("call", "phi", "mut", "ext", "carg"):
            s = (op, a[0], a[1])
            sites = frozenset((s,)) if sites is None else sites | {s}
        elif op == "old":
            s = ("old", a[1], a[2])
            sites = frozenset((s,)) if sites is None else sites | {s}
        v.sites = sites or NOS
        _tab[key] = v
    return v


NOS = frozenset()


def K(n):
    return mk("k", int(n))


UNIT = mk("agg", "tuple", None, None, 0, (), ())
TRUE, FALSE = K(1), K(0)


CLIP = [400, 60]


def clip(v, lim=None):
    return v if v.size <= (lim or CLIP[0]) and v.depth <= CLIP[1] else mk("deep", v.op, tuple(sorted(v.sites))[:4])


def show(v, d=6):
    if not isinstance(v, Val):
        if isinstance(v, tuple):
            return "(" + ",".join(show(x, d) for x in v) + ")"
        return str(v)
    if d == 0:
        return ".."
    o, a = v.op, v.a
    if o == "k":
        return str(a[0])
    if o == "s":
        return repr(a[0])
    if o == "arg":
        return "arg%d" % a[0]
    if o == "f":
        return "%s.%s" % (show(a[0], d - 1), a[1])
    if o == "as":
        return "%s as %s" % (show(a[0], d - 1), a[1])
    if o == "agg":
        n = (a[1] or a[0]).split("::")[-1]
        if a[2] and a[2] != n:
            n += "::" + a[2]
        return "%s{%s}" % (n, ",".join(show(x, d - 1) for x in a[5])) if a[5] else n
    if o == "call":
        return "%s(%s)" % (tail(a[2]), ",".join(show(x, d - 1) for x in a[3]))
    if o == "lin":
        return "(" + " + ".join(["%s" % a[0]] + ["%s*%s" % (c, show(t, d - 1)) for t, c in a[1]]) + ")"
    if o in ("*", "gp"):
        return show(a[0], d)
    return "%s(%s)" % (o, ",".join(show(x, d - 1) for x in a))


# ---------------------------------------------------------------- numbers
INT = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
       "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1),
       "bool": (0, 1), "char": (0, 0x10FFFF)}


def lin(v):
    """(const, {term: coef})"""
    if v.op == "k":
        return v.a[0], {}
    if v.op == "lin":
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def unlin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def ladd(a, b, s=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + s * k
    return unlin(ca + s * cb, d)


def lmul(a, b):
    if a.op == "k":
        a, b = b, a
    if b.op == "k":
        c, d = lin(a)
        m = b.a[0]
        return unlin(c * m, {t: k * m for t, k in d.items()})
    x, y = sorted((a, b), key=lambda z: z.id)
    return mk("bin", "Mul", x, y)


def split(v):
    """lin value -> (const, sign, term) with term normalised (const 0, leading coef > 0); v = const + sign*term"""
    c, d = lin(v)
    if not d:
        return c, 1, None
    lead = min(d, key=lambda t: t.id)
    s = 1 if d[lead] > 0 else -1
    return c, s, unlin(0, {t: k * s for t, k in d.items()})


INF = 10**60


class Infeasible(Exception):
    pass


class State:
    __slots__ = ("ctx", "bb", "mem", "facts")

    def __init__(self, ctx, bb, mem, facts):
        self.ctx, self.bb, self.mem, self.facts = ctx, bb, mem, facts


class Ctx:
    __slots__ = ("id", "parent", "fn", "site", "ret", "subst", "depth", "inloop", "names", "after")


class Policy:
    """what to inline, what to track, how far to go"""

    def __init__(self, F, boundary=None, interest=None, track=None, depth=14, small=60, max_nodes=60000, cap=200,
                 bind_call=None, noinline=None, inline=None, args=None, log_off=True, closures=True, keep_enter=True, state_in=None, heap=None, widen=3, bytes=False, derefs=False, alen=False, deep=False, big=False):
        self.widen = widen
        self.deep = deep
        self.alen = alen
        self.big = big
        self.derefs = derefs
        self.bytes = bytes
        self.F = F
        self.boundary = boundary or (lambda n: False)
        self.interest = interest
        self.track = track or {}
        self.depth, self.small, self.max_nodes, self.cap = depth, small, max_nodes, cap
        self.bind_call = bind_call or {}
        self.noinline = noinline or (lambda n: False)
        self.inline = inline
        self.args = args
        self.log_off = log_off
        self.closures = closures
        self.heap = heap or {}
        self._reach = None
        self._size = {}

    def reaches(self, n):
        if self.interest is None:
            return True
        if self._reach is None:
            F = self.F
            hit = set()
            for m, f in F.fns.items():
                if self.interest(m) or f_has(F, f, self.interest):
                    hit.add(m)
            callers = F.callers()
            st = list(hit)
            seen = set(hit)
            while st:
                x = st.pop()
                for y in callers.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            self._reach = seen
        return n in self._reach

    def tsize(self, n):
        if n not in self._size:
            self._size[n] = sum(len(self.F.fns[m].b) for m in self.F.reach([n]) if m in self.F.fns)
        return self._size[n]

    def should_inline(self, n, ctx):
        if n not in self.F.fns or self.boundary(n) or self.noinline(n):
            return False
        if ctx.depth >= self.depth or n in ctx.names:
            return False
        if self.inline is not None and self.inline(n):
            return True
        return self.reaches(n) or self.tsize(n) <= self.small


def f_has(F, f, interest):
    for bi, kind, ref in F.edges(f):
        if interest(ref.get("r") or ref["fn"]) or interest(ref["fn"]):
            return True
    return False


class Node:
    __slots__ = ("i", "ctx", "bb", "ev", "succ", "parent")


class Graph:
    def __init__(self):
        self.nodes = []
        self.entry = None
        self.capped = 0
        self.truncated = False
        self.fns = set()
        self.opaque = set()

    def loc(self, i):
        n = self.nodes[i]
        return n.ctx.fn

    def line(self, i):
        n = self.nodes[i]
        return n.ctx.fn.b[n.bb]["t"].get("line", 0)

    def trace(self, path):
        out = []
        for i in path:
            n = self.nodes[i]
            s = "%s:%d (%s)" % (n.ctx.fn.file, self.line(i), tail(n.ctx.fn.n))
            if not out or out[-1] != s:
                out.append(s)
        return out


TRANSPARENT_F = {("CallMutex", None), ("CallRwLock", None)}


class Engine:
    def __init__(self, F, entry, pol):
        self.F = F
        self.pol = pol
        self.entry = entry
        self.g = Graph()
        self.ctxs = {}
        self.seen = {}
        self.cnt = {}
        self.tops = {}
        self.heads = {}
        self.alen = {}
        self.epochs = {}
        self.promcache = {}
        self.cur_ev = None
        self.universe = {}

    # ------------------------------------------------------------ contexts
    def ctx(self, parent, fn, site, ret, subst, after=None):
        key = (parent.id if parent else None, fn.n, site, repr(ret), subst, after)
        c = self.ctxs.get(key)
        if c is None:
            c = Ctx()
            c.id = len(self.ctxs)
            c.parent, c.fn, c.site, c.ret, c.subst, c.after = parent, fn, site, ret, subst, after
            c.depth = parent.depth + 1 if parent else 0
            c.names = (parent.names | {fn.n}) if parent else frozenset((fn.n,))
            c.inloop = bool(parent and (parent.inloop or site in loop_blocks(parent.fn)[0]))
            self.ctxs[key] = c
            self.g.fns.add(fn.n)
        return c

    # ------------------------------------------------------------ constants
    def promoted(self, pf, idx):
        n = "%s::{promoted#%d}" % (pf, idx)
        if n in self.promcache:
            return self.promcache[n]
        f = self.F.fns.get(n)
        self.promcache[n] = mk("kc", n)
        if f is None:
            return self.promcache[n]
        mem = {}
        c = self.ctx(None, f, None, ("prom", n), ())
        st = State(c, 0, mem, {})
        bb = 0
        for _ in range(60):
            b = f.b[bb]
            for s in b["s"]:
                self.stmt(st, s, [])
            t = b["t"]
            if t["k"] == "goto":
                bb = t["t"]
            elif t["k"] == "assert":
                bb = t["t"]
            elif t["k"] == "call" and t["t"] is not None:
                st.bb = bb
                args = [self.operand(st, o) for o in t["a"]]
                nm = t["f"]["f"]["fn"] if t["f"]["k"] == "fn" else "?"
                self.store(st, t["d"], mk("kcall", nm, tuple(args)), [])
                bb = t["t"]
            else:
                break
        r = mem.get((c.id, 0), mk("kc", n))
        self.pm = getattr(self, "pm", {})
        self.pm.update(mem)
        self.promcache[n] = r
        return r

    def constant(self, o):
        F = self.F
        if o["k"] == "fn":
            return mk("fn", o["f"].get("r") or o["f"]["fn"], o["f"]["fn"], tuple(o["f"].get("rga") or o["f"]["ga"]))
        t = F.tys[o["ty"]]
        if "prom" in o:
            return self.promoted(o["pf"], o["prom"])
        if "v" in o:
            if t["k"] == "adt":
                a = F.adts.get(t["d"])
                if a and a["k"] == "enum" and a["vs"]:
                    for i, v in enumerate(a["vs"]):
                        dv = int(v[1])
                        if (dv == o["v"] or dv < 0 and o["v"] in (dv % 256, dv % 2**16, dv % 2**32, dv % 2**64)) and not v[2]:
                            return mk("agg", "adt", t["d"], v[0], i, (), ())
                return mk("kc", "%s(%s)" % (t["s"], o["v"]))
            return K(o["v"])
        if "str" in o:
            return mk("s", o["str"])
        if "hex" in o:
            return mk("hb", o["hex"])
        if "static" in o:
            return mk("ref", ("S", o["static"]), ())
        s = o.get("s", "")
        if t["k"] == "tuple" and not t["a"]:
            return UNIT
        if t["k"] == "adt":
            a = F.adts.get(t["d"])
            if a and a["k"] == "enum":
                vn = s.split("::")[-1]
                for i, v in enumerate(a["vs"]):
                    if v[0] == vn and not v[2]:
                        return mk("agg", "adt", t["d"], vn, i, (), ())
            if a and a["k"] == "struct" and not a["vs"][0][2]:
                return mk("agg", "adt", t["d"], a["vs"][0][0], 0, (), ())
        if t["k"] == "closure":
            return mk("agg", "clo", t["d"], None, 0, (), ())
        if t["k"] == "fndef":
            return mk("fn", t["d"], t["d"], tuple(t["a"]))
        return mk("kc", o.get("def") or s or "const:" + t["s"], s)

    # ------------------------------------------------------------ memory
    def read_root(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if isinstance(root, tuple) and root and root[0] == "H":
            p = root[1]
            q = p
            while q.op == "cast":
                q = q.a[1]
            if q.op == "gp" and q.a[0].op == "box":
                return q.a[0].a[0]
            if q.op in ("s", "hb", "kc"):
                return q
            return mk("*", p)
        if isinstance(root, tuple) and root and root[0] == "T":
            return self.pol.track[(root[1], root[2])]
        if isinstance(root, tuple) and root and root[0] == "S":
            return mk("static", root[1])
        pm = getattr(self, "pm", None)
        if pm and root in pm:
            return pm[root]
        return mk("uninit", str(root[1]) if isinstance(root, tuple) else str(root))

    def project(self, v, e):
        o = v.op
        k = e[0]
        if o == "upd":
            if v.a[1] == e:
                return v.a[2]
            if k == "r" or v.a[1][0] == "r":
                return mk("sub", v, e)
            if k == "v":
                # downcast of an updated base: keep looking through
                return mk("upd", self.project(v.a[0], e), v.a[1], v.a[2]) if v.a[1][0] == "f" else self.project(v.a[0], e)
            if k == "i" and v.a[1][0] == "i" and not (e[1].op == "k" and v.a[1][1].op == "k"):
                return mk("idx", v, e[1])
            return self.project(v.a[0], e)
        if o == "agg":
            if k == "f":
                vals = v.a[5]
                if e[3] < len(vals):
                    return vals[e[3]]
            if k == "v":
                return v
            if k == "i" and v.a[0] == "array" and e[1].op == "k" and 0 <= e[1].a[0] < len(v.a[5]):
                return v.a[5][e[1].a[0]]
        if k == "f":
            if o == "as" and v.a[0].op == "chk":
                return v.a[0].a[0]
            return mk("f", v, e[1], e[2])
        if k == "v":
            return mk("as", v, e[1], e[2])
        if k == "i":
            if o == "rep":
                return v.a[0]
            return mk("idx", v, e[1])
        return mk("sub", v, e)

    def update(self, v, projs, x):
        if not projs:
            return x
        e = projs[0]
        if e[0] == "v":
            return self.update(v, projs[1:], x)
        inner = self.update(self.project(v, e), projs[1:], x)
        if v.op == "agg" and e[0] == "f" and e[3] < len(v.a[5]):
            vals = list(v.a[5])
            vals[e[3]] = inner
            return mk(*(("agg",) + v.a[:5] + (tuple(vals),)))
        if v.op == "upd" and v.a[1] == e:
            return mk("upd", v.a[0], e, inner)
        if v.op == "upd" and e[0] == "f" and v.a[1][0] == "f":
            # keep updates ordered so that equal states look equal
            chain = []
            b = v
            while b.op == "upd":
                chain.append((b.a[1], b.a[2]))
                b = b.a[0]
            chain = [c for c in chain if c[0] != e] + [(e, inner)]
            chain.sort(key=lambda c: repr(c[0]))
            for pe, pv in chain:
                b = mk("upd", b, pe, pv)
            return b
        return mk("upd", clip(v, 3000), e, inner)

    def deref(self, st, p):
        """pointer value -> (root, projs)"""
        q = p
        while q.op == "cast":
            q = q.a[1]
        if q.op == "ref":
            return q.a[0], q.a[1]
        if self.pol.track:
            b = strip(q)
            if b.op == "f" and (short(b.a[2]), b.a[1]) in self.pol.track:
                return ("T", short(b.a[2]), b.a[1]), ()
        if q.op == "unk":
            return ("H", q), ()
        return ("H", q), ()

    def resolve(self, st, pl):
        root = (st.ctx.id, pl[0])
        projs = ()
        track = self.pol.track
        ty = st.ctx.fn.l[pl[0]] if self.pol.derefs else None
        for e in pl[1:]:
            if e == "*":
                v = self.read(st, root, projs)
                if ty is not None:
                    if self.F.tys[ty]["s"].startswith(("*const ", "*mut ")) and self.cur_ev is not None:
                        self.cur_ev.append(("deref", v, st.ctx.fn.n, self.F.tys[ty]["s"]))
                    pa = self.F.tys[ty].get("a") or [None]
                    ty = pa[0] if isinstance(pa[0], int) else None
                root, projs = self.deref(st, v)
            elif e[0] == "f":
                if self.pol.derefs:
                    ty = e[4]
                if track and e[3] and (short(e[3]), e[2]) in track:
                    ts = self.F.tys[e[4]]["s"]
                    if "Mutex<" not in ts and "RwLock<" not in ts:
                        root, projs = ("T", short(e[3]), e[2]), ()
                        continue
                projs += (("f", e[2], e[3], e[1]),)
            elif e[0] == "v":
                projs += (("v", e[2], e[1]),)
            elif e[0] == "i":
                projs += (("i", self.read(st, (st.ctx.id, e[1]), ())),)
            elif e[0] == "ci":
                projs += (("i", K(e[1]) if not e[2] else mk("fromend", e[1])),)
            elif e[0] == "ss":
                projs += (("ss", e[1], e[2], e[3]),)
        return root, projs

    def read(self, st, root, projs):
        v = self.read_root(st, root)
        for e in projs:
            v = self.project(v, e)
        return v

    def load(self, st, pl):
        r, p = self.resolve(st, pl)
        return self.read(st, r, p)

    def write(self, st, root, projs, val, ev, line=0):
        if isinstance(root, tuple) and root[0] in ("H", "T", "S"):
            ev.append(("store", root, projs, val, line))
        if val.size > max(3000, CLIP[0]) or val.depth > max(80, CLIP[1]):
            val = mk("deep", val.op, tuple(sorted(map(str, val.sites)))[:3])
        st.mem[root] = self.update(self.read_root(st, root), projs, val) if projs else val

    def store(self, st, pl, val, ev, line=0):
        r, p = self.resolve(st, pl)
        self.write(st, r, p, val, ev, line)

    def value_of(self, st, v, n=8):
        """follow references until a non-reference value"""
        while n:
            n -= 1
            if v.op == "ref":
                v = self.read(st, v.a[0], v.a[1])
            elif v.op == "gp":
                v = self.read_root(st, ("H", v))
                if v.op == "*":
                    return v
            else:
                break
        return v

    # ------------------------------------------------------------ rvalues
    def operand(self, st, o):
        k = o["k"]
        if k in ("p", "m"):
            return self.load(st, o["p"])
        if k == "rt":
            return FALSE
        if "param" in o:
            for n, x in st.ctx.subst:
                if n == "#" + o["param"]:
                    return K(x)
        return self.constant(o)

    def opty(self, st, o):
        if o["k"] in ("p", "m"):
            p = o["p"]
            if len(p) == 1:
                return self.F.tys[st.ctx.fn.l[p[0]]]["s"]
            for e in reversed(p[1:]):
                if e == "*":
                    continue
                if e[0] == "f":
                    return self.F.tys[e[4]]["s"].lstrip("&")
                return ""
            return self.F.tys[st.ctx.fn.l[p[0]]]["s"].replace("&mut ", "").lstrip("&")
        if "ty" in o:
            return self.F.tys[o["ty"]]["s"]
        return ""

    def note_len(self, st, local, v):
        """remember the length that the type of a local gives its value (a fixed-size array or a reference to one)"""
        if not isinstance(v, Val) or v.op in ("k", "s", "fn"):
            return
        t = self.F.tys[st.ctx.fn.l[local]]
        if t["k"] in ("ref", "ptr") and t["a"]:
            t = self.F.tys[t["a"][0]]
        n = t.get("n") if t["k"] == "array" else typenum(t["s"])
        if n is not None:
            if v.op == "ref":
                self.alen.setdefault(v, n)
            x = lenof(self, st, v)
            if x.op == "len":
                self.alen.setdefault(x.a[0], n)

    def binop(self, op, a, b, ty):
        if op in ("Add", "AddUnchecked", "AddWithOverflow"):
            r = ladd(a, b)
        elif op in ("Sub", "SubUnchecked", "SubWithOverflow"):
            r = ladd(a, b, -1)
        elif op in ("Mul", "MulUnchecked", "MulWithOverflow"):
            r = lmul(a, b)
        elif op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(op, a, b, ty)
        elif a.op == "k" and b.op == "k":
            x, y = a.a[0], b.a[0]
            try:
                r = {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y if y < 200 else 0, "Shr": lambda: x >> y,
                     "Div": lambda: int(x / y) if abs(x) < 2**50 else x // y, "Rem": lambda: x - y * (x // y), "ShlUnchecked": lambda: x << y, "ShrUnchecked": lambda: x >> y}[op]()
                if op == "Shl" and ty in INT:
                    r &= INT[ty][1]
                r = K(r)
            except Exception:
                r = mk("bin", op, a, b)
        else:
            if op in ("BitAnd", "BitOr") and ty == "bool":
                for x, y in ((a, b), (b, a)):
                    if x.op == "k":
                        if op == "BitAnd":
                            return y if x.a[0] else FALSE
                        return TRUE if x.a[0] else y
            if op in ("BitAnd", "BitOr", "BitXor") and (a.op == "k" or b.op != "k" and a.id > b.id):
                a, b = b, a
            r = mk("bin", op, a, b)
        if op.endswith("WithOverflow"):
            rng = INT.get(ty)
            if r.op == "k" and rng:
                fl = FALSE if rng[0] <= r.a[0] <= rng[1] else TRUE
            else:
                fl = mk("ovf", op, a, b, ty)
            return mk("agg", "tuple", None, None, 0, ("0", "1"), (r, fl))
        return r

    def cmp(self, op, a, b, ty):
        if a.op == "k" and b.op == "k":
            x, y = a.a[0], b.a[0]
            return K({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
        if ty == "bool" and op in ("Eq", "Ne"):
            for x, y in ((a, b), (b, a)):
                if x.op == "k":
                    t = bool(x.a[0]) == (op == "Eq")
                    return y if t else self.neg(y)
        if a.sites and b.sites and any(t[0] == "old" and t in b.sites for t in a.sites) and exposed_old(a) & exposed_old(b):
            # values of different earlier iterations share a name: the outcome stays unknown
            return mk("cmpold", op, a, b)
        return mk("cmp", op, a, b, ty if ty in INT else ("float" if ty in ("f32", "f64") else ""))

    def neg(self, v):
        if v.op == "k":
            return K(1 - (1 if v.a[0] else 0))
        if v.op == "not":
            return v.a[0]
        return mk("not", v)

    def enum_universe(self, adt):
        u = self.universe.get(adt)
        if u is None:
            a = self.F.adts.get(adt)
            u = frozenset(int(v[1]) for v in a["vs"]) if a and a["k"] == "enum" else None
            self.universe[adt] = u
        return u

    def discr(self, v, tyi):
        t = self.F.tys[tyi]
        adt = t.get("d", "")
        b = v
        while b.op == "upd":
            if b.a[1][0] == "discr":
                return K(b.a[2])
            b = b.a[0]
        if b.op == "agg" and b.a[0] == "adt":
            a = self.F.adts.get(b.a[1])
            if a and a["k"] == "enum":
                return K(int(a["vs"][b.a[3]][1]))
        if b.op == "chk" and b.a[1] in INT:
            lo, hi = INT[b.a[1]]
            c, ts = lin(b.a[0])
            if lo == 0 and any(k < 0 for k in ts.values()) or lo == 0 and c < 0:
                return self.cmp("Ge", b.a[0], K(lo), b.a[1])
            return self.cmp("Le", b.a[0], K(hi), b.a[1])
        if b.op == "as":
            a = self.F.adts.get(adt)
            if a and b.a[2] < len(a["vs"]):
                return K(int(a["vs"][b.a[2]][1]))
        return mk("discr", b, adt)

    def rvalue(self, st, rv, line):
        r = rv["r"]
        if r == "use":
            return self.operand(st, rv["o"])
        if r == "ref":
            root, projs = self.resolve(st, rv["p"])
            if isinstance(root, tuple) and root[0] == "H" and not projs:
                return root[1]
            return mk("ref", root, projs)
        if r == "bin":
            return self.binop(rv["op"], self.operand(st, rv["a"]), self.operand(st, rv["b"]), self.opty(st, rv["a"]) or self.opty(st, rv["b"]))
        if r == "un":
            v = self.operand(st, rv["o"])
            if rv["op"] == "Not":
                if self.opty(st, rv["o"]) == "bool":
                    return self.neg(v)
                return mk("bin", "BitNot", v, v)
            if rv["op"] == "Neg":
                return lmul(v, K(-1))
            if rv["op"] == "PtrMetadata":
                return lenof(self, st, v)
            return mk("un", rv["op"], v)
        if r == "discr":
            return self.discr(self.load(st, rv["p"]), rv["ty"])
        if r == "agg":
            vals = tuple(clip(self.operand(st, o), 1500) for o in rv["os"])
            ak = rv["ak"]
            if ak == "adt":
                if len(rv["fs"]) != len(vals) or (rv["fs"] and self.F.adts.get(rv["d"], {}).get("k") == "union"):
                    return mk("agg", "union", rv["d"], rv["vn"], rv["v"], tuple(rv["fs"]), vals)
                return mk("agg", "adt", rv["d"], rv["vn"], rv["v"], tuple(rv["fs"]), vals)
            if ak == "closure":
                return mk("agg", "clo", rv["d"], None, 0, (), vals)
            if ak == "rawptr":
                return vals[0] if vals else mk("unk")
            return mk("agg", ak, None, None, 0, tuple(str(i) for i in range(len(vals))), vals)
        if r == "rep":
            return mk("rep", self.operand(st, rv["o"]), rv["n"])
        if r == "cast":
            v = self.operand(st, rv["o"])
            ck = rv["ck"]
            ts = self.F.tys[rv["ty"]]["s"]
            if v.op == "fn" or ck.startswith("PointerCoercion") or "PtrToPtr" in ck:
                if "Unsize" in ck and v.op == "ref":
                    return v
                return v
            if ck.startswith("Transmute"):
                return v
            if v.op == "k" and ts in INT:
                lo, hi = INT[ts]
                n = v.a[0]
                if not lo <= n <= hi:
                    n &= (hi - lo)
                    if n > hi:
                        n -= (hi - lo + 1)
                return K(n)
            if ts in INT:
                fr = self.opty(st, rv["o"])
                if fr in INT and INT[fr][0] >= INT[ts][0] and INT[fr][1] <= INT[ts][1]:
                    return v
                if v.op == "discr":
                    return v
                c, sg, t = split(v)
                f = st.facts.get(t) if t is not None else None
                if f is not None and f[0] == "r":
                    lo, hi = sorted((c + sg * f[1], c + sg * f[2]))
                    if INT[ts][0] <= lo and hi <= INT[ts][1]:
                        return v     # the path knows that the value fits
                if fr in INT:
                    return mk("cast", ts, v, 1)     # may lose bits
                return mk("cast", ts, v)
            if ts.startswith(("*", "&", "fn")):
                return v
            return mk("cast", ts, v)
        if r == "tls":
            return mk("ref", ("S", rv["d"]), ())
        return mk("unk", r)

    def stmt(self, st, s, ev):
        pl, rv, line = s
        r = rv["r"]
        if r == "dead":
            st.mem.pop((st.ctx.id, pl[0]), None)
            return
        if r == "setd":
            root, projs = self.resolve(st, pl)
            v = self.read(st, root, projs)
            self.write(st, root, projs, mk("upd", v, ("discr",), rv["v"]), ev, line)
            return
        if r == "cpy":
            return
        v = self.rvalue(st, rv, line)
        if self.pol.alen and len(pl) == 1:
            self.note_len(st, pl[0], v)
        if len(pl) == 1:
            st.mem[(st.ctx.id, pl[0])] = v if v.size <= 3000 and v.depth <= 80 else clip(v, 3000)
        else:
            self.store(st, pl, v, ev, line)

    # ------------------------------------------------------------ branch facts
    def fact_key(self, v, ty=""):
        """boolean value -> ("set"|"rng", key, info) describing v==1"""

    def branch_bool(self, facts, v, want):
        """-> (new facts, assume event) or raises Infeasible; want in {0,1}"""
        while v.op == "not":
            v = v.a[0]
            want = 1 - want
        if v.op == "k":
            if bool(v.a[0]) != bool(want):
                raise Infeasible
            return facts, None
        if v.op == "cmp" and v.a[0] in ("Eq", "Ne"):
            x, y = v.a[1], v.a[2]
            if y.op == "discr":
                x, y = y, x
            if x.op == "discr" and y.op == "k" and x.a[0].op != "ordcmp":
                u = self.enum_universe(x.a[1])
                if u is not None:
                    return self.branch_set(facts, x, u, frozenset((y.a[0],)), (v.a[0] == "Eq") == bool(want))
        if v.op == "cmp":
            op, a, b, ty = v.a
            if not want:
                op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[op]
            if ty in INT and ty != "bool":
                d = ladd(a, b, -1)
                c, s, t = split(d)
                if t is None:
                    ok = {"Eq": c == 0, "Ne": c != 0, "Lt": c < 0, "Le": c <= 0, "Gt": c > 0, "Ge": c >= 0}[op]
                    if not ok:
                        raise Infeasible
                    return facts, None
                # c + s*t  op 0
                f = facts.get(t)
                if f is None:
                    lo, hi = -INF, INF
                    if t.op != "lin" and ty.startswith("u"):
                        lo, hi = INT[ty]
                    ne = NOS
                elif f[0] == "e":
                    ks = [x for x in f[1] if isinstance(x, int)] or [0]
                    lo, hi, ne = min(ks), max(ks), NOS
                else:
                    _, lo, hi, ne = f
                lo0, hi0, ne0 = lo, hi, ne
                if op in ("Lt", "Le", "Gt", "Ge"):
                    if s < 0:
                        # c - t op 0  <=>  t op' c
                        op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op]
                        bnd = c
                    else:
                        bnd = -c
                    if op == "Lt":
                        hi = min(hi, bnd - 1)
                    elif op == "Le":
                        hi = min(hi, bnd)
                    elif op == "Gt":
                        lo = max(lo, bnd + 1)
                    else:
                        lo = max(lo, bnd)
                else:
                    bnd = -c * s
                    if op == "Eq":
                        lo, hi = max(lo, bnd), min(hi, bnd)
                    else:
                        if bnd == lo:
                            lo += 1
                        if bnd == hi:
                            hi -= 1
                        if lo <= bnd <= hi:
                            ne = ne | {bnd}
                while lo in ne:
                    lo += 1
                while hi in ne:
                    hi -= 1
                if lo > hi:
                    raise Infeasible
                if (lo, hi, ne) == (lo0, hi0, ne0) and f is not None:
                    return facts, ("assume", t, ("r", lo, hi, ne))
                nf = dict(facts)
                nf[t] = ("r", lo, hi, ne)
                return nf, ("assume", t, nf[t])
            if op in ("Eq", "Ne"):
                # enum-like against a constant variant
                for x, y in ((a, b), (b, a)):
                    if y.op == "agg" and y.a[0] == "adt" and not y.a[5] and self.enum_universe(y.a[1]):
                        if x.op == "agg" and x.a[0] == "adt" and x.a[1] == y.a[1]:
                            same = x.a[3] == y.a[3]
                            if same != (op == "Eq"):
                                raise Infeasible
                            return facts, None
                        adt = y.a[1]
                        dk = int(self.F.adts[adt]["vs"][y.a[3]][1])
                        bx = x
                        while bx.op == "upd":
                            bx = bx.a[0]
                        return self.branch_set(facts, mk("discr", bx, adt), self.enum_universe(adt), frozenset((dk,)), op == "Eq")
                if a is b and a.op != "call":
                    if op == "Ne":
                        raise Infeasible
                    return facts, None
                x, y = sorted((a, b), key=lambda z: z.id)
                return self.branch_set(facts, mk("eq", x, y), frozenset((0, 1)), frozenset((1,)), op == "Eq")
            # ordering of non-integers: canonical (Lt a b) / not
            if op in ("Gt", "Le"):
                a, b = b, a
                op = {"Gt": "Lt", "Le": "Ge"}[op]
            # now Lt(a,b) or Ge(a,b)
            return self.branch_set(facts, mk("ord", a, b), frozenset((0, 1)), frozenset((1,)), op == "Lt")
        if v.op == "bin" and v.a[0] in ("BitAnd", "BitOr") :
            both = (v.a[0] == "BitAnd") == bool(want)
            if both:
                evs = []
                facts, e = self.branch_bool(facts, v.a[1], want)
                facts, e2 = self.branch_bool(facts, v.a[2], want)
                if e and e2:
                    return facts, ("assumes", [e, e2])
                return facts, e or e2
        return self.branch_set(facts, v, frozenset((0, 1)), frozenset((1 if want else 0,)), True)

    def branch_set(self, facts, key, universe, ks, positive):
        f = facts.get(key)
        if f and f[0] == "r":
            cur = frozenset(x for x in universe if not isinstance(x, int) or (f[1] <= x <= f[2] and x not in f[3]))
            f = None
        else:
            cur = f[1] if f else universe
        new = (cur & ks) if positive else (cur - ks)
        if not new:
            raise Infeasible
        if f and new == cur:
            return facts, ("assume", key, ("e", new))
        nf = dict(facts)
        nf[key] = ("e", new)
        return nf, ("assume", key, nf[key])

    def branch_int(self, facts, v, k, ty):
        return self.branch_bool(facts, mk("cmp", "Eq", v, K(k), ty), 1)

    def switch(self, st, t):
        v = self.operand(st, t["d"])
        ts = t["ts"]
        ty = self.F.tys[t["ty"]]["s"]
        out = []
        if v.op == "k":
            for k, b in ts:
                if k == v.a[0]:
                    return [(b, st.facts, None)]
            return [(t["o"], st.facts, None)]
        if v.op == "discr" or (v.op == "f" and False):
            u = self.enum_universe(v.a[1])
            if u is None:
                u = frozenset(k for k, _ in ts) | {"other"}
            used = frozenset(k for k, _ in ts)
            if v.a[0].op == "ordcmp":
                # Ordering produced by cmp(a,b)
                a, b, nty = v.a[0].a
                for k, tb in ts:
                    try:
                        nf, e = self.branch_bool(st.facts, mk("cmp", {-1: "Lt", 255: "Lt", 0: "Eq", 1: "Gt"}[k], a, b, nty), 1)
                        out.append((tb, nf, e))
                    except Infeasible:
                        pass
                rest = {-1, 0, 1} - {(-1 if k == 255 else k) for k in used}
                for k in rest:
                    try:
                        nf, e = self.branch_bool(st.facts, mk("cmp", {-1: "Lt", 0: "Eq", 1: "Gt"}[k], a, b, nty), 1)
                        out.append((t["o"], nf, e))
                    except Infeasible:
                        pass
                return out
            for k, b in ts:
                try:
                    nf, e = self.branch_set(st.facts, v, u, frozenset((k,)), True)
                    out.append((b, nf, e))
                except Infeasible:
                    pass
            if u - used:
                try:
                    nf, e = self.branch_set(st.facts, v, u, used, False)
                    out.append((t["o"], nf, e))
                except Infeasible:
                    pass
            return out
        if ty == "bool" or v.op in ("cmp", "not", "cmpold"):
            for k, b in ts:
                try:
                    nf, e = self.branch_bool(st.facts, v, k)
                    out.append((b, nf, e))
                except Infeasible:
                    pass
            ks = {k for k, _ in ts}
            for k in (0, 1):
                if k not in ks:
                    try:
                        nf, e = self.branch_bool(st.facts, v, k)
                        out.append((t["o"], nf, e))
                    except Infeasible:
                        pass
            return out
        nf0 = st.facts
        feasible = True
        for k, b in ts:
            try:
                nf, e = self.branch_int(st.facts, v, k, ty)
                out.append((b, nf, e))
            except Infeasible:
                pass
        try:
            nf = st.facts
            e = None
            for k, b in ts:
                nf, e2 = self.branch_bool(nf, mk("cmp", "Ne", v, K(k), ty), 1)
                e = e2 or e
            out.append((t["o"], nf, e))
        except Infeasible:
            pass
        return out

    # ------------------------------------------------------------ re-execution of a site in a loop
    def refresh(self, st, site):
        hit = [r for r, v in st.mem.items() if site in v.sites]
        for r in hit:
            st.mem[r] = rename(st.mem[r], site)
        for r in [r for r in st.mem if isinstance(r, tuple) and r[0] == "H" and site in r[1].sites]:
            del st.mem[r]
        if any(site in k.sites for k in st.facts):
            st.facts = {k: f for k, f in st.facts.items() if site not in k.sites}
        os_ = ("old", site[1], site[2])
        if any(os_ in k.sites for k in st.facts):
            st.facts = {k: f for k, f in st.facts.items() if os_ not in k.sites}

    # ------------------------------------------------------------ calls
    def resolve_callee(self, st, ref):
        """name of the body or effect"""
        F = self.F
        n = ref.get("r") or ref["fn"]
        ga = ref.get("rga") if "r" in ref else ref["ga"]
        if ref.get("unres") and ref.get("tr") and ref["ga"]:
            t = F.tys[ref["ga"][0]]
            if t["k"] == "param":
                for pi, ti in st.ctx.subst:
                    if pi == t["pi"]:
                        t = F.tys[ti]
                        break
            if t["k"] == "adt":
                for ss, it in F.impl_of.get(ref["fn"], ()):
                    if re.sub(r"<.*", "", ss) == t["d"] and it in F.fns:
                        return it, ()
            if t["k"] == "closure":
                return ref["fn"], ga
        return n, ga

    def subst_for(self, st, f, ga):
        F = self.F
        out = []
        if not f.gi or not ga or len(f.gi) != len(ga):
            if f.root and st.ctx.fn.n.startswith(f.root):
                return st.ctx.subst
            return ()
        for pi, ti in zip(f.gi, ga):
            t = F.tys[ti]
            if t["k"] == "param":
                for pj, tj in st.ctx.subst:
                    if pj == t.get("pi"):
                        ti = tj
                        break
            out.append((pi, ti))
        return tuple(out)

    def const_for(self, name, ref):
        """the length parameter of a trait that is implemented for arrays"""
        m = re.match(r"<\[\w+;(\w+)\] as ", name)
        if not m or not ref.get("tr") or not ref.get("ga"):
            return ()
        v = re.fullmatch(r"\[.*;(\d+)\]", self.F.tys[ref["ga"][0]]["s"])
        return (("#" + m.group(1), int(v.group(1))),) if v else ()

    def enter(self, st, f, args, t, ev, subst, after=None, name=None):
        """push a frame for body f; returns the new state"""
        c = self.ctx(st.ctx, f, st.bb, (t["d"], t["t"]) if after is None else ("after", after), subst, after)
        mem = dict(st.mem)
        for i, a in enumerate(args):
            mem[(c.id, i + 1)] = a
        return State(c, 0, mem, st.facts)

    def closure_self(self, st, f, cv, argv, key):
        """first argument for closure body f: by reference or by value"""
        t1 = self.F.tys[f.l[1]] if len(f.l) > 1 else None
        if t1 and t1["k"] in ("ref", "ptr"):
            if argv is not None and argv.op == "ref":
                return argv
            root = (key, -1)
            st.mem[root] = cv
            return mk("ref", root, ())
        return cv

    def call(self, st, t, ev):
        """-> list of successor states (with events appended to ev); handles one call terminator"""
        F = self.F
        pol = self.pol
        line = t.get("line", 0)
        args = [self.operand(st, o) for o in t["a"]]
        if pol.alen:
            for o, v in zip(t["a"], args):
                if o["k"] in ("m", "p") and len(o["p"]) == 1:
                    self.note_len(st, o["p"][0], v)
                    if self.F.tys[st.ctx.fn.l[o["p"][0]]]["s"] in ("&[u8]", "&mut [u8]") and len(t["d"]) == 1:
                        ds = self.F.tys[st.ctx.fn.l[t["d"][0]]]["s"]
                        n = typenum(ds.lstrip("&").replace("mut ", "", 1)) if ds.startswith("&") else None
                        if n is not None:
                            ev.append(("exact", n, v, line))     # fails unless the slice has exactly this length
        fo = t["f"]
        ref = None
        if fo["k"] == "fn":
            ref = fo["f"]
            name, ga = self.resolve_callee(st, ref)
        else:
            fv = self.value_of(st, self.operand(st, fo))
            if fv.op == "fn":
                name, ga = fv.a[0], fv.a[2]
                ref = {"fn": fv.a[1], "ga": list(ga)}
            else:
                name, ga = "<indirect>", ()
                ref = {"fn": name, "ga": []}
                args = [fv] + args
        base = ref["fn"]
        if ref.get("ctor"):
            # tuple struct/variant constructor used as a function
            adt = self.ctor(base, args)
            return self.ret_to(st, t, adt, ev)
        ctxid = st.ctx.id
        if st.ctx.inloop or st.bb in loop_blocks(st.ctx.fn)[0]:
            self.refresh(st, ("call", ctxid, st.bb))
            self.refresh(st, ("mut", ctxid, st.bb))
            self.refresh(st, ("ext", ctxid, st.bb))
        # calling a closure or function value
        if base in CALL_TRAIT:
            cv = self.value_of(st, args[0])
            tup = args[1] if len(args) > 1 else UNIT
            parts = list(tup.a[5]) if tup.op == "agg" and tup.a[0] == "tuple" else None
            if cv.op == "box":
                cv = cv.a[0]
            if cv.op == "agg" and cv.a[0] == "clo" and cv.a[1] in F.fns:
                f = F.fns[cv.a[1]]
                if parts is None:
                    parts = [mk("f", tup, str(i), None) for i in range(f.args - 1)]
                if st.ctx.depth < pol.depth + 4 and f.n not in st.ctx.names:
                    sv = self.closure_self(st, f, cv, args[0], ctxid * 1000003 + st.bb + 10**9)
                    ev.append(("enter", f.n, tuple(args), line))
                    return [self.enter(st, f, [sv] + parts, t, ev, st.ctx.subst)]
            if cv.op == "fn":
                n2 = cv.a[0]
                if "::{" not in n2 and self.is_ctor(n2):
                    return self.ret_to(st, t, self.ctor(n2, parts or []), ev)
                name, ga, base = n2, cv.a[2], cv.a[1]
                args = parts if parts is not None else args
        if name in pol.bind_call or base in pol.bind_call:
            r = (pol.bind_call.get(name) or pol.bind_call[base])(self, st, args)
            if r is not None:
                ev.append(("call", name, tuple(clip(self.snap(st, a)) for a in args), r, line, st.ctx.fn.n))
                return self.ret_to(st, t, r, ev)
        m = MODELS.get(base) or MODELS.get(name)
        if m is None:
            for suf, mm in SUFFIX_MODELS:
                if base.endswith(suf):
                    m = mm
                    break
            if m is None and PURE.search(base):
                m = m_pure
        if m is not None and not (name in F.fns and pol.should_inline(name, st.ctx) and base in OVERRIDABLE and not F.fns[name].derived):
            r = m(self, st, args, ref, t, ev)
            if r is not None:
                ev.append(("mcall", name, tuple(clip(self.snap(st, a)) for a in args), r, line, st.ctx.fn.n))
                return self.ret_to(st, t, r, ev)
        if base == ITER + "next" and args and args[0].op == "ref":
            p = args[0]
            x = self.read(st, p.a[0], p.a[1])
            if x.op == "agg" and x.a[0] == "adt" and short(x.a[1]) == "Range" and len(x.a[5]) == 2:
                lo, hi = x.a[5]
                outs = []
                cv = self.cmp("Lt", lo, hi, "usize")
                for want in (1, 0):
                    try:
                        nf, e = self.branch_bool(st.facts, cv, want)
                    except Infeasible:
                        continue
                    s2 = State(st.ctx, st.bb, dict(st.mem), nf)
                    if want:
                        self.write(s2, p.a[0], p.a[1], mk(*(x.a and ("agg",) + x.a[:5] + ((ladd(lo, K(1)), hi),))), ev, line)
                        r = mk("agg", "adt", "core::option::Option", "Some", 1, ("0",), (lo,))
                    else:
                        r = mk("agg", "adt", "core::option::Option", "None", 0, (), ())
                    for s3 in self.ret_to(s2, t, r, ev):
                        outs.append((s3, flat(e)))
                return [("multi", outs, [])]
        if re.search(r"range::(Range|RangeInclusive)::contains$", base) and len(args) == 2 and ref.get("ga"):
            x, y = self.value_of(st, args[0]), self.value_of(st, args[1])
            ty = self.F.tys[ref["ga"][0]]["s"]
            if x.op == "agg" and x.a[0] == "adt" and len(x.a[5]) >= 2 and ty in INT:
                lo, hi = x.a[5][:2]
                top = "Lt" if short(x.a[1]) == "Range" else "Le"
                outs = []
                for yes, cs in ((1, (("Ge", lo, 1), (top, hi, 1))), (0, (("Ge", lo, 0),)), (0, (("Ge", lo, 1), (top, hi, 0)))):
                    nf, es = st.facts, []
                    try:
                        for op, b, want in cs:
                            nf, e = self.branch_bool(nf, self.cmp(op, y, b, ty), want)
                            es += flat(e)
                    except Infeasible:
                        continue
                    s2 = State(st.ctx, st.bb, dict(st.mem), nf)
                    for s3 in self.ret_to(s2, t, K(yes), ev):
                        outs.append((s3, es))
                return [("multi", outs, [])]
        if pol.should_inline(name, st.ctx) and not ((ref.get("unres") or ref.get("dyn")) and name == ref["fn"] and F.impl_of.get(name)):
            # (a default method that some type overrides, called on an unknown type, stays opaque)
            f = F.fns[name]
            if f.args == len(args):
                ev.append(("enter", name, tuple(clip(self.snap(st, a)) for a in args), line))
                return [self.enter(st, f, args, t, ev, self.subst_for(st, f, ga) + self.const_for(name, ref))]
        return self.opaque(st, t, name, base, args, ev, line)

    def snap(self, st, v, d=2):
        """value of a reference argument for provenance"""
        n = 0
        while v.op == "ref" and n < 4:
            v = self.read(st, v.a[0], v.a[1])
            n += 1
        if self.pol.bytes:
            for _ in range(4):
                if v.op == "ref":
                    v = self.read(st, v.a[0], v.a[1])
                    continue
                w = st.mem.get(("H", v))
                if w is None:
                    break
                v = w
        if self.pol.deep and d > 0 and v.op == "agg" and v.a[0] in ("adt", "tuple", "array") and any(x.op in ("ref", "agg") for x in v.a[5]):
            v = mk("agg", *(v.a[:5] + (tuple(self.snap(st, x, d - 1) for x in v.a[5]),)))
        return v

    def opaque(self, st, t, name, base, args, ev, line):
        F = self.F
        opq = base
        self.g.opaque.add(name)
        snaps = tuple(clip(self.snap(st, a)) for a in args)
        r = mk("call", st.ctx.id, st.bb, name, snaps)
        ev.append(("call", name, snaps, r, line, st.ctx.fn.n))
        if t["t"] is None:
            ev.append(("panic", name, line))
            return []
        # arguments passed by mutable reference may change
        fn = st.ctx.fn
        for o, a in zip(t["a"], args[-len(t["a"]):] if t["a"] else []):
            if o["k"] in ("p", "m") and len(o["p"]) == 1:
                ty = F.tys[fn.l[o["p"][0]]]
                mut = ty["k"] in ("ref", "ptr") and ty.get("m")
            else:
                mut = a.op == "ref" and False
            if mut:
                self.havoc(st, a, (st.ctx.id, st.bb), (name, snaps) if self.pol.bytes and not name.endswith("::next") else None)
        outs = []
        searched = None
        if self.pol.closures:
            clos = []
            for a in args:
                cv = self.value_of(st, a)
                while cv.op == "box":
                    cv = cv.a[0]
                if cv.op == "agg" and cv.a[0] == "clo" and cv.a[1] in F.fns:
                    clos.append((cv, a))
            for cv, a in clos:
                f = F.fns[cv.a[1]]
                if st.ctx.depth < self.pol.depth + 4 and f.n not in st.ctx.names and (self.pol.reaches(f.n) or self.pol.tsize(f.n) <= self.pol.small):
                    s2 = State(st.ctx, st.bb, dict(st.mem), st.facts)
                    sv = self.closure_self(s2, f, cv, a, st.ctx.id * 1000003 + st.bb + 10**9)
                    cargs = [sv] + [mk("carg", st.ctx.id, st.bb, i, name, snaps) for i in range(f.args - 1)]
                    after = (r,)
                    mode = ITER_MODES.get(opq)
                    if mode and f.args == 2 and len(clos) == 1:
                        item = cargs[1]
                        if mode == "find":
                            root = (st.ctx.id * 1000003 + st.bb + 10**9, -2)
                            s2.mem[root] = item
                            cargs[1] = mk("ref", root, ())
                        after = (r, mode, item)
                        searched = mode
                    s3 = self.enter(s2, f, cargs, t, ev, st.ctx.subst, after=after)
                    outs.append((s3, [("enter", f.n, tuple(cargs), line, "maybe")]))
        if searched:
            # nothing was looked at
            key = mk("discr", r, "core::option::Option") if searched in ("find", "position") else r
            try:
                nf, e = self.branch_set(st.facts, key, frozenset((0, 1)), frozenset((1 if searched == "all" else 0,)), True)
                st = State(st.ctx, st.bb, st.mem, nf)
                return [("multi", outs + [(s3, flat(e)) for s3 in self.ret_to(st, t, r, ev)], [])]
            except Infeasible:
                return [("multi", outs, [])]
        res = self.ret_to(st, t, r, ev)
        if outs:
            return [("multi", outs, res)]
        return res

    def havoc(self, st, a, site, cause=None):
        q = a
        if q.op == "ref":
            root, projs = q.a
        else:
            root, projs = self.deref(st, q)
        old = self.read(st, root, projs)
        b = old
        if b.op == "ref" or (b.op in ("gp",)):
            pass
        if cause is not None:
            nv = mk("mut", site[0], site[1], clip(b), cause)
        else:
            base = b.a[2] if b.op == "mut" else b
            while base.op == "old" and base.a[0] == "mut" and base.a[3] is not None:
                base = base.a[3]
            nv = mk("mut", site[0], site[1], clip(base))
        st.mem[root] = self.update(self.read_root(st, root), projs, nv) if projs else nv

    def is_ctor(self, n):
        return n in self.F.adts or n.rsplit("::", 1)[0] in self.F.adts

    def ctor(self, n, args):
        F = self.F
        a = F.adts.get(n)
        if a:
            vs = a["vs"][0]
            return mk("agg", "adt", n, vs[0], 0, tuple(x[0] for x in vs[2]), tuple(args))
        en, vn = n.rsplit("::", 1)
        a = F.adts.get(en)
        if a:
            for i, v in enumerate(a["vs"]):
                if v[0] == vn:
                    return mk("agg", "adt", en, vn, i, tuple(x[0] for x in v[2]), tuple(args))
        # struct whose ctor name repeats
        a = F.adts.get(en)
        return mk("call", -1, -1, n, tuple(args))

    def ret_to(self, st, t, val, ev):
        if t["t"] is None:
            ev.append(("panic", "diverge", t.get("line", 0)))
            return []
        if self.pol.alen and len(t["d"]) == 1:
            self.note_len(st, t["d"][0], val)
        self.store(st, t["d"], val, ev, t.get("line", 0))
        return [State(st.ctx, t["t"], st.mem, st.facts)]

    # ------------------------------------------------------------ driver
    def prune(self, st):
        """drop dead locals and dead facts"""
        fn = st.ctx.fn
        live, taken = liveness(fn)
        lv = live[st.bb]
        cid = st.ctx.id
        mem = st.mem
        dead = [r for r in mem if isinstance(r, tuple) and r[0] == cid and r[1] not in lv and r[1] not in taken and r[1] >= 0]
        for r in [r for r in mem if isinstance(r, tuple) and r[0] == "E" and r[1] == cid and st.bb not in loop_body(fn, r[2])]:
            dead.append(r)
        for r in dead:
            del mem[r]
        if st.facts:
            ss = set()
            for r, v in mem.items():
                if v.sites:
                    ss |= v.sites
                if isinstance(r, tuple) and r[0] == "H" and r[1].sites:
                    ss |= r[1].sites
            nf = None
            for k in st.facts:
                if k.sites and not (k.sites <= ss):
                    if nf is None:
                        nf = dict(st.facts)
                    del nf[k]
            if nf is not None:
                st.facts = nf
        hs = [r for r in mem if isinstance(r, tuple) and r[0] == "H" and r[1].sites]
        if hs:
            ss = set()
            for r, v in mem.items():
                if not (isinstance(r, tuple) and r[0] == "H") and v.sites:
                    ss |= v.sites
            changed = True
            keep = set()
            while changed:
                changed = False
                for r in hs:
                    if r not in keep and r[1].sites <= ss:
                        keep.add(r)
                        ss |= mem[r].sites
                        changed = True
            for r in hs:
                if r not in keep:
                    del mem[r]

    def intern(self, st):
        pol = self.pol
        fn = st.ctx.fn
        bb = st.bb
        inl, heads = loop_blocks(fn)
        key0 = (st.ctx.id, bb)
        # skip over trivial pruning where a block has one predecessor
        self.prune(st)
        if bb in heads:
            sv = self.heads.setdefault((key0, st.mem.get(("E",) + key0), tuple(sorted(v.id for v in st.mem.values() if v.op == "agg" and v.a[0] == "aiter"))), {})
            for r in list(st.mem):
                v = st.mem[r]
                if v.op == "epoch":
                    continue
                s = sv.setdefault(r, set())
                if v not in s:
                    if v.op == "agg" and len(s) < 10:
                        w = self.widen_agg(st, s, v, st.ctx.id, bb, str(r) if not (isinstance(r, tuple) and r[0] == "H") else "H%d" % r[1].id)
                        if w is not v:
                            v = w
                            st.mem[r] = v
                    elif len(s) >= pol.widen or len(s) >= 10:
                        bs = {strip(x) for x in s if isinstance(x, Val)} | {strip(v)}
                        ph = mk("phi", st.ctx.id, bb, str(r) if not (isinstance(r, tuple) and r[0] == "H") else "H%d" % r[1].id,
                                next(iter(bs)) if len(bs) == 1 and v.op in ("mut", "old", "phi", "upd") else None)
                        self.refresh1(st, ph, r)
                        v = ph
                    s.add(v)
        k = (key0, frozenset(st.mem.items()), frozenset(st.facts.items()))
        i = self.seen.get(k)
        if i is not None:
            return i, False
        c = self.cnt.get(key0, 0) + 1
        self.cnt[key0] = c
        if c > self.pol.cap:
            self.g.capped += 1
            top = self.tops.get(key0)
            if top is not None:
                mem, facts = {}, {}
                for r, v in st.mem.items():
                    if r in top.mem:
                        mem[r] = v if top.mem[r] is v else mk("phi", st.ctx.id, bb, "j" + (str(r) if not (isinstance(r, tuple) and r[0] == "H") else "H%d" % r[1].id), None)
                for kk, f in st.facts.items():
                    if top.facts.get(kk) == f:
                        facts[kk] = f
                st = State(st.ctx, bb, mem, facts)
                self.tops[key0] = st
                k = (key0, frozenset(st.mem.items()), frozenset(st.facts.items()))
                i = self.seen.get(k)
                if i is not None:
                    return i, False
            else:
                self.tops[key0] = st
        n = Node()
        n.i = len(self.g.nodes)
        n.ctx, n.bb, n.ev, n.succ, n.parent = st.ctx, bb, [], [], None
        self.g.nodes.append(n)
        self.seen[k] = n.i
        self.work.append((n.i, st))
        return n.i, True

    def widen_agg(self, st, seen, v, ctxid, bb, path):
        """field-wise widening: fields that keep changing become unknown, constants stay"""
        same = [x for x in seen if x.op == "agg" and x.a[:3] == v.a[:3] and len(x.a[5]) == len(v.a[5])]
        if len(same) < self.pol.widen or not v.a[5]:
            return v
        vals = []
        for i, y in enumerate(v.a[5]):
            fs = {x.a[5][i] for x in same}
            if y in fs or y.op == "k":
                vals.append(y)
            elif y.op == "agg":
                vals.append(self.widen_agg(st, fs, y, ctxid, bb, path + "." + str(i)))
            else:
                bs = {strip(x) for x in fs} | {strip(y)}
                ph = mk("phi", ctxid, bb, path + "." + str(i), next(iter(bs)) if len(bs) == 1 and y.op in ("mut", "old", "phi", "upd") else None)
                site = ("phi", ctxid, bb)
                if any(site in k.sites for k in st.facts):
                    st.facts = {k: f for k, f in st.facts.items() if ph not in subvals(k)}
                vals.append(ph)
        if tuple(vals) == v.a[5]:
            return v
        return mk(*(("agg",) + v.a[:5] + (tuple(vals),)))

    def refresh1(self, st, ph, root):
        site = ("phi", ph.a[0], ph.a[1])
        if any(site in k.sites for k in st.facts):
            st.facts = {k: f for k, f in st.facts.items() if ph not in subvals(k)}
        st.mem[root] = ph

    def run(self):
        F, pol = self.F, self.pol
        f = F.fns[self.entry]
        c = self.ctx(None, f, None, None, ())
        mem = {}
        for i in range(f.args):
            a = None
            if pol.args and i < len(pol.args):
                a = pol.args[i]
            mem[(c.id, i + 1)] = a if a is not None else mk("arg", i)
        for r, v in pol.heap.items():
            mem[r] = v
        self.work = []
        self.g.entry, _ = self.intern(State(c, 0, mem, {}))
        while self.work:
            i, st = self.work.pop()
            if len(self.g.nodes) > pol.max_nodes:
                self.g.truncated = True
                break
            self.block(i, State(st.ctx, st.bb, dict(st.mem), st.facts))
        return self.g

    def link(self, i, st, evs):
        if st.bb in loop_blocks(st.ctx.fn)[1]:
            # entering a loop from outside starts a new widening epoch for it
            pn = self.g.nodes[i]
            pc, pb = pn.ctx, pn.bb
            while pc is not None and pc is not st.ctx:
                pb, pc = pc.site, pc.parent
            if pc is None or pb not in loop_body(st.ctx.fn, st.bb):
                er = ("E", st.ctx.id, st.bb)
                st.mem.pop(er, None)
                self.prune(st)
                key = (st.ctx.id, st.bb, frozenset((r, v) for r, v in st.mem.items()))
                st.mem[er] = mk("epoch", self.epochs.setdefault(key, len(self.epochs)))
        j, new = self.intern(st)
        n = self.g.nodes[i]
        n.succ.append((evs, j))
        if new and self.g.nodes[j].parent is None:
            self.g.nodes[j].parent = i

    def block(self, i, st):
        node = self.g.nodes[i]
        ev = node.ev
        self.cur_ev = ev
        fn = st.ctx.fn
        b = fn.b[st.bb]
        for s in b["s"]:
            self.stmt(st, s, ev)
        t = b["t"]
        k = t["k"]
        if k == "goto":
            self.link(i, State(st.ctx, t["t"], st.mem, st.facts), [])
        elif k == "switch":
            for bb, nf, e in self.switch(st, t):
                self.link(i, State(st.ctx, bb, dict(st.mem), nf), flat(e))
        elif k == "call":
            for s2 in self.call(st, t, ev):
                if isinstance(s2, tuple):
                    _, outs, res = s2
                    for s3, evs in outs:
                        self.link(i, s3, evs)
                    for s3 in res:
                        self.link(i, s3, [])
                else:
                    self.link(i, s2, [])
        elif k == "drop":
            v = self.load(st, t["p"])
            ev.append(("drop", F_ts(self.F, t["ty"]), v, t.get("line", 0)))
            nxt = State(st.ctx, t["t"], st.mem, st.facts)
            dn = self.drop_impl(t["ty"])
            if dn and self.pol.should_inline(dn, st.ctx) and self.pol.interest is not None and self.pol.reaches(dn):
                root, projs = self.resolve(st, t["p"])
                f = self.F.fns[dn]
                ev.append(("enter", dn, (v,), t.get("line", 0)))
                cc = self.ctx(st.ctx, f, st.bb, ("drop", t["t"]), ())
                mem = dict(st.mem)
                mem[(cc.id, 1)] = mk("ref", root, projs)
                self.link(i, State(cc, 0, mem, st.facts), [])
            else:
                self.link(i, nxt, [])
        elif k == "assert":
            v = self.operand(st, t["c"])
            exp = 1 if t["e"] else 0
            ok = True
            try:
                nf, e = self.branch_bool(st.facts, v, exp)
                self.link(i, State(st.ctx, t["t"], dict(st.mem), nf), flat(e))
            except Infeasible:
                pass
            try:
                nf, e = self.branch_bool(st.facts, v, 1 - exp)
                if v.op != "ovf" and not (v.op == "k"):
                    ev.append(("mpanic", t["m"], tuple(self.operand(st, o) for o in t["ops"]), t.get("line", 0)))
                elif v.op == "ovf":
                    ev.append(("mpanic", t["m"], v.a[1:3], t.get("line", 0)))
                else:
                    ev.append(("panic", t["m"], t.get("line", 0)))
            except Infeasible:
                pass
        elif k == "ret":
            rv = st.mem.get((st.ctx.id, 0), UNIT)
            self.do_return(i, st, rv, ev)
        else:
            ev.append(("panic" if k in ("abort", "resume") else "end", k, t.get("line", 0)))

    def drop_impl(self, tyi):
        t = self.F.tys[tyi]
        if t["k"] != "adt":
            return None
        for ss, it in self.F.impl_of.get("core::ops::drop::Drop::drop", ()):
            if re.sub(r"<.*", "", ss) == t["d"] and it in self.F.fns:
                return it
        return None

    def do_return(self, i, st, rv, ev):
        c = st.ctx
        if c.parent is None:
            ev.append(("ret", self.snap(st, rv), rv))
            self.g.nodes[i].ev = ev
            return
        ev.append(("exit", c.fn.n, self.snap(st, rv)))
        cid = c.id
        mem = {r: v for r, v in st.mem.items() if not (isinstance(r, tuple) and (r[0] == cid or r[0] == "E" and r[1] == cid))}
        p = c.parent
        s2 = State(p, c.site, mem, st.facts)
        if c.after is not None:
            # a closure handed to opaque code returned: the opaque call itself returns
            t = p.fn.b[c.site]["t"]
            if len(c.after) == 3:
                # a search: the element the predicate accepted is the result, a refused one is passed over
                r, mode, item = c.after
                opt = mode in ("find", "position")
                key = mk("discr", r, "core::option::Option") if opt else r
                res = {"find": mk("agg", "adt", "core::option::Option", "Some", 1, ("0",), (item,))}.get(mode, r)
                for want in (1, 0):
                    # 'all' stops at a refused element, the others at an accepted one; otherwise nothing more is known
                    try:
                        nf, e = self.branch_bool(st.facts, rv, want)
                        nf, e2 = self.branch_set(nf, key, frozenset((0, 1)), frozenset((want,)), True)
                    except Infeasible:
                        continue
                    for s3 in self.ret_to(State(p, c.site, dict(mem), nf), t, res if want else r, ev):
                        self.link(i, s3, flat(e) + flat(e2))
                return
            for s3 in self.ret_to(s2, t, c.after[0], ev):
                self.link(i, s3, [])
            return
        if c.ret[0] == "drop":
            self.link(i, State(p, c.ret[1], mem, st.facts), [])
            return
        d, tgt = c.ret
        if tgt is None:
            return
        self.store(s2, d, rv, ev)
        self.link(i, State(p, tgt, s2.mem, s2.facts), [])


_exposed = {}


def exposed_old(v):
    """old values v is made of, outside the provenance of values of the current iteration"""
    if not any(t[0] == "old" for t in v.sites):
        return NOS
    r = _exposed.get(v)
    if r is None:
        if v.op == "old":
            r = frozenset((v.a[:3],))
        elif v.op in ("call", "mut", "phi", "ext", "carg"):
            r = NOS
        else:
            r = NOS
            st = list(v.a)
            while st:
                x = st.pop()
                if isinstance(x, Val):
                    r |= exposed_old(x)
                elif type(x) is tuple:
                    st.extend(x)
        _exposed[v] = r
    return r


def F_ts(F, i):
    return F.tys[i]["s"]


def flat(e):
    if e is None:
        return []
    if e[0] == "assumes":
        out = []
        for x in e[1]:
            out += flat(x)
        return out
    return [e]


def subvals(v, out=None):
    if out is None:
        out = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, Val):
            if x in out:
                continue
            out.add(x)
            st.extend(x.a)
        elif type(x) is tuple:
            st.extend(x)
    return out


def rename(v, site):
    """values of an earlier loop iteration"""
    memo = {}

    def go(x):
        if isinstance(x, Val):
            if site not in x.sites:
                return x
            r = memo.get(x)
            if r is None:
                if x.op in ("call", "phi", "mut", "ext", "carg") and (x.op, x.a[0], x.a[1]) == site:
                    # where it came from is kept, one level deep
                    base = None
                    if x.op == "mut":
                        base = go(x.a[2])
                    elif x.op == "phi" and x.a[3] is not None:
                        base = go(x.a[3])
                    elif x.op == "call" and x.a[3] and STRIP_CALLS.search(x.a[2]):
                        base = go(strip(x.a[3][0]))
                    elif x.op == "carg" and x.a[4]:
                        base = go(strip(x.a[4][0]))
                    if x.op == "mut" and len(x.a) > 3:
                        # with history: keep it (widening bounds it)
                        r = memo[x] = mk("old", x.op, x.a[0], x.a[1], base, "", go(x.a[3]))
                        return r
                    if base is not None and any(t[0] == "old" for t in base.sites):
                        base = strip(base)
                        if base.op == "old":
                            base = base.a[3]
                        elif any(t[0] == "old" for t in base.sites):
                            base = None
                    r = mk("old", x.op, x.a[0], x.a[1], base, x.a[2] if x.op in ("call", "carg") else "")
                else:
                    r = mk(x.op, *[go(y) for y in x.a])
                memo[x] = r
            return r
        if type(x) is tuple:
            return tuple(go(y) for y in x)
        return x
    return go(v)


# ---------------------------------------------------------------- provenance
def short(n):
    return n.split("::")[-1] if n else n


STRIP_CALLS = re.compile(
    r"(::deref|::deref_mut|::lock|::clone|::as_ref|::as_mut|::unwrap|::expect|::borrow|::borrow_mut|::to_owned|::into|::from|::iter|::iter_mut|::into_iter|::as_slice|"
    r"::as_deref|::as_deref_mut|::as_bytes|::as_str|::to_vec|::cloned|::copied|::unwrap_or_default|::as_mut_slice|::lock_or_reset|::try_lock|::peek|::upgrade|::get_mut|::as_ptr|::into_inner|::write|::read|::load|::unwrap_or_else|::to_string)$")
STRIP_FIELDS = {("CallMutex", "mutex"), ("CallRwLock", "rwlock"), ("CallMutex", "data"), ("Arc", "ptr"), ("Box", "0"), ("Unique", "pointer"), ("NonNull", "pointer")}


def strip1(v):
    o, a = v.op, v.a
    if o in ("*", "gp", "box", "upd"):
        return a[0]
    if o == "mut":
        return a[2]
    if o == "phi":
        return a[3]
    if o == "old":
        return a[3] if a[0] != "carg" else None
    if o == "cast":
        return a[1] if len(a) < 3 else None
    if o == "as":
        return a[0] if a[1] in STRIP_VARIANTS else None
    if o == "f":
        b = a[0]
        if b.op == "as" and b.a[1] in STRIP_VARIANTS and a[1] == "0":
            return b.a[0]
        if (short(a[2]), a[1]) in STRIP_FIELDS:
            return b
        return None
    if o == "call" and a[3] and STRIP_CALLS.search(a[2]):
        return a[3][0]
    if o == "agg" and a[0] == "adt" and a[2] in ("Some", "Ok") and len(a[5]) == 1:
        return a[5][0]
    return None


STRIP_VARIANTS = ("Some", "Ok", "Continue", "Owned", "Borrowed")


def strip(v):
    """the place a value came from, without wrappers"""
    for _ in range(60):
        w = strip1(v)
        if w is None:
            return v
        v = w
    return v


def chain(v):
    """[(owner, field), ...] outermost first, and the base value"""
    out = []
    v = strip(v)
    for _ in range(30):
        if v.op == "f":
            out.append((short(v.a[2]), v.a[1]))
            v = strip(v.a[0])
        elif v.op == "as":
            v = strip(v.a[0])
        elif v.op == "idx":
            out.append(("", "[]"))
            v = strip(v.a[0])
        else:
            break
    return out, v


def is_field(v, owner, name):
    s = strip(v)
    return s.op == "f" and s.a[1] == name and (owner is None or short(s.a[2]) == owner)


def desc(v, d=5):
    """canonical text of a value: argN.field.field, with pure operations spelled out; values changed by
    opaque mutation carry a ~"""
    if not isinstance(v, Val):
        if isinstance(v, tuple):
            return ",".join(desc(x, d) for x in v)
        return str(v)
    if d < 0:
        return ".."
    m = ""
    for _ in range(60):
        w = strip1(v)
        if w is None:
            break
        if v.op == "mut" or v.op == "phi" and v.a[2][:1] != "H" or v.op == "old" and v.a[0] in ("mut", "phi"):
            m = "~"
        v = w
    o, a = v.op, v.a
    if o == "f":
        return desc(a[0], d) + "." + a[1] + m
    if o == "as":
        return desc(a[0], d) + "@" + a[1] + m
    if o == "idx":
        return desc(a[0], d) + "[" + desc(a[1], d - 1) + "]" + m
    if o == "arg":
        return "arg%d" % a[0] + m
    if o == "k":
        return str(a[0])
    if o == "s":
        return repr(a[0])
    if o == "agg":
        n = short(a[1] or a[0])
        if a[2] and a[2] != n:
            n += "::" + a[2]
        return (n + "{" + ",".join(desc(x, d - 1) for x in a[5]) + "}" if a[5] else n) + m
    if o == "lin":
        return "(" + "+".join(([str(a[0])] if a[0] else []) + sorted((("%s*" % c) if c != 1 else "") + desc(t, d - 1) for t, c in a[1])) + ")"
    if o == "call":
        return tail(a[2]) + "(" + ",".join(desc(x, d - 1) for x in a[3]) + ")" + m
    if o == "pure":
        return a[0] + "(" + ",".join(desc(x, d - 1) for x in a[1]) + ")"
    if o == "kc":
        return short(str(a[0]))
    if o in ("discr",):
        return "discr(" + desc(a[0], d) + ")"
    if o == "cmp":
        return "(" + desc(a[1], d - 1) + " " + a[0] + " " + desc(a[2], d - 1) + ")"
    if o == "old" and a[0] == "carg":
        return "elem(" + (desc(a[3], d - 1) if a[3] is not None else "") + ")"
    if o == "carg":
        return "elem(" + (desc(a[4][0], d - 1) if a[4] else "") + ")"
    if o == "fn":
        return "fn:" + tail(a[0])
    if o == "static":
        return "static:" + tail(str(a[0]))
    if o == "cast":
        return "(" + desc(a[1], d) + " as " + str(a[0]) + ")" + m
    if o == "bin":
        return "bin(" + str(a[0]) + "," + ",".join(desc(x, d - 1) for x in a[1:] if isinstance(x, Val)) + ")" + m
    return o + "(" + ",".join(desc(x, d - 1) for x in a if isinstance(x, (Val, tuple))) + ")" + m


def full(v, d=14):
    """canonical text with the history of in-place changes: f!(args) is the place after f changed it"""
    if not isinstance(v, Val):
        if isinstance(v, tuple):
            return ",".join(full(x, d) for x in v)
        return str(v)
    if d < 0:
        return ".."
    for _ in range(60):
        if v.op in ("mut", "phi", "old", "upd"):
            break
        if v.op == "call" and v.a[3] and v.a[2].endswith("unwrap_or_else"):
            break
        w = strip1(v)
        if w is None:
            break
        v = w
    o, a = v.op, v.a
    if o == "old" and len(a) > 5:
        return tail(a[5][0]).split("::")[-1] + "!(" + ",".join(full(x, d - 1) for x in a[5][1]) + ")"
    if o == "mut":
        if len(a) > 3:
            return tail(a[3][0]).split("::")[-1] + "!(" + ",".join(full(x, d - 1) for x in a[3][1]) + ")"
        return "~" + full(a[2], d - 1)
    if o == "f":
        return full(a[0], d) + "." + a[1]
    if o == "as":
        return full(a[0], d) + "@" + a[1]
    if o == "idx":
        return full(a[0], d) + "[" + full(a[1], d - 1) + "]"
    if o == "sub" and isinstance(a[1], tuple) and a[1][0] == "r":
        return full(a[0], d) + "[" + full(a[1][1], d - 1) + ".." + (full(a[1][2], d - 1) if a[1][2] is not None else "") + "]"
    if o == "upd":
        e = a[1]
        return full(a[0], d - 1) + "{" + (e[1] if e[0] == "f" else full(e[1:], d - 1) if e[0] == "r" else "[]") + "=" + full(a[2], d - 1) + "}"
    if o == "agg":
        n = short(a[1] or a[0])
        if a[2] and a[2] != n:
            n += "::" + a[2]
        return (n + "{" + ",".join(full(x, d - 1) for x in a[5]) + "}" if a[5] else n)
    if o == "lin":
        return "(" + "+".join(([str(a[0])] if a[0] else []) + sorted((("%s*" % c) if c != 1 else "") + full(t, d - 1) for t, c in a[1])) + ")"
    if o == "call":
        return tail(a[2]).split("::")[-1] + "(" + ",".join(full(x, d - 1) for x in a[3]) + ")"
    if o == "pure":
        return a[0] + "(" + ",".join(full(x, d - 1) for x in a[1]) + ")"
    if o == "rep":
        return "rep(" + full(a[0], d - 1) + ")"
    if o == "cast":
        return "(" + full(a[1], d) + " as " + str(a[0]) + ")"
    if o == "bin":
        return "bin(" + str(a[0]) + "," + ",".join(full(x, d - 1) for x in a[1:] if isinstance(x, Val)) + ")"
    return desc(v, d)


def mentions(v, pred):
    return any(pred(x) for x in subvals(v))


def mentions_field(v, owner, name):
    return mentions(v, lambda x: x.op == "f" and x.a[1] == name and (owner is None or short(x.a[2]) == owner))


# ---------------------------------------------------------------- models
ITER = "core::iter::traits::iterator::Iterator::"
ITER_MODES = {ITER + "find": "find", ITER + "any": "any", ITER + "all": "all", ITER + "position": "position"}
CALL_TRAIT = {"core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call"}


def typenum(s):
    """the length of a GenericArray type, or None"""
    if not s.startswith("generic_array::GenericArray<u8,"):
        return None
    bits = re.findall(r"B([01])", s)
    return int("".join(bits), 2) if bits and "UTerm" in s else None


def lenof(E, st, v):
    x = v
    for _ in range(12):
        if x.op == "ref":
            x = E.read(st, x.a[0], x.a[1])
        elif x.op in ("gp", "*"):
            x = x.a[0]
        elif x.op == "cast":
            x = x.a[1]
        else:
            break
    if x.op == "agg" and x.a[0] == "array":
        return K(len(x.a[5]))
    if x.op == "rep" and isinstance(x.a[1], int):
        return K(x.a[1])
    if x.op == "s":
        return K(len(x.a[0].encode()))
    if x.op == "hb":
        return K(len(x.a[0]) // 2)
    if x.op == "sub" and x.a[1][0] == "r":
        _, lo, hi = x.a[1]
        return ladd(hi if hi is not None else lenof(E, st, x.a[0]), lo, -1)
    if x in E.alen:
        return K(E.alen[x])
    return mk("len", x)


def m_identity_deref(E, st, args, ref, t, ev):
    v = args[0]
    if v.op == "ref":
        return E.read(st, v.a[0], v.a[1])
    root, projs = E.deref(st, v)
    return E.read(st, root, projs)


def m_deref(E, st, args, ref, t, ev):
    x = m_identity_deref(E, st, args, ref, t, ev)
    if x.op == "s":
        return x
    return mk("gp", x)


def m_id(E, st, args, ref, t, ev):
    return args[0]


def m_box(E, st, args, ref, t, ev):
    return mk("box", args[0])


def m_cmp(op):
    def m(E, st, args, ref, t, ev):
        if E.pol.log_off and E.F.tys[ref["ga"][0]].get("d") in ("log::Level", "log::LevelFilter"):
            return FALSE
        a, b = E.value_of(st, args[0]), E.value_of(st, args[1])
        ty = E.F.tys[ref["ga"][0]]
        while ty["k"] == "ref" and ty["a"]:
            ty = E.F.tys[ty["a"][0]]
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] == "adt" and a.a[1] == b.a[1] and op in ("Eq", "Ne"):
            if a.a[3] != b.a[3]:
                return K(op == "Ne")
            if not a.a[5]:
                return K(op == "Eq")
            if len(a.a[5]) == 1:
                x, y = E.value_of(st, a.a[5][0]), E.value_of(st, b.a[5][0])
                if x is y:
                    return K(op == "Eq")
                nt = "u64" if (x.op == "k" or y.op == "k") else ""
                return E.cmp(op, x, y, nt)
        if op in ("Eq", "Ne") and a.op == "s" and b.op == "s":
            return K((a.a[0] == b.a[0]) == (op == "Eq"))
        return E.cmp(op, a, b, ty["s"])
    return m


def m_ordcmp(E, st, args, ref, t, ev):
    a, b = E.value_of(st, args[0]), E.value_of(st, args[1])
    ty = E.F.tys[ref["ga"][0]]["s"]
    r = mk("ordcmp", a, b, ty if ty in INT else "")
    if ref["fn"].endswith("partial_cmp"):
        return mk("agg", "adt", "core::option::Option", "Some", 1, ("0",), (r,))
    return r


def m_take(E, st, args, ref, t, ev):
    p = args[0]
    root, projs = (p.a if p.op == "ref" else E.deref(st, p))
    old = E.read(st, root, projs)
    ty = E.F.tys[(ref.get("rga") or ref["ga"])[0]]
    nv = mk("default", ty["s"])
    if ty.get("d") == "core::option::Option":
        nv = mk("agg", "adt", "core::option::Option", "None", 0, (), ())
    elif ty["s"] == "bool" or ty["s"] in INT:
        nv = K(0)
    E.write(st, root, projs, nv, ev, t.get("line", 0))
    return old


def m_replace(E, st, args, ref, t, ev):
    p = args[0]
    root, projs = (p.a if p.op == "ref" else E.deref(st, p))
    old = E.read(st, root, projs)
    E.write(st, root, projs, args[1], ev, t.get("line", 0))
    return old


def m_opt_take(E, st, args, ref, t, ev):
    p = args[0]
    root, projs = (p.a if p.op == "ref" else E.deref(st, p))
    old = E.read(st, root, projs)
    E.write(st, root, projs, mk("agg", "adt", "core::option::Option", "None", 0, (), ()), ev, t.get("line", 0))
    return old


def m_opt_replace(E, st, args, ref, t, ev):
    p = args[0]
    root, projs = (p.a if p.op == "ref" else E.deref(st, p))
    old = E.read(st, root, projs)
    E.write(st, root, projs, mk("agg", "adt", "core::option::Option", "Some", 1, ("0",), (args[1],)), ev, t.get("line", 0))
    return old


def m_opt_insert(E, st, args, ref, t, ev):
    p = args[0]
    root, projs = (p.a if p.op == "ref" else E.deref(st, p))
    E.write(st, root, projs, mk("agg", "adt", "core::option::Option", "Some", 1, ("0",), (args[1],)), ev, t.get("line", 0))
    return None


def m_swap(E, st, args, ref, t, ev):
    pa, pb = args
    ra = pa.a if pa.op == "ref" else E.deref(st, pa)
    rb = pb.a if pb.op == "ref" else E.deref(st, pb)
    va, vb = E.read(st, *ra), E.read(st, *rb)
    E.write(st, ra[0], ra[1], vb, ev, 0)
    E.write(st, rb[0], rb[1], va, ev, 0)
    return UNIT


def m_len(E, st, args, ref, t, ev):
    return lenof(E, st, args[0])


def m_is_empty(E, st, args, ref, t, ev):
    return E.cmp("Eq", lenof(E, st, args[0]), K(0), "usize")


def m_opt_test(variant, neg=False):
    def m(E, st, args, ref, t, ev):
        v = E.value_of(st, args[0])
        return None
    return m


def m_maxlevel(E, st, args, ref, t, ev):
    return mk("agg", "adt", "log::LevelFilter", "Off", 0, (), ()) if E.pol.log_off else None


def m_loglevel_le(E, st, args, ref, t, ev):
    return None


def m_default(E, st, args, ref, t, ev):
    ty = E.F.tys[ref["ga"][0]]
    if ty.get("d") == "core::option::Option":
        return mk("agg", "adt", "core::option::Option", "None", 0, (), ())
    if ty["s"] in INT:
        return K(0)
    return None


def m_from(E, st, args, ref, t, ev):
    ga = ref["ga"]
    if len(ga) >= 2:
        a, b = E.F.tys[ga[0]], E.F.tys[ga[1]]
        if a["s"] == b["s"]:
            return args[0]
        if a["s"] in INT and b["s"] in INT:
            return args[0]
    return None


def atomic(E, st, a):
    return a.a if a.op == "ref" else E.deref(st, a)


def m_atomic_load(E, st, args, ref, t, ev):
    r, p = atomic(E, st, args[0])
    if r[0] == "T":
        return E.read(st, r, p)
    return None


def m_atomic_store(E, st, args, ref, t, ev):
    r, p = atomic(E, st, args[0])
    ev.append(("store", r, p, args[1], t.get("line", 0)))
    if r[0] == "T":
        st.mem[r] = args[1]
    return UNIT


def m_atomic_swap(E, st, args, ref, t, ev):
    r, p = atomic(E, st, args[0])
    ev.append(("store", r, p, args[1], t.get("line", 0)))
    if r[0] == "T":
        old = E.read(st, r, p)
        st.mem[r] = args[1]
        return old
    return None


def m_residual(E, st, args, ref, t, ev):
    v = args[0]
    ty = E.F.tys[(ref.get("rga") or ref["ga"])[0]]
    if "result::Result" in (ref.get("r") or ""):
        e = v.a[5][0] if v.op == "agg" and v.a[2] == "Err" else mk("f", mk("as", v, "Err", 1), "0", "core::result::Result")
        return mk("agg", "adt", "core::result::Result", "Err", 1, ("0",), (e,))
    if "option::Option" in (ref.get("r") or ""):
        return mk("agg", "adt", "core::option::Option", "None", 0, (), ())
    return None


def m_index(E, st, args, ref, t, ev):
    """byte mode: a range of an array, slice or Vec is a part of the same place"""
    if not E.pol.bytes:
        return None
    ty = E.F.tys[ref["ga"][0]]
    if not (ty["s"].startswith("[") or ty.get("d") == "alloc::vec::Vec"):
        return None
    r = E.value_of(st, args[1])
    p = args[0]
    root, projs = (p.a if p.op == "ref" else E.deref(st, p))
    if r.op == "agg" and r.a[0] == "adt":
        n = short(r.a[1])
        if n == "RangeFull":
            return mk("ref", root, projs)
        vals = dict(zip(r.a[4], r.a[5]))
        lo, hi = vals.get("start", K(0)), vals.get("end")
        if n in ("Range", "RangeTo", "RangeFrom"):
            ev.append(("slice", E.read(st, root, projs), lo, hi, t.get("line", 0)))
            if hi is not None and lo.op == "k" and lo.a[0] == 0 and lenof(E, st, mk("ref", root, projs)) is hi:
                return mk("ref", root, projs)
            return mk("ref", root, projs + (("r", lo, hi),))
    return None


def m_copy_from_slice(E, st, args, ref, t, ev):
    if not E.pol.bytes:
        return None
    p = args[0]
    root, projs = (p.a if p.op == "ref" else E.deref(st, p))
    E.write(st, root, projs, E.value_of(st, args[1]), ev, t.get("line", 0))
    return UNIT


def m_into_iter(E, st, args, ref, t, ev):
    """iterating over a literal array, by value or by reference"""
    v = args[0]
    x = v
    if v.op == "ref":
        x = E.read(st, v.a[0], v.a[1])
    while x.op in ("gp", "*", "cast"):
        x = x.a[0] if x.op != "cast" else x.a[1]
    if x.op == "agg" and x.a[0] == "array" and len(x.a[5]) <= 8:
        if v.op == "agg":
            return mk("agg", "aiter", None, None, 0, (), x.a[5])
        if v.op == "ref":
            return mk("agg", "aiter", None, None, 0, (), tuple(mk("ref", v.a[0], v.a[1] + (("i", K(i)),)) for i in range(len(x.a[5]))))
    if v.op == "agg" and v.a[0] == "aiter":
        return v
    return None


def m_next(E, st, args, ref, t, ev):
    p = args[0]
    if p.op != "ref":
        return None
    x = E.read(st, p.a[0], p.a[1])
    if x.op == "agg" and x.a[0] == "aiter":
        if not x.a[5]:
            return mk("agg", "adt", "core::option::Option", "None", 0, (), ())
        E.write(st, p.a[0], p.a[1], mk("agg", "aiter", None, None, 0, (), x.a[5][1:]), ev, t.get("line", 0))
        return mk("agg", "adt", "core::option::Option", "Some", 1, ("0",), (x.a[5][0],))
    return None


def m_noop(E, st, args, ref, t, ev):
    return UNIT


PURE = re.compile(r"^(?:[ui](?:8|16|32|64|128|size)|f32|f64)::(saturating_\w+|wrapping_\w+|checked_\w+|overflowing_\w+|abs_diff|pow|to_be_bytes|to_le_bytes|to_ne_bytes|from_be_bytes|from_le_bytes|is_power_of_two|leading_zeros|abs|unsigned_abs|rotate_left|rotate_right|is_multiple_of|div_ceil|next_multiple_of)$"
                  r"|^core::cmp::(Ord::)?(min|max|clamp)$|^core::time::Duration::(from_\w+|as_\w+)$")


def m_pure(E, st, args, ref, t, ev):
    n = ref["fn"].split("::")[-1]
    vals = tuple(E.value_of(st, a) for a in args)
    if n in ("min", "max") and len(vals) == 2:
        if vals[0].op == "k" and vals[1].op == "k":
            return K((min if n == "min" else max)(vals[0].a[0], vals[1].a[0]))
        if vals[0].id > vals[1].id:
            vals = (vals[1], vals[0])
    if n in ("checked_sub", "checked_add", "checked_mul") and len(vals) == 2:
        ty = ref["fn"].split("::")[0]
        r = {"checked_sub": lambda: ladd(vals[0], vals[1], -1), "checked_add": lambda: ladd(vals[0], vals[1]), "checked_mul": lambda: lmul(vals[0], vals[1])}[n]()
        return mk("chk", clip(r), ty)
    return mk("pure", n, tuple(clip(v) for v in vals))


MODELS = {
    "core::clone::Clone::clone": m_identity_deref,
    "alloc::borrow::ToOwned::to_owned": m_identity_deref,
    "core::ops::deref::Deref::deref": m_deref,
    "core::ops::deref::DerefMut::deref_mut": m_deref,
    "core::convert::AsRef::as_ref": m_deref,
    "core::borrow::Borrow::borrow": m_deref,
    "core::convert::Into::into": None,
    "core::convert::From::from": m_from,
    "alloc::boxed::Box::new": m_box,
    "alloc::rcs::arc::Arc::new": m_box,
    "alloc::rcs::rc::Rc::new": m_box,
    "core::ops::try_trait::FromResidual::from_residual": m_residual,
    "core::cmp::PartialEq::eq": m_cmp("Eq"),
    "core::cmp::PartialEq::ne": m_cmp("Ne"),
    "core::cmp::PartialOrd::lt": m_cmp("Lt"),
    "core::cmp::PartialOrd::le": m_cmp("Le"),
    "core::cmp::PartialOrd::gt": m_cmp("Gt"),
    "core::cmp::PartialOrd::ge": m_cmp("Ge"),
    "core::cmp::Ord::cmp": m_ordcmp,
    "core::cmp::PartialOrd::partial_cmp": m_ordcmp,
    "core::ops::index::Index::index": m_index,
    "core::ops::index::IndexMut::index_mut": m_index,
    "core::iter::traits::collect::IntoIterator::into_iter": m_into_iter,
    ITER + "next": m_next,
    "core::mem::take": m_take,
    "core::mem::replace": m_replace,
    "core::mem::swap": m_swap,
    "core::mem::drop": m_noop,
    "core::option::Option::take": m_opt_take,
    "core::option::Option::replace": m_opt_replace,
    "core::default::Default::default": m_default,
    "log::max_level": m_maxlevel,
    "core::hint::must_use": m_id,
    "core::pin::Pin::new": m_id,
    "core::sync::atomic::AtomicBool::load": m_atomic_load,
    "core::sync::atomic::AtomicBool::store": m_atomic_store,
    "core::sync::atomic::AtomicBool::swap": m_atomic_swap,
    "core::sync::atomic::Atomic::load": m_atomic_load,
    "core::sync::atomic::Atomic::store": m_atomic_store,
    "core::sync::atomic::Atomic::swap": m_atomic_swap,
}
MODELS = {k: v for k, v in MODELS.items() if v}
OVERRIDABLE = {"core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne", "core::clone::Clone::clone", "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
               "core::convert::AsRef::as_ref", "core::default::Default::default", "core::convert::From::from", "core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp",
               "core::borrow::Borrow::borrow"}
SUFFIX_MODELS = [
    ("[T]::iter", m_into_iter), ("[T;N]::iter", m_into_iter),
    ("[T]::copy_from_slice", m_copy_from_slice), ("[T]::clone_from_slice", m_copy_from_slice),
    ("vec::Vec::len", m_len), ("[T]::len", m_len), ("string::String::len", m_len), ("str::len", m_len), ("VecDeque::len", m_len), ("HashMap::len", m_len), ("HashSet::len", m_len),
    ("vec::Vec::is_empty", m_is_empty), ("[T]::is_empty", m_is_empty), ("String::is_empty", m_is_empty), ("str::is_empty", m_is_empty), ("VecDeque::is_empty", m_is_empty), ("HashMap::is_empty", m_is_empty), ("HashSet::is_empty", m_is_empty),
]


def explore(F, entry, pol):
    CLIP[:] = [4000, 200] if pol.bytes or pol.big else [400, 60]
    e = Engine(F, entry, pol)
    g = e.run()
    g.alen = e.alen
    g.F = F
    return g
