"""S06: every native reference is released exactly once by its single owner"""
from rules import *
from facts import succs

TECHNIQUE = "linear-ownership dataflow over MIR for native handles (must be consumed exactly once on every path), exact path tables of the ownership primitives, drop-order and lifetime (pointer used after its buffer's drop) dataflow"
NOTE = "native functions release what they take over and keep what they borrow, as their parameter types (Owned/OwnedRc vs Borrowed/BorrowedRc) say"
PTR = "ringrtc::webrtc::ptr::"
HANDLE = re.compile(r"^(core::(option::Option|result::Result|ops::control_flow::ControlFlow)<|\()*ringrtc::webrtc::ptr::Owned(Rc)?<")
SKIP = re.compile(r"::sim::|::tests?::|^ringrtc::webrtc::ptr::|^<ringrtc::webrtc::ptr::")
OPAQUE = re.compile(r"^ringrtc::webrtc::arc::Arc::null$")


def name_of(t):
    f = t["f"].get("f") if isinstance(t["f"], dict) else None
    return (f or {}).get("r") or (f or {}).get("fn") or ""


def decl_of(t):
    f = t["f"].get("f") if isinstance(t["f"], dict) else None
    return (f or {}).get("fn") or ""


def operands(x):
    if isinstance(x, dict):
        if x.get("k") in ("m", "p") and isinstance(x.get("p"), list):
            yield x
        else:
            for v in x.values():
                yield from operands(v)
    elif isinstance(x, list):
        for v in x:
            yield from operands(v)


# ---------------------------------------------------------------- linear flow
AS_PTR = re.compile(r"ptr::Owned(Rc)?(<.*>)?::as_ptr$")
IS_NULL = re.compile(r"ptr::(Owned|OwnedRc|Borrowed|BorrowedRc)(<.*>)?::is_null$|const_ptr.*::is_null$|mut_ptr.*::is_null$|is_null$")
OPTREF = re.compile(r"ptr::(Owned|OwnedRc)(<.*>)?::as_(ref|mut)$")
OBSREF = re.compile(r"ptr::(Borrowed|BorrowedRc)(<.*>)?::as_(ref|mut)$")
CLAIM = re.compile(r"ptr::Owned(Rc)?(<.*>)?::from_ptr$|(Box|Arc|Rc|CString)(<.*>)?::from_raw$|::free$|::ptr_as_box$|::ptr_as_arc_mutex$")
PEEK = re.compile(r"is_null$|CStr::from_ptr$|::as_ref$|::as_mut$|fmt::|Borrowed(Rc)?(<.*>)?::from_ptr$|::cast(_mut|_const)?$|::borrow$|::as_ptr$|slice::.*from_raw_parts")
TAKE = re.compile(r"(Owned|OwnedRc)(<.*>)?::take$|mem::(replace|take)$|Option(<.*>)?::take$")


class Linear:
    """which handles held in locals are still owned, at every point of one function"""

    def __init__(self, F, f):
        self.F, self.f = F, f
        self.T = {i for i, t in enumerate(f.l) if i and HANDLE.match(F.ts(t))}
        self.refs, self.taint, self.null, self.opt, self.obs, self.dis = {}, {}, {}, {}, set(), {}
        self.prepare()

    def prepare(self):
        f = self.f
        for _ in range(6):
            before = (len(self.refs), len(self.taint), len(self.null), len(self.opt), len(self.obs), len(self.dis))
            for b in f.b:
                for st in b["s"]:
                    self.flow(st[0], st[1])
                t = b["t"]
                if t["k"] == "call":
                    self.flowcall(t)
            if before == (len(self.refs), len(self.taint), len(self.null), len(self.opt), len(self.obs), len(self.dis)):
                break

    def flow(self, d, r):
        if len(d) != 1:
            return
        d = d[0]
        if r["r"] == "ref":
            p = r["p"]
            if len(p) == 2 and p[1] == "*" and p[0] in self.taint:
                self.taint[d] = self.taint[p[0]]
            if len(p) == 1 and p[0] in self.T:
                self.refs[d] = p[0]
            elif len(p) == 2 and p[1] == "*" and p[0] in self.refs:
                self.refs[d] = self.refs[p[0]]
            elif len(p) >= 2 and p[0] in self.T:
                self.refs[d] = p[0]
        elif r["r"] in ("use", "cast"):
            o = r.get("o", {})
            if o.get("k") in ("m", "p"):
                p = o["p"]
                for m in (self.refs, self.taint, self.opt):
                    if len(p) == 1 and p[0] in m:
                        m[d] = m[p[0]]
                if len(p) == 1 and p[0] in self.null:
                    self.null[d] = self.null[p[0]]
                if len(p) == 1 and p[0] in self.obs:
                    self.obs.add(d)
                if len(p) > 1 and p[0] in self.opt:
                    self.taint[d] = self.opt[p[0]]
                if len(p) > 1 and p[0] in self.T and F_isptr(self.F, self.f.l[d]):
                    self.taint[d] = p[0]
        elif r["r"] == "un":
            o = r.get("o", r.get("a", {}))
            if isinstance(o, dict) and o.get("k") in ("m", "p") and o["p"][0] in self.null:
                h, neg = self.null[o["p"][0]]
                self.null[d] = (h, not neg)
        elif r["r"] == "discr":
            self.dis[d] = r["p"][0] if len(r["p"]) == 1 else None

    def arg_handle(self, o):
        if not isinstance(o, dict) or o.get("k") not in ("m", "p"):
            return None
        p = o["p"]
        if len(p) == 1:
            return self.refs.get(p[0], self.taint.get(p[0]))
        return None

    def flowcall(self, t):
        d = t["d"]
        if len(d) != 1:
            return
        d = d[0]
        n = name_of(t)
        h = self.arg_handle(t["a"][0]) if t["a"] else None
        if h is not None:
            if AS_PTR.search(n) or re.search(r"::cast(_mut|_const)?$", n):
                self.taint[d] = h
            elif IS_NULL.search(n):
                self.null[d] = (h, False)
            elif OPTREF.search(n) or (h in self.T and re.search(r"Option(<.*>)?::as_(ref|mut)$", n)):
                self.opt[d] = h
        if OBSREF.search(n):
            self.obs.add(d)

    # state: frozenset of (local, "live"/"gone"); a local in neither holds nothing
    def step(self, st, s, out):
        d, r = s[0], s[1]
        live = set(st)
        if r["r"] == "dead":
            l = d[0]
            if (l, "live") in live:
                out.append(("leak", l, s[2] if len(s) > 2 else 0))
            live = {x for x in live if x[0] != l}
            return frozenset(live)
        self.use(live, r, out, s[2] if len(s) > 2 else 0)
        if len(d) == 1 and d[0] in self.T:
            if (d[0], "live") in live:
                out.append(("overwritten", d[0], s[2] if len(s) > 2 else 0))
            live = {x for x in live if x[0] != d[0]}
            if not self.nothing(r):
                live.add((d[0], "live"))
        return frozenset(live)

    def nothing(self, r):
        """an empty value (None, Err, ...) holds no handle"""
        return r["r"] == "agg" and not any(HANDLE.match(self.F.ts(self.f.l[o["p"][0]])) for o in operands(r) if len(o["p"]) == 1)

    def use(self, live, x, out, line):
        if x.get("r") in ("ref", "discr", "rep"):
            return
        cast_int = x.get("r") == "cast" and re.search(r"Expose|PointerToInt", str(x.get("ck")))
        for o in operands(x):
            l = o["p"][0]
            if o["k"] == "m" and l in self.T and (len(o["p"]) == 1 or HANDLE.match(self.place_ty(o["p"]))):
                self.gone(live, l, out, line)
            elif len(o["p"]) == 1 and l in self.taint and (cast_int or x.get("r") == "agg"):
                self.away(live, self.taint[l])

    def place_ty(self, p):
        """type of a downcast payload of a handle container is the handle"""
        return "ringrtc::webrtc::ptr::Owned<" if any(isinstance(e, list) and e[0] in ("v", "d", "as", "down") for e in p[1:]) else ""

    def gone(self, live, l, out, line):
        if (l, "gone") in live and (l, "live") not in live:
            out.append(("twice", l, line))
        live.discard((l, "live"))
        live.add((l, "gone"))

    def away(self, live, l):
        live.discard((l, "live"))
        live.add((l, "gone"))

    def call(self, st, t, out):
        live = set(st)
        n, line = name_of(t), t.get("line", 0)
        for o in t["a"]:
            if not isinstance(o, dict) or o.get("k") not in ("m", "p"):
                continue
            l = o["p"][0]
            if o["k"] == "m" and l in self.T:
                self.gone(live, l, out, line)
            elif len(o["p"]) == 1 and l in self.taint:
                h = self.taint[l]
                if CLAIM.search(n) or CLAIM.search(decl_of(t)):
                    self.gone(live, h, out, line)
                elif not PEEK.search(n):
                    self.away(live, h)
            elif len(o["p"]) == 1 and l in self.refs and TAKE.search(n):
                live = {x for x in live if x[0] != self.refs[l]}
        d = t["d"]
        if len(d) == 1 and d[0] in self.T:
            if (d[0], "live") in live:
                out.append(("overwritten", d[0], line))
            live = {x for x in live if x[0] != d[0]}
            if not OPAQUE.search(n) and not re.search(r"ptr::Owned(Rc)?(<.*>)?::null$", n):
                live.add((d[0], "live"))
        return frozenset(live)

    def edges(self, st, t):
        """(target, state) along the normal edges, with what a null or None test learnt"""
        k = t["k"]
        if k != "switch":
            for x in succs({"s": [], "t": t}):
                if k in ("call", "drop", "assert") and x == t.get("u"):
                    continue
                yield x, st
            return
        o = t["d"]
        l = o["p"][0] if isinstance(o, dict) and o.get("k") in ("m", "p") and len(o["p"]) == 1 else None
        outs = [(v, x) for v, x in t["ts"]] + [(None, t["o"])]
        vals = [v for v, _ in t["ts"]]
        for v, x in outs:
            if x is None:
                continue
            s2 = st
            if l in self.null:
                h, neg = self.null[l]
                true = (v is None) if 0 in vals else v == 1
                if true != neg:
                    s2 = frozenset(y for y in st if y[0] != h)
            elif l in self.dis and self.dis[l] is not None:
                b = self.dis[l]
                none = self.empty_variant(b, v, vals)
                if none and b in self.T:
                    s2 = frozenset(y for y in st if y[0] != b)
                elif none and b in self.opt:
                    s2 = frozenset(y for y in st if y[0] != self.opt[b])
            yield x, s2

    def empty_variant(self, b, v, vals):
        s = self.F.ts(self.f.l[b])
        e = 0 if s.startswith("core::option::Option") else 1 if s.startswith(("core::result::Result", "core::ops::control_flow")) else None
        if e is None:
            return False
        return v == e or (v is None and (1 - e) in vals and len(vals) == 1)

    def run(self):
        """-> problems [(what, local, line)], number of blocks"""
        f = self.f
        seen, todo, out = {}, [(0, frozenset((a, "live") for a in range(1, f.args + 1) if a in self.T))], []
        while todo:
            bi, st = todo.pop()
            if st in seen.setdefault(bi, set()):
                continue
            seen[bi].add(st)
            if len(seen[bi]) > 200:
                out.append(("undecided", 0, 0))
                break
            b = f.b[bi]
            for s in b["s"]:
                st = self.step(st, s, out)
            t = b["t"]
            if t["k"] == "call":
                st = self.call(st, t, out)
            if t["k"] == "ret":
                for l, w in st:
                    if w == "live":
                        out.append(("leak", l, t.get("line", 0)))
                continue
            todo += list(self.edges(st, t))
        return out, len(seen)


def F_isptr(F, i):
    return F.ts(i).startswith("*")


def linear_rule(c):
    F = c.F
    c.rule("handle-flow", "every native handle held by value is handed on, wrapped or released exactly once on every normal path (none lost, none claimed twice)")
    n = 0
    for f in F.fns.values():
        if SKIP.search(f.n) or not f.b:
            continue
        L = Linear(F, f)
        if not L.T:
            continue
        n += 1
        probs, _ = L.run()
        d = sorted({(w, F.ts(f.l[l])) for w, l, _ in probs})
        c.ob("handle-flow", f.n, not d, "; ".join("%s handle %s" % x for x in d), [("%s:%s" % (f.file, ln)) for _, _, ln in probs][:3])
    c.floor("handle-flow", n, 40)



# ---------------------------------------------------------------- primitives
RC = "ringrtc::webrtc::arc::Arc"
UNQ = PTR + "Unique"


def is_null_handle(v):
    """Owned{ptr::null()} / OwnedRc{ptr::null()} / Arc{..}, Unique{..} of it"""
    d = desc(v)
    return re.fullmatch(r"((Arc|Unique|Owned|OwnedRc)\{)*(ptr::null\(\)|0)\}*", d) is not None


def bare_ptr(v):
    """the pointer inside the wrappers a value is made of"""
    while True:
        if v.op == "agg" and short(str(v.a[1])) in ("Arc", "Unique", "Owned", "OwnedRc", "Borrowed", "BorrowedRc") and len(v.a[5]) == 1:
            v = v.a[5][0]
        elif v.op == "gp" or v.op == "chk":
            v = v.a[0]
        else:
            return re.sub(r"(\.owned)?(\.0)*$", "", desc(v).replace("~", ""))


def prim(c, name, incs, decs, dels, ret, nulls):
    """exact effect of one ownership primitive: reference count events, what is returned, what is left behind"""
    F = c.F
    fs = F.find(name)
    c.ob("primitives", name, len(fs) == 1, "%d functions match" % len(fs))
    for n in fs:
        g = c.graph(n)
        ps = paths(g)
        c.ob("primitives", n + "/paths", len(ps) >= 1, "no path")
        for p in ps:
            if p.kind != "ret":
                continue
            got = {"inc": [], "dec": [], "del": []}
            nulled, isnull = False, None
            for e in p.ev:
                if e[0] == "call":
                    if re.search(r"Rust_incRc$", e[1]):
                        got["inc"].append(bare_ptr(e[2][0]))
                    elif re.search(r"Rust_decRc$", e[1]):
                        got["dec"].append(bare_ptr(e[2][0]))
                    elif re.search(r"ptr::Delete(<.*>)?::delete$", e[1]):
                        got["del"].append(bare_ptr(e[2][0]))
                    elif "{{extern}}" in e[1] or "<indirect>" in e[1]:
                        c.ob("primitives", n, False, "unexpected call of %s" % tail(e[1]))
                if e[0] == "store" and is_null_handle(e[3]):
                    nulled = True
                if e[0] == "drop" and re.search(r"webrtc::(arc::Arc|ptr::Unique)<", e[1]):
                    nulled = nulled or hidden_null(e[2])
                    if not hidden_null(e[2]):
                        got["dec"].append("drop:" + bare_ptr(e[2]))
                if e[0] == "assume" and desc(e[1]).endswith(")") and "is_null(" in desc(e[1]):
                    isnull = e[2] == ("e", frozenset({1}))
                if e[0] == "call" and re.search(r"mem::forget$", e[1]):
                    nulled = True
            want = {"inc": incs, "dec": decs, "del": 0 if isnull else dels}
            for k, w in want.items():
                c.ob("primitives", "%s/%s" % (n, k), got[k] == ["arg0"] * w, "%s of %s where exactly %d of the handle's own object is due" % (k, got[k], w))
            if dels:
                c.ob("primitives", n + "/null", isnull is not None, "deletes without a null test")
            if ret == "null":
                c.ob("primitives", n + "/ret", p.ret is not None and is_null_handle(p.ret), "returns %s" % desc(p.ret))
            elif ret:
                c.ob("primitives", n + "/ret", p.ret is not None and bare_ptr(p.ret) == ret, "returns %s instead of the handle given" % (desc(p.ret) if p.ret is not None else None))
            if nulls:
                c.ob("primitives", n + "/left", nulled, "the handle taken out is not cleared: it would be released again")


def hidden_null(v):
    """the value dropped is known to hold null"""
    if v.op == "upd":
        return is_null_handle(v.a[2]) or hidden_null(v.a[2])
    if v.op in ("agg",):
        return is_null_handle(v)
    return False


def primitives(c):
    c.rule("primitives", "copying a counted handle adds exactly one reference, dropping it removes exactly one, taking one out clears it, borrowing takes none; a unique object is deleted exactly once and only if not null")
    A = r"^ringrtc::webrtc::arc::Arc(<.*>)?::%s$"
    T = r"^<ringrtc::webrtc::arc::Arc<T> as core::%s$"
    prim(c, A % "from_owned", 0, 0, 0, "arg0", False)
    prim(c, A % "null", 0, 0, 0, "null", False)
    prim(c, A % "from_borrowed", 1, 0, 0, "arg0", False)
    prim(c, A % "as_borrowed", 0, 0, 0, "arg0", False)
    prim(c, A % "take_owned", 0, 0, 0, "arg0", True)
    prim(c, A % "into_owned", 0, 0, 0, "arg0", True)
    prim(c, T % "clone::Clone>::clone", 1, 0, 0, "arg0", False)
    prim(c, T % "ops::drop::Drop>::drop", 0, 1, 0, None, False)
    U = r"^ringrtc::webrtc::ptr::%s(<.*>)?::%s$"
    for t in ("Owned", "OwnedRc"):
        prim(c, U % (t, "take"), 0, 0, 0, "arg0", True)
        prim(c, U % (t, "borrow"), 0, 0, 0, "arg0", False)
        prim(c, U % (t, "null"), 0, 0, 0, "null", False)
        prim(c, U % (t, "from_ptr"), 0, 0, 0, "arg0", False)
        prim(c, U % (t, "as_ptr"), 0, 0, 0, "arg0", False)
    prim(c, U % ("Unique", "from"), 0, 0, 0, "arg0", False)
    prim(c, U % ("Unique", "null"), 0, 0, 0, "null", False)
    prim(c, U % ("Unique", "borrow"), 0, 0, 0, "arg0", False)
    for m in ("take_owned", "take", "into_owned"):
        prim(c, U % ("Unique", m), 0, 0, 0, "arg0", True)
    prim(c, r"^<ringrtc::webrtc::ptr::Unique<T> as core::ops::drop::Drop>::drop$", 0, 0, 1, None, False)
    prim(c, r"^ringrtc::webrtc::ffi::ref_count::inc$", 1, 0, 0, "arg0", False)
    prim(c, r"^ringrtc::webrtc::ffi::ref_count::dec$", 0, 1, 0, None, False)


# ---------------------------------------------------------------- types
DELEGATE = re.compile(r"^<(ringrtc::(lite|ios)::[\w:]*(Delegate|AppConnectionInterface|AppCallContext|AppMediaStreamInterface|AppInterface)) as core::ops::drop::Drop>::drop$")


def types(c):
    F = c.F
    c.rule("no-copy", "the types that own a native object can not be copied: only webrtc::Arc is cloneable, through its counted clone; crossing threads needs a thread-safe object")
    c.rule("delete", "each deleter hands exactly its own object to exactly one native delete function")
    c.rule("delegate", "each application object handed over with a release function is released exactly once, when its owner is dropped, and its owner is never duplicated")
    own = re.compile(r"^ringrtc::webrtc::ptr::(Owned|OwnedRc|Unique)<")
    bad = [(im["tr"], im["self_s"]) for im in F.impls if re.search(r"(Clone|Copy)$", im["tr"] or "") and own.match(im["self_s"])]
    c.ob("no-copy", "Owned, OwnedRc, Unique", not bad, "%s" % bad)
    cl = [im for im in F.impls if re.search(r"(Clone|Copy)$", im["tr"] or "") and im["self_s"].startswith(RC + "<")]
    c.ob("no-copy", "webrtc::Arc", [short(im["tr"]) for im in cl] == ["Clone"], "%s" % [im["tr"] for im in cl])
    for tr in ("Send", "Sync"):
        ims = [im for im in F.impls if (im["tr"] or "").endswith("::" + tr) and im["self_s"].startswith(RC + "<")]
        for im in ims:
            pr = " ".join(im.get("preds") or ())
            c.ob("no-copy", "webrtc::Arc/" + tr, "marker::Send" in pr and "marker::Sync" in pr, "%s without T: Send + Sync" % tr)
        c.floor("no-copy", len(ims), 1)
    n = 0
    for f in F.find(r" as ringrtc::webrtc::ptr::Delete>::delete$"):
        if "::sim::" in f:
            continue
        n += 1
        for p in paths(c.graph(f)):
            ext = [e for e in p.ev if e[0] == "call" and "{{extern}}" in e[1]]
            ok = len(ext) == 1 and bare_ptr(ext[0][2][0]) == "arg0" and re.search(r"delete|Delete|release|Release|dec|free", ext[0][1])
            c.ob("delete", f, ok, "calls %s" % [(tail(e[1]), [desc(x) for x in e[2]]) for e in ext])
    c.floor("delete", n, 5)
    n = 0
    for f in F.fns:
        m = DELEGATE.match(f)
        if not m:
            continue
        n += 1
        for p in paths(c.graph(f)):
            ind = [e for e in p.ev if e[0] == "call" and "<indirect>" in e[1]]
            ok = len(ind) == 1 and re.fullmatch(r"arg0\.(release|destroy)", desc(ind[0][2][0])) and re.fullmatch(r"arg0\.(retained|object)", desc(ind[0][2][1]))
            c.ob("delegate", f, ok, "releases %s" % [[desc(x) for x in e[2]] for e in ind])
    c.floor("delegate", n, 8)
    owners = {m.group(1) for f in F.fns for m in [DELEGATE.match(f)] if m}
    for f in F.fns.values():
        for b in f.b:
            t = b["t"]
            if t["k"] == "call" and re.search(r"::clone$|::cloned$|to_owned$", decl_of(t)):
                for gi in t["f"]["f"].get("ga", ()):
                    if F.ts(gi).lstrip("&") in owners:
                        c.ob("delegate", f.n, False, "duplicates %s, whose object would be released twice" % F.ts(gi))
    # the object is behind the owner's one drop only: fields are never released elsewhere
    for o in sorted(owners):
        c.ob("delegate", o + "/copy", not [im for im in F.impls if im["self_s"] == o and re.search(r"Copy$", im["tr"] or "")], "Copy")


# ---------------------------------------------------------------- order
def owner_order(c):
    F = c.F
    c.rule("drop-order", "an object that needs its factory (or its observer) alive is released before it: first by the Drop implementation, or by being declared first")
    n = 0
    for name, a in F.adts.items():
        if "::sim::" in name or len(a["vs"]) != 1:
            continue
        fs = [(fl[0], F.ts(fl[1])) for fl in a["vs"][0][2]]
        held = [i for i, (_, s) in enumerate(fs) if re.search(r"^ringrtc::webrtc::arc::Arc<", s) and "FactoryOwner" not in s]
        keep = [i for i, (_, s) in enumerate(fs) if re.search(r"^(core::option::Option<)?ringrtc::webrtc::(arc::Arc<.*FactoryOwner>|ptr::Unique<.*Observer>)", s)]
        if not held or not keep:
            continue
        n += 1
        dr = "<%s as core::ops::drop::Drop>::drop" % name
        for h in held:
            fld = fs[h][0]
            ok = h < min(keep)
            if dr in F.fns:
                ps = [p for p in paths(c.graph(dr)) if p.kind == "ret"]
                first, ok = ok, bool(ps)
                for p in ps:
                    freed = [i for i, e in enumerate(p.ev) if (e[0] == "store" and (short(name), fld) in store_path(e) and is_null_handle(e[3])) or (e[0] == "call" and e[1].endswith("take_owned") and fld in desc(e[2][0]))]
                    kept = [i for i, e in enumerate(p.ev) if e[0] == "store" and any((short(name), fs[k][0]) in store_path(e) for k in keep)]
                    ok = ok and (bool(freed) or (first and not kept)) and all(freed and min(freed) < k for k in kept)
            c.ob("drop-order", "%s.%s" % (name, fld), ok, "%s is released after %s, which it needs" % (fld, [fs[k][0] for k in keep]))
    c.floor("drop-order", n, 3)


TERM = r"^ringrtc::core::connection::Connection(<.*>)?::terminate$"


def terminate(c):
    F = c.F
    c.rule("observer-last", "a terminated connection frees the memory that the native peer connection calls back into only after the peer connection was closed and everything that refers to it was released, once")
    n = F.one(TERM)
    keep = re.compile(r"Connection(<.*>)?::(terminate|\w*(close|free|release|dispose|shut)\w*)$|ptr_as_box|Option|Result|mem::(take|replace|swap)|WebRtcData|try_trait|deref|ptr::Owned")
    g = c.graph(n, noinline=lambda x: not keep.search(x))
    n_free = 0
    for p in paths(g):
        if p.kind != "ret":
            continue
        closed, gone, took, freed = False, set(), False, 0
        for e in p.ev:
            if e[0] == "call" and re.search(r"Rust_closePeerConnection$", e[1]):
                closed = True
            if e[0] == "assume" and re.search(r"peer_connection\)?$", desc(e[1]).rstrip(")")) and e[2] == ("e", frozenset({0})):
                closed = True       # there is none
            if e[0] == "store" and store_path(e):
                f = store_path(e)[-1][1]
                none = e[3].op == "agg" and e[3].a[2] == "None"
                if none and f == "connection_ptr":
                    took = True
                elif none:
                    gone.add(f)
            if e[0] == "call" and re.search(r"Box(<.*>)?::from_raw$", e[1]) and "connection_ptr" in desc(e[2][0]) + full(e[2][0]):
                freed += 1
                miss = [f for f in ("app_connection", "stats_observer", "incoming_media") if f not in gone]
                c.ob("observer-last", "free", closed and not miss, "freed while %s" % ("the peer connection is open" if not closed else "%s is still held" % miss))
                c.ob("observer-last", "cleared", took, "freed, but still recorded: it would be freed again")
        n_free += freed
        c.ob("observer-last", "once", freed <= 1, "freed %d times" % freed)
        if took and not freed and p.ret is not None and ret_is(p.ret, "Ok"):
            c.ob("observer-last", "lost", False, "taken but not freed")
    c.floor("observer-last", n_free, 1)
    # nobody else frees it
    for f, bi, r, t in call_sites(F, r"::ptr_as_box$"):
        ty = " ".join(F.ts(x) for x in r.get("ga", ()))
        if "core::connection::Connection" in ty:
            c.ob("observer-last", "freed by " + f, f == n, "another place frees the connection")


# ---------------------------------------------------------------- raw transfers
INTO = re.compile(r"^(alloc::boxed::Box|alloc::rcs::arc::Arc|alloc::rc::Rc|alloc::sync::Arc|alloc::ffi::c_str::CString|alloc::vec::Vec)(<.*>)?::(into_raw|leak|into_raw_parts)$")
FROM = re.compile(r"^(alloc::boxed::Box|alloc::rcs::arc::Arc|alloc::rc::Rc|alloc::sync::Arc|alloc::ffi::c_str::CString)(<.*>)?::from_raw$|::ptr_as_box$|::ptr_as_arc_mutex$")
FORGET = re.compile(r"mem::forget$|ManuallyDrop(<.*>)?::new$|(increment|decrement)_strong_count$")
FORGET_OK = {r"ThrowCallException as .*::on_panic$": "a panic payload, not a native object"}


def raw_key(F, r):
    ga = [F.ts(x) for x in r.get("ga", ())]
    t = [x for x in ga if not x.startswith("alloc::alloc::Global")]
    if "CString" in r["fn"]:
        return "CString"
    k = t[0] if t else "?"
    return re.sub(r"^std::sync::poison::mutex::Mutex<(.*)>$", r"\1", re.sub(r"<.*$", "", k) if not k.startswith(("alloc::boxed", "std::sync")) else k)


def raw(c):
    F = c.F
    c.rule("raw-transfer", "an owner turned into a raw pointer is turned back exactly once in the same call, or given away, and for each type given away there is a place that takes it back; nothing is forgotten")
    into, frm = {}, {}
    nfn = 0
    for f in F.fns.values():
        if SKIP.search(f.n) or "android::types" in f.n or not f.b:
            continue
        i = o = 0
        for b in f.b:
            t = b["t"]
            if t["k"] != "call" or not isinstance(t["f"], dict) or "f" not in t["f"]:
                continue
            r = t["f"]["f"]
            if FORGET.search(r["fn"]):
                why = [w for k, w in FORGET_OK.items() if re.search(k, f.n)]
                c.ob("raw-transfer", f.n + "/forget", bool(why), "%s: what it holds is never released" % tail(r["fn"]))
            if INTO.match(r["fn"]):
                i += 1
                into.setdefault(raw_key(F, r), []).append(f.n)
            if FROM.search(r["fn"]):
                o += 1
                frm.setdefault(raw_key(F, r), []).append(f.n)
        if i or o:
            nfn += 1
            raw_flow(c, f)
    generic = {"T"}
    for k, fs in sorted(into.items()):
        c.ob("raw-transfer", "given away: " + k, k in frm or (k in generic), "%s gives it away in %s and nothing takes it back" % (k, sorted(set(map(tail, fs)))))
    c.floor("raw-transfer", nfn, 14)


class Raw(Linear):
    """the pointers made by into_raw: not lost, not taken back twice"""

    def __init__(self, F, f):
        self.F, self.f = F, f
        self.T = set()
        self.refs, self.taint, self.null, self.opt, self.obs, self.dis = {}, {}, {}, {}, set(), {}
        self.src = {}
        for b in f.b:
            t = b["t"]
            if t["k"] == "call" and isinstance(t["f"], dict) and "f" in t["f"] and INTO.match(t["f"]["f"]["fn"]) and len(t["d"]) == 1:
                self.src[t["d"][0]] = t["d"][0]
        self.alias = dict(self.src)
        for _ in range(6):
            k = len(self.alias)
            for b in f.b:
                for s in b["s"]:
                    d, r = s[0], s[1]
                    if len(d) == 1 and r["r"] in ("use", "cast") and r.get("o", {}).get("k") in ("m", "p") and len(r["o"]["p"]) == 1 and r["o"]["p"][0] in self.alias:
                        self.alias[d[0]] = self.alias[r["o"]["p"][0]]
                    if len(d) == 1 and r["r"] == "ref" and len(r["p"]) == 1 and r["p"][0] in self.alias:
                        self.alias[d[0]] = self.alias[r["p"][0]]
                    if len(d) == 1 and r["r"] == "ref" and r.get("raw") and len(r["p"]) == 2 and r["p"][1] == "*" and r["p"][0] in self.alias:
                        self.alias[d[0]] = self.alias[r["p"][0]]
                t = b["t"]
                if t["k"] == "call" and len(t["d"]) == 1 and t["a"] and t["a"][0].get("k") in ("m", "p") and len(t["a"][0]["p"]) == 1 and t["a"][0]["p"][0] in self.alias and re.search(r"Borrowed(Rc)?(<.*>)?::(from_ptr|to_void)$|::cast(_mut|_const)?$", name_of(t)):
                    self.alias[t["d"][0]] = self.alias[t["a"][0]["p"][0]]
            if k == len(self.alias):
                break

    def run(self):
        """per path: how often each pointer is taken back, whether it escapes -> problems"""
        f, out, seen, todo = self.f, [], {}, [(0, frozenset())]
        ret = {l for l in self.alias if l == 0}
        while todo:
            bi, st = todo.pop()
            if st in seen.setdefault(bi, set()):
                continue
            seen[bi].add(st)
            d = {k: v for k, v in st}
            b = f.b[bi]
            for s in b["s"]:
                dst, r = s[0], s[1]
                for o in operands(r):
                    l = self.alias.get(o["p"][0])
                    if l is not None and l in d and (r["r"] == "agg" or len(dst) > 1 or dst[0] == 0 or (r["r"] == "cast" and dst[0] not in self.alias)):
                        d[l] = (d[l][0], True)
            t = b["t"]
            if t["k"] == "call":
                n = name_of(t)
                for o in t["a"]:
                    if o.get("k") in ("m", "p") and o["p"][0] in self.alias and self.alias[o["p"][0]] in d:
                        l = self.alias[o["p"][0]]
                        if FROM.search(n) or FROM.search(decl_of(t)):
                            d[l] = (d[l][0] + 1, d[l][1])
                            if d[l][0] > 1:
                                out.append("taken back twice")
                        elif t["d"][0] not in self.alias:
                            d[l] = (d[l][0], True)
                if len(t["d"]) == 1 and t["d"][0] in self.src:
                    d[t["d"][0]] = (0, t["d"][0] == 0)
            if t["k"] == "ret":
                for l, (k, esc) in d.items():
                    if k == 0 and not esc:
                        out.append("lost")
                continue
            for x in succs({"s": [], "t": t}):
                if t["k"] in ("call", "drop", "assert") and x == t.get("u"):
                    continue
                todo.append((x, frozenset(d.items())))
        return sorted(set(out))


KEEP_ALIVE = re.compile(r"^<ringrtc::core::util::ArcPtr<T> as core::ops::drop::Drop>::drop$")


def raw_flow(c, f):
    if KEEP_ALIVE.match(f.n):
        return      # gives back the reference ArcPtr::new took without counting it (rule arc-ptr)
    R = Raw(c.F, f)
    if R.src:
        p = R.run()
        c.ob("raw-transfer", f.n, not p, "the pointer is " + ", ".join(p))


def arc_ptr(c):
    F = c.F
    c.rule("arc-ptr", "the wrapper that lends a handle without owning it never releases it")
    n = F.one(r"^<ringrtc::core::util::ArcPtr<T> as core::ops::drop::Drop>::drop$")
    k = 0
    for p in paths(c.graph(n)):
        if p.kind != "ret":
            continue
        some = [e for e in p.ev if e[0] == "assume" and desc(e[1]) == "discr(arg0.arc)" and e[2] == ("e", frozenset({1}))]
        raws = [e for e in p.ev if e[0] == "call" and e[1].endswith("Arc::into_raw") and desc(e[2][0]).replace(" as Some.0", "") == "arg0.arc"]
        forgets = [e for e in p.ev if e[0] == "call" and e[1].endswith("mem::forget")]
        cleared = any(e[0] == "store" and store_path(e)[-1:] == [("ArcPtr", "arc")] for e in p.ev) or bool(forgets)
        if some:
            k += 1
            c.ob("arc-ptr", "kept", len(raws) + len(forgets) == 1 and cleared, "the lent reference is released with the wrapper")
    c.floor("arc-ptr", k, 1)


# ---------------------------------------------------------------- lifetime of lent buffers
BUF = re.compile(r"^(alloc::ffi::c_str::CString|alloc::vec::Vec<|alloc::string::String|alloc::boxed::Box<|std::sync::poison::mutex::MutexGuard|ringrtc::webrtc::arc::Arc<|ringrtc::webrtc::ptr::Unique<|core::option::Option<(alloc::ffi::c_str::CString|alloc::vec::Vec<)|\[)")
LEND = re.compile(r"(CStr|CString|Vec|slice|\[T\]|str|String|Box|Arc|Unique|OwnedRc|Owned)(<.*>)?::(as_ptr|as_mut_ptr|as_c_str|as_slice|as_mut_slice|borrow|as_borrowed|as_bytes|as_ref|as_str|deref|deref_mut|rffi|as_bytes_with_nul)$|ops::deref::Deref(Mut)?>?::deref(_mut)?$|index::Index(Mut)?>?::index(_mut)?$|AsRef.*as_ref$|Borrow.*::borrow$|\bas_ptr$|\bas_borrowed$|\brffi$")
THRU = re.compile(r"(Borrowed|BorrowedRc)(<.*>)?::(from_ptr|to_void|as_ptr)$|::cast(_mut|_const)?$|::add$|::offset$|clone$")


def lent(c):
    """a raw pointer into an owned local must not reach native code after that local was dropped"""
    F = c.F
    c.rule("lent-alive", "a buffer or handle whose address is handed to native code (or returned to it) is still alive then: no pointer into a dropped local is used")
    n = 0
    for f in F.fns.values():
        if SKIP.search(f.n) and "::sim::" in f.n or not f.b or f.derived or "::tests" in f.n:
            continue
        n += lent_fn(c, f)
    c.floor("lent-alive", n, 20)


def lent_fn(c, f):
    F = c.F
    tys = [F.ts(t) for t in f.l]
    own = {i for i, s in enumerate(tys) if i and BUF.match(s)}
    if not own:
        return 0
    # prov[l] = the owned locals that l points into; raw only counts from as_ptr-like results on
    prov = {}
    changed = True

    def of(p):
        l = p[0]
        s = set(prov.get(l, ()))
        return s
    while changed:
        changed = False
        for b in f.b:
            for s in b["s"]:
                d, r = s[0], s[1]
                if len(d) != 1:
                    continue
                add = set()
                if r["r"] == "ref":
                    if r["p"][0] in own:
                        add = {r["p"][0]}
                    add |= of(r["p"])
                elif r["r"] in ("use", "cast"):
                    o = r.get("o", {})
                    if o.get("k") in ("m", "p") and pointerish(tys[d[0]]):
                        add = of(o["p"])
                elif r["r"] == "agg" and r.get("ak") in ("tuple", "adt", "array"):
                    for o in operands(r):
                        if len(o["p"]) == 1 and tys[o["p"][0]].startswith(("*", "ringrtc::webrtc::ptr::Borrowed")):
                            add |= of(o["p"])
                if not add <= prov.get(d[0], set()):
                    prov.setdefault(d[0], set()).update(add)
                    changed = True
            t = b["t"]
            if t["k"] == "call" and len(t["d"]) == 1 and t["a"]:
                nm = name_of(t)
                if (LEND.search(nm) or THRU.search(nm)) and pointerish(tys[t["d"][0]]):
                    o = t["a"][0]
                    if o.get("k") in ("m", "p"):
                        add = of(o["p"])
                        if not add <= prov.get(t["d"][0], set()):
                            prov.setdefault(t["d"][0], set()).update(add)
                            changed = True
    raws = {l for l in prov if prov[l] and tys[l].startswith(("*", "ringrtc::webrtc::ptr::Borrowed", "ringrtc")) and l not in own}
    if not raws:
        return 0
    # forward: which owned locals have been dropped
    seen, todo, uses = {}, [(0, frozenset())], 0
    hit = set()
    while todo:
        bi, st = todo.pop()
        if st in seen.setdefault(bi, set()):
            continue
        seen[bi].add(st)
        b = f.b[bi]
        dead = set(st)
        for s in b["s"]:
            d, r = s[0], s[1]
            if len(d) == 1 and d[0] in own:
                if r["r"] != "dead":
                    dead.discard(d[0])
                elif tys[d[0]].startswith("["):
                    dead.add(d[0])
        t = b["t"]
        if t["k"] == "call":
            nm = name_of(t)
            foreign = "{extern}" in nm or "{{extern}}" in nm or t["f"].get("k") != "fn" or (isinstance(t["f"].get("f"), dict) and t["f"]["f"].get("ffi"))
            for o in t["a"]:
                if o.get("k") in ("m", "p") and o["p"][0] in raws:
                    if foreign or re.search(r"CStr::from_ptr$|from_raw_parts(_mut)?$|ptr::(read|write|copy)", nm):
                        uses += 1
                        for x in prov[o["p"][0]] & dead:
                            hit.add((nm, tys[x]))
            if re.search(r"mem::drop$", nm) and t["a"] and t["a"][0].get("k") == "m" and t["a"][0]["p"][0] in own:
                dead.add(t["a"][0]["p"][0])
            if len(t["d"]) == 1:
                dead.discard(t["d"][0])
        if t["k"] == "drop" and len(t["p"]) == 1 and t["p"][0] in own:
            dead.add(t["p"][0])
        if t["k"] == "ret":
            for l in (0,):
                if l in raws:
                    for x in prov[l] & dead:
                        if re.search(r"^(\*|ringrtc::webrtc::ptr::Borrowed)", tys[l]) or True:
                            hit.add(("return", tys[x]))
            continue
        for x in succs({"s": [], "t": t}):
            if t["k"] in ("call", "drop", "assert") and x == t.get("u"):
                continue
            todo.append((x, frozenset(dead)))
    if uses or hit:
        c.ob("lent-alive", f.n, not hit, "; ".join("%s is given a pointer into a %s that was already dropped" % (tail(a) if a != "return" else "the caller", re.sub(r"<.*", "", b_)) for a, b_ in sorted(hit)))
    return 1 if uses or hit else 0


def pointerish(s):
    return s.startswith(("*", "&", "ringrtc::webrtc::ptr::Borrowed"))


def check(c):
    primitives(c)
    types(c)
    linear_rule(c)
    raw(c)
    arc_ptr(c)
    owner_order(c)
    terminate(c)
    lent(c)
    return "strong", "every primitive that creates, copies, takes or releases a native reference is decided by its complete path table, every function that holds a native handle by value by a linear dataflow over its MIR, together with the types that own them, their drop order, the raw-pointer transfers and the lifetime of buffers lent to native code"
