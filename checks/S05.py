"""S05: null or short pointers from native code are refused, never dereferenced"""
from rules import *
from absint import mk, K, ladd

TECHNIQUE = "nullness dataflow over the MIR of every entry point native code can call: each dereference of a pointer must be dominated by a null test of that pointer on every path; pointer/length pairing; path tables for the output buffers"
NOTE = "a non-null pointer given with a length points at that many elements, handles refer to live objects and a pointer is not freed twice (what the C declarations promise)"
SKIP = re.compile(r"::sim::|android::types|::tests?::")
SINK = re.compile(r"CStr::from_ptr$|slice::raw::from_raw_parts(_mut)?$|(Box|Arc|Rc|CString)(<.*>)?::from_raw$|^core::ptr::(read|write|copy|copy_nonoverlapping|read_unaligned|write_unaligned|read_volatile|write_volatile|replace|swap|drop_in_place|write_bytes)$|^\*(const|mut) T::(read|write|copy|replace|swap|drop_in_place|as_ref_unchecked|as_mut_unchecked)\w*$|NonNull(<.*>)?::new_unchecked$|(const|mut)_ptr::.*::(read|write|copy|replace|swap|drop_in_place)\w*$")
SAFE = re.compile(r"(as_ptr|as_mut_ptr|into_raw|(Box|Arc|Rc|CString)(<.*>)?::from_raw|leak|from_ref|from_mut|into_raw_parts|as_non_null_ptr|addr_of)$")
CORE = re.compile(r"^<?ringrtc::core::(call|call_manager|group_call|connection|call_fsm|connection_fsm|endorsements|signaling|call_mutex|call_rwlock|assets|crypto)::|^<?ringrtc::lite::sfu::(Client|ObfuscatedResolver|Member)|^<?log::|^<?(alloc|std|core)::(fmt|string)|call_links::(root_key|http)|^<?(ringrtc::)?protobuf|^<?(tokio|regex|serde|prost|jni|hex|uuid|anyhow|thiserror|futures|base64|hkdf|sha2|rand)")
AS_REF = re.compile(r"::as_(ref|mut)$|NonNull(<.*>)?::new$")
CPTR = re.compile(r"^\*(const|mut) ")


def base(v):
    """the pointer a value stands for: casts, offsets and borrows of the pointee removed"""
    for _ in range(30):
        if v.op == "cast":
            v = v.a[1]
        elif v.op == "chk":
            v = v.a[0]
        elif v.op in ("gp",):
            v = v.a[0]
        elif v.op == "call" and re.search(r"::cast(_mut|_const)?$|::to_void$|ptr::(Borrowed|Owned|BorrowedRc|OwnedRc)(<.*>)?::(as_ptr|borrow)$", v.a[2]) and v.a[3]:
            v = v.a[3][0]
        elif v.op == "f" and v.a[2] and re.search(r"ptr::(Borrowed|Owned|BorrowedRc|OwnedRc)$", v.a[2]):
            v = v.a[0]
        else:
            break
    return v


def rust_made(v):
    v = base(v)
    if v.op in ("ref", "box", "s", "hb", "kc", "static", "promoted", "agg"):
        return True
    if v.op == "call" and SAFE.search(v.a[2]):
        return True
    if v.op == "pure" and SAFE.search(v.a[0]):
        return True
    if v.op == "f" and v.a[2] and re.search(r"^(core::ptr::(unique::Unique|non_null::NonNull)|alloc::boxed::Box|alloc::(rc|sync)::)", v.a[2]):
        return True     # a field of an owning or non-null pointer type
    if v.op == "f" and v.a[0].op == "as" and v.a[0].a[0].op in ("call", "pure"):
        x = v.a[0].a[0]     # the reference `as_ref` gives
        return AS_REF.search(x.a[2] if x.op == "call" else x.a[0]) is not None
    return False


def nullfact(e):
    """(pointer, True when the path is the non-null one) or None"""
    if e[0] != "assume":
        return None
    t, c = e[1], e[2]
    vals = set(c[1]) if c[0] == "e" else {c[1]} if c[1] == c[2] else set()
    nm, ar = (t.a[2], t.a[3]) if t.op == "call" else (t.a[0], t.a[1]) if t.op == "pure" else ("", ())
    if nm.endswith("is_null") and ar:
        return (base(ar[0]), vals == {0}) if len(vals) == 1 else None
    if t.op in ("eq", "ne"):
        nm, ar = t.op, t.a
    if nm in ("eq", "ne") or nm.endswith(("PartialEq::eq", "PartialEq::ne")):
        if len(ar) == 2 and len(vals) == 1:
            z = [i for i in (0, 1) if ar[i].op in ("call", "pure") and re.search(r"ptr::null(_mut)?$", ar[i].a[2] if ar[i].op == "call" else ar[i].a[0])]
            if len(z) == 1:
                return base(ar[1 - z[0]]), (vals == {1}) == nm.endswith("ne")
    if t.op == "discr":
        x = t.a[0]
        if x.op in ("call", "pure"):
            nm, ar = (x.a[2], x.a[3]) if x.op == "call" else (x.a[0], x.a[1])
            if re.search(r"::as_(ref|mut)$|NonNull(<.*>)?::new$", nm) and ar:
                return (base(ar[0]), vals == {1}) if len(vals) == 1 else None
    return None


def sinks(F, f):
    """does this function dereference raw pointers itself?"""
    for b in f.b:
        for s in b["s"]:
            for pl in [s[0]] + [s[1].get("p")] + [o.get("p") for o in s[1].get("os", []) + [s[1].get("o") or {}, s[1].get("a") or {}, s[1].get("b") or {}] if isinstance(o, dict)]:
                if pl and isinstance(pl, list) and raw_deref(F, f, pl):
                    return True
        t = b["t"]
        if t["k"] == "call" and t["f"]["k"] == "fn" and (SINK.search(t["f"]["f"]["fn"]) or SINK.search(t["f"]["f"].get("r") or "")):
            return True
    return False


BOXED = {}


def boxed(f):
    """locals that only hold the pointer inside a Box, Arc or other owning type"""
    if f.n not in BOXED:
        defs = {}
        for b in f.b:
            for s in b["s"]:
                if len(s[0]) == 1 and s[1]["r"] != "dead":
                    o = s[1].get("o") or {}
                    pl = o.get("p") or s[1].get("p") or []
                    ok = s[1]["r"] in ("cast", "use") and any(isinstance(e, list) and e[0] == "f" and re.search(r"^(core::ptr::(unique::Unique|non_null::NonNull)|alloc::boxed::Box|alloc::(rc|sync)::)", str(e[3])) for e in pl[1:])
                    defs.setdefault(s[0][0], []).append(ok)
            t = b["t"]
            if t["k"] == "call" and len(t["d"]) == 1:
                defs.setdefault(t["d"][0], []).append(False)
        BOXED[f.n] = {l for l, d in defs.items() if all(d)}
    return BOXED[f.n]


def raw_deref(F, f, pl):
    if len(pl) > 1 and pl[1] == "*" and pl[0] in boxed(f):
        return False
    ty = f.l[pl[0]]
    for e in pl[1:]:
        if e == "*":
            if ty is None or CPTR.match(F.tys[ty]["s"]):
                return True
            a = F.tys[ty].get("a") or [None]
            ty = a[0] if isinstance(a[0], int) else None
        elif e[0] == "f":
            ty = e[4]
        elif e[0] != "v":
            return any(x == "*" for x in pl[pl.index(e) + 1:])
    return False


class Nulls:
    def __init__(self, c):
        self.c, self.F = c, c.F
        F = c.F
        self.own = {n for n, f in F.fns.items() if f.crate == "ringrtc" and not f.derived and not SKIP.search(n) and sinks(F, f)}
        st = list(self.own)
        self.reach = set(self.own)
        callers = F.callers()
        while st:
            for y in callers.get(st.pop(), ()):
                if y not in self.reach:
                    self.reach.add(y)
                    st.append(y)
        self.memo = {}
        self.covered = set()
        self.n = 0

    def noinline(self, me):
        def f(x):
            if CORE.search(x):
                return True
            if x in self.F.fns and self.F.fns[x].crate == "ringrtc":
                return x not in self.reach or ("{" not in x and x != me and not takes_pointer(self.F, self.F.fns[x]) and self.result(x) == [])
            return False
        return f

    def result(self, n):
        """violations of one function taken on its own: [(kind, pointer, function)]"""
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = None     # recursion: inlined
        g = self.c.graph(n, derefs=True, interest=lambda x: SINK.search(x) or x.endswith("is_null") or x in self.reach,
                         noinline=self.noinline(n), max_nodes=30000)
        self.covered |= g.fns & self.own
        out = {}

        def step(q, e):
            nf = nullfact(e)
            if nf is not None:
                return q | {nf[0]} if nf[1] else q - {nf[0]}
            p = None
            if e[0] == "deref":
                p, w, at = e[1], "dereferenced", e[2]
            elif e[0] == "call" and SINK.search(e[1]) and e[2]:
                p, w, at = e[2][0], "given to " + tail(e[1]), e[5]
            if p is not None:
                self.n += 1
                if not rust_made(p) and base(p) not in q:
                    out[(w, desc(base(p)), at)] = 1
            return q
        run_auto(g, frozenset(), step)
        self.memo[n] = sorted(out)
        return self.memo[n]

    def spread(self, n, seen=()):
        """violations of an internal function, or of its callers when it leaves the test to them"""
        r = self.result(n)
        cl = [x for x in self.F.callers().get(n, ()) if x not in seen and not SKIP.search(x)]
        if not r or not cl or not takes_pointer(self.F, self.F.fns[n]):
            return r
        out = []
        for x in cl:
            out += self.spread(x, seen + (n,))
        return out


def takes_pointer(F, f):
    return any(CPTR.match(F.ts(t)) or "webrtc::ptr::Borrowed<" in F.ts(t) or "webrtc::ptr::Owned" in F.ts(t) for t in f.l[1:1 + f.args])


def unwrap_len(v):
    while v.op in ("cast", "chk", "gp"):
        v = v.a[1] if v.op == "cast" else v.a[0]
    return v


def int_fields(F, adt):
    a = F.adts.get(adt)
    if a is None:
        return None
    return [(f[0], F.ts(f[1])) for f in a["vs"][0][2]]


def paired(F, p, n):
    """is n the length that belongs to pointer p?"""
    p, n = base(p), unwrap_len(n)
    if p.op == "f" and n.op == "f" and desc(p.a[0]) == desc(n.a[0]) and p.a[2] == n.a[2]:
        fs = int_fields(F, p.a[2])
        if fs is None:
            return False
        ptrs = [a for a, t in fs if CPTR.match(t) or "webrtc::ptr::" in t]
        ints = [a for a, t in fs if t in ("usize", "u32", "u64", "u16", "i32", "size_t")]
        if len(ptrs) == 1 and len(ints) == 1:
            return True
        return n.a[1].startswith(p.a[1])
    if p.op == "f" and p.a[2] and "webrtc::ptr::" in p.a[2]:
        p = p.a[0]
    m, k = re.fullmatch(r"arg(\d+)(\.0)?", desc(p)), re.fullmatch(r"arg(\d+)", desc(n))
    return bool(m and k and int(k.group(1)) == int(m.group(1)) + 1)


def under(v):
    """the buffer a handed-out pointer points into"""
    for _ in range(20):
        if v.op == "cast":
            v = v.a[1]
        elif v.op in ("gp", "chk"):
            v = v.a[0]
        elif v.op == "agg" and v.a[1] and re.search(r"webrtc::ptr::(Borrowed|Owned)", v.a[1]):
            v = v.a[5][0]
        elif v.op in ("call", "pure") and re.search(r"(as_ptr|as_mut_ptr|from_ptr|cast|deref|deref_mut|as_slice|as_mut_slice|to_void)$", v.a[2] if v.op == "call" else v.a[0]):
            v = (v.a[3] if v.op == "call" else v.a[1])[0]
        else:
            break
    return v


def lengths(c):
    """lengths handed to native code belong to the buffer handed over with them"""
    F = c.F
    n = 0
    for nm, f in sorted(F.fns.items()):
        if f.crate != "ringrtc" or SKIP.search(nm) or "{" in nm:
            continue
        ff = {b["t"]["f"]["f"].get("r") or b["t"]["f"]["f"]["fn"] for b in f.b if b["t"]["k"] == "call" and b["t"]["f"]["k"] == "fn" and b["t"]["f"]["f"].get("ffi")}
        if not ff:
            continue
        g = c.graph(nm, max_nodes=8000, noinline=lambda x: not re.search(r"webrtc::(ptr|arc)::|as_borrowed|as_(mut_)?ptr|deref", x) and (x not in F.fns or len(F.fns[x].b) > 12 or "::ffi::" in x or "from_cstr" in x), cap=40)
        for e in evs(g):
            if e[0] != "call" or e[1] not in ff:
                continue
            vals = []
            for a in e[2]:
                if a.op == "agg" and a.a[0] == "adt" and len(a.a[5]) > 1:
                    vals += list(a.a[5])
                else:
                    vals.append(a)
            last = None
            for a in vals:
                u = unwrap_len(a)
                x = None
                if u.op == "len":
                    x = u.a[0]
                elif u.op in ("call", "pure") and re.search(r"::(len|capacity)$|^(len|capacity)$", u.a[2] if u.op == "call" else u.a[0]):
                    x = (u.a[3] if u.op == "call" else u.a[1])[0]
                if x is not None and last is not None:
                    n += 1
                    w, h = desc(under(x)).strip("~"), desc(last).strip("~")
                    c.ob("lent-length", "%s in %s" % (tail(e[1]), tail(nm)), w == h or full(under(x)).strip("~") == full(last).strip("~"), "%s gives %s the buffer %s with the length of %s" % (nm, tail(e[1]), h, w))
                last = under(a)
    c.floor("lent-length", n, 9)


def bounded_copy(c):
    from S11 import fits
    F = c.F
    n = 0
    for nm in F.find(r"audio_device_module_utils::copy_and_truncate_string$"):
        g = c.graph("^" + re.escape(nm) + "$", bytes=True)
        for p in paths(g):
            cp = [e for e in p.ev if e[0] == "call" and re.search(r"^core::ptr::copy(_nonoverlapping)?$|T::copy_(from|to)(_nonoverlapping)?$|copy_from_slice$", e[1])]
            if p.kind == "panic":
                c.ob("out-string", "no panic", False, "copying a string for native code can panic")
            if p.kind != "ret":
                continue
            ok = variant_of(p.ret) == "Ok" or desc(p.ret) in ("tuple", "tuple{}")
            c.ob("out-string", "reported", not cp or ok, "a string was copied but failure is reported")
            c.ob("out-string", "copied", bool(cp) or not ok, "success is reported without a copy")
            for e in cp:
                n += 1
                cnt = unwrap_len(e[2][2]) if len(e[2]) > 2 else None
                c.ob("out-string", "room", cnt is not None and string_fits(p, cnt, mk("arg", 2)), "up to %s bytes are written to a buffer of arg2 bytes" % (full(cnt)[:160] if cnt is not None else "?"))
                c.ob("out-string", "terminated", cnt is not None and "as_bytes_with_nul" in full(e[2][0]), "the string is copied without its terminator")
                c.ob("out-string", "whole", cnt is not None and cnt.op == "len" and full(cnt.a[0]) == full(e[2][0]), "what is copied is not as long as what is written")
                src = [v for v in subvals(e[2][0]) if desc(v) == "arg0"]
                c.ob("out-string", "source", bool(src), "what is copied is not the given string")
    c.floor("out-string", n, 1)


def string_fits(p, cnt, room):
    from S11 import fits
    if cnt.op == "len" and cnt.a[0].op in ("call", "pure"):
        x = cnt.a[0]
        nm, ar = (x.a[2], x.a[3]) if x.op == "call" else (x.a[0], x.a[1])
        if nm.endswith("as_bytes_with_nul"):
            y = ar[0]
            for v in subvals(y):
                if v.op == "agg" and v.a[1] and v.a[1].endswith(("::Range", "::RangeTo")):
                    lo = v.a[5][0] if v.a[1].endswith("::Range") else K(0)
                    return desc(lo) == "0" and fits(p, ladd(v.a[5][-1], K(1)), room)
                if v.op == "sub" and isinstance(v.a[1], tuple) and v.a[1][0] == "r":
                    return desc(v.a[1][1]) == "0" and fits(p, ladd(v.a[1][2], K(1)), room)
    return fits(p, cnt, room)


def outputs(c):
    """the media transforms report a size only for what was produced"""
    F = c.F
    n = 0
    for nm, ptr, sz, out in (("pc_observer_EncryptMedia", 3, 4, 5), ("pc_observer_DecryptMedia", 4, 5, 6)):
        fn = F.one(nm + "$")
        g = c.graph(fn, noinline=lambda x: re.search(r"::(encrypt|decrypt)_media$", x))
        for p in paths(g):
            if p.kind == "panic":
                continue
            tr = p.calls(r"::(encrypt|decrypt)_media$")
            st = [e for e in p.ev if e[0] == "store" and desc(e[1][1] if isinstance(e[1], tuple) and e[1][0] == "H" else e[1]) == "arg%d" % out]
            val = p.ret.a[0] if p.ret.op == "k" else None
            c.ob("outputs", nm + " answer", val in (0, 1) and (val == 1) == (len(st) == 1), "%s returns %s with %d sizes reported" % (nm, desc(p.ret), len(st)))
            c.ob("outputs", nm + " once", len(tr) <= 1, "%s transforms twice" % nm)
            if val == 1 and tr:
                n += 1
                e = tr[0]
                okp = [a for a in p.ass if a[1].op == "discr" and desc(a[1].a[0]) == desc(e[3])]
                c.ob("outputs", nm + " ok", any(set(a[2][1]) == {0} if a[2][0] == "e" else a[2][1] == a[2][2] == 0 for a in okp), "%s reports success when the frame could not be transformed" % nm)
                c.ob("outputs", nm + " size", len(st) == 1 and desc(st[0][3]).startswith(desc(e[3])), "%s reports the size %s" % (nm, desc(st[0][3]) if st else "?"))
                c.ob("outputs", nm + " buffer", desc(base(e[2][-1].a[1] if e[2][-1].op == "ref" else e[2][-1])).find("arg%d" % ptr) >= 0, "%s writes to %s" % (nm, desc(e[2][-1])))
                c.ob("outputs", nm + " input", "arg%d" % (ptr - 2) in desc(e[2][-2]), "%s reads %s" % (nm, desc(e[2][-2])))
    c.floor("outputs", n, 2)


def check(c):
    F = c.F
    c.rule("null", "a pointer that comes from outside Rust is dereferenced, wrapped or freed only on paths where it was tested not to be null")
    c.rule("length", "a slice made from a native pointer is as long as the length that came with that pointer")
    c.rule("outputs", "the media transforms report true and a size exactly when the frame was produced, and the size is what was produced")
    c.rule("out-string", "a string copied into a native buffer is terminated and never longer than the buffer")
    c.rule("lent-length", "a length given to native code belongs to the buffer given with it")
    N = Nulls(c)
    og = c.graph
    pairs = {}

    def graph(n, **kw):
        g = og(n, **kw)
        for e in evs(g):
            if e[0] == "call" and re.search(r"slice::raw::from_raw_parts(_mut)?$", e[1]) and not rust_made(e[2][0]):
                pairs[(n, desc(base(e[2][0])), desc(e[2][1]))] = (e[2][0], e[2][1], e[5])
        return g
    c.graph = graph
    ents = [n for n, f in sorted(F.fns.items()) if f.abi and f.abi.startswith("C") and f.crate == "ringrtc" and not SKIP.search(n)]
    k = 0
    for n in ents:
        k += 1
        if n not in N.reach:
            c.ob("null", tail(n), True)
            continue
        r = [x for x in N.result(n) if "android::types" not in x[2]]
        c.ob("null", tail(n), not r, "; ".join("in %s, %s is %s without a null test" % (x[2], x[1], x[0]) for x in r[:3]))
    for n in sorted(N.own - N.covered):
        r = [x for x in N.spread(n) if "android::types" not in x[2]]
        c.ob("null", tail(n), not r, "; ".join("in %s, %s is %s without a null test" % (x[2], x[1], x[0]) for x in r[:3]))
    c.graph = og
    c.floor("null", k, 195)
    c.floor("null-derefs", N.n, 500)
    m = 0
    for (n, _, _), (p, ln, at) in sorted(pairs.items(), key=lambda x: x[0]):
        if at.endswith("VideoFrame::as_i420"):
            continue    # the size of a planar frame: decided by S11
        if n not in ents and takes_pointer(F, F.fns[n]) and F.callers().get(n):
            continue    # judged where it is called
        m += 1
        c.ob("length", tail(n), paired(F, p, ln), "%s makes a slice of %s elements at %s" % (at, desc(ln), desc(p)))
    c.floor("length", m, 10)
    outputs(c)
    bounded_copy(c)
    lengths(c)
    return "strong", ("Every function native code can call is explored from MIR with the helpers it uses; at each dereference, slice or string or box made from a pointer, "
                      "the paths leading there must have tested that very pointer. Lengths, output sizes and copied strings are compared with the path conditions.")
