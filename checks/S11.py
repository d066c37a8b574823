"""S11: lock wrapper, slice copies, pointer conversions and string cutting stay within bounds and report failure"""
from rules import *
from absint import lin, ladd, mk, K, Val

TECHNIQUE = "path tables over the MIR of every helper, guard-escape and auto-trait-bound checks of the lock wrappers, symbolic size comparison at each raw copy"
NOTE = "the C++ side of the video-frame copies is not in the repository; the size it reads or writes is taken to be that of the pixel format"
U = "ringrtc::core::util::"
GUARD = {"Mutex::lock": "Mutex", "RwLock::read": "RwLock", "RwLock::write": "RwLock"}


# ---------------------------------------------------------------- sizes
def poly(v):
    """a size expression as {monomial: coefficient}; saturating arithmetic only ever yields more"""
    if v.op == "k":
        return {(): v.a[0]} if v.a[0] else {}
    if v.op == "lin":
        c, d = lin(v)
        out = {(): c} if c else {}
        for t, k in d.items():
            for m, q in poly(t).items():
                out[m] = out.get(m, 0) + q * k
        return out
    args = None
    if v.op == "bin" and v.a[0] == "Mul":
        n, args = "mul", v.a[1:]
    elif v.op == "pure" and v.a[0] in ("saturating_mul", "saturating_add"):
        n, args = v.a[0][-3:], v.a[1]
    elif v.op == "chk":
        return poly(v.a[0])
    elif v.op in ("pure", "bin") and v.a[0] in ("div_ceil", "Div"):
        x, y = v.a[1] if v.op == "pure" else v.a[1:]
        if y.op == "k" and y.a[0] == 2:
            if v.op == "bin":
                c, d = lin(x)
                if c == 1 and len(d) == 1:
                    x = next(iter(d))
                else:
                    return {("half " + desc(x),): 1}
            return {("half+ " + desc(x),): 1}
    if args and n == "mul":
        a, b = poly(args[0]), poly(args[1])
        out = {}
        for x, p in a.items():
            for y, q in b.items():
                k = tuple(sorted(x + y))
                out[k] = out.get(k, 0) + p * q
        return out
    if args and n == "add":
        out = dict(poly(args[0]))
        for y, q in poly(args[1]).items():
            out[y] = out.get(y, 0) + q
        return out
    return {(desc(v),): 1}


def unguarded(v):
    """arithmetic inside the size that can wrap"""
    if v.op == "bin" and v.a[0] == "Mul":
        return True
    if v.op == "pure" and v.a[0].startswith("wrapping"):
        return True
    kids = v.a[1] if v.op == "pure" else [t for t, _ in v.a[1]] if v.op == "lin" else v.a[1:] if v.op == "bin" else ()
    return v.op != "chk" and any(unguarded(x) for x in kids if isinstance(x, Val))


def at_least(got, want):
    """every way to see that the polynomial got is never below want (all atoms are >= 0, ceil(x/2)*2 >= x)"""
    d = dict(got)
    for k, q in want.items():
        d[k] = d.get(k, 0) - q
    return all(q >= 0 for q in d.values())


def buffer_room(p, buf):
    """polynomials P such that the path assumed len(buf) >= P"""
    out = []
    for e in p.ass:
        _, t, f = e
        if f[0] != "r":
            continue
        c, d = lin(t)
        ln = [x for x in d if desc(x) == "len(%s)" % buf]
        if len(ln) != 1:
            continue
        k = d[ln[0]]
        rest = {x: q for x, q in d.items() if x is not ln[0]}
        # k*len + rest + c in [lo, hi]
        if k == 1 and f[1] > -10**30:
            terms, lo = rest, f[1] - c
        elif k == -1 and f[2] < 10**30:
            terms, lo = {x: -q for x, q in rest.items()}, c - f[2]
        else:
            continue
        P = {(): lo} if lo else {}
        wrap = False
        for x, q in terms.items():
            wrap = wrap or unguarded(x)
            for m, z in poly(x).items():
                P[m] = P.get(m, 0) - q * z
        out.append((P, wrap))
    return out


# ---------------------------------------------------------------- lengths of slices and strings
def cargs(v):
    for x in v.a:
        if isinstance(x, tuple) and x and isinstance(x[0], Val):
            return x
    return ()


def len_term(v, d=0):
    while d < 30:
        d += 1
        if v.op == "call":
            n = v.a[0] if isinstance(v.a[0], str) else ""
            a = cargs(v)
            if not a:
                break
            if re.search(r"::(as_ptr|as_mut_ptr|as_bytes|as_str|as_slice|as_mut_slice)$", call_name(v)):
                v = a[0]
                continue
            if re.search(r"CString::(as_bytes_with_nul|to_bytes_with_nul|into_bytes_with_nul)$|CStr::to_bytes_with_nul$", call_name(v)):
                return ladd(len_term(a[0], d), K(1))
            if re.search(r"CString::new$|CString::as_bytes$", call_name(v)):
                v = a[0]
                continue
            if re.search(r"str::get$|\[T\]::get$", call_name(v)) and len(a) > 1:
                r = range_of(a[1])
                if r:
                    return ladd(r[1] if r[1] is not None else len_term(a[0], d), r[0], -1)
            break
        if v.op == "f" and v.a[0].op == "as" and short(v.a[2]) in ("Result", "Option"):
            v = v.a[0].a[0]
            continue
        if v.op in ("*", "ref", "gp") and v.a and isinstance(v.a[0], Val):
            v = v.a[0]
            continue
        if v.op == "sub" and isinstance(v.a[1], tuple) and v.a[1][0] == "r":
            lo, hi = v.a[1][1], v.a[1][2]
            lo = lo if isinstance(lo, Val) else K(lo)
            hi = hi if isinstance(hi, Val) else None
            return ladd(hi, lo, -1) if hi is not None else ladd(mk("len", v.a[0]), lo, -1)
        break
    return mk("len", v)


def call_name(v):
    for x in v.a:
        if isinstance(x, str):
            return x
    return ""


def range_of(v):
    if v.op == "agg":
        n = str(v.a[1]) + str(v.a[2])
        f = v.a[5]
        if "RangeTo" in n and "Incl" not in n:
            return K(0), f[0]
        if "RangeFrom" in n:
            return f[0], None
        if "Range" in n and len(f) == 2 and "Incl" not in n:
            return f[0], f[1]
    return None


def uppers(v):
    """linear terms that v never exceeds"""
    c, d = lin(v)
    out = [v]
    for t, k in d.items():
        if k == 1 and t.op == "pure" and t.a[0] == "min":
            for x in t.a[1]:
                out += uppers(ladd(ladd(v, t, -1), x))
        if k == 1 and t.op == "len":
            x = len_term(t.a[0])
            if x is not t:
                out += uppers(ladd(ladd(v, t, -1), x))
    return out[:40]


def fits(p, count, room):
    for u in uppers(count):
        df = ladd(u, room, -1)
        c, d = lin(df)
        if not d:
            if c <= 0:
                return True
            continue
        ts = {}
        for t, k in d.items():
            ts[desc(t)] = ts.get(desc(t), 0) + k
        if p.rng(ts)[1] + c <= 0:
            return True
    return False


def check(c):
    F = c.F
    c.rule("poison", "a lock whose holder panicked is reported as an error with the lock's label; its guard is handed out only where the content was first replaced by the reset value")
    c.rule("guard", "the lock's fields are private and every method gives out the data only as the lock's own guard, borrowed for as long as the wrapper")
    c.rule("bounds", "the wrappers are shared and sent between threads only under the same conditions on the content as the locks they wrap")
    c.rule("nopanic", "the lock wrappers do not panic")
    c.rule("slice", "a slice is copied only when source and destination have the same length, and otherwise nothing is written and an error returned")
    c.rule("pointer", "a raw pointer is turned into a reference, box or shared pointer only after it was seen not to be null, and null is an error")
    c.rule("lent", "a shared pointer made from a lent raw pointer is given back as a raw pointer when it goes out of scope")
    c.rule("raw copy", "each raw memory copy copies at most as many bytes as source and destination hold")
    c.rule("cut", "a string copied into a fixed buffer is cut so that it fits with its terminator, and the buffer is not null and not empty")
    c.rule("frame", "pixels are handed to or taken from the native side only in a buffer of at least the size of the frame")

    # --- lock wrappers
    n = 0
    for w, locks in (("CallMutex", r"Mutex::lock$"), ("CallRwLock", r"RwLock::(read|write)$")):
        adt = [a for a in F.adts if short(a) == w]
        if len(adt) != 1:
            raise Missing("type " + w)
        mod = adt[0].rsplit("::", 1)[0]
        inner = "Mutex" if w == "CallMutex" else "RwLock"
        lf = [f[0] for v in F.adts[adt[0]]["vs"] for f in v[2] if inner in F.tys[f[1]]["s"]]
        c.ob("guard", w + " field", len(lf) == 1, "%s has %d fields of type %s" % (w, len(lf), inner))
        for v in F.adts[adt[0]]["vs"]:
            for fl in v[2]:
                c.ob("guard", "%s.%s private" % (w, fl[0]), not fl[2], "field %s of %s is public" % (fl[0], w))
        for fn in sorted(F.fns):
            f = F.fns[fn]
            if "::{closure" in fn or "{promoted" in fn:
                continue
            uses = any(touches(b, w, lf) for b in f.b)
            if uses and not f.derived:
                c.ob("guard", "%s used in %s" % (w, tail(fn)), fn.startswith(adt[0]) or fn.startswith("<" + adt[0]), "%s reaches into the lock's field" % fn)
        meths = [x for x in F.fns if re.match(re.escape(adt[0]) + r"(<[^>]*>)?::\w+$", x)]
        for m in sorted(meths):
            if tail(m).endswith("::new"):
                continue
            g = c.graph(m, bytes=True)
            inst = w + "::" + m.split("::")[-1]
            acq = 0
            for p in paths(g):
                c.ob("nopanic", inst, p.kind == "ret", "%s can panic" % inst)
                for e in p.ev:
                    if e[0] == "mpanic":
                        c.bad("nopanic", inst, "%s can panic: %s" % (inst, e[1]))
                if p.kind != "ret":
                    continue
                lk = p.calls(locks)
                if not lk:
                    out = desc(p.ret) if p.ret is not None else ""
                    c.ob("guard", inst + " without lock", "Lock" not in out and ret_plain(F, m), "%s gives out %s without taking the lock" % (inst, out))
                    continue
                acq += 1
                c.ob("guard", inst + " own lock", len(lk) == 1 and desc(lk[0][2][0]) in ("arg0", "arg0." + lf[0]), "%s takes %s" % (inst, [desc(x[2][0]) for x in lk]))
                st = [optfact(e) for e in p.ass]
                d0 = desc(lk[0][3]) if lk[0][3] is not None else "arg0"
                st = [v for d, v in [x for x in st if x] if d.rstrip("~") in (d0, "arg0")]
                if not st:
                    c.bad("poison", inst + " unchecked", "%s does not look at whether the lock was poisoned" % inst)
                    continue
                if st[0] == 0:
                    c.ob("poison", inst + " usable", ok_ret(p.ret) is not False, "%s fails although the lock is usable" % inst)
                    continue
                rt = F.tys[F.fns[m].l[0]]["s"] if isinstance(F.fns[m].l[0], int) else ""
                if ok_ret(p.ret) is False:
                    er = full(p.ret)
                    c.ob("poison", inst + " reported", re.search(r"Poisoned\{[^}]*label", er) is not None, "a poisoned lock is reported as %s" % er[:120])
                else:
                    wr = [e for e in p.ev if e[0] == "store" and "call_once" in full(e[3]) and "arg1" in full(e[3])]
                    c.ob("poison", inst + " reset", bool(wr), "%s hands out the guard of a poisoned lock without resetting its content" % inst)
                    for e in wr:
                        c.ob("poison", inst + " label", "label" in full(e[3]), "the reset function is not given the lock's label")
            if acq:
                n += 1
    c.floor("poison", n, 4)

    want = {("CallMutex<T>", "Send"): {"Send"}, ("CallMutex<T>", "Sync"): {"Send"}, ("CallRwLock<T>", "Send"): {"Send"}, ("CallRwLock<T>", "Sync"): {"Send", "Sync"}}
    k = 0
    for im in F.impls:
        tr = im["tr"].split("::")[-1]
        w = im["self_s"].split("::")[-1]
        if (w, tr) in want:
            k += 1
            has = {m.group(1) for x in im["preds"] for m in [re.search(r"<T as (?:\w+::)*(Send|Sync)>, polarity:Positive", x)] if m}
            c.ob("bounds", "%s: %s" % (w, tr), want[w, tr] <= has, "%s is %s without requiring the content to be %s" % (w, tr, " and ".join(sorted(want[w, tr] - has))))
    c.floor("bounds", k, 0)

    # --- slices
    n = 0
    for fn in sorted(x for x in F.fns if re.search(r"SafeSlicing<T>>::safe_copy_from_slice$", x)):
        g = c.graph(fn, bytes=True)
        inst = fn.split(" as ")[0].lstrip("<").replace("alloc::vec::", "").replace(",alloc::alloc::Global", "")
        for p in paths(g):
            if p.kind != "ret":
                c.bad("slice", inst + " panics", "copying into %s can panic" % inst)
                continue
            st = [e for e in p.ev if e[0] == "store"]
            eq = any(p.rng(d)[:2] == (0, 0) for d in ({"len(arg0)": 1, "len(arg1)": -1}, {"N": 1, "len(arg1)": -1}))
            ne = any(0 in p.rng(d)[2] or p.rng(d)[0] > 0 or p.rng(d)[1] < 0 for d in ({"len(arg0)": 1, "len(arg1)": -1}, {"N": 1, "len(arg1)": -1}))
            if st or ok_ret(p.ret) is not False:
                n += 1
                c.ob("slice", inst + " equal lengths", eq, "a slice is copied into %s without having the same length" % inst)
                c.ob("slice", inst + " whole", len(st) == 1 and desc(st[0][3]) == "arg1", "the copy into %s stores %s" % (inst, [desc(e[3]) for e in st]))
            else:
                c.ob("slice", inst + " refused", ne, "a copy into %s is refused although the lengths agree" % inst)
    c.floor("slice", n, 4)
    g = c.graph("^ringrtc::common::slice::safe_copy_array$", bytes=True)
    for p in paths(g):
        if p.kind == "ret":
            st = [e for e in p.ev if e[0] == "store"]
            c.ob("slice", "array", len(st) == 1 and desc(st[0][3]) == "arg0", "safe_copy_array stores %s" % [desc(e[3]) for e in st])

    # --- pointers
    n = 0
    for fn in sorted(x for x in F.fns if re.match(re.escape(U) + r"ptr_as_\w+$", x)):
        g = c.graph(fn, bytes=True)
        inst = fn.split("::")[-1]
        for p in paths(g):
            if p.kind != "ret":
                c.bad("pointer", inst + " panics", "%s can panic" % inst)
                continue
            tr = [p.truth(d) for d in ("*mut T::is_null(arg0)", "*const T::is_null(arg0)")]
            # `ptr.as_ref()`/`as_mut()` are Some exactly for pointers that are not null
            tr += [1 - o[1] for o in map(optfact, p.ass) if o and o[0].rstrip("~") in ("arg0", "*mut T::as_mut(arg0)", "*const T::as_ref(arg0)", "*mut T::as_ref(arg0)")]
            nul = next((x for x in tr if x is not None), None)
            use = [e for e in p.calls(r"::from_raw$|NonNull::\w+$")]
            if ok_ret(p.ret) is False:
                c.ob("pointer", inst + " error", nul != 0 and not use, "%s refuses a pointer that is not null" % inst)
                c.ob("pointer", inst + " error kind", "NullPointer" in full(p.ret), "a null pointer is reported as %s" % full(p.ret)[:80])
            else:
                n += 1
                c.ob("pointer", inst + " checked", nul == 0, "%s uses the pointer without a null check" % inst)
                c.ob("pointer", inst + " same", "arg0" in full(p.ret) or any("arg0" in full(e[2][0]) for e in use), "%s returns something else than the pointer" % inst)
    c.floor("pointer", n, 4)
    g = c.graph(r"^<ringrtc::core::util::ArcPtr(<T>)? as core::ops::drop::Drop>::drop$|^<ringrtc::core::util::ArcPtr(<T>)? as .*Drop>::drop$", bytes=True)
    n = 0
    for p in paths(g):
        if p.kind != "ret":
            continue
        some = [v for x in p.ass for o in [optfact(x)] if o for d, v in [o] if d.rstrip("~") == "arg0.arc"]
        rel = [e for e in p.calls(r"Arc::into_raw$|mem::forget$|ManuallyDrop::new$") if "arg0.arc" in full(e[2][0])]
        if some and some[0] == 0:
            continue
        n += 1
        c.ob("lent", "drop", len(rel) == 1, "a lent shared pointer is released (or given back %d times)" % len(rel))
        tk = [e for e in p.ev if e[0] == "store" and store_path(e) and store_path(e)[-1] == ("ArcPtr", "arc")]
        c.ob("lent", "taken", any(desc(e[3]) == "Option::None" for e in tk) or any("ManuallyDrop" in x for x in [F.tys[f[1]]["s"] for v in next(a for k2, a in F.adts.items() if short(k2) == "ArcPtr")["vs"] for f in v[2]]), "the lent pointer stays in the wrapper, whose field is then dropped as well")
    c.floor("lent", n, 1)

    # --- raw copies
    RAW = r"ptr::(mut_ptr::|const_ptr::)?(copy|copy_nonoverlapping|write_bytes|swap_nonoverlapping)$|intrinsics::(copy|copy_nonoverlapping|write_bytes)$|(mut|const) T::(copy_from|copy_to|copy_from_nonoverlapping|copy_to_nonoverlapping|write_bytes)$"
    n = 0
    done = set()
    for fn, bi, ref, t in call_sites(F, RAW):
        base = fn.split("::{closure")[0]
        if base in done:
            continue
        done.add(base)
        g = c.graph(base, bytes=True)
        cut = False
        for p in paths(g):
            for e in p.calls(RAW):
                a = e[2]
                n += 1
                fwd = not re.search(r"copy_from", e[1])
                src, dst, cnt = (a[0], a[1], a[2]) if fwd else (a[1], a[0], a[2])
                inst = tail(base)
                c.ob("raw copy", inst + " source", fits(p, cnt, len_term(src)), "%s may copy more bytes than the source holds: %s of %s" % (inst, desc(cnt), desc(src)))
                room = dest_room(F, base, dst, g)
                if room is None:
                    c.bad("raw copy", inst + " destination", "the size of the destination %s in %s is not known" % (desc(dst), inst))
                    continue
                room, ptr, arg = room
                c.ob("raw copy", inst + " destination", fits(p, cnt, room), "%s may copy more bytes than fit: %s into %s" % (inst, desc(cnt), desc(room)))
                if ptr is not None:
                    cut = True
                    some = any(o and o[1] == 1 and ptr in o[0] for o in map(optfact, p.ass)) or p.truth("*mut T::is_null(%s)" % ptr) == 0
                    c.ob("cut", inst + " null", some, "%s writes to its buffer without a null check" % inst)
                    c.ob("cut", inst + " terminator", "with_nul" in full(src), "%s copies the string without its terminator" % inst)
        if cut:
            for caller, _, _, tt in call_sites(F, re.escape(base) + "$"):
                a = tt["a"]
                z = [x.get("v") for x in a if x["k"] == "c" and isinstance(x.get("v"), int)]
                c.ob("cut", "size at " + tail(caller), len(z) == 1 and z[0] >= 1, "%s passes a buffer size that may be zero" % caller)
    c.floor("raw copy", n, 2)

    # --- video frames
    n = 0
    W, H = "arg0", "arg1"
    half = lambda x: "half+ " + x
    for fn in sorted(x for x in F.fns if x.startswith("ringrtc::webrtc::media::") and any(b["t"]["k"] == "call" and b["t"]["f"]["k"] == "fn" and re.search("Rust_(copyVideoFrameBufferFrom|convertVideoFrameBufferTo)", b["t"]["f"]["f"]["fn"]) for b in F.fns[x].b)):
        g = c.graph(fn, bytes=True)
        for p in paths(g):
            for e in p.calls(r"Rust_copyVideoFrameBufferFrom|Rust_convertVideoFrameBufferTo"):
                n += 1
                fmt = re.search(r"(I420|Nv12|Rgba|\w+)$", e[1].split("BufferFrom")[-1].split("BufferTo")[-1]).group(1)
                if "BufferFrom" in e[1]:
                    w, h, buf = desc(e[2][0]), desc(e[2][1]), e[2][2]
                else:
                    w, h, buf = "arg0.metadata.width", "arg0.metadata.height", e[2][1]
                m = re.search(r"(arg\d+)", desc(buf))
                inst = e[1].split("::")[-1]
                if fmt == "Rgba":
                    want = {tuple(sorted((w, h))): 4}
                else:
                    want = {tuple(sorted((w, h))): 1, tuple(sorted((half(w), half(h)))): 2}
                rooms = buffer_room(p, m.group(1)) if m else []
                good = [x for x in rooms if at_least(x[0], want)]
                c.ob("frame", inst, bool(good), "%s may access more than the %s buffer holds" % (inst, fmt))
                if good:
                    c.ob("frame", inst + " wraps", any(not x[1] for x in good), "the size compared with the buffer's length for %s can wrap around" % inst)
    c.floor("frame", n, 4)
    return "strong", ("Every path of the lock wrappers, slice and pointer helpers is enumerated from MIR and compared with what it may return on a poisoned lock, "
                      "mismatched length or null pointer; raw copies and native pixel copies are allowed only where the path condition implies that the count fits source and destination.")


def touches(b, w, lf):
    for pl, rv, ln in b["s"]:
        ps = [pl]
        if rv.get("p"):
            ps.append(rv["p"])
        for q in ps:
            for e in q[1:]:
                if isinstance(e, list) and e[0] == "f" and e[2] in lf and short(e[3]) == w:
                    return True
    return False


def ret_plain(F, m):
    t = F.fns[m].l[0]
    s = F.tys[t]["s"] if isinstance(t, int) else str(t)
    return not re.search(r"\bT\b|&", s)


def dest_room(F, fn, dst, g):
    """(size term, pointer description or None, size argument) of a copy's destination"""
    lt = len_term(dst)
    d = full(dst)
    m = re.search(r"arg(\d+)", d)
    if m is not None and not re.search(r"as_mut_ptr", d):
        i = int(m.group(1))
        f = F.fns[fn]
        # a bare pointer parameter comes with its size: the integer parameter right after it
        argt = [F.tys[x]["s"] if isinstance(x, int) else str(x) for x in f.l[1:1 + f.args]]
        if i < len(argt) and re.search(r"Borrowed|\*mut|\*const", argt[i]):
            for j in range(i + 1, len(argt)):
                if argt[j] == "usize":
                    p = re.search(r"arg%d(\.\w+)*" % i, desc(dst))
                    return mk("arg", j), p.group(0) if p else "arg%d" % i, j
        return None
    return lt, None, None
