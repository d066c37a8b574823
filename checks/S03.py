"""S03: no bytes from the network or the peer can crash the process"""
from rules import *
from absint import lin, ladd, mk, K, Val
from T05 import next_of, bytes_iter
from S11 import poly, len_term, range_of, uppers, cargs, call_name

TECHNIQUE = "path tables over the MIR of every function that contains an operation that can panic"
LOCAL = re.compile(r"audio_device_module|virtual_audio|webrtc/simnet|injectable_network|/sim(/|\.rs)|_proto\b")
MODS = re.compile(r"src/rust/src/(core|lite|webrtc|common)/|^mrp|^protobuf|^src/rust/protobuf")
UNW = re.compile(r"(Option|Result)(<.*>)?::(unwrap|expect|unwrap_err|expect_err)$")
IDX = re.compile(r"::(index|index_mut)$")
PRE = re.compile(r"(\]::(copy_from_slice|clone_from_slice|split_at|split_at_mut|swap|chunks|chunks_exact|rotate_left|rotate_right|copy_within)|Vec::(remove|swap_remove|insert|drain|split_off)|VecDeque::(drain|split_off|rotate_left|rotate_right|insert)|String::(remove|insert|insert_str|drain|split_off|truncate|replace_range)|str::split_at|Bytes(Mut)?::(split_to|split_off|advance|slice)|Buf::(advance|copy_to_slice|get_\w+)|BufMut::put_\w+|RefCell::(borrow|borrow_mut))$")
TIME = re.compile(r"(Instant|SystemTime|Duration) as .*(Add|Sub|Mul|Div|AddAssign|SubAssign|MulAssign)(<.*>)?>::\w+$|Duration::(from_secs_f64|from_secs_f32|from_mins|from_hours|from_days|mul_f64|mul_f32|div_f64)$")
ALLOC = re.compile(r"(Vec|VecDeque|String|HashMap|HashSet|BinaryHeap|BytesMut|BTreeMap)(<.*>)?::(with_capacity\w*|reserve|reserve_exact|resize|resize_with)$|vec::from_elem$|\]::repeat$|str::repeat$|iter::.*::repeat_n$")
PANIC = re.compile(r"^core::panicking::|^std::panicking::|begin_panic|unwrap_failed|expect_failed|diverge")


def interesting(F, f):
    if LOCAL.search(f.file) or "__static_ref_initialize" in f.n or "::include_" in f.n:
        return False
    for b in f.b:
        t = b["t"]
        if t["k"] == "assert":
            return True
        if t["k"] == "call" and "GenericArray<" in F.tys[f.l[t["d"][0]]]["s"]:
            return True
        if t["k"] == "call" and t["f"]["k"] == "fn":
            n = t["f"]["f"].get("r") or t["f"]["f"]["fn"]
            if UNW.search(n) or IDX.search(n) or PRE.search(n) or TIME.search(n) or ALLOC.search(n) or PANIC.search(n):
                return True
    return False


class Pre:
    """the assumptions of a path up to one event"""
    rng = Path.rng

    def __init__(self, ass, g=None):
        self.ass = list(ass)
        for e in ass:
            if g is not None and e[2][0] == "r" and mentions(e[1], lambda x: x.op == "len"):
                n = norm(g, e[1])
                if n is not e[1]:
                    self.ass.append((e[0], n, e[2]))


def own(F, n):
    """is the body of this function part of the library (not of core, std or a dependency)"""
    f = F.fns.get(n)
    return f is not None and MODS.search(f.file) is not None


def site_kind(e):
    if e[0] == "mpanic":
        return e[1]
    if e[0] == "panic":
        return "panic"
    if e[0] == "exact":
        return "exact"
    if e[0] == "call":
        return "index" if IDX.search(e[1]) else "pre" if PRE.search(e[1]) else "time" if TIME.search(e[1]) else "alloc" if ALLOC.search(e[1]) else None


def walk(F, g, root):
    """-> (owner, kind, event, assumptions, unwrap event) for every operation that can panic; the assumptions
    are those that hold on every way to it"""
    must = {g.entry: ()}
    order, work = [], [g.entry]
    pend = {g.entry}
    entered = {}
    while work:
        i = work.pop(0)
        pend.discard(i)
        n = g.nodes[i]
        cur = dict(must[i])
        for e in n.ev:
            if e[0] == "assume":
                cur[id(e[1]), e[2]] = e
        for evs, j in n.succ:
            out = cur
            if evs:
                out = dict(cur)
                for e in evs:
                    if e[0] == "assume":
                        out[id(e[1]), e[2]] = e
            ent = next((e for e in reversed(list(n.ev) + list(evs)) if e[0] == "enter"), None)
            m = g.nodes[j]
            if m.ctx is not n.ctx and ent is not None and m.ctx.parent is n.ctx:
                if ent not in entered.setdefault(m.ctx.id, []):
                    entered[m.ctx.id].append(ent)
            if j not in must:
                must[j] = dict(out)
            else:
                new = {k: v for k, v in must[j].items() if k in out} if must[j] else {}
                if len(new) == len(must[j]):
                    continue
                must[j] = new
            if j not in pend:
                pend.add(j)
                work.append(j)
    for i, n in enumerate(g.nodes):
        if i not in must:
            continue
        cur = dict(must[i])
        for evs, todo in [(n.ev, None)] + list(n.succ):
            here = cur if todo is None else dict(cur)
            for e in evs:
                if e[0] == "assume":
                    here[id(e[1]), e[2]] = e
                kind = site_kind(e)
                if kind is None:
                    continue
                c, ents = n.ctx, None
                while c is not None and not own(F, c.fn.n):
                    ents = entered.get(c.id)
                    c = c.parent
                for ent in [x for x in ents or [] if not harmless(x)] or [None]:
                    yield c.fn.n if c is not None else root, kind, e, tuple(here.values()), ent


def harmless(ent):
    """an unwrap of a value that is known to be there"""
    m = UNW.search(ent[1])
    if not m or not ent[2] or ent[2][0].op != "agg":
        return False
    return ent[2][0].a[2] == ("Err" if m.group(3).endswith("_err") else "Some" if m.group(1) == "Option" else "Ok")


# ---------------------------------------------------------------- proofs
def fits(pre, count, room):
    """count <= room whenever the assumptions hold; every leaf of a length or index expression is unsigned"""
    for u in uppers2(count):
        df = ladd(u, room, -1)
        c, d = lin(df)
        ts = {}
        for t, k in d.items():
            ts[desc(t)] = ts.get(desc(t), 0) + k
        ts = {t: k for t, k in ts.items() if k}
        if c <= 0 and all(k < 0 for k in ts.values()):
            return True
        if pre.rng(ts)[1] + c <= 0:
            return True
        for t, k in list(ts.items()):
            if k < 0:
                rest = {x: q for x, q in ts.items() if x != t}
                if pre.rng(rest)[1] + c <= 0:
                    return True
    return False


def uppers2(v):
    out = uppers(v)
    for u in list(out):
        c, d = lin(u)
        for t, k in d.items():
            q = t
            while q.op == "f" and q.a[0].op == "as":
                q = q.a[0].a[0]
            if k == 1 and q.op == "call" and call_name(q).endswith("::position") and cargs(q):
                x = cargs(q)[0]
                out.append(ladd(ladd(u, t, -1), ladd(mk("len", x), K(1), -1)))
    return out


def inner(v):
    while v.op in ("*", "ref", "gp") and v.a and isinstance(v.a[0], Val):
        v = v.a[0]
    return v


def length(g, v, d=0):
    """the length of a slice, array, vector or string"""
    if d > 20:
        return mk("len", v)
    if v in g.alen:
        return K(g.alen[v])
    v = inner(v)
    if v in g.alen:
        return K(g.alen[v])
    while v.op in ("mut", "old") and any(isinstance(x, Val) for x in v.a):
        b = next(x for x in v.a if isinstance(x, Val))
        if b.op not in ("mut", "old", "rep"):
            break
        v = b        # an array keeps its length
    if v.op == "hb":
        return K(len(v.a[0]) // 2)
    if v.op == "s":
        return K(len(v.a[0].encode()))
    if v.op == "rep" and isinstance(v.a[1], int):
        return K(v.a[1])
    if v.op == "f" and v.a[0].op == "call" and re.search(r"split_at(_mut)?$", call_name(v.a[0])):
        x, n = cargs(v.a[0])[:2]
        return n if v.a[1] == "0" else ladd(length(g, x, d + 1), n, -1)
    if v.op == "call":
        n, a = call_name(v), cargs(v)
        if n.endswith("vec::from_elem") and len(a) > 1:
            return a[1]
        m = re.match(r"^(ringrtc::.*)::(\w+)$", n)
        if m and n not in g.F.fns:
            got = impl_len(g.F, m.group(1), m.group(2))
            if got is not None:
                return K(got)
        if re.search(r"Iterator::collect$", n) and a:
            return mk("len", inner(a[0]))
        if IDX.search(n) and len(a) > 1:
            if "RangeFull" in str(a[1].a[1] if a[1].op == "agg" else ""):
                return length(g, a[0], d + 1)
            r = range_of(a[1])
            if r:
                return ladd(r[1] if r[1] is not None else length(g, a[0], d + 1), r[0], -1)
    x = len_term(v)
    c, dd = lin(x)
    for t, k in dd.items():
        if t.op == "len":
            if t.a[0] in g.alen:
                x = ladd(ladd(x, t, -k), K(k * g.alen[t.a[0]]))
            elif t.a[0] is not v:
                x = ladd(ladd(x, t, -k), lmul_(length(g, t.a[0], d + 1), k))
    return x


IMPL = {}


def impl_len(F, trait, method):
    """the least length of the slice that any implementation of a trait method returns"""
    k = (trait, method)
    if k not in IMPL:
        out = []
        for n in F.fns:
            if n.startswith("<") and n.endswith(" as %s>::%s" % (trait, method)):
                pol = Policy(F, alen=True, max_nodes=500)
                g = explore(F, n, pol)
                g.F = F
                for p in paths(g):
                    if p.kind == "ret":
                        x = length(g, p.ret)
                        out.append(x.a[0] if x.op == "k" else None)
        IMPL[k] = min(out) if out and None not in out else None
    return IMPL[k]


def norm(g, v):
    c, d = lin(v)
    for t, k in d.items():
        if t.op == "len":
            n = length(g, t.a[0])
            if n is not t:
                v = ladd(ladd(v, t, -k), lmul_(n, k))
    return v


def lmul_(v, k):
    out = K(0)
    if k > 0:
        for _ in range(k):
            out = ladd(out, v)
    else:
        for _ in range(-k):
            out = ladd(out, v, -1)
    return out


def possible(g, ass):
    """False if the assumptions contradict what the types say about lengths"""
    for e in ass:
        _, t, f = e
        if f[0] == "r" and mentions(t, lambda x: x.op == "len"):
            n = norm(g, t)
            if n.op == "k" and not (f[1] <= n.a[0] <= f[2] and n.a[0] not in f[3]):
                return False
    return True


def judge(F, g, owner, kind, e, ass, ent):
    """None if the operation cannot panic; otherwise a description of what is not excluded"""
    r = judge1(F, g, owner, kind, e, ass, ent)
    return r if r is not None and possible(g, ass) else None


def judge1(F, g, owner, kind, e, ass, ent):
    pre = Pre(ass, g)
    if kind == "exact":
        x = length(g, e[2])
        if fits(pre, x, K(e[1])) and fits(pre, K(e[1]), x):
            return None
        return "%s taken as exactly %d bytes" % (desc(e[2]), e[1])
    if kind == "index":
        if len(e[2]) < 2:
            return None
        base, ix = e[2][0], e[2][1]
        if ix.op == "agg" and "RangeFull" in str(ix.a[1]):
            return None
        r = range_of(ix)
        room = length(g, base)
        if r is None:
            if fits(pre, ladd(norm(g, ix), K(1)), room):
                return None
            return "index %s of %s" % (desc(ix), desc(base))
        lo, hi = norm(g, r[0]), norm(g, r[1]) if r[1] is not None else None
        if hi is not None and fits(pre, hi, room) and fits(pre, lo, hi):
            return None
        if hi is None and fits(pre, lo, room):
            return None
        return "range %s of %s" % (desc(ix), desc(base))
    if kind == "pre":
        n = tail(e[1])
        a = e[2]
        if re.search(r"copy_from_slice$|clone_from_slice$", n):
            x, y = length(g, a[0]), length(g, a[1])
            if fits(pre, x, y) and fits(pre, y, x):
                return None
            return "copy of %s into %s" % (desc(a[1]), desc(a[0]))
        if re.search(r"split_at(_mut)?$", n):
            if fits(pre, norm(g, a[1]), length(g, a[0])):
                return None
            return "split of %s at %s" % (desc(a[0]), desc(a[1]))
        if re.search(r"drain$", n):
            r = range_of(a[1])
            if "RangeFull" in desc(a[1]):
                return None
            if r and (fits(pre, r[1], length(g, a[0])) and fits(pre, r[0], r[1]) if r[1] is not None else fits(pre, r[0], length(g, a[0]))):
                return None
            return "drain of %s over %s" % (desc(a[0]), desc(a[1]))
        if re.search(r"chunks(_exact)?$|rotate_(left|right)$", n):
            if a[1].op == "k" and a[1].a[0] > 0 and "chunks" in n:
                return None
            return "%s(%s)" % (n, desc(a[1]))
        if re.search(r"(remove|insert|split_off)$", n):
            k = 1 if n.endswith("remove") else 0
            if fits(pre, ladd(a[1], K(k)), length(g, a[0])):
                return None
            return "%s(%s, %s)" % (n, desc(a[0]), desc(a[1]))
        return "%s(%s)" % (n, ", ".join(desc(x) for x in a))
    if kind == "panic":
        if ent and UNW.search(ent[1]):
            return unwrap(F, g, pre, owner, ent)
        last = next((x for x in reversed(ass)), None)
        return "%s when %s is %s" % (e[1], desc(last[1]) if last else "-", show(last[2]) if last else "-")
    if kind == "time":
        return moment(e)
    if kind == "alloc":
        k = 0 if re.search(r"::with_capacity\w*$", e[1]) else 1
        if k < len(e[2]) and bounded(g, ass, e[2][k]):
            return None
        return "%s(%s)" % (tail(e[1]), desc(e[2][k]) if k < len(e[2]) else "?")
    return overflow(F, g, pre, owner, kind, e)


def show(f):
    return "/".join(str(x) for x in sorted(f[1])) if f[0] == "e" else "%s..%s" % (f[1] if f[1] > -10**30 else "", f[2] if f[2] < 10**30 else "")


# ---------------------------------------------------------------- amounts of memory
LARGE = 1 << 24


def held(t):
    """the size of something that is in memory already, or a limit this library configured"""
    t = inner(t)
    if t.op == "len" or (t.op == "cast" and held(t.a[1])):
        return True
    if t.op in ("call", "pure"):
        n = (call_name(t) if t.op == "call" else t.a[0]).split("::")[-1]
        if n in ("len", "count", "capacity", "encoded_len", "size_hint", "capacity_limit"):
            return True
        if n == "min" and t.op == "pure":
            return any(held(x) or x.op == "k" for x in t.a[1])
        if n == "saturating_sub" and t.op == "pure":
            return held(t.a[1][0])
        if n == "saturating_add" and t.op == "pure":
            return all(held(x) or (x.op == "k" and x.a[0] <= LARGE) for x in t.a[1])
    if t.op == "lin":
        return t.a[0] <= LARGE and all(k < 0 or held(x) for x, k in t.a[1])
    return t.op == "f" and t.a[1] in ("capacity_limit",)


def peel(t):
    """the number behind checked conversions and payloads"""
    for _ in range(12):
        if t.op in ("*", "ref", "gp", "cast"):
            t = next(x for x in t.a if isinstance(x, Val))
        elif t.op == "f" and t.a[0].op == "as" and t.a[0].a[0].op in ("call", "pure"):
            t = t.a[0].a[0]
        elif t.op == "call" and re.search(r"::(try_from|try_into|from|into)$", call_name(t)) and len(cargs(t)) == 1:
            t = cargs(t)[0]
        else:
            break
    return desc(t)


def bounded(g, ass, v):
    """an amount that memory in use, a constant or a configured limit bounds"""
    pre = Pre(ass, g)
    for u in uppers2(v) + [v]:
        c, d = lin(u)
        ok = c <= LARGE
        for t, k in d.items():
            if k < 0 or held(t) or pre.rng({desc(t): 1})[1] <= LARGE:
                continue
            if t.op == "cast" and str(t.a[0]) in ("u8", "u16"):
                continue
            for a in ass:
                if a[2][0] != "r":
                    continue
                c2, d2 = lin(a[1])
                for s in (1, -1):
                    top = a[2][2] if s == 1 else -a[2][1]
                    if any(peel(x) == peel(t) and q * s == 1 for x, q in d2.items()) and top - s * c2 <= LARGE and \
                            all(q * s < 0 and held(x) for x, q in d2.items() if peel(x) != peel(t)):
                        break
                else:
                    continue
                break
            else:
                ok = False
        if ok:
            return True
    return False


# ---------------------------------------------------------------- unwrap and expect
RAW = {}


def unwrapped_types(F, owner, line, name):
    """type arguments of the calls of unwrap/expect on one source line of a function"""
    if owner not in RAW:
        d = RAW[owner] = {}
        f = F.fns[owner]
        for b in f.b:
            t = b["t"]
            if t["k"] == "call" and t["f"]["k"] == "fn":
                r = t["f"]["f"]
                d.setdefault((t.get("line", 0), tail(r["fn"])), []).append([F.ts(x) for x in r.get("ga", [])])
    return RAW[owner].get((line, tail(name)), [])


# an error type whose value cannot come from received data: why
ERR_OK = [
    (r"PoisonError<", "a lock is poisoned only after another panic"),
    (r"crypto_common::InvalidLength|digest::.*InvalidLength", "an HMAC takes a key of any length"),
    (r"^regex::|regex_automata::.*(BuildError|DeserializeError)", "the expression is a constant of the program"),
    (r"SystemTimeError$", "this machine's clock is later than 1970"),
    (r"ThreadId|Box<dyn core::any::Any", "a worker thread is gone only after another panic"),
    (r"std::io::error::Error$", "starting a thread is a resource of this machine"),
    (r"alloc::sync::Arc<rustls::", "the crypto provider is installed once"),
    (r"^core::convert::Infallible$|^!$", "cannot happen"),
]


def unwrap(F, g, pre, owner, ent):
    what = ent[2][0]
    d = "%s of %s" % (ent[1].split("::")[-1], desc(what))
    x = what
    if what.op == "agg" and what.a[2] == "Err" and what.a[5]:
        e0 = desc(what.a[5][0])
        if "MutexPoisoned" in e0:
            return None
    types = unwrapped_types(F, owner, ent[3], ent[1])
    if not types:
        return d
    if "Option" in ent[1]:
        return d
    bad = None
    for ga in types:
        T, E = (ga + ["", ""])[:2]
        if any(re.search(r, E) for r, _ in ERR_OK):
            continue
        if E == "hkdf::errors::InvalidLength":
            # an output buffer whose size is a constant of the program, at most 255 hash lengths
            continue
        if E.startswith("serde_json::error::Error") and re.match(r"alloc::vec::Vec<u8|alloc::string::String|serde_json::value::Value|\(\)$", T):
            continue     # writing JSON of the library's own types
        if E == "core::array::TryFromSliceError":
            m = re.search(r"\[[^;\[]+;(\d+)\]", T)
            src = cargs(what)[0] if what.op == "call" and cargs(what) else None
            if m and src is not None:
                n = K(int(m.group(1)))
                L = length(g, src)
                if fits(pre, L, n) and fits(pre, n, L):
                    continue
        bad = d + " (%s)" % E[:60]
    return bad


# ---------------------------------------------------------------- arithmetic
COUNTED = re.compile(r"^(len|size_of|encoded_len\w*|count|length_delimiter_len)$")


def small(v, d=0):
    """bounded by what fits into memory or by a constant"""
    if d > 12 or v.op == "k":
        return v.op == "k"
    if v.op == "lin":
        return all(small(t, d + 1) for t, _ in v.a[1])
    if v.op in ("len", "phi"):
        return True
    if v.op in ("chk",):
        return small(v.a[0], d + 1)
    if v.op in ("call", "pure"):
        n = call_name(v).split("::")[-1] if v.op == "call" else v.a[0].split("::")[-1]
        if COUNTED.match(n):
            return True
        if n == "min" and v.op == "pure":
            return any(small(x, d + 1) for x in v.a[1])
    if v.op == "cast":
        return str(v.a[0]) in ("u8", "i8", "u16") and False or small(v.a[1], d + 1)
    if v.op == "bin":
        if v.a[0] == "Rem":
            return small(v.a[2], d + 1) or small(v.a[1], d + 1)
        return all(small(x, d + 1) for x in v.a[1:] if isinstance(x, Val))
    return False


def overflow(F, g, pre, owner, kind, e):
    a = e[2]
    d = "%s of %s" % (kind, " and ".join(desc(x) for x in a))
    if kind.startswith("overflow:"):
        if kind.endswith("Sub") and len(a) == 2:
            if fits(pre, norm(g, a[1]), norm(g, a[0])):
                return None
            return d
        if all(small(x) for x in a):
            return None
        # a counter of this library's own that goes up by a constant
        if kind.endswith("Add") and len(a) == 2 and a[1].op == "k" and abs(a[1].a[0]) <= 64 and inner(a[0]).op == "f":
            return None
    if kind == "bounds" and len(a) == 2:
        if fits(pre, ladd(norm(g, a[1]), K(1)), norm(g, a[0])):
            return None
    return d


def moment(e):
    """arithmetic on points in time and durations panics when the result is out of range"""
    for x in e[2]:
        for y in subvals(x):
            if y.op in ("call", "pure"):
                n = call_name(y) if y.op == "call" else y.a[0]
                if re.search(r"(^|::)from_(secs|millis|micros|nanos|secs_f64|secs_f32|mins|hours|days)$", n):
                    z = cargs(y) if y.op == "call" else y.a[1]
                    if not all(q.op == "k" for q in z):
                        return "%s(%s)" % (tail(e[1]), ", ".join(desc(q) for q in e[2]))
    if "from_" in e[1] and not all(q.op == "k" for q in e[2]):
        return "%s(%s)" % (tail(e[1]), ", ".join(desc(q) for q in e[2]))
    return None


# ---------------------------------------------------------------- reviewed sites
# what is not provable from the program text alone, with the reason why no received byte decides it
ALLOW = [
    (r"^mrp::(window|stream|merge_buffer)::.*\|overflow:Add\|.*(left|seqnum|capacity_limit)", "sequence numbers inside the window stay far below 2^64 (T01, T02)"),
    (r"^mrp::window::BufferWindow::(right_bounds|max_seen_seqnum)\|overflow:Sub\|.*(capacity_limit|len\(.*data\)).* and 1$", "capacities and sequence numbers are at least 1 (T01, T02)"),
    (r"^mrp::window::BufferWindow::.*\|panic\|.*assert_failed when arg[01] is 0\.\.0", "capacities are constants of the caller"),
    (r"^mrp::window::BufferWindow::drain_front.*\|panic\|expect of", "the drained prefix contains only filled entries (T02)"),
    (r"^mrp::merge_buffer::.*\|panic\|(core::panicking::assert_failed when .*content_length|unwrap of (Option::None|IntoIter::next\(.*data\)))", "exactly content_length fragments are merged, at least one (T01)"),
    (r"^mrp::stream::MrpStream::try_send(_fragmented)?\|panic\|expect of Result::Err\{(WindowError::AfterWindow|MrpSendError::SendWindowFull)", "room in the window was checked before (T02)"),
    (r"^ringrtc::common::CallDirection::from_i32\|panic\||^ringrtc::common::CallMediaType::from_i32\|panic\|", "numbers that the platform layer passes"),
    (r"^ringrtc::common::actor::.*\|panic\|unwrap of BinaryHeap::pop", "the heap was seen non-empty just before"),
    (r"^ringrtc::common::slice::|^<.* as ringrtc::common::slice::SafeSlicing<T>>::", "the copying helpers (S11)"),
    (r"common::units::.*\|overflow:", "sizes configured by this library"),
    (r"core::call_summary::.*\|(overflow:|pre\|VecDeque::rotate_left)|protobuf::call_summary::.*\|overflow:|webrtc::stats_observer::.*\|overflow:", "statistics of the local media engine"),
    (r"core::connection::Connection::tick\|(overflow:Add|rem0)\|", "ticks of the local timer and its configured interval"),
    (r"core::crypto::DecryptionErrorTracker::\w+\|panic\|unwrap of HashMap::remove", "the key was just listed from the same map"),
    (r"core::crypto::.*\|panic\|core::panicking::panic_fmt when (-|discr\(Hkdf::expand)", "output lengths of the key derivation are constants"),
    (r"core::group_call::Client::ring_inner\|panic\|.*discr\(arg1\)", "a recipient the library does not pass yet"),
    (r"core::group_call::Client::start::\{closure#\d+\}\|panic\|expect of Result::Err\{RingRtcError::CreateRtpObserver\}", "an allocation of the media engine"),
    (r"core::group_call::Writer::\w+\|overflow:", "the offset stays within the buffer"),
    (r"core::util::ArcPtr::get_arc\|panic\|", "the pointer was checked when it was taken (S11)"),
    (r"core::util::\w+\|index\|range Range.*Match::(start|end)\(", "positions that the search reports lie in the text it searched (S04)"),
    (r"base16::Base16Table as .*\|bounds\|bounds of 256", "a byte indexes a table of 256"),
    (r"base16::Base16Table::new\|", "the alphabet is a constant"),
    (r"base16::ConsonantBase16 as .*Display>::fmt\|pre\|\[T\]::chunks\(Formatter::precision", "precision of a format string of the program"),
    (r"base16::ConsonantBase16::parse_with_separators(::\{closure#\d+\})?\|(overflow:|index\||panic\|expect of Chars::next\(str::chars)", "see rule 'boundary'"),
    (r"root_key::CallLinkRootKey::encrypt\|(index\|range RangeFrom\{12\}|overflow:Sub|panic\|expect of AesGcmSiv::encrypt)", "text that the local user chose, behind a nonce of constant size"),
    (r"root_key::has_repeated_chunk\|panic\|unwrap of T::try_into\(ChunksExact::next", "chunks_exact yields chunks of exactly that length"),
    (r"lite::http::sim::", "the simulation's own HTTP client"),
    (r"webrtc::media::VideoFrame::(as_i420\|overflow:Mul|copy_from_slice\|panic|scale\|panic)", "sizes that the application passes, or a frame that is in memory (S11)"),
    (r"peer_connection_factory::IceServer::new\|panic\|expect of CString::new", "strings that the application supplies"),
]
ALLOW = [(re.compile(p), why) for p, why in ALLOW]


class Sites:
    """unproved operations of each function, found by exploring it on its own or from its callers"""

    def __init__(self, c):
        self.c, self.F = c, c.F
        self.memo = {}

    def graph(self, root, modular):
        """modular: calls of other functions of the library are left opaque, they are judged on their own"""
        F, c = self.F, self.c
        kw = {}
        if modular:
            kw["noinline"] = lambda n: own(F, n) and not n.startswith(root + "::{closure")
        g = explore(F, root, Policy(F, max_nodes=60000, cap=60, alen=True, **kw))
        g.name = root
        c.cov["functions"] |= g.fns
        c.cov["states"] += len(g.nodes)
        c.cov["transitions"] += sum(len(n.succ) for n in g.nodes)
        return g

    def of(self, root, modular=False):
        """{owner: [(kind, text)]} of what is not proved when root is entered with any arguments"""
        if (root, modular) not in self.memo:
            out, n, ent = {}, 0, set()
            g = self.graph(root, modular)
            if g.truncated:
                out.setdefault(root, []).append(("engine", "more than %d states" % len(g.nodes)))
            for own_, kind, e, ass, enter in walk(self.F, g, root):
                n += own_ == root or own_.startswith(root + "::{closure")
                r = judge(self.F, g, own_, kind, e, ass, enter)
                if r and (kind, r) not in out.setdefault(own_, []):
                    out[own_].append((kind, r))
            for nd in g.nodes:
                for e in nd.ev:
                    if e[0] == "enter":
                        ent.add(e[1])
                for evs, _ in nd.succ:
                    for e in evs:
                        if e[0] == "enter":
                            ent.add(e[1])
            self.memo[root, modular] = (out, n, ent)
        return self.memo[root, modular]

    def allowed(self, owner, kind, text):
        k = "%s|%s|%s" % (owner, kind, text)
        return any(p.search(k) for p, _ in ALLOW)

    def lifted(self, owner, at=None, depth=0, seen=()):
        """the callers establish what the function needs"""
        F = self.F
        at = at or owner
        callers = set(F.callers().get(at, ())) - {at}
        if not callers or len(callers) > 12 or depth > 3 or at in seen:
            return False
        for r in callers:
            if not own(F, r) and MODS.search(F.fns[r].file) is None and F.fns[r].crate not in ("ringrtc", "mrp"):
                return False
            out, n, ent = self.of(r)
            if owner not in ent:
                return False
            left = [(k, t) for k, t in out.get(owner, []) if not self.allowed(owner, k, t)]
            if left and not self.lifted(owner, r, depth + 1, seen + (at,)):
                return False
        return True


def boundary(c):
    """where the base-16 parser cuts its text to name a bad character, all characters before it were symbols or
    separators, each one byte long"""
    F = c.F
    f = F.one(r"base16::ConsonantBase16::parse_with_separators$")
    g = c.graph(f)
    cuts = [0]

    def auto(q, e):
        pend, gap = q
        if e[0] == "assume":
            o = optfact(e)
            v = e[1].a[0] if e[1].op == "discr" else None
            if o and v is not None and v.op != "call":
                v = next_of(v)
            if o and v is not None and v.op == "call" and v.a[2].endswith("::position"):
                return (None, gap) if o[1] == 1 else q
            if o and o[1] == 1 and v is not None and v.op == "call" and v.a[2].endswith("::next") and bytes_iter(v):
                return q if v is pend else (v, gap or pend is not None)
            if e[1].op == "call" and e[1].a[2].endswith("::contains") and e[2] == ("e", frozenset((1,))):
                return (None, gap) if next_of(e[1].a[3][1]) is pend else q
            if e[2][0] == "r" and e[2][1] == e[2][2]:
                k, ts = lin(e[1])
                if len(ts) == 1 and next_of(next(iter(ts))) is pend and e[2][1] - k < 128:
                    return (None, gap)
        if callev(e, r"Vec(<.*>)?::push$"):
            return (None, False)
        if callev(e, r"<str as .*::index$|str::split_at$|str::get_unchecked$") and e[0] == "call":
            cuts[0] += 1
            if gap:
                return Bad("the text is cut behind a character that was not recognised, perhaps inside it: %s" % desc(e[2][1])[:80])
            k, ts = lin(agg_field(e[2][1], "start") or (e[2][1].a[5][0] if e[2][1].op == "agg" else e[2][1]))
            lens = sorted(desc(t)[:20] + ("+" if n > 0 else "-") for t, n in ts.items())
            if k != -1 or len(lens) != 2 or not lens[0].startswith("Iter::len(") or not lens[0].endswith("-") or lens[1] != "len(arg0)+":
                return Bad("the text is not cut at the character just taken: %s" % desc(e[2][1])[:80])
        return q
    c.auto("boundary", "cut", g, (None, False), auto)
    c.floor("places where the base-16 text is cut", cuts[0], 2)


def check(c):
    F = c.F
    S = Sites(c)
    boundary(c)
    nf = ns = 0
    for name, f in sorted(F.fns.items()):
        if not MODS.search(f.file) or not interesting(F, f):
            continue
        nf += 1
        out, n, _ = S.of(name, True)
        ns += n
        if any(not S.allowed(name, k, t) for k, t in out.get(name, [])):
            out, _, _ = S.of(name)
        parent = re.sub(r"::\{closure#\d+\}.*$", "", name)
        bad = [(k, t) for k, t in out.get(name, []) if not S.allowed(name, k, t)]
        if bad and "{closure#" in name and parent in F.fns:
            # a closure that its function calls directly is judged where it is called
            po, _, ent = S.of(parent)
            if name in ent:
                bad = [(k, t) for k, t in po.get(name, []) if not S.allowed(name, k, t)]
        if bad and S.lifted(name):
            bad = []
        if not bad:
            c.ob("panic", tail(name), True)
        for k, t in bad[:4]:
            c.ob("panic", "%s %s" % (tail(name), re.sub(r"closure#\d+", "closure", t)[:80]), False, "%s can panic: %s is not excluded" % (name, t))
    c.floor("functions that contain an operation that can panic", nf, 150)
    c.floor("operations examined", ns, 600)
    return "strong", "every operation that can panic in the code that handles received data (%d functions, %d occurrences on paths): excluded by the path, by a type, or reviewed as not decided by received data" % (nf, ns)
