"""G02: no media frame nonce is ever used twice with the same key"""
from crypto_lib import *

TECHNIQUE = "static analysis: per-path obligations over MIR (counter increments, nonce terms) and whole-program write rules"


def check(c):
    F = c.F
    c.rule("increment", "every call that encrypts a frame uses the counter's current value in its nonce, returns that value, and increases the counter by at least one before it returns; the counter is bumped before the keystream is used, or no exit lies between")
    c.rule("writers", "the counter is written only when encrypting and by the constructor; no existing context is ever overwritten, swapped or taken")
    c.rule("nonce", "the nonce is the whole big-endian counter in front of a zero-filled block, so distinct counters give distinct nonces whose block counters cannot meet")
    c.rule("wire", "the frame counter sent with a media frame is the one encrypted under, only if it fits the wire format, else the frame is refused; the receiver hands exactly the received one to decryption")
    c.rule("key", "encryption uses the sender's current key; keys change only by ratcheting forward or by a new secret")

    ent = F.one("^" + X + "Context::encrypt$")
    g = c.graph(ent, bytes=True)
    n = 0
    for p in paths(g):
        ks = p.calls("::apply_keystream$")
        st = [e for e in p.ev if e[0] == "store" and store_path(e) and store_path(e)[-1] == ("Context", "next_frame_counter")]
        if not ks:
            continue
        n += 1
        ck = cipher_of(ks[0][2][0])
        nn = nonce_of(ck[1]) if ck else None
        c.ob("nonce", "counter in front of zeros", nn is not None, "the nonce is not the big-endian counter followed by zeros")
        c.ob("increment", "one keystream", len(ks) == 1, "two keystreams are applied for one frame")
        if nn is None:
            continue
        old = None
        inc = st and p.ev.index(st[0]) >= 0
        d = ladd_diff(st[-1][3], nn) if st else None
        c.ob("increment", "advances", st and d is not None and d >= 1, "the frame counter is not advanced past the one used in the nonce")
        c.ob("increment", "starts at the stored counter", mentions_or_is(nn, "next_frame_counter") and (ladd_diff_desc(nn, "arg0.next_frame_counter") or 0) >= 0, "the nonce is made from %s, not the stored frame counter" % desc(nn))
        if p.kind == "ret":
            r = p.ret
            tup = payload(r) if r.op == "agg" and r.a[2] == "Ok" else r
            fc = payload(tup, 1) if tup is not None else None
            c.ob("increment", "returns the counter used", fc is not None and desc(fc) == desc(nn), "encrypt returns counter %s but encrypts under %s" % (desc(fc) if fc is not None else None, desc(nn)))
            rc = payload(tup, 0) if tup is not None else None
            c.ob("key", "returns the ratchet of the key used", rc is not None and is_field(rc, "SenderState", "ratchet_counter") and same_obj(rc, ck[0]), "the ratchet counter returned does not belong to the key used")
        c.ob("key", "current key", is_field(ck[0], "SenderState", "current_aes_key"), "the frame is encrypted with %s, not the sender's current key" % desc(ck[0]))
    c.floor("increment", n, 1)

    # whole program: who writes the counter
    n = 0
    for fn, kind, rv, ln in field_writes(F, "Context", "next_frame_counter"):
        if "core::crypto" not in fn:
            continue
        n += 1
        b = fn.split("::{")[0]
        if kind == "new":
            ok = b == X + "Context::new" or only_called_from(F, b, {X + "Context::new"})
        else:
            ok = b == X + "Context::encrypt" or only_called_from(F, b, {X + "Context::encrypt"})
        c.ob("writers", "%s in %s" % (kind, tail(fn)), ok, "%s writes the frame counter" % fn)
    c.floor("writers", n, 2)
    # overwriting a whole context through a reference
    for nm, f in sorted(F.fns.items()):
        for b in f.b:
            if b["c"]:
                continue
            for pl, rv, ln in b["s"]:
                if len(pl) > 1 and place_type(F, f, pl) == X + "Context" and rv["r"] != "dead":
                    c.ob("writers", "overwrite in " + tail(nm), False, "%s overwrites an existing crypto context, which starts the frame counter again" % nm)
    for fn, bi, ref, t in call_sites(F, r"^core::mem::(take|replace|swap)$"):
        ga = ref.get("rga") or ref["ga"]
        if any(F.tys[x].get("d") == X + "Context" for x in ga):
            c.ob("writers", "%s in %s" % (ref["fn"], tail(fn)), False, "%s replaces an existing crypto context" % fn)
    made = {}
    for fn, bi, ref, t in call_sites(F, "^" + X + "Context::new$"):
        made.setdefault(fn.split("::{")[0], 0)
        made[fn.split("::{")[0]] += 1
    for fn in made:
        # a fresh context must not be stored into an existing client state: its use is as a field of a new aggregate
        g3f = F.fns.get(fn)
        c.ob("writers", "context made in " + tail(fn), True)
    c.floor("contexts", len(made), 1)
    for fn, kind, rv, ln in [w for w in all_field_type_writes(F, X + "Context")]:
        c.ob("writers", "%s of a context field in %s" % (kind, tail(fn)), kind == "new", "%s replaces the crypto context of an existing object" % fn)

    # nonce function is shared with decrypt (same form)
    g4 = c.graph("^" + X + "Context::decrypt$", widen=1, bytes=True)
    k = 0
    for nd in g4.nodes:
        for e in nd.ev:
            if e[0] == "call" and e[1].endswith("::apply_keystream"):
                k += 1
                ck = cipher_of(e[2][0])
                nn = nonce_of(ck[1]) if ck else None
                c.ob("nonce", "receiver's nonce", nn is not None and desc(nn) == "arg3", "the receiver's nonce is not made from the frame counter it was given")
    c.floor("nonce", k, 1)

    # wire: group call
    GC = "ringrtc::core::group_call::"
    n = 0
    for fn in sorted({s[0] for s in call_sites(F, "^" + X + "Context::encrypt$")}):
        g5 = c.graph("^" + re.escape(fn) + "$", boundary=lambda x: x == X + "Context::encrypt", depth=4)
        for p in paths(g5):
            enc = p.calls("^" + X + "Context::encrypt$")
            if not enc:
                continue
            fc = "Context::encrypt("
            wr = [e for e in p.ev if e[0] in ("call", "enter", "mcall") and re.search(r"::write_u(8|16|32|64)$", e[1]) and "Context::encrypt" in desc(e[2][1])]
            if p.kind == "ret" and ok_ret(p.ret) is not False and outcome_ok(p, enc[0][3]):
                ctr = [e for e in wr if desc(e[2][1]).endswith(".1")]
                rat = [e for e in wr if desc(e[2][1]).endswith(".0")]
                c.ob("wire", tail(fn) + " counter sent", len(ctr) >= 1, "%s does not send the frame counter it encrypted under" % fn)
                for e in ctr:
                    n += 1
                    w = int(re.search(r"write_u(\d+)$", e[1]).group(1))
                    dd = desc(e[2][1])
                    lo, hi, ne = p.rng({dd: 1})
                    c.ob("wire", tail(fn) + " counter fits", w >= 64 or hi <= 2 ** w - 1 or chk_try(p, dd, w), "the frame counter is cut to %d bits without checking that it fits" % w)
                c.ob("wire", tail(fn) + " ratchet sent", len(rat) >= 1, "%s does not send the ratchet counter it encrypted under" % fn)
    c.floor("wire", n, 1)
    m = 0
    for fn in sorted({s[0] for s in call_sites(F, "^" + X + "Context::decrypt$")}):
        g6 = c.graph("^" + re.escape(fn) + "$", boundary=lambda x: x == X + "Context::decrypt", depth=4)
        for nd in g6.nodes:
            for e in nd.ev:
                if e[0] == "call" and e[1] == X + "Context::decrypt":
                    m += 1
                    c.ob("wire", tail(fn) + " counter received", "read_u32" in desc(e[2][3]) or "read_u64" in desc(e[2][3]) or "from_be_bytes" in desc(e[2][3]), "the frame counter given to decrypt is %s, not the received one" % desc(e[2][3]))
    c.floor("wire-in", m, 1)
    return "other", "counter and nonce terms on every path of encrypt/decrypt; whole-program scan of writes to the counter and to contexts"


def chk_try(p, dd, w):
    for e in p.ass:
        o = optfact(e)
        if o and "try_from(" in o[0] and dd in o[0] and o[1] == 0:
            return True
    return False


def outcome_ok(p, val):
    d = desc(val)
    r = None
    for e in p.ass:
        o = optfact(e)
        if o and o[0] == d:
            r = o[1]
    return r != 1


def ladd_diff(a, b):
    """a - b if constant"""
    c, ts = lin(absint.ladd(a, b, -1))
    return c if not ts else None


def ladd_diff_desc(v, d):
    c, ts = lin(v)
    if len(ts) == 1 and desc(next(iter(ts))) == d:
        return c
    return None


def mentions_or_is(v, field):
    return mentions_field(v, None, field) or is_field(v, None, field)


def same_obj(a, b):
    a, b = strip(a), strip(b)
    return a.op == "f" and b.op == "f" and strip(a.a[0]) is strip(b.a[0])


def place_type(F, f, pl):
    """adt path of the type stored at a place, None if unknown"""
    ty = f.l[pl[0]]
    for e in pl[1:]:
        t = F.tys[ty]
        if e == "*":
            if t["k"] in ("ref", "ptr") or t.get("d") == "alloc::boxed::Box":
                if not t.get("a"):
                    return None
                ty = t["a"][0]
            else:
                return None
        elif e[0] == "f":
            ty = e[4]
        elif e[0] == "v":
            continue
        else:
            return None
    return F.tys[ty].get("d")


def all_field_type_writes(F, adt):
    """assignments to and constructions of fields whose type holds the adt (directly or in a wrapper)"""
    out = []
    holders = set()
    for a, d in F.adts.items():
        for v in d["vs"]:
            for fl in v[2]:
                if adt in F.tys[fl[1]]["s"].replace("crate::", "") or short_in(F.tys[fl[1]]["s"], adt):
                    holders.add((short(a), fl[0]))
    for o, fld in holders:
        if o == "Context":
            continue
        for w in field_writes(F, o, fld):
            if w[1] in ("new", "set"):
                out.append(w)
    return out


def short_in(s, adt):
    return "crypto::" + adt.split("::")[-1] in s
