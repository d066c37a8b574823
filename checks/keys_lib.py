"""key exchange and key material: where bytes come from, how they are cut"""
from rules import *
from absint import lin, ladd, mk, K, Val
from S11 import range_of

SAME = re.compile(r"::(to_vec|to_owned|clone|into|from|as_slice|as_bytes|as_ref|as_mut|as_mut_slice|deref|deref_mut|borrow|into_boxed_slice|as_str|to_bytes|index_mut|index|try_into|try_from|unwrap|unwrap_or_default)$")


def core(v, calls=False):
    """the call or argument a value comes from, through borrows, changes in place and payloads"""
    for _ in range(60):
        if v.op in ("mut", "old", "ref", "gp", "*", "cast", "box"):
            w = next((x for x in v.a if isinstance(x, Val)), None)
            if w is None:
                return v
            v = w
        elif v.op == "f" and v.a[0].op == "as" and v.a[0].a[1] in ("Some", "Ok", "Continue", "Owned", "Borrowed"):
            v = v.a[0].a[0]
        elif v.op == "agg" and v.a[0] == "adt" and v.a[2] in ("Some", "Ok") and len(v.a[5]) == 1:
            v = v.a[5][0]
        elif calls and v.op == "call" and SAME.search(v.a[2]) and v.a[3] and not re.search(r"::index(_mut)?$", v.a[2]):
            v = v.a[3][0]
        else:
            return v
    return v


def same(a, b):
    """are two values the same object (whatever was changed in it since)"""
    a, b = core(a), core(b)
    if a is b:
        return True
    if a.op == b.op == "call":
        return a.a[:3] == b.a[:3]
    if a.op == b.op == "f" and a.a[1] == b.a[1]:
        return same(a.a[0], b.a[0])
    if a.op == b.op == "rep" and a.a[1] != b.a[1]:
        return False
    return full_desc(a) == full_desc(b)


def full_desc(v):
    return desc(v, 40).replace("~", "")


def view(v):
    """(object, first byte, end or None) that a slice, or a copy of one, shows"""
    v = core(v, True)
    if v.op == "f" and v.a[0].op == "call" and re.search(r"::split_at(_mut)?$", v.a[0].a[2]):
        x, n = v.a[0].a[3][:2]
        b, lo, hi = view(x)
        if n.op != "k" or lo is None:
            return v, None, None
        return (b, lo, lo + n.a[0]) if v.a[1] == "0" else (b, lo + n.a[0], hi)
    if v.op == "f" and v.a[0].op == "f" and core(v.a[0]).op == "call":
        v = mk("f", core(v.a[0]), *v.a[1:])
        return view(v)
    if v.op == "call" and re.search(r"::index(_mut)?$", v.a[2]) and len(v.a[3]) > 1:
        r = range_of(v.a[3][1])
        b, lo, hi = view(v.a[3][0])
        if r is None and "RangeFull" in desc(v.a[3][1]):
            return b, lo, hi
        if r is None or lo is None or r[0].op != "k" or (r[1] is not None and r[1].op != "k"):
            return v, None, None
        return b, lo + r[0].a[0], (hi if r[1] is None else lo + r[1].a[0])
    if v.op == "sub":
        b, lo, hi = view(v.a[0])
        s = v.a[1]
        if s[0] == "r" and isinstance(s[1], int) and isinstance(s[2], int):
            return b, lo + s[1], lo + s[2]
    return v, 0, size(v)


def size(v):
    """the size of a zeroed buffer"""
    v = core(v)
    if v.op == "rep" and isinstance(v.a[1], int):
        return v.a[1]
    if v.op == "call" and v.a[2].endswith("vec::from_elem") and v.a[3][1].op == "k":
        return v.a[3][1].a[0]
    return None


def zeros(v, n):
    v = core(v)
    if v.op == "rep":
        return v.a[1] == n and v.a[0].op == "k" and v.a[0].a[0] == 0
    if v.op == "hb":
        return v.a[0] == "00" * n
    if v.op == "s":
        return v.a[0] == "\0" * n
    if v.op == "call" and v.a[2].endswith("vec::from_elem"):
        return [x.a[0] if x.op == "k" else None for x in v.a[3]] == [0, n]
    return False


GROW = re.compile(r"(Vec|BytesMut|VecDeque)(<.*>)?(::| as .*::)(extend_from_slice|extend|push|append|put_slice|put|write_all|insert|truncate|clear|resize)$")


def content(p, v):
    """what was put into a buffer on a path, in order, or None"""
    v = core(v)
    if v.op == "agg" and v.a[0] == "array":
        return list(v.a[5])
    if v.op == "call" and re.search(r"::(concat|join)$", v.a[2]):
        return content(p, v.a[3][0])
    if v.op == "call" and re.search(r"::(to_vec|to_owned|clone|into|from)$", v.a[2]):
        start = [v.a[3][0]]
    elif v.op == "call" and re.search(r"Vec(<.*>)?::(new|with_capacity)$", v.a[2]):
        start = []
    elif v.op in ("hb", "s", "arg", "f"):
        return [v]
    else:
        return None
    out = list(start)
    for e in p.ev:
        if e[0] == "call" and GROW.search(e[1]) and e[2] and core(e[2][0]) is v or e[0] == "call" and GROW.search(e[1]) and e[2] and core(e[2][0]).op == "call" and core(e[2][0]).a[:3] == v.a[:3]:
            if not re.search(r"::(extend_from_slice|extend|put_slice|append|write_all)$", e[1]):
                return None
            x = e[2][1]
            if e[1].endswith("::append"):
                y = content(p, x)
                if y is None:
                    return None
                out += y
            else:
                out.append(x)
    return out


def text(v):
    v = core(v, True)
    if v.op == "s":
        return v.a[0]
    if v.op == "hb":
        try:
            return bytes.fromhex(v.a[0]).decode()
        except ValueError:
            return None
    return None


def derived(c, rule, inst, p, dh, prefix, extra):
    """the one HKDF expansion on a path: salt of 32 zero bytes, keyed by the shared secret `dh`, bound to the label and
    the values `extra`, in order; -> (buffer, its size)"""
    news = [e for e in p.ev if e[0] == "call" and re.search(r"Hkdf(<.*>)?::new$", e[1])]
    exps = [e for e in p.ev if e[0] == "call" and re.search(r"Hkdf(<.*>)?::expand(_multi_info)?$", e[1])]
    if not c.ob(rule, inst + " one derivation", len(news) == 1 and len(exps) == 1, "keys come out of %d key derivations" % len(exps)):
        return None
    n, e = news[0], exps[0]
    c.ob(rule, inst + " salt", zeros(n[2][0], 32), "the salt of the key derivation is %s, not 32 zero bytes" % desc(n[2][0]))
    c.ob(rule, inst + " secret", same(core(n[2][1], True), dh), "keys are derived from %s, not from the shared secret" % desc(n[2][1]))
    c.ob(rule, inst + " derivation", same(e[2][0], n[3]), "keys are expanded from %s" % desc(e[2][0]))
    info = content(p, e[2][1])
    got = [text(x) if text(x) is not None else full_desc(core(x, True)) for x in info] if info is not None else None
    c.ob(rule, inst + " binding", got == [prefix] + extra, "keys are bound to %s, not to %s" % (got, [prefix] + extra))
    return e[2][2]


def contributory(p, dh):
    for e in p.ass:
        if e[1].op == "call" and e[1].a[2].endswith("::was_contributory") and same(e[1].a[3][0], dh):
            return e[2] == ("e", frozenset((1,)))
    return False


def exchange(c, p, rule, inst, secret, public):
    """the one Diffie-Hellman on the path, and that its result was checked"""
    dhs = [e for e in p.ev if e[0] == "call" and e[1].endswith("Secret::diffie_hellman")]
    if not c.ob(rule, inst + " exchange", len(dhs) == 1, "keys are made with %d exchanges" % len(dhs)):
        return None
    e = dhs[0]
    c.ob(rule, inst + " own secret", secret(e[2][0]), "the exchange uses %s as own secret" % desc(e[2][0]))
    c.ob(rule, inst + " peer's key", public(p, e[2][1]), "the exchange uses %s as the peer's key" % desc(e[2][1]))
    c.ob(rule, inst + " contributory", contributory(p, e[3]), "keys are made from a shared secret that may be degenerate")
    return e[3]


def halves(c, rule, inst, buf, keys, ks, ss):
    """each key and salt is its own part of the derived bytes: first key, first salt, second key, second salt"""
    want = [(0, ks), (ks, ks + ss), (ks + ss, 2 * ks + ss), (2 * ks + ss, 2 * (ks + ss))]
    total = size(buf)
    c.ob(rule, inst + " length", total == 2 * (ks + ss), "%s bytes are derived, %d are needed" % (total, 2 * (ks + ss)))
    got = []
    for k in keys:
        for f in ("key", "salt"):
            v = agg_field(k, f)
            b, lo, hi = view(v) if v is not None else (None, None, None)
            got.append((lo, hi) if b is not None and same(b, buf) else (desc(b) if b is not None else "?", None))
    c.ob(rule, inst + " parts", got == want, "keys and salts are the parts %s of what was derived, not %s" % (got, want))


def suite(c, F, k):
    """key and salt size of the suite a key names"""
    v = agg_field(k, "suite")
    n = v.a[2] if v is not None and v.op == "agg" else None
    out = []
    for fn in ("key_size", "salt_size"):
        g = c.graph(F.one(r"sdp_observer::SrtpCryptoSuite::%s$" % fn))
        val = None
        for p in paths(g):
            if p.kind == "ret" and n in (p.variant(F, "arg0") or ()):
                val = p.ret.a[0] if p.ret.op == "k" else None
        out.append(val)
    return n, out
