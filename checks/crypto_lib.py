"""terms of the frame crypto: what a MAC, nonce or key was computed from"""
from rules import *

X = "ringrtc::core::crypto::"


def cause(v):
    """(function, arguments) of the last in-place change"""
    if v.op == "mut" and len(v.a) > 3:
        return v.a[3]
    if v.op == "old" and len(v.a) > 5:
        return v.a[5]
    return None


def calls_of(v, suffix):
    return v.op == "call" and v.a[2].split("::")[-1] == suffix


def unwrap(v):
    """through wrappers that do not change bytes"""
    for _ in range(40):
        if v.op in ("*", "gp", "box", "cast") or v.op == "call" and re.search(r"::(into|from|clone|as_ref|deref|unwrap|expect|unwrap_or_else|into_bytes|as_slice|to_vec)$", v.a[2]) and v.a[3]:
            v = v.a[3][0] if v.op == "call" else (v.a[1] if v.op == "cast" else v.a[0])
            continue
        if v.op == "f" and v.a[0].op == "as" and v.a[1] == "0":
            v = v.a[0].a[0]
            continue
        return v
    return v


def tag_of(v):
    """(key, [inputs], number of tag bytes or None for all) if v is (a prefix of) an HMAC result"""
    v = unwrap(v)
    n = None
    if v.op == "sub" and v.a[1][0] == "r":
        lo, hi = v.a[1][1], v.a[1][2]
        if not (lo.op == "k" and lo.a[0] == 0) or hi is None or hi.op != "k":
            return None
        n = hi.a[0]
        v = unwrap(v.a[0])
    if not calls_of(v, "finalize") and not calls_of(v, "finalize_fixed"):
        return None
    v = unwrap(v.a[3][0])
    ins = []
    while True:
        cz = cause(v)
        if cz and cz[0].split("::")[-1] == "update":
            ins.append(cz[1][1])
            v = unwrap(cz[1][0])
        elif calls_of(v, "chain_update"):
            ins.append(v.a[3][1])
            v = unwrap(v.a[3][0])
        else:
            break
    if not (calls_of(v, "new_from_slice") or calls_of(v, "new")):
        return None
    return v.a[3][0], ins[::-1], n


def be_bytes(v):
    """the value whose big-endian bytes v is"""
    v = unwrap(v)
    return v.a[1][0] if v.op == "pure" and v.a[0] == "to_be_bytes" else None


def nonce_of(v):
    """the counter a nonce was made from: its big-endian bytes in front, zeros behind"""
    v = unwrap(v)
    if v.op == "upd" and v.a[1][0] == "r":
        e = v.a[1]
        b = v.a[0]
        if e[1].op == "k" and e[1].a[0] == 0 and b.op == "rep" and b.a[0].op == "k" and b.a[0].a[0] == 0:
            return be_bytes(v.a[2])
    return None


def key_label(v):
    """(secret, label) if v was filled by HKDF-expand"""
    v = unwrap(v)
    cz = cause(v)
    if cz and cz[0].endswith("::expand"):
        hk, info = cz[1][0], cz[1][1]
        hk = unwrap(hk)
        if calls_of(hk, "new") and "Hkdf" in hk.a[2]:
            inf = info
            while inf.op in ("gp", "*", "cast"):
                inf = inf.a[0] if inf.op != "cast" else inf.a[1]
            return hk.a[3][1], desc(inf)
    return None


def same_secret(aes, hmac):
    """both keys belong to the same sender state: fields of one object, or derived from one secret"""
    ka, kh = key_label(aes), key_label(hmac)
    if ka and kh:
        return strip(ka[0]) is strip(kh[0]) and ka[1] != kh[1]
    a, h = strip(aes), strip(hmac)
    return a.op == "f" and h.op == "f" and a.a[1] == "current_aes_key" and h.a[1] == "current_hmac_key" and strip(a.a[0]) is strip(h.a[0])


def cipher_of(v):
    """(key, nonce) of a cipher value"""
    v = unwrap(v)
    while v.op == "mut" or v.op == "old" and len(v.a) > 5:
        v = unwrap(v.a[2] if v.op == "mut" else v.a[3])
    if calls_of(v, "new") and len(v.a[3]) == 2:
        return v.a[3]
    return None


def mac_form(ins):
    """canonical description of what a MAC covers: counter nonce, length and data symbolically"""
    out = []
    for x in ins:
        n = nonce_of(x)
        if n is not None:
            out.append("nonce")
            continue
        b = be_bytes(x)
        if b is not None:
            b = strip(b)
            if b.op == "cast" and strip(b.a[1]).op == "len":
                b = strip(b.a[1])     # a frame is below 4 GiB
            if b.op == "len":
                out.append("len")
            elif b.op == "k":
                out.append(str(b.a[0]))
            else:
                out.append("be(" + desc(b) + ")")
            continue
        out.append("data" if is_data(x) else "?" + full(x))
    return out


def is_data(x):
    while x.op == "mut" or x.op == "old" and len(x.a) > 5:
        x = x.a[2] if x.op == "mut" else x.a[3]
    return strip(x).op == "arg"
