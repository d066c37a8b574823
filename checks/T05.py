"""T05: call-link root keys parse strictly and round-trip in both formats"""
from rules import *

TECHNIQUE = "static analysis: automaton over the state graph (MIR) of the parsers tracking what each consumed character became; the compiler's constant evaluation of the code tables; access-path terms for encryption"
P = "ringrtc::lite::call_links::"
B = P + "base16::"
R = P + "root_key::"
ALPHA = "bcdfghkmnpqrstxz"


def bytes_iter(v):
    return v.op == "call" and re.search(r"Iterator>?::next$|Iter(<.*>)?::next$", v.a[2]) and desc(v.a[3][0]).rstrip("~") == "arg0"


def next_of(v):
    """the iterator element a value is"""
    for _ in range(30):
        if v.op == "call" and v.a[2].endswith("::next"):
            return v
        w = absint.strip1(v)
        if w is None:
            return None
        v = w
    return None


def nibbles(v):
    """(high, low) of an assembled byte"""
    m = None
    if v.op == "lin" and v.a[0] == 0 and len(v.a[1]) == 2:
        ts = list(v.a[1])
        for (x, k), (y, l) in (ts, ts[::-1]):
            if k == 16 and l == 1:
                return x, y
            if x.op == "bin" and x.a[0] == "Shl" and desc(x.a[2]) == "4" and k == l == 1:
                return x.a[1], y
    if v.op == "bin" and v.a[0] in ("BitOr", "BitXor"):
        for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if x.op == "bin" and x.a[0] == "Shl" and desc(x.a[2]) == "4":
                return x.a[1], y
    return m


def strip_cast(v):
    for _ in range(20):
        if v.op == "cast":
            v = [x for x in v.a if isinstance(x, Val)][0]
            continue
        if v.op == "call" and v.a[2].endswith("::position"):
            return v
        w = absint.strip1(v)
        if w is None:
            return v
        v = w
    return v


def check(c):
    F = c.F
    c.rule("alphabet", "the alphabet is the 16 consonants, and the encoding table maps every byte to the two symbols of its nibbles")
    c.rule("encode", "every byte of every group is written as its table entry, with the separator between groups and nowhere else")
    c.rule("decode", "every character of the text is either a symbol that gives one nibble, at its place, or the separator of two groups; anything else is an error, and success is reported only when all of the text was read")
    c.rule("groups", "text is grouped as the formatter writes it")
    c.rule("binary", "a binary key is taken only with the exact length, version byte, and without a repeated block in the random part")
    c.rule("writers", "keys are built nowhere else")
    c.rule("encrypt", "encryption uses a fresh random nonce sent in front, pads to whole blocks after a marker, and appends the tag")
    c.rule("decrypt", "decryption gives out only what authenticated, cut at the marker, and refuses input shorter than the nonce")

    # ---- tables
    fm = F.one("^<" + B + r"ConsonantBase16 as core::fmt::Display>::fmt$")
    g = c.graph(fm)
    tabs = set()
    for e in evs(g):
        if e[0] == "call" and e[1].endswith("::write_str"):
            for v in subvals(e[2][1]):
                if v.op == "static":
                    tabs.add(v.a[0])
    for t in sorted(tabs):
        d = F.data.get(t)
        want = b"".join(bytes((ord(ALPHA[i >> 4]), ord(ALPHA[i & 15]))) for i in range(256))
        c.ob("alphabet", tail(t), d is not None and d == want, "the encoding table is not the table of the consonant alphabet" + ("" if d is None else ": first difference at byte 0x%02x" % next((i // 2 for i in range(len(want)) if i >= len(d) or d[i] != want[i]), 0)))
    c.floor("alphabet", len(tabs), 1)

    # ---- encode
    def enc(q, e):
        pend, first, sep = q
        if e[0] == "assume":
            o = optfact(e)
            v = e[1].a[0] if e[1].op == "discr" else None
            if o and v is not None and v.op == "call" and v.a[2].endswith("::next"):
                chunk = "Chunks" in v.a[2] or "Enumerate" in v.a[2]
                if pend is not None:
                    return Bad("a byte of the key is passed over")
                if chunk:
                    if o[1] == 1:
                        return (None, "?" if "Enumerate" in v.a[2] else "first" if first is None else "more", False)
                    return (None, first, False)
                if o[1] == 1:
                    return (v, first, sep)
            if first == "?" and e[2][0] == "r":
                k, ts = lin(e[1])
                if len(ts) == 1 and k == 0 and desc(next(iter(ts))).endswith(".0") and "enumerate(" in desc(next(iter(ts)), 9):
                    return (pend, "more" if e[2][1] >= 1 else "first" if e[2][2] <= 0 else "?", sep)
        if e[0] == "call" and e[1].endswith("::write_char"):
            if first != "more" or sep:
                return Bad("a separator is written before the first group or twice")
            if "fill(" not in desc(e[2][1]):
                return Bad("the separator is not the formatter's: %s" % desc(e[2][1]))
            return (pend, first, True)
        if e[0] == "call" and e[1].endswith("::write_str"):
            if pend is None:
                return Bad("something is written that is not a byte of the key")
            if first == "?":
                return Bad("a group is written without regard to being the first")
            if first == "more" and not sep:
                return Bad("a group follows the previous one without a separator")
            ix = [v.a[1] for v in subvals(e[2][1]) if v.op == "idx"]
            if len(ix) != 1 or next_of(ix[0]) is not pend:
                return Bad("what is written is not the table entry of the byte: %s" % desc(e[2][1])[:120])
            return (None, first, sep)
        if e[0] == "ret" and ok_ret(e[1]) is not False and pend is not None:
            return Bad("a byte of the key is passed over")
        return q
    c.auto("encode", "every byte", g, (None, None, False), enc)

    # ---- decode
    pf = F.one("^" + B + r"ConsonantBase16::parse_with_separators$")
    g = c.graph(pf)
    npush = [0]

    def symbol(v, el, bind):
        """v is the index, in the alphabet, of the character el"""
        v = strip_cast(v)
        if not (v.op == "call" and v.a[2].endswith("::position") and desc(v.a[3][0]) == repr(ALPHA)):
            return "a nibble is not a position in the alphabet: %s" % desc(v)[:100]
        rets = [x[1] for x in bind if x[0] is v]
        if not rets:
            return "what is looked up is not known"
        for r in rets:
            if r.op != "cmp" or r.a[0] != "Eq":
                return "symbols are compared other than by equality: %s" % desc(r)[:100]
            sides = [desc(x) for x in r.a[1:3]]
            if "elem(%r)" % ALPHA not in sides:
                return "symbols are not compared with the alphabet: %s" % desc(r)[:100]
            o = r.a[2] if sides[0].startswith("elem(") else r.a[1]
            n = next_of(o)
            if n is None or n.a[:3] != el.a[:3]:
                return "the nibble is not that of the character at its place: %s" % desc(r)[:100]
        return None

    def dec(q, e):
        els, st, bind = q
        if e[0] == "call" and e[1].endswith("::position") and e[2][1].op == "agg":
            return (els, st, frozenset(x for x in bind if x[0] != e[2][1].a[1]))
        if e[0] == "exit" and "::{closure" in e[1]:
            return (els, st, frozenset(x for x in bind if x[0] != e[1]) | {(e[1], e[2])})
        if e[0] == "assume":
            v = e[1].a[0] if e[1].op == "discr" else None
            if v is not None and v.op == "call" and v.a[2].endswith("::position") and v.a[3][1].op == "agg":
                o = optfact(e)
                if o and o[1] == 1:
                    return (els, st, bind | {(v, x[1]) for x in bind if x[0] == v.a[3][1].a[1]})
                return q
            if v is not None:
                v = v if v.op == "call" else (next_of(v) or v)
            o = optfact(e)
            if o and v is not None and v.op == "call" and v.a[2].endswith("::next"):
                if bytes_iter(v):
                    if v in els:
                        return q
                    if o[1] == 1:
                        if len(els) >= 2:
                            return Bad("characters are passed over")
                        return (els + (v,), "read", bind)
                    return (els, "end" if not els else "odd", bind)
                if "arg1" in desc(v.a[3][0]):
                    if st == "sep":
                        return ((), "read", frozenset()) if o[1] == 1 else (els, "toolong", bind)
                    if st == "start" and o[1] == 0:
                        return (els, "none", bind)
            if e[1].op == "call" and e[1].a[2].endswith("::contains") and e[2][0] == "e" and e[2][1] == frozenset((1,)) and len(els) == 1:
                if desc(e[1].a[3][0]) != "'-'":
                    return Bad("separators are %s" % desc(e[1].a[3][0]))
                if next_of(e[1].a[3][1]) is els[0]:
                    return (els, "sep", bind)
            if e[2][0] == "r" and e[2][1] == e[2][2] and len(els) == 1:
                k, ts = lin(e[1])
                if len(ts) == 1 and next_of(next(iter(ts))) is els[0]:
                    if e[2][1] - k == 45:
                        return (els, "sep", bind)
        if callev(e, r"Vec(<.*>)?::(push|extend\w*|insert|append)$") and e[0] == "call":
            npush[0] += 1
            nb = nibbles(e[2][1]) if e[1].endswith("::push") else None
            if nb is None:
                return Bad("a decoded byte is not assembled from two symbols: %s" % desc(e[2][1])[:120])
            if len(els) != 2:
                return Bad("a byte is decoded from %d characters" % len(els))
            for i, x in enumerate(nb):
                m = symbol(x, els[i], bind)
                if m:
                    return Bad(m)
            return ((), "read", frozenset())
        if e[0] == "ret":
            if ok_ret(e[1]) is not False:
                if els or st not in ("end", "none"):
                    return Bad("text is accepted although not all of it was decoded (%s)" % {"read": "there may be more of it", "odd": "half a byte is left", "sep": "it ends with a separator", "toolong": "there is more after the last group"}.get(st, st))
        return q
    c.auto("decode", "every character", g, ((), "start", frozenset()), dec)
    c.floor("decode", npush[0], 1)

    # ---- groups
    want = {"V0": [2] * 8, "V1": [4, 4, 4, 4, 1, 4]}
    for n, groups in sorted(want.items()):
        fs = F.one("^<" + R + "CallLinkRootKey" + n + r" as core::convert::TryFrom<&str>>::try_from$")
        g = c.graph(fs, boundary=lambda x: x == pf or "TryFrom<&[u8]>" in x)
        for p in paths(g):
            if p.kind != "ret" or ok_ret(p.ret) is False:
                continue
            pr = p.calls(r"parse_with_separators$")
            sizes = None
            if pr:
                d = desc(pr[0][2][1])
                m = re.match(r"^array\{([\d,]*)\}$", d)
                sizes = [int(x) for x in m.group(1).split(",")] if m else None
                if sizes is None:
                    for v in subvals(pr[0][2][1]):
                        if v.op == "kc" and v.a[0] in F.data:
                            b = F.data[v.a[0]]
                            sizes = [int.from_bytes(b[i:i + 8], "little") for i in range(0, len(b), 8)]
            c.ob("groups", n + " sizes", sizes == groups, "the text form of %s keys is read in groups of %s bytes, it is written in %s" % (n, sizes, groups))
            tf = p.calls(r"CallLinkRootKey" + n + r" as core::convert::TryFrom<&\[u8\]>>::try_from$")
            c.ob("groups", n + " bytes", len(pr) == 1 and len(tf) == 1 and desc(pr[0][2][0]) == "arg0" and "parse_with_separators(arg0" in desc(tf[0][2][0], 9) and "try_from(" in desc(p.ret, 9) or (p.ret.op == "call" and p.ret.a[2].endswith("try_from")), "a %s key is not made from what the text decodes to: %s" % (n, desc(p.ret)[:120]))
        w = F.one("^<" + R + "CallLinkRootKey" + n + r" as .*CallLinkRootKeyOps>::to_formatted_string$")
        g = c.graph(w, bytes=True)
        shown = []
        for e in evs(g):
            if e[0] == "call" and e[1].endswith("::new_display"):
                m = re.search(r"r,(\d+),(\d+)\)", desc(e[2][0]))
                shown.append((int(m.group(1)), int(m.group(2))) if m else full(e[2][0]))
        ok = shown == [(0, 16), (16, 17), (17, 21)] if n == "V1" else shown == ["ConsonantBase16{arg0.crn}"]
        c.ob("groups", n + " text", ok, "the text form of %s keys shows %s" % (n, shown))
    tops = F.one("^<" + R + r"CallLinkRootKey as core::convert::TryFrom<&str>>::try_from$")
    g = c.graph(tops, boundary=lambda x: re.search(r"CallLinkRootKeyV\d as core::convert::TryFrom", x) is not None)
    for p in paths(g):
        if p.kind == "ret" and ok_ret(p.ret) is True:
            v = payload(p.ret)
            n = v.a[2] if v.op == "agg" else None
            c.ob("groups", "text %s" % n, n in want and re.match(r"^CallLinkRootKey::%s\{CallLinkRootKey%s::try_from\(arg0\)(@Ok\.0)?\}$" % (n, n), desc(v)) is not None, "text is taken as %s" % desc(v)[:120])

    # ---- binary
    top = F.one("^<" + R + r"CallLinkRootKey as core::convert::TryFrom<&\[u8\]>>::try_from$")
    one = [F.one("^<" + R + "CallLinkRootKey%s as core::convert::TryFrom<&\\[u8\\]>>::try_from$" % n) for n in sorted(want)]
    nret = [0]
    for ent in [top] + one:
        g = c.graph(ent, bytes=True)
        anyrets = {}
        for e in evs(g):
            if e[0] == "exit" and "::{closure" in e[1]:
                anyrets.setdefault(e[1], set()).add(full(e[2]))

        def binr(q, e):
            pend, done, ver, ln, rep = q
            if e[0] == "assume":
                o = optfact(e)
                v = e[1].a[0] if e[1].op == "discr" else None
                if o and v is not None and v.op == "call" and v.a[2].endswith("::next") and "chunks_exact" in full(v):
                    if pend:
                        return Bad("a block of the key is not looked at")
                    if o[1] == 1:
                        return (True, done, ver, ln, rep)
                    m = re.search(r"chunks_exact\((.*?),2\)", full(v).replace("~", ""))
                    f = full(v)
                    whole = "[0..16]" in f or "sub(T::try_into(arg0),r,0,16)" in f or "[T]::chunks_exact(T::try_into(arg0),2)" in f or "chunks_exact(try_into(arg0),2)" in f
                    return (False, done or bool(m and whole), ver, ln, rep)
                t, f = e[1], e[2]
                if f[0] == "r":
                    k, ts = lin(t)
                    if len(ts) == 1 and k == 0:
                        x = next(iter(ts))
                        d = full(x)
                        if d == "len(arg0)" and f[1] == f[2]:
                            return (pend, done, ver, f[1], rep)
                        if x.op == "bin" and x.a[0] == "Rem" and desc(x.a[2]) == "4369" and "from_" in d and "next(" in d:
                            return (False, done, ver, ln, rep or f[1] == f[2] == 0)
                        if x.op == "bin" and x.a[0] == "BitAnd" and desc(x.a[2]) == "127" and desc(x.a[1]).endswith("[16]"):
                            return (pend, done, f[1] == f[2] == 1, ln, rep)
                        if desc(x).endswith("[16]") and (f[1] == f[2] == 1 or f[1] == f[2] == 0x81):
                            return (pend, done, True, ln, rep)
                if t.op == "call" and t.a[2].endswith("Iterator::any") and f[0] == "e" and "chunks_exact(" in full(t):
                    cl = t.a[3][1]
                    rets = anyrets.get(cl.a[1], ()) if cl.op == "agg" else ()
                    good = bool(rets) and all(re.match(r"^\(bin\(Rem,.*from_..?_bytes\(.*\),4369\) Eq 0\)$|^\(0 Eq bin\(Rem,.*,4369\)\)$", r) for r in rets)
                    if good:
                        return (False, f[1] == frozenset((0,)), ver, ln, f[1] == frozenset((1,)))
            if e[0] == "ret" and ok_ret(e[1]) is not False:
                nret[0] += 1
                d = full(e[1])
                if rep or not done or pend:
                    return Bad("a key is accepted although it has, or was not checked for, a repeated block")
                if "V1{" in d and not ver:
                    return Bad("a versioned key is accepted without its version byte being 1")
                if ent == top and not (ln == 16 and "V0::" not in d and "::V0{" in d or ln == 21 and "::V1{" in d):
                    return Bad("a key of length %s is taken as %s" % (ln, d[:60]))
                if not re.search(r"CallLinkRootKeyV\d\{try_into\(arg0\)\}\}?$", d):
                    return Bad("the key is not the given bytes: %s" % d[:120])
            return q
        c.auto("binary", tail(ent), g, (False, False, False, None, False), binr)
    c.floor("binary", nret[0], 3)
    ok = {"try_from", "without_epoch", "with_epoch", "process_server_response", "default", "clone"}
    n = 0
    for ty, fl in (("CallLinkRootKeyV0", "crn"), ("CallLinkRootKeyV1", "bytes")):
        for fn, k, rv, ln in field_writes(F, ty, fl):
            b = fn.split("::{closure")[0]
            n += 1
            c.ob("writers", "%s %s" % (ty, tail(b)), b.split("::")[-1] in ok and b.startswith(("<" + R, R)) and k == "new" or k == "new" and b.startswith((R, "<" + R)) and only_called_from(F, b, {x for x in F.fns if x.startswith((R, "<" + R)) and x.split("::")[-1] in ok}), "%s makes or changes a root key" % b)
    c.floor("writers", n, 4)

    # ---- encryption
    g = c.graph("^" + R + "CallLinkRootKey::encrypt$", bytes=True)
    nenc = [0]

    def encr(q, e):
        rem, tag = q
        if e[0] == "assume" and e[2][0] == "r":
            k, ts = lin(e[1])
            if len(ts) == 1 and k == 0:
                x = next(iter(ts))
                if x.op == "bin" and x.a[0] == "Rem" and x.a[1].op == "len":
                    return (("0" if e[2][1] == e[2][2] == 0 else "+", desc(x.a[2])), tag)
        if e[0] == "call" and re.search(r"::encrypt\w*$", e[1]) and "make_cipher(arg0" in full(e[2][0]):
            nenc[0] += 1
            nonce, buf = full(e[2][1]), full(e[2][-1], 20)
            if not re.match(r"^fill_bytes!\(arg2,", nonce):
                return Bad("the nonce is not freshly drawn from the random generator: %s" % nonce[:80])
            if full(e[2][2]) not in ("array", "array{}"):
                return Bad("associated data is used: %s" % full(e[2][2]))
            core = "push!(extend_from_slice!(extend_from_slice!(new(),%s),arg1),128)" % nonce
            if rem and rem[0] == "+" and rem[1] != "32" or rem is None:
                return Bad("the text is not padded to blocks of 32 bytes")
            m = re.match(r"^(resize!\()?" + re.escape(core) + r"(?:,(.*?),0\))?\[(len\(rep\(0\)~\)|12)\.\.\]$", buf)
            if not m:
                return Bad("what is encrypted is not text, marker and padding after the nonce: %s" % buf[:160])
            if (m.group(1) is not None) != (rem[0] == "+"):
                return Bad("the padding does not fill the last block")
            if m.group(1) and not re.match(r"^\(32\+-1\*bin\(Rem,(len\(.*?\)),32\)\+\1\)$", m.group(2)):
                return Bad("the padding does not fill the last block: %s" % m.group(2)[:80])
            return (rem, "enc")
        if e[0] == "ret":
            d = full(e[1], 30)
            if tag != "enc":
                return Bad("something is returned that was not encrypted")
            if not re.match(r"^extend_from_slice!\(.*encrypt_in_place_detached!\(.*encrypt_in_place_detached\(", d) or "fill_bytes!(arg2" not in d:
                return Bad("what is returned is not nonce, ciphertext and tag: %s" % d[:120])
        return q
    c.auto("encrypt", "encrypt", g, (None, None), encr)
    c.floor("encrypt", nenc[0], 1)

    g = c.graph("^" + R + "CallLinkRootKey::decrypt$", bytes=True)
    ndec = [0]
    pos = {}
    for e in evs(g):
        if e[0] == "exit" and "::{closure" in e[1]:
            pos.setdefault(e[1], set()).add(full(e[2]))
    for p in paths(g):
        if p.kind == "ret" and ok_ret(p.ret) is not False:
            ndec[0] += 1
            d = full(p.ret, 20).replace("~", "")
            m = re.match(r"^(?:Result::Ok\{)?truncate!\((decrypt\(make_cipher\(arg0@V\d\.0\),(split_at\(arg1,12\)\.0|arg1\[0\.\.12\]),(split_at\(arg1,12\)\.1|arg1\[12\.\.\])\)),rposition\(\1,(\{closure#\d+\})\)\)\}?$", d)
            c.ob("decrypt", "plaintext", m is not None, "decryption returns %s" % d[:160])
            okc = any(o is not None and o[1] == 0 and o[0].startswith("Alg::decrypt(") for o in (optfact(e) for e in p.ass))
            c.ob("decrypt", "authenticated", okc, "decryption succeeds on a path where the ciphertext was not found authentic")
            lo, hi, ne = p.rng({"len(arg1)": 1})
            c.ob("decrypt", "length", lo >= 12, "input shorter than the nonce is not refused")
            if m:
                cl = [x for x in pos if x.endswith("decrypt::" + m.group(4))]
                c.ob("decrypt", "marker", cl and all(re.match(r"^\(elem\(.*\) Eq 128\)$|^\(128 Eq elem\(.*\)\)$", r) for x in cl for r in pos[x]), "the text is cut at something else than the last marker")
    c.floor("decrypt", ndec[0], 1)
    return "other", "every path of the text and binary parsers, the formatter, encryption and decryption; the code table as evaluated by the compiler"
