"""G01: a media frame is decrypted only after its MAC verified; failures change nothing"""
from crypto_lib import *

TECHNIQUE = "static analysis: typestate automaton over the inlined state graph (MIR), with symbolic terms for MACs, nonces and keys"


def verified(e):
    """(key, inputs, tag bytes, received tag) of an assumption that a MAC comparison succeeded; False if it failed"""
    if e[0] != "assume" or e[2][0] != "e":
        return None
    v = strip(e[1]) if e[1].op != "discr" else e[1]
    if v.op == "call" and v.a[2].endswith("::ct_eq"):
        a, b = v.a[3][0], v.a[3][1]
        t, o = tag_of(a), b
        if t is None:
            t, o = tag_of(b), a
        if t is None:
            return None
        return (t, o) if e[2][1] == frozenset((1,)) else False
    if v.op == "discr":
        w = strip(v.a[0])
        if w.op == "call" and w.a[2].endswith("::verify_truncated_left") and e[2][1] == frozenset((0,)):
            t = tag_of(mk("call", -1, -1, "x::finalize", (w.a[3][0],)))
            return ((t[0], t[1], 16), w.a[3][1]) if t else None
    return None


def check(c):
    F = c.F
    c.rule("verify-first", "data is decrypted only after a MAC with the same sender state's key over nonce, length and exactly this data compared equal, in constant time, to the whole received tag")
    c.rule("state", "receiver states change only after that, and by the state the MAC verified under")
    c.rule("outcome", "success is returned exactly when the data was decrypted once; otherwise an error is returned and neither data nor receiver states were touched")
    c.rule("agreement", "the sender computes its tag over the same sequence, over the ciphertext, with the same key derivation and tag size")
    ent = F.one("^" + X + "Context::decrypt$")
    g = c.graph(ent, widen=1, bytes=True)
    forms = set()
    keys = set()
    nver = [0]

    def step(q, e):
        ver, dec = q
        r = verified(e)
        if r:
            (key, ins, n), tag = r
            nver[0] += 1
            if desc(tag) != "arg5":
                return Bad("the computed tag is compared with %s, not the whole received tag" % desc(tag))
            if n != 16 and n is not None or n is None:
                return Bad("only %s bytes of the tag are compared" % n)
            form = mac_form(ins)
            forms.add(tuple(form))
            dat = [x for x in ins if is_data(x)]
            if len(dat) != 1 or desc(dat[0]) != "arg4" or dat[0].op == "mut":
                return Bad("the MAC does not cover exactly the received ciphertext: %s" % form)
            nn = [nonce_of(x) for x in ins if nonce_of(x) is not None]
            if len(nn) != 1 or desc(nn[0]) != "arg3":
                return Bad("the MAC does not cover the nonce made from the frame counter: %s" % form)
            return ((key,), dec)
        if e[0] == "call":
            if e[1].endswith("::apply_keystream"):
                ck = cipher_of(e[2][0])
                if strip(e[2][1]).op != "arg" and not is_data(e[2][1]):
                    return q
                if ver is None:
                    return Bad("data is decrypted before its MAC was verified")
                if dec:
                    return Bad("data is decrypted twice")
                if ck is None or not same_secret(ck[0], ver[0]):
                    return Bad("data is decrypted with a key of another state than the one its MAC verified under")
                n = nonce_of(ck[1])
                if n is None or desc(n) != "arg3":
                    return Bad("data is decrypted with a nonce that is not made from the frame counter")
                return (ver, True)
            if re.search(r"(Vec|VecDeque|HashMap|Entry|slice::\[T\]|\[T\])::(insert|remove|pop|push|clear|truncate|retain|swap|swap_remove|drain|rotate_left|rotate_right|sort\w*|reverse|pop_front|pop_back|push_front|push_back|fill|remove_entry|and_modify)$", e[1]) and e[2] and mentions_field(e[2][0], "Context", "remote_states_by_id"):
                if ver is None:
                    return Bad("receiver states are changed (%s) before a MAC verified" % tail(e[1]))
            if e[1].endswith("::copy_from_slice") or e[1].endswith("::fill"):
                if is_data(e[2][0]) and desc(e[2][0]).startswith("arg4") and ver is None:
                    return Bad("the data is overwritten before its MAC was verified")
        if e[0] == "store":
            root = e[1]
            sp = store_path(e)
            base = root[1] if root[0] == "H" else None
            if base is not None and mentions_field(base, "Context", "remote_states_by_id"):
                if ver is None:
                    return Bad("a receiver state is changed before a MAC verified")
                v = e[3]
                if v.op == "agg" and short(v.a[1] or "") == "ReceiverState":
                    ss = agg_field(v, "sender_state")
                    hk = agg_field(ss, "current_hmac_key") if ss is not None else None
                    if hk is None or not (strip(hk) is strip(ver[0]) or key_label(hk) and key_label(ver[0]) and key_label(hk) == key_label(ver[0])):
                        return Bad("a receiver state is replaced by one the MAC did not verify under")
            elif base is not None and desc(base).startswith("arg4") and not dec and ver is None:
                return Bad("the data is changed before its MAC was verified")
            elif sp and sp[-1][0] == "Context" and sp[-1][1] != "decryption_error_tracker":
                return Bad("decrypting changes %s" % sp[-1][1])
        if e[0] == "ret":
            ok = ok_ret(e[1])
            if ok is True and not dec:
                return Bad("success is returned for data that was not decrypted")
            if ok is False and dec:
                return Bad("an error is returned after the data was decrypted")
            if ok is False and ver is not None:
                return Bad("an error is returned although the MAC verified")
            if ok is None:
                return Bad("cannot tell whether decrypt succeeded: %s" % desc(e[1]))
        return (ver, dec)
    c.auto("verify-first", "decrypt", g, (None, False), step)
    # both kinds of state tried (a matching one, a ratcheted one), both outcomes exist
    nks = sum(1 for nd in g.nodes for e in nd.ev if e[0] == "call" and e[1].endswith("::apply_keystream"))
    c.floor("verify-first", min(nks, 1) + min(nver[0], 1), 2)
    rets = [e for nd in g.nodes for e in nd.ev if e[0] == "ret"]
    c.ob("outcome", "both outcomes", any(ok_ret(e[1]) for e in rets) and any(ok_ret(e[1]) is False for e in rets), "decrypt has only one outcome")
    # only the decrypting context function applies a keystream to received data; nobody else changes receiver states
    n = 0
    for fn, kind, rv, ln in field_writes(F, "ReceiverState", "sender_state"):
        n += 1
        base = fn.split("::{")[0]
        ok = base.startswith(X + "ReceiverState::") or base.startswith(X + "Context::") or base.startswith("<" + X)
        c.ob("state", "ReceiverState.sender_state in " + tail(fn), ok, "%s changes receiver states" % fn)
    c.floor("state", n, 1)

    # ---- the sender's side
    g2 = c.graph("^" + X + "Context::encrypt$", bytes=True)
    n = 0
    for p in paths(g2):
        if p.kind != "ret" or ok_ret(p.ret) is False:
            continue
        ks = [e for e in p.calls("::apply_keystream$")]
        st = [e for e in p.ev if e[0] == "store" and e[1][0] == "H" and desc(e[1][1]) == "arg2"]
        good = len(ks) == 1 and st
        c.ob("agreement", "encrypts once", good, "a frame is not encrypted exactly once, or its tag not written")
        if not good:
            continue
        n += 1
        t = tag_of(st[-1][3])
        c.ob("agreement", "tag is an HMAC", t is not None and t[2] == 16, "the tag written is %s, not 16 bytes of an HMAC" % full(st[-1][3])[:200])
        if t is None:
            continue
        form = mac_form(t[1])
        c.ob("agreement", "same sequence", (tuple(form) in forms and len(forms) == 1) or not forms, "the sender authenticates %s, the receiver %s" % (form, sorted(forms)))
        dat = [x for x in t[1] if is_data(x)]
        c.ob("agreement", "over the ciphertext", len(dat) == 1 and dat[0].op == "mut" and dat[0].a[3][0].endswith("::apply_keystream") and desc(dat[0]).rstrip("~") == "arg1", "the tag is not computed over the ciphertext")
        ck = cipher_of(ks[0][2][0])
        c.ob("agreement", "same state", ck is not None and same_secret(ck[0], t[0]), "encryption key and MAC key do not belong to the same sender state")
        nn = [nonce_of(x) for x in t[1] if nonce_of(x) is not None]
        nc = nonce_of(ck[1]) if ck else None
        c.ob("agreement", "nonce covered", len(nn) == 1 and nc is not None and desc(nn[0]) == desc(nc), "the tag does not cover the nonce the frame is encrypted with")
    c.floor("agreement", n, 1)
    c.ob("agreement", "form", all("nonce" in f and "len" in f and "data" in f for f in forms), "the MAC does not cover nonce, length and data: %s" % sorted(forms))
    return "other", "automaton over every path of Context::decrypt with all helpers inlined; MAC, nonce and key terms compared symbolically with the sender's"
