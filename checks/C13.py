"""C13: 1:1 media keys come from a contributory key exchange bound to both identities"""
from rules import *
from absint import K, Val
from keys_lib import *

TECHNIQUE = "path tables of the key negotiation and automata over every way through the three connection start-ups (MIR)"
CN = r"core::connection::"
LABEL = "Signal_Calling_20200807_SignallingDH_SRTPKey_KDF"
OWN = re.compile(r"^<?(ringrtc|\[T;N\]|&)")


STEPS = r"connection::(negotiate_srtp_keys|generate_local_secret_and_public_key)$|SessionDescription::(disable_dtls_and_set_srtp_key|to_v4|\w+_from_v4)$|PeerConnection::set_(local|remote)_description$|signaling::\w+::(to|from)_v4$|Connection(<.*>)?::start_\w+$|CallManager(<.*>)?::send_offer$"


def steps(root):
    """follow the functions through which a step is reached, and small ones; the steps themselves are not entered"""
    f = re.compile(STEPS)
    return dict(interest=lambda n: n != root and f.search(n), noinline=lambda n: n != root and f.search(n), deep=True)


def negotiate(c):
    F = c.F
    f = F.one(CN + r"negotiate_srtp_keys$")
    g = c.graph(f, deep=True)
    nok = 0
    for p in paths(g):
        if p.kind != "ret" or ok_ret(p.ret) is False:
            continue
        nok += 1
        r = payload(p.ret) if variant_of(p.ret) == "Ok" else p.ret

        def public(p, v):
            b = core(v, True)
            if b.op == "arg" and b.a[0] == 1:
                return True
            copies = [e for e in p.ev if e[0] == "call" and e[1].endswith("::copy_from_slice") and same(core(e[2][0], True), b)]
            return len(copies) == 1 and desc(core(copies[0][2][1], True)) == "arg1" and size(b) == 32
        dh = exchange(c, p, "negotiation", "keys", lambda v: desc(core(v)) == "arg0", public)
        if dh is None:
            continue
        lens = [e for e in p.ass if e[2][0] == "r" and desc(e[1]) == "len(arg1)" and e[2][1:3] == (32, 32)] or \
            [e for e in p.ass if e[1].op == "discr" and e[2] == ("e", frozenset((0,))) and "try_" in desc(e[1]) and "arg1" in desc(e[1])]
        c.ob("negotiation", "keys public key length", bool(lens), "a public key of any length is taken")
        buf = derived(c, "negotiation", "keys", p, dh, LABEL, ["arg2", "arg3"])
        ok, ak = agg_field(r, "offer_key"), agg_field(r, "answer_key")
        if buf is None or ok is None or ak is None:
            c.ob("negotiation", "keys result", False, "the keys are not built here: %s" % desc(p.ret)[:100])
            continue
        n1, (ks, ss) = suite(c, F, ok)
        n2, _ = suite(c, F, ak)
        c.ob("negotiation", "keys suite", n1 == n2 and n1 in ("AeadAes256Gcm", "AeadAes128Gcm") and ks and ss, "suites of offer and answer: %s, %s" % (n1, n2))
        if ks and ss:
            halves(c, "negotiation", "keys", buf, [ok, ak], ks, ss)
    c.floor("negotiation", nok, 1)
    # the public key that is sent belongs to the secret that is kept, and both are new
    f = F.one(CN + r"generate_local_secret_and_public_key$")
    for p in paths(c.graph(f, deep=True)):
        if p.kind != "ret" or ok_ret(p.ret) is False:
            continue
        r = payload(p.ret) if variant_of(p.ret) == "Ok" else p.ret
        parts = r.a[5] if r.op == "agg" else ()
        good = len(parts) == 2 and core(parts[0]).op == "call" and re.search(r"StaticSecret::(random_from_rng|random|new)$", core(parts[0]).a[2])
        c.ob("fresh", "secret", bool(good), "the secret is %s" % desc(r)[:100])
        pk = core(parts[1]) if good else None
        c.ob("fresh", "public key", bool(good) and pk.op == "call" and pk.a[2].endswith("::from") and same(pk.a[3][0], parts[0]), "the public key is %s, not that of the secret" % desc(parts[1] if len(parts) == 2 else r)[:100])


NEG = r"connection::negotiate_srtp_keys$"
SET = r"SessionDescription::disable_dtls_and_set_srtp_key$"
GEN = r"connection::generate_local_secret_and_public_key$"


def startup(c, name, incoming):
    """between receiving a public key and handing over a description, its half of the negotiated keys is set on it"""
    F = c.F
    f = F.one(CN + r"Connection::%s$" % name)
    g = c.graph(f, **steps(f))
    mine = {"set_local_description": "answer" if incoming else "offer", "set_remote_description": "offer" if incoming else "answer"}
    seen = {"neg": 0, "set": 0, "desc": 0}
    caller, callee = ("sender_identity_key", "receiver_identity_key") if incoming else ("receiver_identity_key", "sender_identity_key")
    rec = "arg1" if incoming else "arg4"

    def ident(v):
        v = core(v)
        return v.a[:3] if v.op == "call" else full_desc(v)

    def step(q, e):
        pub, pend, keyed = q
        if e[0] == "assume":
            o = optfact(e)
            if o:
                v = full_desc(e[1].a[0]) if e[1].op == "discr" else ""
                if re.search(r"(^|\.)public_key$", v) and ("to_v4(%s" % rec) in v:
                    return ("some" if o[1] == 1 else "none", pend, keyed)
            if e[1].op == "discr" and e[1].a[0].op == "call" and re.search(SET, e[1].a[0].a[2]) and e[2] == ("e", frozenset((0,))) and pend is not None:
                return (pub, None, keyed | {pend})
            return q
        if callev(e, NEG) and e[0] == "call":
            seen["neg"] += 1
            a = e[2]
            sec = core(a[0])
            good = (core(sec.a[0]).op == "call" and re.search(GEN, core(sec.a[0]).a[2]) and sec.a[1] == "0") if incoming and sec.op == "f" else (not incoming and desc(sec) == "arg1")
            if not good:
                return Bad("keys are negotiated with the secret %s" % desc(a[0])[:100])
            if not (re.search(r"\.public_key$", full_desc(core(a[1], True))) and ("to_v4(%s" % rec) in full_desc(a[1])):
                return Bad("keys are negotiated with the public key %s" % desc(a[1])[:100])
            got = [full_desc(core(x, True)) for x in a[2:4]]
            if got != ["%s.%s" % (rec, caller), "%s.%s" % (rec, callee)]:
                return Bad("caller and callee are taken as %s" % got)
            return q
        if callev(e, SET) and e[0] == "call":
            seen["set"] += 1
            k = core(e[2][1])
            if not (k.op == "f" and re.search(NEG, core(k.a[0]).a[2] if core(k.a[0]).op == "call" else "") and k.a[1] in ("offer_key", "answer_key")):
                return Bad("a description gets the key %s" % desc(e[2][1])[:100])
            return (pub, (ident(e[2][0]), k.a[1].split("_")[0]), keyed)
        if e[0] == "call":
            m = re.search(r"PeerConnection::(set_local_description|set_remote_description)$", e[1])
            if m:
                seen["desc"] += 1
                want = mine[m.group(1)]
                src = ident(e[2][2])
                if pub == "none":
                    return q
                if pub is None:
                    return Bad("%s: whether the other side sent a public key is not looked at" % m.group(1))
                halves = {h for s, h in keyed if s == src}
                if want not in halves:
                    return Bad("%s: the description has %s" % (m.group(1), "no keys" if not halves else "the keys of the %s" % "/".join(halves)))
                if len(halves) > 1:
                    return Bad("%s: the description gets both keys" % m.group(1))
            if re.search(r"SessionDescription::to_v4$", e[1]):
                pk = core(e[2][1], True)
                if not (pk.op == "f" and pk.a[1] == "1" and core(pk.a[0]).op == "call" and re.search(GEN, core(pk.a[0]).a[2])):
                    return Bad("the public key sent is %s" % desc(e[2][1])[:100])
        return q
    c.auto("start-up", name, g, (None, None, frozenset()), step)
    c.floor("start-up of " + name, min(seen.values()), 1)


def check(c):
    F = c.F
    negotiate(c)
    startup(c, "start_incoming", True)
    startup(c, "start_outgoing_child", False)

    # the offer carries the public key of the secret that the answers are later combined with
    f = F.one(CN + r"Connection::start_outgoing_parent$")
    g = c.graph(f, **steps(f))
    n = 0
    for p in paths(g):
        if p.kind != "ret" or ok_ret(p.ret) is False:
            continue
        gens = [e[3] for e in p.ev if e[0] == "call" and re.search(GEN, e[1])]
        v4 = [e for e in p.ev if e[0] == "call" and e[1].endswith("SessionDescription::to_v4")]
        r = core(p.ret)
        if r.op == "agg" and r.a[0] == "tuple" and gens:
            n += 1
            sec, off = core(r.a[5][0]), core(r.a[5][2])
            c.ob("parent", "secret", len(gens) == 1 and sec.op == "f" and sec.a[1] == "0" and same(sec.a[0], gens[0]), "the secret kept is %s" % desc(r.a[5][0])[:100])
            pk = core(v4[0][2][1], True) if len(v4) == 1 else None
            c.ob("parent", "public key", pk is not None and pk.op == "f" and pk.a[1] == "1" and same(pk.a[0], gens[0]), "the public key of the offer is %s" % (desc(pk)[:100] if pk is not None else "?"))
            ok = off.op == "call" and off.a[2].endswith("Offer::from_v4") and len(v4) == 1 and any(same(x, v4[0][3]) for x in off.a[3])
            c.ob("parent", "offer", ok, "the offer sent is %s" % desc(r.a[5][2])[:100])
    c.floor("parent", n, 1)

    # the caller keeps secret and offer together and uses both for every answer
    users = sorted({s[0] for s in call_sites(F, r"Connection::start_outgoing_parent$")})
    c.ob("forking", "starts", len(users) == 1, "the parent is started in %s" % users)
    n = 0
    for u in users:
        g = c.graph(u, **steps(u))
        for p in paths(g):
            st = [e for e in p.ev if e[0] == "store" and any(o == "ForkingState" or f_ == "forking" for o, f_ in store_path(e))]
            for e in st:
                v = core(e[3])
                if v.op != "agg" or "ForkingState" not in v.a[1]:
                    continue
                n += 1
                for fld, i in (("local_secret", "0"), ("offer", "2")):
                    x = core(agg_field(v, fld), True)
                    ok = x.op == "f" and x.a[1] == i and core(x.a[0]).op == "call" and core(x.a[0]).a[2].endswith("start_outgoing_parent")
                    c.ob("forking", "kept " + fld, ok, "what is kept as %s is %s" % (fld, desc(agg_field(v, fld))[:80]))
            for e in p.ev:
                if e[0] == "call" and re.search(r"CallManager(<.*>)?::send_offer$", e[1]):
                    x = core(e[2][-1], True)
                    ok = x.op == "f" and x.a[1] == "2" and core(x.a[0]).op == "call" and core(x.a[0]).a[2].endswith("start_outgoing_parent")
                    c.ob("forking", "sent offer", ok, "the offer sent is %s" % desc(e[2][-1])[:80])
    c.floor("forking", n, 1)
    users = sorted({s[0] for s in call_sites(F, r"Connection::start_outgoing_child$")})
    n = 0
    for u in users:
        g = c.graph(u, **steps(u))
        for p in paths(g):
            for e in p.ev:
                if e[0] == "call" and e[1].endswith("Connection::start_outgoing_child"):
                    n += 1
                    got = [re.search(r"\.(\w+)$", full_desc(core(x, True))) for x in (e[2][1], e[2][3])]
                    got = [m.group(1) if m else "?" for m in got]
                    c.ob("forking", "used", got == ["local_secret", "offer"] and "forking" in full_desc(e[2][1]) and "forking" in full_desc(e[2][3]),
                         "an answer is combined with %s" % got)
                    c.ob("forking", "answer", core(e[2][4], True).op == "arg", "the answer is %s" % desc(e[2][4])[:80])
    c.floor("children", n, 1)

    # nobody else negotiates, sets keys, or hands over descriptions in a 1:1 call
    start = {F.one(CN + r"Connection::%s$" % x) for x in ("start_incoming", "start_outgoing_child", "start_outgoing_parent")}
    for pat, least in ((NEG, 2), (SET, 4), (GEN, 2)):
        ss = [s for s in call_sites(F, pat)]
        c.floor("calls of " + pat, len(ss), least)
        for s in ss:
            root = re.sub(r"::\{closure#\d+\}.*", "", s[0])
            c.ob("only", "%s in %s" % (tail(s[2].get("r") or s[2]["fn"]), tail(root)), root in start or only_called_from(F, root, start), "%s calls %s" % (s[0], pat))
    n = 0
    for s in call_sites(F, r"PeerConnection::set_(local|remote)_description$"):
        root = re.sub(r"::\{closure#\d+\}.*", "", s[0])
        if "::core::connection" in root or "::core::call" in root:
            n += 1
            c.ob("only", "description in " + tail(root), root in start or only_called_from(F, root, start), "%s hands over a description" % s[0])
    c.floor("descriptions", n, 5)
    # setting keys fails loudly and passes the whole key and salt
    f = F.one(r"SessionDescription::disable_dtls_and_set_srtp_key$")
    n = 0
    for p in paths(c.graph(f, deep=True)):
        if p.kind != "ret":
            continue
        call = [e for e in p.ev if e[0] == "call" and e[1].endswith("Rust_disableDtlsAndSetSrtpKey")]
        if ok_ret(p.ret) is not False:
            n += 1
            yes = len(call) == 1 and any(x[1] is call[0][3] and 0 not in (x[2][1] if x[2][0] == "e" else ()) for x in p.ass)
            c.ob("set", "failure", yes, "setting keys is reported as done although the engine refused")
        for e in call:
            got = [full_desc(core(x, True)) for x in e[2][1:]]
            c.ob("set", "arguments", len(got) == 5 and got[0] == "arg1.suite" and "arg1.key" in got[1] and got[2] == "len(arg1.key)" and "arg1.salt" in got[3] and got[4] == "len(arg1.salt)",
                 "the engine is given %s" % got)
    c.floor("set", n, 1)
    return "strong", "the exchange, its derivation and its binding on every way through the negotiation; which half of the keys reaches which description on every way through the start-ups"
