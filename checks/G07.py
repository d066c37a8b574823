"""G07: group-call transport keys come from a contributory exchange with the SFU"""
from rules import *
from keys_lib import *

TECHNIQUE = "path tables of the key negotiation state, of joining and of the SFU's answer, and every writer of the state (MIR)"
GC = r"group_call::"
LABEL = "Signal_Group_Call_20211105_SignallingDH_SRTPKey_KDF"
NEGS = ("negotiate_in_place", "negotiate", "start")
ENDS = re.compile(r"group_call::Client::(end|leave_inner)$")
DESC = re.compile(r"SessionDescription::(local|remote)_for_group_call$")


def negotiation(c):
    F = c.F
    f = F.one(GC + r"DheState::negotiate$")
    n = 0
    for p in paths(c.graph(f, deep=True)):
        if p.kind != "ret":
            continue
        frm = p.variant(F, "arg0") or frozenset(("?",))
        r = core(p.ret)
        if frm != {"WaitingForServerPublicKey"}:
            c.ob("negotiation", "outside an exchange", r.op == "arg" and r.a[0] == 0, "in the state %s negotiating leads to %s" % ("/".join(sorted(frm)), desc(r)[:80]))
            continue
        to = r.a[2] if r.op == "agg" and r.a[0] == "adt" else None
        if to == "FailedToNegotiate":
            continue
        if not c.ob("negotiation", "result", to == "Negotiated", "an exchange leads to %s" % desc(r)[:80]):
            continue
        n += 1
        dh = exchange(c, p, "negotiation", "keys", lambda v: re.fullmatch(r"arg0@WaitingForServerPublicKey\.client_secret", full_desc(core(v))),
                      lambda p, v: full_desc(core(v, True)) == "arg1")
        if dh is None:
            continue
        buf = derived(c, "negotiation", "keys", p, dh, LABEL, ["arg2"])
        keys = core(agg_field(r, "srtp_keys"))
        ck, sk = agg_field(keys, "client"), agg_field(keys, "server")
        if buf is None or ck is None or sk is None:
            c.ob("negotiation", "keys", False, "the keys are not built here: %s" % desc(r)[:100])
            continue
        n1, (ks, ss) = suite(c, F, ck)
        n2, _ = suite(c, F, sk)
        if c.ob("negotiation", "suite", n1 == n2 and n1 in ("AeadAes256Gcm", "AeadAes128Gcm") and bool(ks and ss), "suites of client and server: %s, %s" % (n1, n2)):
            halves(c, "negotiation", "keys", buf, [ck, sk], ks, ss)
    c.floor("negotiation", n, 1)
    f = F.one(GC + r"DheState::negotiate_in_place$")
    g = c.graph(f, deep=True, noinline=lambda x: x.endswith("DheState::negotiate"), interest=lambda x: x.endswith("DheState::negotiate"))
    for p in paths(g):
        if p.kind != "ret":
            continue
        ns = [e for e in p.ev if e[0] == "call" and e[1].endswith("DheState::negotiate")]
        ok = len(ns) == 1 and full_desc(core(ns[0][2][0], True)) in ("arg0",) and [full_desc(core(x, True)) for x in ns[0][2][1:]] == ["arg1", "arg2"]
        c.ob("in place", "negotiated", ok, "negotiates %s" % [desc(x) for e in ns for x in e[2]])
        last = [e for e in p.ev if e[0] == "store" and e[1][0] == "H" and full_desc(e[1][1]) == "arg0"]
        w = [e for e in last if ns and same(e[3], ns[0][3])]
        c.ob("in place", "stored", bool(w) and last[-1] is w[-1], "the state afterwards is %s" % (desc(last[-1][3]) if last else "the old one"))


def made(F):
    """[(function, variant)] where a state of the key negotiation is built"""
    out = set()
    for n, f in F.fns.items():
        if "group_call" not in n or "test" in n:
            continue
        for b in f.b:
            for pl, rv, ln in b["s"]:
                if rv["r"] == "agg" and rv["ak"] == "adt" and short(rv["d"]) == "DheState":
                    out.add((n, rv.get("vn") or str(rv.get("v"))))
    return sorted(out)


def joining(c):
    """a new exchange starts only when joining, and the server is sent the public key of the secret that is kept"""
    F = c.F
    ws = [w for w in field_writes(F, "State", "dhe_state") if "group_call" in w[0]]
    starts = sorted({s[0] for s in call_sites(F, GC + r"DheState::start$")} | {w[0] for w in ws if w[1].startswith("set")})
    done = F.one(GC + r"Client::on_sfu_client_join_success$")
    for w in ws:
        if w[1] == "mutref":
            root = re.sub(r"(::\{closure#\d+\})+.*", "", w[0])
            c.ob("joining", "changed in " + tail(root), root == done or only_called_from(F, root, {done}), "%s changes the state of the key negotiation" % tail(root))
    for n, b in made(F):
        neg = F.one(GC + r"DheState::negotiate$")
        ok = b in ("NotYetStarted", "FailedToNegotiate") or (n == neg or only_called_from(F, n, {neg}) if b == "Negotiated" else n.endswith("DheState::start") or n in starts)
        c.ob("joining", "%s in %s" % (b, tail(n)), ok, "%s makes the state %s" % (tail(n), b))
    roots = sorted({re.sub(r"(::\{closure#\d+\})+.*", "", x) for x in starts if not x.endswith("DheState::start")})
    c.floor("starts", len(roots), 1)
    n = 0
    for s in starts:
        if s.endswith("DheState::negotiate_in_place"):
            continue
        g = c.graph(s, deep=True, interest=lambda x: re.search(r"dalek|SfuClient|DheState", x), noinline=lambda x: ENDS.search(x))
        for p in paths(g):
            st = [e for e in p.ev if e[0] == "store" and any(fl == "dhe_state" for o, fl in store_path(e))]
            new = [e for e in p.ev if e[0] == "call" and e[1].endswith("SfuClient::join")]
            for e in st:
                n += 1
                v = core(e[3])
                inst = tail(re.sub(r"::\{closure.*", "", s))
                if not c.ob("joining", inst + " state", v.op == "agg" and v.a[2] == "WaitingForServerPublicKey", "%s sets the key negotiation to %s" % (tail(s), desc(v)[:80])):
                    continue
                js = p.variant(F, r"arg\d+~*\.join_state") or p.variant(F, "arg1.join_state") or p.variant(F, "arg0.join_state")
                c.ob("joining", inst + " only once", js == {"NotJoined"}, "an exchange is started in the join state %s" % (sorted(js) if js else "?"))
                sec = core(agg_field(v, "client_secret"))
                fresh = sec.op == "call" and re.search(r"EphemeralSecret::random(_from_rng)?$", sec.a[2])
                c.ob("joining", inst + " fresh secret", bool(fresh), "the secret is %s" % desc(sec))
                if not c.ob("joining", inst + " sent", len(new) == 1, "an exchange is started without asking to join"):
                    continue
                pks = [x for x in subvals(new[0][2][3]) if x.op == "call" and x.a[2].endswith("::from") and "PublicKey" in x.a[2]]
                c.ob("joining", inst + " public key", len(pks) >= 1 and all(same(x.a[3][0], sec) for x in pks), "the public key sent is that of another secret")
            if new and not st:
                c.ob("joining", "join without exchange", False, "%s asks to join without starting an exchange" % tail(s))
    c.floor("joining", n, 1)
    users = sorted({s[0] for s in call_sites(F, r"group_call::SfuClient::join$|as ringrtc::core::group_call::SfuClient>::join$")})
    for u in users:
        root = re.sub(r"(::\{closure#\d+\})+.*", "", u)
        c.ob("joining", "joins in " + tail(root), root in roots or only_called_from(F, root, set(roots)), "%s asks to join without starting an exchange" % tail(root))
    c.floor("joins", len(users), 1)


def answered(c):
    """the SFU's answer is negotiated once, a failure ends the call, and only negotiated keys reach the connection"""
    F = c.F
    f = F.one(GC + r"Client::on_sfu_client_join_success$")
    step_fn = re.compile(r"DheState::negotiate_in_place$|Client::start_peer_connection$|group_call::Client::end$")
    g = c.graph(f, deep=True, interest=lambda x: re.search(r"negotiate_in_place$|start_peer_connection$", x), noinline=lambda x: step_fn.search(x) or x.endswith("::set_peek_result_inner"))
    seen = {"neg": 0, "start": 0, "end": 0}

    def keyed(v):
        v = core(v, True)
        return v.op == "f" and v.a[1] == "srtp_keys" and "dhe_state@Negotiated.srtp_keys" in full_desc(v)

    def step(q, e):
        if q == "ended" and e[0] == "call" and not re.search(r"log::|fmt::", e[1]) and re.search(r"ringrtc::|observer", e[1], re.I) and not e[1].startswith("core::"):
            if step_fn.search(e[1]) or re.search(r"Client::", e[1]):
                return Bad("goes on with %s after the exchange failed" % tail(e[1]))
        if e[0] == "call" and e[1].endswith("DheState::negotiate_in_place"):
            seen["neg"] += 1
            pk, info = core(e[2][1]), full_desc(core(e[2][2], True))
            if not (pk.op == "call" and pk.a[2].endswith("::from") and "PublicKey" in pk.a[2] and full_desc(core(pk.a[3][0])) == "arg1.server_dhe_pub_key"):
                return Bad("negotiates with the public key %s" % desc(e[2][1]))
            if info != "arg1.hkdf_extra_info":
                return Bad("negotiates with the extra information %s" % info)
            if not full_desc(e[2][0]).endswith(".dhe_state"):
                return Bad("negotiates %s" % desc(e[2][0]))
            return "asked" if q == "no" else Bad("negotiates twice")
        if e[0] == "assume" and e[1].op == "discr" and full_desc(e[1].a[0]).endswith(".dhe_state") and e[2][0] == "e" and q == "asked":
            names = {F_var(F, e[1], i) for i in e[2][1]}
            return "keys" if names == {"Negotiated"} else ("failed" if "Negotiated" not in names else q)
        if e[0] == "call" and e[1].endswith("Client::start_peer_connection"):
            seen["start"] += 1
            if q != "keys":
                return Bad("connects although the keys are not known to be negotiated")
            if not keyed(e[2][3]):
                return Bad("connects with the keys %s" % desc(e[2][3]))
            return "connected"
        if e[0] == "call" and e[1].endswith("group_call::Client::end"):
            seen["end"] += 1
            return "ended" if q == "failed" else q
        return q

    def end(q, n):
        if q in ("failed", "asked"):
            return "returns without ending the call after a failed exchange"
    c.auto("answer", "join answered", g, "no", step, end=end)
    c.floor("answers", min(seen.values()), 1)
    for fn, allowed in (("negotiate_in_place", {f}), ("negotiate", {F.one(GC + r"DheState::negotiate_in_place$")})):
        ss = call_sites(F, GC + r"DheState::%s$" % fn)
        c.floor("callers of " + fn, len(ss), 1)
        for s in ss:
            root = re.sub(r"(::\{closure#\d+\})+.*", "", s[0])
            c.ob("only", "%s in %s" % (fn, tail(root)), root in allowed or only_called_from(F, root, allowed), "%s negotiates keys" % tail(root))


def F_var(F, term, i):
    """name of the variant with discriminant i"""
    ty = term.a[1] if len(term.a) > 1 else None
    return variant_name(F, ty, i)


def variant_name(F, ty, i):
    for t in ([F.tys[ty]] if isinstance(ty, int) else []):
        a = F.adts.get(t.get("a") or t.get("n"))
        if a:
            for v in a["vs"]:
                if v[1] == i:
                    return v[0]
    a = F.adts.get("ringrtc::core::group_call::DheState")
    for v in a["vs"]:
        if v[1] == i:
            return v[0]
    return "?"


def described(c):
    """what is sent is protected with the client's keys, what is received with the server's"""
    F = c.F
    n = 0
    for u in sorted({re.sub(r"(::\{closure#\d+\})+.*", "", s[0]) for s in call_sites(F, DESC.pattern)}):
        if "::core::" not in u:
            continue
        g = c.graph(u, deep=True, interest=lambda x: DESC.search(x) or "set_local_desc" in x or "set_remote_desc" in x, noinline=lambda x: DESC.search(x))
        for p in paths(g):
            for e in p.ev:
                if e[0] != "call":
                    continue
                m = DESC.search(e[1])
                if m:
                    n += 1
                    half = {"local": "client", "remote": "server"}[m.group(1)]
                    k = full_desc(core(e[2][2], True))
                    c.ob("descriptions", m.group(1), re.search(r"^arg\d+(\.|\.srtp_keys\.)?%s$" % half, k) is not None or k.endswith("." + half), "the %s description gets the keys %s" % (m.group(1), k))
                m = re.search(r"PeerConnection::set_(local|remote)_description$", e[1])
                if m:
                    v = core(e[2][2], True)
                    src = DESC.search(v.a[2]) if v.op == "call" else None
                    c.ob("descriptions", m.group(1) + " source", src is not None and src.group(1) == m.group(1), "the %s description is %s" % (m.group(1), desc(v)[:80]))
    c.floor("descriptions", n, 2)
    # which keys the descriptions are made with: the caller's negotiated ones
    m = 0
    for s in call_sites(F, GC + r"Client::set_peer_connection_descriptions$"):
        g = c.graph(re.sub(r"(::\{closure#\d+\})+.*", "", s[0]), deep=True, cap=40, interest=lambda x: x.endswith("set_peer_connection_descriptions"), noinline=lambda x: re.search(r"set_peer_connection_descriptions$|Client::end$", x))
        for e in evs(g):
            if e[0] == "call" and e[1].endswith("set_peer_connection_descriptions"):
                m += 1
                k = full_desc(core(e[2][3], True))
                c.ob("descriptions", "keys in " + tail(s[0]), re.fullmatch(r"arg3|.*\.dhe_state@Negotiated\.srtp_keys", k) is not None, "the descriptions are made with the keys %s" % k)
    c.floor("described", m, 2)
    for s in call_sites(F, GC + r"Client::start_peer_connection$"):
        root = re.sub(r"(::\{closure#\d+\})+.*", "", s[0])
        c.ob("only", "start_peer_connection in " + tail(root), root.endswith("on_sfu_client_join_success") or only_called_from(F, root, {F.one(GC + r"Client::on_sfu_client_join_success$")}), "%s connects" % tail(root))


def check(c):
    negotiation(c)
    joining(c)
    answered(c)
    described(c)
    return "strong", "the exchange and its derivation on every way through the negotiation; every writer of its state; which keys reach which description"
