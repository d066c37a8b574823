"""C08: simultaneous calls (glare) and re-calls are resolved the same way on both sides"""
from cm_lib import *

TECHNIQUE = "decision table of the handling of an offer, read off every path (MIR), against the documented resolution"
CMPR = r"Platform::compare_remotes\(.*,arg1\)"
DEV = "Call::active_device_id("
ACCEPTED = {"ConnectedAndAccepted", "ReconnectingAfterAccepted", "Terminating", "Terminated"}


def situation(F, p, i):
    """what the path knows of the active call when it first acts: the name of the resolution, or None when that is not settled"""
    b = Before(F, p, i)
    q = b.q
    some = found = None
    st = same_ = dev = None
    deveq = q_dev(q)
    cmp_ = None
    for e in q.ass:
        t, f = e[1], e[2]
        ds = desc(t.a[0]) if t.op == "discr" else desc(t)
        if t.op == "discr" and f[0] == "e" and len(f[1]) == 1:
            v = next(iter(f[1]))
            if "Option" in str(t.a[1]) and re.search(r"\.active_call_id$", ds) and not ds.startswith("arg0~"):
                some = v
            elif "HashMap::get(" in ds and "Option" in str(t.a[1]):
                found = v
            elif re.match(r"Call::state\(", ds):
                st = (v == 0) if st is None else st
            elif ds.startswith(DEV):
                dev = (v == 0)
        if t.op != "discr" and re.fullmatch(CMPR, ds) and f[0] == "e" and len(f[1]) == 1:
            same_ = bool(next(iter(f[1])))
    busy = b.truth(r"arg0\.busy")
    if some == 0:
        return {0: "none", 1: "busy"}.get(busy), b
    if some is None:
        return None, b
    if found == 0:
        return "busy", b
    if found is None:
        return None, b
    if st is False:
        return "both", b
    if same_ is not True:
        return "busy", b
    if dev is True:
        if deveq is False:
            return "busy", b
        if deveq is None:
            return None, b
        up = accepted(q)
        if up is None:
            return None, b
        if up:
            return "recall", b
    elif dev is None:
        return None, b
    lo, hi = id_order(q)
    if lo >= 1:
        return "win", b
    if hi <= -1:
        return "lose", b
    if lo == hi == 0:
        return "both", b
    return None, b


def q_dev(q):
    """is the offer's device the active one: True / False / None"""
    for e in q.ass:
        t, f = e[1], e[2]
        if DEV not in desc(t) or t.op == "discr":
            continue
        if "arg3.sender_device_id" not in desc(t):
            continue
        if f[0] == "r":
            if f[1] == f[2] == 0:
                return True
            if 0 in f[3] or f[1] > 0 or f[2] < 0:
                return False
        elif len(f[1]) == 1:
            return bool(next(iter(f[1])))
    return None


def accepted(q):
    left = None
    for e in q.ass:
        o = ordfact(e)
        if o and "CallState::ConnectedAndAccepted" in (o[2], o[1]) and "Call::state(" in o[1] + o[2]:
            if o[2].endswith("ConnectedAndAccepted"):
                return o[0] == ">="         # state >= accepted / state < accepted
    return left


def id_order(q):
    """bounds of (active call's id - the offer's id)"""
    lo, hi = -1 << 70, 1 << 70
    for e in q.ass:
        if e[2][0] != "r":
            continue
        k, terms = lin(e[1])
        got = {}
        for x, n in terms.items():
            dx = desc(x)
            w = "new" if dx == "arg2.id" else "act" if "call_id" in dx and dx.endswith(".id") and dx != "arg2.id" else "?"
            got[w] = got.get(w, 0) + n
        if k == 0 and got == {"act": 1, "new": -1}:
            lo, hi = max(lo, e[2][1]), min(hi, e[2][2])
        elif k == 0 and got == {"act": -1, "new": 1}:
            lo, hi = max(lo, -e[2][2]), min(hi, -e[2][1])
    return lo, hi


END = ["clear", "free"]
START = ["reset", "insert", "taken", "active", "timer", "offer", "start"]
TABLE = {"none": START,
         "busy": ["tell ReceivedOfferWhileActive", "send busy"],
         "win": ["tell ReceivedOfferWithGlare"],
         "lose": END + ["end Normal RemoteGlare"] + START,
         "both": END + ["end Normal RemoteGlare", "tell GlareHandlingFailure", "send busy"],
         "recall": END + ["end - RemoteReCall"] + START}
SAID = {"none": "no call is active", "busy": "the active call is with another peer or device, or a group call is active", "win": "the active call has the higher id", "lose": "the offer has the higher id",
        "both": "the ids are equal", "recall": "the peer's active device calls again"}


def act(e):
    if e[0] == "store":
        sp = store_path(e)
        if sp and sp[-1] == ("CallManager", "busy"):
            return {"0": "free", "1": "taken"}.get(d(e[3]), "busy = " + d(e[3]))
        if sp and sp[-1] == ("CallManager", "active_call_id"):
            x = core(e[3], True)
            return "clear" if variant_of(x) == "None" else "active" if desc(x) == "arg2" or variant_of(x) == "Some" and d(payload(x)) == "arg2" else "active = " + d(x)
        if sp and sp[0][0] == "CallManager" and sp[0][1] != "pending_call_messages":
            return "stores " + sp[0][1]
        return None
    if e[0] != "call":
        return None
    n = last(e[1])
    if re.search(CM + r"\w+$", e[1]):
        if n == "clear_active_call":
            return "clear"
        if n == "release_busy":
            return "free"
        if n == "terminate_call":
            h, r = [variant_of(core(payload(x), True)) if variant_of(x) == "Some" else "-" if variant_of(x) == "None" else d(x) for x in e[2][2:4]]
            return "end %s %s" % (h, r)
        if n == "send_busy":
            return "send busy"
        if n == "notify_application":
            return "tell %s" % variant_of(core(e[2][3], True))
        if n == "reset_messages_in_flight":
            return "reset"
        if n in ("notify_offer_expired", "notify_call_concluded", "check_for_collision"):
            return None
        return n
    if e[1].endswith("HashMap::insert") or re.search(r"HashMap<.*>::insert$", e[1]):
        return "insert"
    if re.search(CALLS, e[1]):
        return {"start_timeout_timer": "timer", "handle_received_offer": "offer", "inject_start_call": "start", "new": None, "remote_peer": None, "state": None, "active_device_id": None,
                "inject_received_ice": None, "inject_received_hangup": None, "summary": None}.get(n, n)
    return None


def check(c):
    F = c.F
    f = F.one(CM + "handle_received_offer$")
    c.rule("resolution", "for every combination of peer, device, call ids, state and busy: the active call and the offer are handled as the documented resolution says")
    c.rule("whom", "it is the active call that is ended, with the offer's peer and id that is reported or answered busy, and the offer's call that starts")
    seen = {}
    n = 0
    for p in steps(c, f, inline=[CM + "check_for_collision$"], expand=[r"validate_offer$"]):
        seq = [(i, act(e)) for i, e in enumerate(p.ev)]
        seq = [(i, a) for i, a in seq if a]
        if not seq:
            if p.kind == "ret" and ok_ret(p.ret) is True and not p.calls("notify_offer_expired$"):
                c.ob("resolution", "nothing", False, "an offer is dropped without being resolved")
            continue
        n += 1
        s, b = situation(F, p, seq[0][0])
        got = [a for _, a in seq]
        if s is None:
            c.ob("resolution", got[0], False, "an offer leads to '%s' before it is known how the calls compare" % got[0])
            continue
        seen[s] = seen.get(s, 0) + 1
        want = TABLE[s]
        whole = p.kind == "ret" and ok_ret(p.ret) is True
        good = follows(got, want, whole)
        c.ob("resolution", s, good, "when %s, an offer leads to: %s" % (SAID[s], ", ".join(got)))
        for i, e in enumerate(p.ev):
            a = act(e)
            if e[0] != "call" or not a:
                continue
            if a.startswith("end "):
                c.ob("whom", "ended", "HashMap::get(arg0.call_by_call_id,arg0.active_call_id)" in d(e[2][1], 400), "the call ended is %s" % d(e[2][1], 80))
            elif a.startswith("tell "):
                c.ob("whom", "told", [d(x) for x in e[2][1:3]] == ["arg1", "arg2"], "the application is told of %s" % [d(x, 40) for x in e[2][1:3]])
            elif a in ("send busy", "timer", "offer", "start", "insert"):
                v = core(e[2][{"send busy": 1, "insert": 2}.get(a, 0)], True)
                new = any(x.op == "call" and re.search(r"core::call::Call::new$", str(x.a[2])) for x in subvals(v))
                c.ob("whom", a, new, "'%s' is done for %s" % (a, desc(v)[:80]))
                if a == "insert":
                    c.ob("whom", "filed", d(e[2][1]) == "arg2", "the call is filed as %s" % d(e[2][1], 60))
        for i, e in each_call(p, r"core::call::Call::new$"):
            c.ob("whom", "made", [d(e[2][0]), d(e[2][1]), variant_of(core(e[2][2], True))] == ["arg1", "arg2", "Incoming"], "the offer's call is made of %s" % [d(x, 40) for x in e[2][:3]])
    for s in TABLE:
        c.floor("paths where %s" % SAID[s], seen.get(s, 0), 1)
    c.rule("order", "states compare in the order of their declaration, and those at least connected and accepted are accepted, reconnecting or ending")
    vs = [v[0] for v in sorted(F.adts["ringrtc::common::CallState"]["vs"], key=lambda v: int(v[1]))]
    pc = [x for x in F.fns if re.search(r"common::CallState as core::cmp::PartialOrd", x)]
    c.ob("order", "derived", bool(pc) and all(F.fns[x].derived for x in pc), "the order of call states is not the derived one")
    c.ob("order", "accepted", set(vs[vs.index("ConnectedAndAccepted"):]) == ACCEPTED, "the states at least accepted are %s" % vs[vs.index("ConnectedAndAccepted"):])
    return "strong", "every path by which an offer is handled: each combination of active call, peer, device, id order and state against the resolution"


def follows(got, want, whole):
    """got is a prefix of want (the whole of it if the handling succeeded); bookkeeping steps of ending and of starting may come in any order among themselves"""
    blocks = []
    for w in want:
        k = "end" if w in END else "start" if w in ("reset", "insert", "taken", "active") else w
        if not blocks or blocks[-1][0] != k:
            blocks.append((k, []))
        blocks[-1][1].append(w)
    i = 0
    for _, ws in blocks:
        left = list(ws)
        while left and i < len(got) and got[i] in left:
            left.remove(got[i])
            i += 1
        if left:
            return i == len(got) and not whole
    return i == len(got)
