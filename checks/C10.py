"""C10: stale offers and stale group rings never ring"""
from cm_lib import *

TECHNIQUE = "path tables of the call manager's handling of offers and ring messages, who-may-call rules, and the origin of the ages given by the front ends (MIR)"
STARTS = r"core::call::Call::(new|inject_\w+|handle_received_offer|start_timeout_timer)$|HashMap::insert$|" + CM + r"(notify_application|terminate_\w+|send_busy|check_for_collision|clear_active_call)$"


def offers(c):
    c.rule("offer", "an offer has an effect only when it is known not to be older than the maximum age; an older one is reported expired with its age, then concluded, and nothing else")
    F = c.F
    f = F.one(CM + "handle_received_offer$")
    n = m = 0
    for p in steps(c, f, expand=[r"validate_offer$"]):
        old = Before(F, p, len(p.ev)).older(r"arg3\.age")
        for i, e in enumerate(p.ev):
            if e[0] == "call" and re.search(STARTS, e[1]) or e[0] == "store" and store_path(e) and store_path(e)[0][0] == "CallManager":
                n += 1
                b = Before(F, p, i)
                c.ob("offer", "effect", b.older(r"arg3\.age") is False, "an offer has the effect %s without being known to be recent enough" % (tail(e[1]) if e[0] == "call" else store_path(e)))
            elif e[0] == "call" and re.search(CM + r"notify_offer_expired$", e[1]):
                m += 1
                b = Before(F, p, i)
                c.ob("offer", "expired", b.older(r"arg3\.age") is True, "an offer that is not too old is reported as expired")
                c.ob("offer", "expired which", [d(x) for x in e[2][1:4]] == ["arg1", "arg2", "arg3.age"], "the expiry reported is of %s" % [d(x, 40) for x in e[2][1:4]])
            elif e[0] == "call" and re.search(CM + r"notify_call_concluded$", e[1]):
                b = Before(F, p, i)
                c.ob("offer", "concluded", b.older(r"arg3\.age") is True and bool(b.called("notify_offer_expired$")) and [d(x) for x in e[2][1:3]] == ["arg1", "arg2"], "an offer is concluded without having been reported expired")
        if old is True and p.kind == "ret" and ok_ret(p.ret) is True:
            m += 1
            q = Before(F, p, len(p.ev))
            c.ob("offer", "told", bool(q.called("notify_offer_expired$")) and bool(q.called("notify_call_concluded$")), "a stale offer is dropped without telling the application")
    c.floor("effects of an offer", n, 10)
    c.floor("expired offers", m, 2)
    v = F.one(r"core::call_manager::validate_offer$")
    k = 0
    for p in paths(c.graph(v, deep=True)):
        if p.kind != "ret":
            continue
        k += 1
        old, r = Before(F, p, len(p.ev)).older(r"arg0\.age"), ok_ret(p.ret)
        c.ob("offer", "validation", old is not None and r is (not old), "an offer is judged %s when it is %s" % ("valid" if r else "expired", {True: "too old", False: "recent", None: "of any age"}[old]))
    c.floor("outcomes of validating an offer", k, 2)


def rings(c):
    c.rule("ring", "a ring is reported as ringing (and remembered) only if it is a ring, not older than the maximum age and the user is not busy; an older one is only reported expired; each report names the group, the ring and the sender of the message")
    F = c.F
    f = F.one(CM + "handle_received_call_message$")
    UPD = r"Platform(<.*>)?(>)?::group_call_ring_update$"
    start = CM + "start_group_ring$"
    M = r".*Message::decode\(arg4\)\.ring_intention"
    seen = {}
    n = 0
    for p in steps(c, f):
        for i, e in each_call(p, UPD + "|" + start + "|" + CM + "cancel_group_ring$"):
            n += 1
            b = Before(F, p, i)
            is_ring = b.q.rng({t: 1 for t in [next((desc(x[1]) for x in b.q.ass if re.fullmatch(M + r"\.type", desc(x[1]))), "?")]})[:2] == (0, 0)
            old, busy = b.older("arg5"), b.truth(r"arg0\.busy")
            if e[1].endswith("start_group_ring"):
                c.ob("ring", "starts", is_ring and old is False and busy == 0, "a ring starts although it is %s" % why(is_ring, old, busy))
                args = [d(x) for x in e[2][1:4]]
                c.ob("ring", "starts which", bool(re.fullmatch(M + r"\.group_id", args[0]) and re.fullmatch(M + r"\.ring_id", args[1])) and args[2] == "arg1", "the ring started is %s" % args)
                continue
            if e[1].endswith("cancel_group_ring"):
                c.ob("ring", "cancels", is_ring and old is False and busy == 1 and variant_of(core(payload(core(e[2][3], True)) or e[2][3], True)) == "Busy", "a ring is answered busy although it is %s" % why(is_ring, old, busy))
                continue
            u = variant_of(core(e[2][4], True))
            seen.setdefault(u, 0)
            seen[u] += 1
            args = [d(x) for x in e[2][1:4]]
            if u in ("AcceptedOnAnotherDevice", "BusyOnAnotherDevice", "DeclinedOnAnotherDevice"):
                own = any(o and {x, y} == {"arg0.self_uuid", "arg1"} for x, y, o in b.eqs()) or any("self_uuid" in x + y and o for x, y, o in b.eqs())
                c.ob("ring", u, own, "%s is reported for a message that another user sent" % u)
                continue
            c.ob("ring", "which", bool(re.fullmatch(M + r"\.group_id", args[0].replace("take(", "").rstrip(")")) or "group_id" in args[0]) and bool(re.fullmatch(M + r"\.ring_id", args[1])) and args[2] == "arg1", "the ring reported is %s" % args)
            if u == "Requested":
                c.ob("ring", "requested", is_ring and old is False and busy == 0 and bool(b.called(start)), "a ring is reported as ringing although it is %s" % why(is_ring, old, busy))
            elif u == "ExpiredRequest":
                c.ob("ring", "expired", is_ring and old is True, "a ring is reported as expired although it is %s" % why(is_ring, old, busy))
            elif u == "BusyLocally":
                c.ob("ring", "busy", is_ring and old is False and busy == 1 and bool(b.called(CM + "cancel_group_ring$")), "a ring is reported as busy although it is %s" % why(is_ring, old, busy))
            elif u == "CancelledByRinger":
                gone = b.called(CM + "remove_outstanding_group_ring$")
                c.ob("ring", "cancelled", not is_ring and bool(gone) and "arg1" in d(gone[-1][2][2]), "a ring is reported as cancelled although it is %s" % why(is_ring, old, busy))
            else:
                c.ob("ring", "update %s" % u, False, "a received message causes the update %s" % u)
        # a stale ring is not silently lost
        b = Before(F, p, len(p.ev))
        if b.older("arg5") is True and p.kind == "ret" and ok_ret(p.ret) is True:
            us = [variant_of(core(e[2][4], True)) for e in b.called(UPD)]
            c.ob("ring", "stale", us == ["ExpiredRequest"], "a stale ring is reported as %s" % us)
    c.floor("steps for rings", n, 6)
    c.floor("kinds of ring updates", len(set(seen) & {"Requested", "ExpiredRequest", "BusyLocally", "CancelledByRinger"}), 4)
    # who else reports rings
    sg = F.one(CM + "start_group_ring$")
    k = 0
    for fn, bi, ref, t in call_sites(F, UPD):
        if "Platform" in fn:
            continue
        k += 1
        root = fn.split("::{closure")[0]
        c.ob("ring", "reporter %s" % tail(root), root == f or root == sg or only_called_from(F, root, {f, sg}), "%s reports rings" % short(fn))
    for fn in F.callers().get(sg, ()):
        c.ob("ring", "starter %s" % tail(fn), fn == f or only_called_from(F, fn, {f}), "%s starts rings" % short(fn))
    for p in steps(c, sg, inline=["start_group_ring"]):
        for i, e in each_call(p, UPD):
            c.ob("ring", "timeout", variant_of(core(e[2][4], True)) == "ExpiredRequest", "a ring that started is later reported as %s" % variant_of(core(e[2][4], True)))
    c.floor("reporters of rings", k, 2)


def why(is_ring, old, busy):
    return ", ".join(["a ring" if is_ring else "not known to be a ring", {True: "too old", False: "recent", None: "of any age"}[old], {1: "the user busy", 0: "the user free", None: "busy unknown"}[busy]])


def opaque(c):
    c.rule("opaque ring", "the check of a ring before the application is started accepts exactly what the call manager would ring for: a ring, not too old, with group and ring id, and not rejected by the application")
    F = c.F
    f = F.one(r"core::call_manager::validate_call_message_as_opaque_ring$")
    n = 0
    for p in paths(c.graph(f, deep=True, interest=lambda n: False)):
        if p.kind != "ret":
            continue
        n += 1
        b = Before(F, p, len(p.ev))
        is_ring = p.rng({"arg0.ring_intention.type": 1})[:2] == (0, 0)
        old = b.older("arg1")
        rej = [next(iter(e[2][1])) for e in b.q.ass if e[1].op != "discr" and e[2][0] == "e" and len(e[2][1]) == 1 and re.search(r"FnOnce|call_once|<indirect>", desc(e[1]))]
        parts = all(any(optfact(e) and optfact(e) == ("arg0.ring_intention" + x, 1) for e in b.q.ass) for x in ("", ".group_id", ".type", ".ring_id"))
        r = ok_ret(p.ret)
        v = variant_of(core(payload(p.ret), True)) if r is False else None
        if r is True:
            c.ob("opaque ring", "accepted", is_ring and parts and old is False and rej[-1:] == [1], "a ring is accepted although it is %s" % why(is_ring, old, None))
        elif v == "Expired":
            c.ob("opaque ring", "expired", is_ring and parts and old is True, "a ring is called expired although it is %s" % why(is_ring, old, None))
        elif v == "RejectedByCallback":
            c.ob("opaque ring", "rejected", rej[-1:] == [0] and old is False, "a ring is rejected although the application accepts it")
        else:
            c.ob("opaque ring", "not a ring", r is False and v == "NotARing" and not (is_ring and parts), "a ring is taken for another message")
    c.floor("outcomes for an opaque ring", n, 4)


def ages(c):
    c.rule("age", "the front ends pass on the age they are given: every ReceivedOffer and every call message carries an age that is made only from an argument of the front end")
    F = c.F
    n = 0
    for fn, f in F.fns.items():
        if not re.search(r"::(android|ios|electron)::", fn) or "{closure" in fn:
            continue
        hit = False
        for b in f.b:
            t = b["t"]
            if any(s[1].get("r") == "agg" and str(s[1].get("n", "")).endswith("signaling::ReceivedOffer") for s in b["s"] if isinstance(s[1], dict)):
                hit = True
            if t["k"] == "call" and t["f"]["k"] == "fn" and re.search(r"call_manager::(validate_call_message_as_opaque_ring|CallManager(<.*>)?::received_call_message|CallManager(<.*>)?::received_offer)$", t["f"]["f"].get("r") or t["f"]["f"]["fn"]) and re.search(r"::core::", t["f"]["f"].get("r") or t["f"]["f"]["fn"]):
                hit = True
        if not hit:
            continue
        for v in ages_in(c, fn):
            n += 1
            x = desc(core(v, True))
            ok = bool(re.fullmatch(r"(Duration::from_secs\()?(cast\()?(arg\d+|.*argument\(.*)\)*(\.\w+)?\)*", x)) or re.search(r"argument\(|from_secs\(arg\d+\)", x)
            c.ob("age", tail(fn), bool(ok), "the age passed on is %s" % x[:120])
    c.floor("ages passed on", n, 4)


def ages_in(c, fn):
    rx = re.compile(r"core::call_manager::(validate_call_message_as_opaque_ring|validate_offer|CallManager(<.*>)?::(received_call_message|received_offer))$")
    seen = {}
    g = c.graph(fn, interest=lambda n: rx.search(n), noinline=lambda n: rx.search(n), deep=True, max_nodes=60000)
    for node in g.nodes:
        for e in list(node.ev) + [x for ee, j in node.succ for x in ee]:
            if e[0] == "call" and rx.search(e[1]):
                a = e[2]
                if e[1].endswith("received_offer"):
                    v = agg_field(core(a[3], True), "age")
                elif e[1].endswith("::validate_offer"):
                    v = agg_field(core(a[0], True), "age")
                elif e[1].endswith("as_opaque_ring"):
                    v = a[1]
                else:
                    v = a[5]
                seen[desc(v) if v is not None else "?"] = v
    return [v for v in seen.values() if v is not None]


def check(c):
    offers(c)
    rings(c)
    opaque(c)
    ages(c)
    return "strong", "every path by which an offer or a ring message is handled, decided for every age, ring type and busy state"
