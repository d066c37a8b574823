"""C01: the 1:1 call lifecycle moves only as documented; a terminating call is inert"""
from fsm_lib import *

TECHNIQUE = "transition and action table read off every path of the call state machine's event dispatch, with automata over state writers and teardown (MIR)"
CL = r"core::call::Call::"
OVER = {"Terminating", "Terminated"}
ALWAYS = {"SendHangupViaRtpDataToAll", "Synchronize", "Terminate"}
NS, WP, CB, CA, OB, OA, RA = ("NotYetStarted", "WaitingToProceed", "ConnectingBeforeAccepted", "ConnectingAfterAccepted", "ConnectedBeforeAccepted", "ConnectedAndAccepted",
                              "ReconnectingAfterAccepted")
TG = "Terminating"
LIVE = {WP, CB, CA, OB, OA, RA}
# the documented moves: (event, new connection state) -> [(direction or None, from, to, only from the active device)]
MOVES = {
    ("StartCall", None): [(None, NS, WP, False)],
    ("Proceed", None): [(None, WP, CB, False)],
    ("AcceptCall", None): [(None, OB, OA, False)],
    ("ReceivedHangup", None): [(None, s, TG, False) for s in sorted(LIVE)],
    ("StateChanged", OB): [("Incoming", CB, OB, False), ("Outgoing", CB, OB, False)],
    ("StateChanged", CA): [("Outgoing", CB, CA, False), ("Outgoing", OB, CA, False)],
    ("StateChanged", OA): [("Outgoing", CA, OA, True), ("Outgoing", OB, OA, False), (None, RA, OA, True)],
    ("StateChanged", RA): [(None, OA, RA, True)],
}
# deferred or immediate work -> the events and the call states in which it may be asked for
WORK = {
    "handle_start_call": [("StartCall", {NS})],
    "proceed": [("Proceed", {WP})],
    "accept_locally": [("AcceptCall", {OB})],
    "received_answer": [("ReceivedAnswer", {CB, OB})],
    "received_ice": [("ReceivedIce", LIVE)],
    "accept_remotely": [(("StateChanged", OA), {CA, OB})],
    "set_active_device_id": [(("StateChanged", CA), {CB, OB}), (("StateChanged", OA), {OB})],
    "terminate_connections_except_accepted": [(("StateChanged", CA), {CB, OB}), (("StateChanged", OA), {OB})],
    "send_hangup_via_rtp_data_to_all_except": [(("StateChanged", CA), {CB, OB}), (("StateChanged", OA), {OB})],
    "send_hangup_via_signaling_to_all": [(("StateChanged", CA), {CB, OB}), (("StateChanged", OA), {OB})],
    "send_hangup_via_rtp_data_and_signaling_to_all_except": [("ReceivedHangup", {WP, CB, OB})],
    "regather_on_all_networks": [(("StateChanged", RA), {OA})],
    "handle_ice_failed": [(("StateChanged", "IceFailed"), LIVE | {NS})],
    "timeout": [("CallTimeout", {NS, WP, CB, CA, OB})],
    "remote_hangup": [("ReceivedHangup", LIVE | {NS})],
    "internal_error": [("InternalError", LIVE | {NS}), ("ConnectionObserverError", LIVE | {NS})],
    "send_hangup_via_rtp_data_to_all": [("SendHangupViaRtpDataToAll", LIVE | OVER)],
    "notify_network_route_changed": [(("IceNetworkRouteChanged",), LIVE | {NS})],
    "notify_audio_levels": [(("AudioLevels",), LIVE | {NS})],
    "notify_low_bandwidth_for_video": [(("LowBandwidthForVideo",), LIVE | {NS})],
}
# what the application is told -> when: (what, direction, states)
TOLD = {
    "LocalRinging": [(("StateChanged", OB), "Incoming", {CB})],
    "RemoteRinging": [(("StateChanged", OB), "Outgoing", {CB}), (("StateChanged", OA), "Outgoing", {CA})],
    "Reconnecting": [(("StateChanged", RA), None, {OA})],
    "Reconnected": [(("StateChanged", OA), None, {RA})],
}
STATUS = {"Remote%s%s" % (a, b) for a in ("Audio", "Video", "SharingScreen") for b in ("Enable", "Disable")}
# work that may still run once the call is ending
ENDING = {"remote_hangup", "timeout", "internal_error"}


def cause(e):
    """the event behind an entry: a name, or (kind of connection event, new connection state)"""
    if e.event != "ConnectionObserverEvent":
        return set(e.events)
    out = set()
    for o in e.obs:
        if o == "StateChanged":
            out |= {("StateChanged", s) for s in e.conn}
        elif o == "ReceivedHangup":
            out.add("ReceivedHangup")
        else:
            out.add((o,))
    return out


def allowed(spec, cs, states):
    for s, st in spec:
        if cs == {s} and states <= st:
            return True
    # several causes at once: each of them
    return all(any(x == s and states <= st for s, st in spec) for x in cs) and bool(cs)


def table(c):
    c.rule("quiet", "once the call is terminating or terminated, an event other than the final RTP hang-up, synchronisation and teardown makes the dispatch do nothing: no state change, no work handed on, no message, no report; every such pair of event and state was seen")
    c.rule("moves", "set_state is called only for the documented moves, on this call, before work for it is handed on; and a documented move is made whenever its event arrives in its state")
    c.rule("work", "each piece of work is asked for only by its events in its states")
    c.rule("deferred", "work handed to the worker or notification thread looks again whether the call is ending, except what ends it")
    c.rule("told", "the application is told of ringing, reconnecting and reconnected only at the documented moves, and exactly once for each")
    c.rule("teardown", "the Terminate event closes the event queue, stops both threads, sets Terminated and reports completion, in this order, and nothing else")
    g, es, allv = call_table(c)
    n = nd = nt = 0
    covered, made, used, told = set(), {}, {}, set()
    for e in es:
        what = e.what()
        cs = cause(e)
        over = e.states & OVER
        if over and not e.events & ALWAYS:
            covered |= {(x, s) for x in e.events for s in over}
            c.ob("quiet", what, not e.acts, "while terminating, %s still leads to %s" % (what, e.acts and e.acts[0].name))
        elif over and e.events <= {"Synchronize"}:
            c.ob("quiet", what, not e.acts, "synchronisation does %s" % [a.name for a in e.acts])
        for a in e.acts:
            n += 1
            if a.name == "ref_count":
                continue
            if a.name == "set_state":
                to = a.args[0].split("::")[-1] if a.args else "?"
                if e.events == {"Terminate"}:
                    c.ob("moves", "Terminate", to == "Terminated", "the end of the state machine moves the call to %s" % to)
                    continue
                ok = bool(cs) and not a.deferred
                for x in cs:
                    key = x if isinstance(x, tuple) and len(x) == 2 else (x, None)
                    ms = MOVES.get(key, ())
                    for s in e.states:
                        good = [m for m in ms if m[1] == s and m[2] == to and (m[0] is None or e.dir == {m[0]}) and (not m[3] or dict(a.k).get("sender") == "active")]
                        if key[0] == "ReceivedHangup" and not good:
                            good = [1] if s in LIVE and to == TG else []
                        ok = ok and bool(good)
                        if good:
                            made.setdefault(key, set()).add((s, to))
                c.ob("moves", "%s to %s" % (what, to), ok, "%s moves a call (%s) from %s to %s" % (what, "/".join(sorted(e.dir)), "/".join(sorted(e.states))[:150], to))
                continue
            if a.name == "notify_application":
                nt += 1
                told |= {(a.args and a.args[0].split("::")[-1], x) for x in cs}
                ev = a.args[0].split("::")[-1] if a.args else "?"
                if ev in STATUS:
                    ok = cs == {("RemoteSenderStatusChanged",)} and e.states <= {OA, RA}
                else:
                    ok = any(cs == {x} and e.states <= st and (d is None or e.dir == {d}) for x, d, st in TOLD.get(ev, ()))
                c.ob("told", "%s at %s" % (ev, what), ok and a.deferred, "the application is told %s at %s in %s" % (ev, what, "/".join(sorted(e.states))[:100]))
            elif a.name in ("close", "stop_all_and_join", "terminate_complete"):
                c.ob("work", "%s at %s" % (a.name, what), e.events == {"Terminate"}, "%s leads to %s" % (what, a.name))
            elif a.name in WORK:
                for x in cs:
                    used.setdefault((a.name, x), set()).update(e.states)
                c.ob("work", "%s at %s" % (a.name, what), allowed(WORK[a.name], cs, e.states), "%s asks for %s in %s" % (what, a.name, "/".join(sorted(e.states))[:150]))
            else:
                c.ob("work", "%s at %s" % (a.name, what), False, "%s leads to %s, which is not part of the documented lifecycle" % (what, a.name))
            if a.deferred:
                nd += 1
                ok = a.guarded or a.name in ENDING or (a.name == "send_hangup_via_rtp_data_to_all" and e.events == {"SendHangupViaRtpDataToAll"})
                c.ob("deferred", "%s at %s" % (a.name, what), ok, "the deferred %s does not look whether the call is ending" % a.name)
        # documented moves and reports are made
        if e.fact("failed") in (None, "active_connection") and len(cs) == 1 and len(e.states) == 1 and not e.states & OVER:
            x, s = next(iter(cs)), next(iter(e.states))
            key = x if isinstance(x, tuple) and len(x) == 2 else (x, None)
            if key[0] != "ReceivedHangup":
                for d, fr, to, active in MOVES.get(key, ()):
                    if s == fr and (d is None or e.dir == {d}) and (not active or e.fact("sender") == "active"):
                        got = [a.args[0].split("::")[-1] for a in e.acts if a.name == "set_state"]
                        c.ob("moves", "%s made from %s" % (e.what(), fr), got == [to], "%s in %s makes the moves %s" % (e.what(), fr, got))
            for ev, specs in TOLD.items():
                for y, d, st in specs:
                    if x == y and s in st and (d is None or e.dir == {d}) and (("StateChanged", OA) != y or e.fact("sender") == "active") and (ev != "Reconnecting" or e.fact("sender") == "active"):
                        got = [a for a in e.acts if a.name == "notify_application" and a.args[0].endswith("::" + ev)]
                        gone = e.fact("stopped") or e.fact("failed") not in (None, "active_connection") or e.fact("ending")
                        if not gone and not e.fact("asked notify"):
                            c.ob("told", "%s asked at %s" % (ev, what), False, "%s in %s does not always tell the application %s" % (what, s, ev))
                        if not gone and e.fact("ran notify"):
                            c.ob("told", "%s made at %s" % (ev, what), len(got) == 1, "%s in %s tells the application %s %d times" % (what, s, ev, len(got)))
        if e.events == {"Terminate"} and not e.fact("failed"):
            order = [a.name if a.name != "set_state" else "set_state " + a.args[0].split("::")[-1] for a in e.acts]
            c.ob("teardown", "Terminate", [x for x in order] == ["close", "stop_all_and_join", "set_state Terminated", "terminate_complete"]
                 or order == ["close", "stop_all_and_join", "stop_all_and_join", "set_state Terminated", "terminate_complete"], "the end of the state machine does %s" % order)
    for key, ms in MOVES.items():
        miss = {(m[1], m[2]) for m in ms} - made.get(key, set())
        c.ob("moves", "%s all" % "/".join(str(x) for x in key if x), not miss, "%s no longer moves a call from %s" % (key, sorted(miss)))
    for w, spec in WORK.items():
        for x, st in spec:
            miss = st - used.get((w, x), set())
            c.ob("work", "%s all of %s" % (w, x), not miss, "%s no longer leads to %s in %s" % (x, w, "/".join(sorted(miss))))
    for ev, specs in TOLD.items():
        for x, d, st in specs:
            c.ob("told", "%s all of %s" % (ev, x), (ev, x) in told, "the application is no longer told %s" % ev)
    for ev in STATUS:
        c.ob("told", "%s all" % ev, (ev, ("RemoteSenderStatusChanged",)) in told, "the application is no longer told %s" % ev)
    c.ob("quiet", "every event", covered >= {(x, s) for x in allv["events"] - ALWAYS for s in OVER}, "not every event was seen while terminating")
    c.floor("actions of the call state machine", n, 300)
    c.floor("deferred actions", nd, 100)
    c.floor("reports to the application", nt, 10)


def writers(c):
    c.rule("state", "the call's state is written by set_state only, which is called outside the state machine only to make the call Terminating (final hang-up, terminate) and Terminated (at the end of terminate)")
    F = c.F
    f = F.one(CL + r"set_state$")
    for p in paths(c.graph(f, interest=lambda x: False, deep=True)):
        if p.kind == "ret" and ok_ret(p.ret) is not False:
            st = [e for e in p.ev if e[0] == "store" and desc(core(e[3], True)) == "arg1"]
            c.ob("state", "set_state", len(st) == 1, "set_state stores the new state %d times" % len(st))
    for m in raw_mentions(F, "Call", "state"):
        ok = m == f or m.endswith("Clone>::clone") or m.endswith("Call::new") or only_called_from(F, m, {f})
        if not ok:
            ok = not any(re.search(r"deref_mut|mem::(replace|swap|take)", str(b["t"].get("f", ""))) for x in [m] + [y for y in F.fns if y.startswith(m + "::{closure")] for b in F.fns[x].b
                         if b["t"]["k"] == "call")
        c.ob("state", "writers %s" % tail(m), ok, "%s can change the state of a call" % short(m))
    fsm = {n for n in F.fns if "core::call_fsm::" in n}
    other = {}
    for fn, bi, ref, t in call_sites(F, r"core::call::Call::set_state$"):
        if fn in fsm:
            continue
        other.setdefault(fn, []).append(t)
    roots = {F.one(CL + "inject_send_hangup_via_rtp_data_to_all$"): ["Terminating"], F.one(CL + "terminate$"): ["Terminating", "Terminated"]}
    for fn in other:
        c.ob("state", "set_state used by %s" % tail(fn), fn in roots or only_called_from(F, fn, set(roots)), "%s changes the state of a call" % short(fn))
    rx = re.compile(r"core::call::Call::(set_state|inject_event|wait_for_terminate|terminate_connections)$|Stopper::stop_all_and_join$")
    for root, want in roots.items():
        g = c.graph(root, interest=lambda n: n != root and rx.search(n), noinline=lambda n: n != root and rx.search(n), deep=True)
        for p in paths(g):
            seq = [("to " + desc(core(e[2][1], True)).split("::")[-1]) if e[1].endswith("set_state") else last(e[1]) for e in p.ev if e[0] == "call" and rx.search(e[1])]
            tos = [x[3:] for x in seq if x.startswith("to ")]
            c.ob("state", "order in %s" % tail(root), tos == want[:len(tos)], "%s moves the call to %s" % (tail(root), tos))
            c.ob("state", "first in %s" % tail(root), not seq or seq[0] == "to Terminating", "%s does %s before the call is marked as terminating" % (tail(root), seq and seq[0]))
            if p.kind == "ret" and ok_ret(p.ret) is True:
                c.ob("state", "end of %s" % tail(root), tos == want, "%s leaves the call in %s" % (tail(root), tos and tos[-1]))
                if root.endswith("::terminate"):
                    c.ob("state", "teardown in %s" % tail(root), seq == ["to Terminating", "inject_event", "wait_for_terminate", "terminate_connections", "stop_all_and_join", "to Terminated"],
                         "terminate does %s" % seq)


def check(c):
    table(c)
    writers(c)
    return "strong", "every path through the dispatch of every call event, in every call state, including the work it hands to other threads"
