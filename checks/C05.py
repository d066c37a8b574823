"""C05: only the remote device that accepted drives an outgoing call"""
from fsm_lib import *
from C04 import per_connection

TECHNIQUE = "decision table read off every path of the call state machine's dispatch, and automata over the functions that keep and use the active device (MIR)"
CL = r"core::call::Call::"
CB, CA, OB, OA, RA = "ConnectingBeforeAccepted", "ConnectingAfterAccepted", "ConnectedBeforeAccepted", "ConnectedAndAccepted", "ReconnectingAfterAccepted"
SENDER = "arg3@ConnectionObserverEvent.1"
HANG = "Hangup::AcceptedOnAnotherDevice{%s}" % SENDER
# effects that only the active device's events may have
ACTIVE_ONLY = {"notify_network_route_changed", "regather_on_all_networks"}
SETTLED = {CA, OA, RA}
# what an accept does: (name, arguments, deferred)
ACCEPT = [("set_state", None, False), ("set_active_device_id", (SENDER,), False), ("send_hangup_via_rtp_data_to_all_except", (HANG, SENDER), False),
          ("send_hangup_via_signaling_to_all", (HANG,), True), ("terminate_connections_except_accepted", (SENDER,), True)]


def first_accept(e):
    """a connection of an outgoing call that has not been accepted yet reports its device's accept"""
    return e.dir == {"Outgoing"} and ((e.conn == {CA} and e.states <= {CB, OB}) or (e.conn == {OA} and e.states <= {OB}))


def table(c):
    c.rule("accept", "the first accept of an outgoing call makes its sender the active device, then tells the other devices (over media to all but the sender, by signaling to all, naming the sender) and drops the other connections; nothing else sets the active device or drops connections")
    c.rule("active", "once accepted, state, media status, route and reconnection events have effects only if their sender is the active device")
    g, es, allv = call_table(c)
    n = na = 0
    done = set()
    for e in es:
        acts = [a for a in e.acts if a.name != "ref_count"]
        if first_accept(e):
            n += 1
            seq = [(a.name, a.args if a.name != "set_state" else None, a.deferred) for a in acts if a.name not in ("accept_remotely",)]
            if seq == ACCEPT:
                done.add(e.conn == {OA})
            if not e.fact("failed") and not e.fact("ending") and not e.fact("stopped") and (e.fact("ran worker") or 0) >= (2 if e.conn == {OA} else 1):
                late = e.conn == {OA}
                c.ob("accept", "done %s" % ("late" if late else "early"), seq == ACCEPT, "an accept leads to %s" % [x[0] for x in seq])
            else:
                c.ob("accept", "in order", seq == ACCEPT[:len(seq)] or seq == [x for x in ACCEPT if x in seq], "an accept leads to %s" % [x[0] for x in seq])
            k = [a for a in acts if a.name == "accept_remotely"]
            c.ob("accept", "connected", (len(k) <= 1 and not (k and e.conn == {CA})) , "an accept before the connection is up starts the media")
            continue
        for a in acts:
            if a.name in ("set_active_device_id", "terminate_connections_except_accepted", "send_hangup_via_rtp_data_to_all_except", "send_hangup_via_signaling_to_all"):
                c.ob("accept", a.name + " only then", False, "%s in %s leads to %s" % (e.what(), "/".join(sorted(e.states))[:80], a.name))
            ak = dict(a.k)
            conn_event = e.event == "ConnectionObserverEvent"
            if not conn_event:
                continue
            if a.name in ("handle_ice_failed", "internal_error", "notify_audio_levels", "notify_low_bandwidth_for_video", "remote_hangup", "send_hangup_via_rtp_data_and_signaling_to_all_except"):
                continue
            if a.name in ACTIVE_ONLY or (a.name in ("notify_application", "set_state", "accept_remotely") and e.states <= SETTLED) or (a.name == "notify_application" and e.obs == {"RemoteSenderStatusChanged"}):
                if e.obs == {"ReceivedHangup"}:
                    continue
                na += 1
                c.ob("active", "%s at %s" % (a.name, e.what()), e.fact("sender") == "active", "%s of any device leads to %s" % (e.what(), a.name))
        if e.event == "ConnectionObserverEvent" and e.fact("active") == "known" and e.fact("sender") == "other":
            bad = [a.name for a in acts if a.name not in ("handle_ice_failed", "notify_audio_levels", "notify_low_bandwidth_for_video", "internal_error")]
            c.ob("active", "others ignored at %s" % e.what(), not bad, "%s of a device that is not the active one leads to %s" % (e.what(), bad))
    c.ob("accept", "both ways", done == {True, False}, "an accept is no longer followed to its end")
    c.floor("kinds of path of an accept", n, 8)
    c.floor("effects of the active device's events", na, 20)


def device(c):
    c.rule("once", "the active device is set only while there is none, and by nothing else")
    c.rule("uses", "the active connection is the one filed under the active device; the accepting device's connection is the only one kept; the failure of the active connection, or of the last one, ends the call, any other just drops that connection")
    F = c.F
    f = F.one(CL + r"set_active_device_id$")
    k = 0
    for p in paths(c.graph(f, deep=True)):
        st = [e for e in p.ev if e[0] == "store" and store_path(e) and store_path(e)[-1][1] == "active_device_id"]
        # the lock's own result is shown alike: only the tests of the option count
        opt = [e[2] for e in p.ev if e[0] == "assume" and e[1].op == "discr" and desc(e[1].a[0]) == "arg0.active_device_id" and str(e[1].a[1]).startswith(("core::option::Option", "std::option::Option", "Option"))]
        for e in st:
            k += 1
            v = core(e[3], True)
            c.ob("once", "only while unset", bool(opt) and all(x == ("e", frozenset((0,))) for x in opt), "an active device can be replaced")
            c.ob("once", "value", re.fullmatch(r"(Option::Some\{)?arg1\}?", full_desc(v)) is not None, "the active device becomes %s" % full_desc(v)[:60])
        if p.kind == "ret":
            ok = ok_ret(p.ret)
            c.ob("once", "answer", ok is not True or len(st) == 1, "set_active_device_id succeeds without setting it")
    c.floor("stores of the active device", k, 1)
    for m in raw_mentions(F, "Call", "active_device_id"):
        ok = m == f or m.endswith("Clone>::clone") or m.endswith("Call::new") or only_called_from(F, m, {f})
        if not ok:
            ok = not any(re.search(r"deref_mut|mem::(replace|swap|take)", str(b["t"].get("f", ""))) for x in [m] + [y for y in F.fns if y.startswith(m + "::{closure")] for b in F.fns[x].b if b["t"]["k"] == "call")
        c.ob("once", "writers %s" % tail(m), ok, "%s can change the active device" % short(m))
    f = F.one(CL + r"active_connection$")
    k = 0
    for p in paths(c.graph(f, interest=lambda n: False, noinline=lambda n: n != f and n.endswith("Call::active_device_id"), deep=True)):
        for e in p.ev:
            if e[0] == "call" and re.search(r"HashMap<?.*>?::(get|get_mut|remove)$", e[1]):
                k += 1
                c.ob("uses", "active connection", re.fullmatch(r"Call::active_device_id\(arg0\)", desc(core(e[2][1], True))) is not None, "the active connection is looked up as %s" % desc(e[2][1])[:80])
        if p.kind == "ret" and ok_ret(p.ret) is not False:
            d = desc(p.ret)
            c.ob("uses", "active connection answer", "HashMap::get(arg0.connection_map,Call::active_device_id(arg0))" in d, "the active connection is %s" % d[:120])
    c.floor("look-ups of the active connection", k, 1)
    f = F.one(CL + r"terminate_connections_except_accepted$")
    per_connection(c, "uses", "terminate_connections_except_accepted", f, r"Connection::terminate$", "arg1")
    # what is kept
    kept = 0
    for m in [x for x in F.fns if x.startswith(f + "::{closure")]:
        if F.ts(F.fns[m].l[0]) != "bool":
            continue
        for p in paths(c.graph(m, interest=lambda n: False, noinline=lambda n: re.search(r"Connection::(remote_device_id|terminate)$", n), deep=True, max_nodes=60000)):
            if p.kind != "ret":
                continue
            kept += 1
            eqs = None
            for e in p.ev:
                if e[0] == "assume" and "remote_device_id(" in desc(e[1]):
                    r = e[2]
                    if r[0] == "r":
                        eqs = True if r[1] == 0 and r[2] == 0 else False if (r[1] > 0 or r[2] < 0 or 0 in r[3]) else eqs
                    elif e[1].op == "eq":
                        eqs = r[1] == frozenset((1,))
            term = any(e[0] == "call" and e[1].endswith("Connection::terminate") for e in p.ev)
            d = desc(p.ret)
            const = {"1": True, "0": False, "True": True, "False": False}.get(d)
            ok = (const == (not term) and eqs is not None and const == eqs) or (const is None and re.match(r"eq\(|\(", d) and "remote_device_id(" in d and (eqs is None or term == (not eqs)))
            c.ob("uses", "kept", bool(ok), "a connection is kept if %s although it was%s terminated" % (d[:80], "" if term else " not"))
    rt = [1 for b in F.fns[f].b if b["t"]["k"] == "call" and "retain" in str(b["t"]["f"])]
    if rt:
        c.floor("what is kept", kept, 2)
    f = F.one(CL + r"handle_ice_failed$")
    rx = re.compile(r"CallManager::connection_failure$|Connection::terminate$|HashMap<?.*>?::remove$")
    g = c.graph(f, interest=lambda n: n != f and rx.search(n), noinline=lambda n: n != f and (rx.search(n) or re.search(r"Call::(active_device_id|call_manager)$", n)), deep=True)
    k = 0
    for p in paths(g):
        known = lone = None
        mine = None
        for e in p.ev:
            if e[0] != "assume":
                continue
            d = desc(e[1])
            if e[1].op == "discr" and desc(e[1].a[0]) == "Call::active_device_id(arg0)" and len(e[2][1]) == 1 if e[2][0] == "e" else False:
                known = 0 in e[2][1]
            elif "active_device_id(arg0)" in d and "arg1" in d:
                r = e[2]
                mine = (r[1] == 0 and r[2] == 0) if r[0] == "r" else (e[1].op == "eq" and r[1] == frozenset((1,)))
            elif "len(arg0.connection_map)" in d and e[2][0] == "r":
                lo, hi, ne = e[2][1], e[2][2], e[2][3]
                lone = (lo, hi) == (1, 1) if d == "len(arg0.connection_map)" else lone
        does = [(last(e[1]), [desc(core(x, True)) for x in e[2]]) for e in p.ev if e[0] == "call" and rx.search(e[1])]
        for nm, a in does:
            k += 1
            if nm == "connection_failure":
                c.ob("uses", "failure ends", (known is True and mine is True) or (known is False and lone is True), "the failure of a connection ends the call although it is not the active or the last one")
                c.ob("uses", "failure of", a[1] in ("arg0.call_id", "Call::call_id(arg0)"), "connection_failure is called for %s" % a[1])
            elif nm == "remove":
                c.ob("uses", "failure drops", known is False and lone is False and a[1] == "arg1", "the failure of a connection drops %s" % a)
            else:
                c.ob("uses", "failure terminates", known is False and lone is False and re.search(r"HashMap::remove\(arg0\.connection_map,arg1\)", a[0]) is not None, "the failure of a connection terminates %s" % a[0][:80])
        if p.kind == "ret" and ok_ret(p.ret) is True:
            if known and mine or (known is False and lone):
                c.ob("uses", "failure acted on", [x[0] for x in does] == ["connection_failure"], "the failure of the active or last connection leads to %s" % [x[0] for x in does])
            if known and mine is False:
                c.ob("uses", "failure of another", not does, "the failure of a connection that is not the active one leads to %s" % [x[0] for x in does])
            if known is False and lone is False:
                c.ob("uses", "failure while ringing", [x[0] for x in does] in (["remove"], ["remove", "terminate"]), "the failure of one of several connections leads to %s" % [x[0] for x in does])
    c.floor("effects of a failed connection", k, 3)


def check(c):
    table(c)
    device(c)
    return "strong", "every path of every connection event in every call state, direction and sender; every writer and user of the active device"
