"""C02: each peer connection follows its own lifecycle and goes quiet when terminated"""
from fsm_lib import *

TECHNIQUE = "transition table read off every path of the connection state machine's event dispatch, and automata over its start and teardown (MIR)"
CN = r"core::connection::Connection::"
EFF = r"core::connection::Connection::(set_state|notify_observer|internal_error|set_remote_max_bitrate|set_network_route|send_\w+|update_\w+|handle_received_\w+|buffer_local_ice_candidates|notify_terminate_complete|enable_media|terminating|inject_\w+)$|PeerConnection::\w+$|Actor::send$|Stopper::\w+$|EventStream::\w+$|Receiver<.*>?::close$"
QUIET = re.compile(r"Connection::(terminating|inject_internal_error)$|Stopper::has_been_stopped$")
ALWAYS = {"SendHangupViaRtpData", "Synchronize", "Terminate"}
OVER = {"Terminating", "Terminated"}
CB, CA, OB, OA, RA = "ConnectingBeforeAccepted", "ConnectingAfterAccepted", "ConnectedBeforeAccepted", "ConnectedAndAccepted", "ReconnectingAfterAccepted"
# event -> {state in which it may be: state it leads to}; the documented lifecycle
MOVES = {
    "ReceivedAcceptedViaRtpData": {CB: CA, OB: OA},
    "Accept": {CB: OA, OB: OA, RA: OA},
    "IceConnected": {CB: OB, CA: OA, RA: OA},
    "IceFailed": {CB: "IceFailed", CA: "IceFailed", OB: "IceFailed", OA: "IceFailed", RA: "IceFailed"},
    "IceDisconnected": {OB: CB, OA: RA},
}
# what reaches the call, and the only states it does so in
REPORTS = {
    "ReceivedHangup": {CB, CA, OB, OA, RA},
    "RemoteSenderStatusChanged": {OA, RA, OB, CA, CB},
}


def acts(p):
    """(index, action, inside deferred code?)"""
    depth = 0
    stack = []
    for i, e in enumerate(p.ev):
        if e[0] == "enter":
            stack.append(e[1])
        elif e[0] == "exit" and stack:
            stack.pop()
        elif e[0] == "call" and re.search(EFF, e[1]) and not QUIET.search(e[1]):
            yield i, e, any(is_deferred(x) for x in stack)


def is_deferred(n):
    return bool(re.search(r"_spawn::\{closure", n))


def table(c):
    F = c.F
    g, rs, events, states = connection_rows(c, EFF)
    moved = {}
    nq = nact = nd = 0
    covered = set()
    for r in rs:
        a = list(acts(r.p))
        what = "/".join(sorted(r.events)) if len(r.events) < 4 else "any event"
        over = r.states & OVER
        if over and not r.events <= ALWAYS:
            nq += 1
            covered |= {(x, y) for x in r.events for y in over}
            c.ob("quiet", what, not a, "while terminating, %s still does %s" % (what, a and tail(a[0][1][1])))
        stores = [e for e in r.p.ev if e[0] == "store" and store_path(e) and store_path(e)[0][0] == "ConnectionStateMachine"]
        if over and not r.events <= ALWAYS:
            c.ob("quiet", what + " memory", not stores, "while terminating, %s is still remembered" % what)
        for i, e, deferred in a:
            nact += 1
            nm = last(e[1])
            if nm == "set_state":
                to = variant_of(core(e[2][1], True))
                ok = len(r.events) == 1 and next(iter(r.events)) in MOVES and all(MOVES[next(iter(r.events))].get(s) == to for s in r.states) and not deferred and bool(r.states)
                c.ob("moves", "%s to %s" % (what, to), ok, "%s moves a connection from %s to %s" % (what, "/".join(sorted(r.states))[:120], to))
                if ok:
                    for s in r.states:
                        moved.setdefault(next(iter(r.events)), set()).add(s)
                c.ob("moves", "%s which" % what, desc(core(e[2][0], True)) == "arg1", "another connection is moved")
            if nm == "notify_observer":
                v = variant_of(core(e[2][1], True))
                if v in REPORTS:
                    c.ob("reports", v, r.states <= REPORTS[v], "%s is reported in the state %s" % (v, "/".join(sorted(r.states - REPORTS[v]))))
                c.ob("reports", "%s only once over" % v, not (over and not r.events <= ALWAYS), "reported while terminating")
            if deferred and not (nm == "send_hangup_via_rtp_data" and r.events == {"SendHangupViaRtpData"}):
                nd += 1
                seen = [x for x in r.p.ev[:i] if x[0] == "assume" and x[1].op != "discr" and re.fullmatch(r"Connection::terminating\(arg1\)", desc(x[1])) and x[2] == ("e", frozenset((0,)))]
                c.ob("deferred", "%s of %s" % (nm, what), bool(seen), "deferred work %s runs without looking whether the connection is terminating" % nm)
        # a documented move is made
        if len(r.events) == 1 and next(iter(r.events)) in MOVES and r.p.kind == "ret" and ok_ret(r.p.ret) is not False:
            n = next(iter(r.events))
            if r.states and all(s in MOVES[n] for s in r.states) and n != "ReceivedAcceptedViaRtpData":
                tos = [variant_of(core(e[2][1], True)) for i, e, d in a if last(e[1]) == "set_state"]
                c.ob("moves", "%s made" % n, len(tos) == 1, "%s in the state %s makes %d moves" % (n, "/".join(sorted(r.states)), len(tos)))
        if r.events == {"Terminate"} and r.p.kind == "ret":
            order = [tail(e[1]) for i, e, d in a]
            stops = [x for x in order if x.endswith("stop_all_and_join")]
            done = [i for i, x in enumerate(order) if x.endswith("notify_terminate_complete")]
            c.ob("teardown", "Terminate", len(stops) == 2 and len(done) == 1 and done[0] == len(order) - 1, "the end of the state machine does %s" % order)
    for n in MOVES:
        c.ob("moves", "%s all" % n, moved.get(n) == set(MOVES[n]), "%s no longer moves a connection that is %s" % (n, "/".join(sorted(set(MOVES[n]) - moved.get(n, set())))))
    c.ob("quiet", "every event", covered >= {(x, y) for x in events.values() for y in OVER if x not in ALWAYS}, "not every event was seen while terminating")
    c.floor("paths taken while terminating", nq, 1)
    c.floor("actions of the connection state machine", nact, 40)
    c.floor("deferred actions", nd, 10)


def state(c):
    """the state changes only through set_state, which reports exactly the changes"""
    F = c.F
    f = F.one(CN + r"set_state$")
    rx = re.compile(r"notify_observer$")
    n = 0
    for p in paths(c.graph(f, interest=lambda x: rx.search(x), noinline=lambda x: rx.search(x), deep=True)):
        st = [(i, e) for i, e in enumerate(p.ev) if e[0] == "store" and store_path(e) and store_path(e)[-1][1] == "state"]
        nt = [(i, e) for i, e in enumerate(p.ev) if e[0] == "call" and rx.search(e[1])]
        same_ = [e[2] for e in p.ev if e[0] == "assume" and e[1].op == "eq" and {desc(core(x, True)) for x in e[1].a[:2]} == {"arg1", "arg0.state"}]
        if p.kind != "ret":
            continue
        if st:
            n += 1
            c.ob("state", "changed", len(st) == 1 and desc(core(st[0][1][3], True)) == "arg1", "the state becomes %s" % desc(st[0][1][3])[:60])
            c.ob("state", "reported", len(nt) == 1 and nt[0][0] > st[0][0], "a change of state is reported %d times" % len(nt))
            c.ob("state", "only changes", same_ == [("e", frozenset((0,)))], "a state is reported although nothing changed")
        else:
            c.ob("state", "unchanged", not nt, "an unchanged state is reported")
            c.ob("state", "not dropped", ("e", frozenset((0,))) not in same_, "a new state is dropped")
        for i, e in nt:
            v = core(e[2][1], True)
            c.ob("state", "report", variant_of(v) == "StateChanged" and desc(core(payload(v), True)) == "arg1", "the state reported is %s" % desc(v)[:80])
    c.floor("changes of state", n, 1)
    for m in raw_mentions(F, "Connection", "state"):
        ok = m == f or m.endswith("Clone>::clone") or m.endswith("Connection::new") or only_called_from(F, m, {f})
        if not ok:
            # a reader: never asks for the state to write it
            ok = not any(re.search(r"deref_mut$|mem::(replace|swap|take)", t) for t in called(F, m))
        c.ob("state", "writers %s" % tail(m), ok, "%s can change the state" % short(m))


def called(F, n):
    for m in [n] + [x for x in F.fns if x.startswith(n + "::{closure")]:
        for b in F.fns[m].b:
            t = b["t"]
            if t["k"] == "call":
                yield str(t["f"].get("f", "") if isinstance(t["f"], dict) else "")


STARTS = {"start_outgoing_parent": "IceGathering", "start_outgoing_child": "ConnectingBeforeAccepted", "start_incoming": "ConnectingBeforeAccepted"}


def ends(c):
    F = c.F
    setst = F.one(CN + r"set_state$")
    own = {}
    rx = re.compile(r"Connection::(set_state|start_fsm|inject_event|wait_for_terminate)$|Stopper::stop_all_and_join$|PeerConnection::(close|set_local_description|set_remote_description|create_offer|create_answer)$")
    for nm, to in STARTS.items():
        f = F.one(CN + nm + "$")
        g = c.graph(f, interest=lambda n: n != f and rx.search(n), noinline=lambda n: n != f and (rx.search(n) or re.search(r"negotiate_srtp_keys$|_v4$", n)), deep=True, max_nodes=100000)

        def step(q, e):
            if e[0] != "call":
                return q
            if e[1] == setst:
                v = variant_of(core(e[2][1], True))
                if (q, v) == ("new", "Starting"):
                    return "starting"
                if (q, v) == ("starting", to):
                    return "started"
                return Bad("a connection that is %s becomes %s" % (q, v))
            if re.search(r"start_fsm$", e[1]):
                if q.startswith("run"):
                    return Bad("the state machine is started twice")
                return "run " + q
            if re.search(r"set_(local|remote)_description$", e[1]) and q == "new":
                return Bad("the connection starts without saying so")
            return q

        def end(q, node):
            return "the state machine of the connection is never started" if not q.startswith("run") else None
        c.auto("start", nm, g, "new", step, end=end)
        own[f] = nm
    f = F.one(CN + r"terminate$")
    g = c.graph(f, interest=lambda n: n != f and rx.search(n), noinline=lambda n: n != f and rx.search(n), deep=True)
    own[f] = "terminate"

    def step(q, e):
        if e[0] != "call":
            return q
        if e[1] == setst:
            v = variant_of(core(e[2][1], True))
            if (q, v) in (("", "Terminating"), ("waited", "Terminated")):
                return v
            return Bad("a connection becomes %s after '%s'" % (v, q))
        if e[1].endswith("::inject_event"):
            if q != "Terminating" or variant_of(core(e[2][1], True)) != "Terminate":
                return Bad("the state machine is told %s after '%s'" % (variant_of(core(e[2][1], True)), q))
            return "told"
        if e[1].endswith("::wait_for_terminate"):
            return "waited" if q == "told" else Bad("the end is awaited after '%s'" % q)
        if e[1].endswith("::stop_all_and_join"):
            return "stopped" if q == "Terminated" else Bad("the timer is stopped after '%s'" % q)
        if e[1].endswith("PeerConnection::close"):
            return "closed" if q == "stopped" else Bad("the peer connection is closed after '%s'" % q)
        return q

    def end(q, node):
        if q in ("stopped", "closed", "", "Terminating", "told", "waited", "Terminated"):
            return None
        return "it ends after '%s'" % q
    c.auto("teardown", "terminate", g, "", step, end=end)
    good = [p for p in paths(g) if p.kind == "ret" and ok_ret(p.ret) is not False]
    c.ob("teardown", "completed", bool(good) and all(p.calls(r"stop_all_and_join$") for p in good), "the connection can end without stopping its timer")
    # every other way to set the state
    n = 0
    fsm = F.reach([F.one(CONN)])
    for fn, bi, ref, t in call_sites(F, r"core::connection::Connection::set_state$"):
        n += 1
        base = re.sub(r"::\{closure#\d+\}.*$", "", fn)
        ok = base in own or fn in fsm or only_called_from(F, base, set(own) | {F.one(CONN)})
        if not ok:
            g = c.graph(base, interest=lambda x: x == setst, noinline=lambda x: x == setst or re.search(r"inject_event$", x), deep=True)
            vs = {variant_of(core(e[2][1], True)) for e in evs(g) if e[0] == "call" and e[1] == setst}
            inj = {variant_of(core(e[2][1], True)) for e in evs(g) if e[0] == "call" and e[1].endswith("::inject_event")}
            ok = vs == {"Terminating"} and inj == {"SendHangupViaRtpData"}
        c.ob("moves", "setters %s" % tail(base), ok, "%s sets the state of a connection" % short(base))
    c.floor("places where the state is set", n, 10)


def check(c):
    c.rule("quiet", "once terminating or terminated, every event but the last hang-up, synchronisation and teardown does nothing and is not remembered")
    c.rule("moves", "the state is set only by the documented pairs of state and event, and each documented move is made")
    c.rule("reports", "what the state machine reports, it reports in the states where that is documented")
    c.rule("deferred", "work handed to the worker and notify threads looks again whether the connection is terminating")
    c.rule("state", "a new state is stored and reported exactly when it differs from the old one, and only there")
    c.rule("start", "each way of starting goes through Starting to its documented state and always starts the state machine")
    c.rule("teardown", "terminating: told, drained, awaited, terminated, timer stopped, peer connection closed, in this order")
    table(c)
    state(c)
    ends(c)
    return "strong", "every path of the connection's event dispatch, of set_state, of the three starts and of the teardown"
