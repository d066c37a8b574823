"""C03: no audio, video or data of a 1:1 call flows before the call is accepted"""
from fsm_lib import *

TECHNIQUE = "who-may-call analysis of every switch that lets media flow (MIR call graph), the call state machine's action table, and path analysis of the functions that accept"
CL = r"core::call::Call::"
CN = r"core::connection::Connection::"
PC = r"webrtc::peer_connection::PeerConnection::"
SWITCH = {"set_outgoing_media_enabled": "Rust_setOutgoingMediaEnabled", "set_incoming_media_enabled": "Rust_setIncomingMediaEnabled",
          "set_audio_playout_enabled": "Rust_setAudioPlayoutEnabled", "set_audio_recording_enabled": "Rust_setAudioRecordingEnabled"}
OB, CA = "ConnectedBeforeAccepted", "ConnectingAfterAccepted"


def group(n):
    return "core::group_call::" in n


def off(a):
    return a["k"] not in "mp" and a.get("int") in (0, "0", False) or str(a.get("v", a.get("val", ""))).lower() in ("0", "false")


def gates(c):
    c.rule("gates", "the engine's switches for incoming, outgoing, playout and recording are reached only through their wrappers, and for 1:1 calls turned on only by enable_media")
    F = c.F
    en = F.one(CN + "enable_media$")
    n = 0
    for w, ffi in SWITCH.items():
        wf = F.one(PC + w + "$")
        for fn, bi, ref, t in call_sites(F, r"(^|::)%s$" % ffi):
            n += 1
            c.ob("gates", "%s used by %s" % (ffi, tail(fn)), fn == wf, "%s switches media directly" % short(fn))
        k = 0
        for p in paths(c.graph(wf, interest=lambda x: False, deep=True)):
            for e in p.ev:
                if e[0] == "call" and e[1].endswith(ffi):
                    k += 1
                    c.ob("gates", "%s value" % w, desc(core(e[2][1], True)) == "arg1", "%s passes on %s" % (w, desc(e[2][1])[:60]))
        c.floor("calls of %s" % ffi, k, 1)
        for fn in F.callers().get(wf, ()):
            if group(fn) or "::sim::" in fn:
                continue
            n += 1
            ok = fn == en or only_called_from(F, fn, {en}) or never_on(c, fn, wf)
            c.ob("gates", "%s by %s" % (w, tail(fn)), ok, "%s can turn media on (%s)" % (short(fn), w))
    c.floor("places that switch media", n, 8)


def never_on(c, fn, wf):
    """every value the function gives to the switch is false"""
    for p in paths(c.graph(fn, interest=lambda x: x == wf, noinline=lambda x: x == wf, deep=True)):
        for e in p.ev:
            if e[0] == "call" and e[1] == wf and desc(core(e[2][1], True)) not in ("0", "False", "false"):
                return False
    return True


CHAIN = [
    # callee, the only callers
    (CN + "enable_media$", [CL + "accept_locally$", CL + "accept_remotely$"]),
    (CN + "start_tick$", [CL + "accept_locally$", CL + "accept_remotely$"]),
    (CL + "connect_incoming_media$", [CN + "enable_media$"]),
    (r"core::call_manager::CallManager::connect_incoming_media$", [CL + "connect_incoming_media$"]),
]


def chain(c):
    c.rule("chain", "media is enabled, the status timer started and the incoming media connected only by accept_locally and accept_remotely, and the application gets the incoming media only from there")
    F = c.F
    n = 0
    for callee, callers in CHAIN:
        f = F.one(callee)
        allowed = {F.one(x) for x in callers}
        for fn in F.callers().get(f, ()):
            n += 1
            c.ob("chain", "%s by %s" % (tail(f), tail(fn)), fn in allowed or fn == f or only_called_from(F, fn, allowed | {f}), "%s leads to %s" % (short(fn), tail(f)))
    cmf = F.one(r"core::call_manager::CallManager::connect_incoming_media$")
    for fn, bi, ref, t in call_sites(F, r"Platform(<.*>)?(>)?::connect_incoming_media$"):
        n += 1
        c.ob("chain", "platform by %s" % tail(fn), fn == cmf or "Platform" in fn, "%s hands incoming media to the application" % short(fn))
    c.floor("callers of what lets media flow", n, 5)


def accepts(c):
    c.rule("accepting", "accept_locally (only for the AcceptCall event of a connected call) and accept_remotely (only for an accept of an outgoing call by a connected device) run only while the call is alive")
    c.rule("order", "the callee's accept is handed to the connection before media is enabled; media is enabled on the active connection only, nothing else is accepted when a step fails, and the application is told only after media was enabled")
    F = c.F
    g, es, allv = call_table(c)
    n = 0
    for e in es:
        for a in e.acts:
            if a.name == "accept_locally":
                n += 1
                c.ob("accepting", "locally", e.events == {"AcceptCall"} and e.states == {OB} and a.guarded and not a.args, "accept_locally runs at %s in %s" % (e.what(), "/".join(sorted(e.states))[:100]))
            elif a.name == "accept_remotely":
                n += 1
                ok = e.conn == {"ConnectedAndAccepted"} and e.dir == {"Outgoing"} and (e.states == {OB} or (e.states == {CA} and e.fact("sender") == "active")) and a.guarded
                c.ob("accepting", "remotely", ok, "accept_remotely runs at %s in %s (%s)" % (e.what(), "/".join(sorted(e.states))[:100], "/".join(e.dir)))
            elif a.name in ("enable_media", "start_tick", "inject_accept", "connect_incoming_media"):
                c.ob("accepting", a.name, False, "%s leads to %s directly" % (e.what(), a.name))
    c.floor("ways to accept", n, 3)
    fsm = {x for x in F.fns if "core::call_fsm::" in x}
    for nm in ("accept_locally", "accept_remotely"):
        f = F.one(CL + nm + "$")
        for fn in F.callers().get(f, ()):
            c.ob("accepting", "%s by %s" % (nm, tail(fn)), fn in fsm, "%s accepts a call outside the state machine" % short(fn))
        rx = re.compile(CN + r"(inject_accept|enable_media|start_tick)$|" + CL + r"notify_application$")
        want = (["inject_accept"] if nm == "accept_locally" else []) + ["enable_media", "start_tick", "notify_application"]
        k = 0
        for p in paths(c.graph(f, interest=lambda x: x != f and rx.search(x), noinline=lambda x: x != f and (rx.search(x) or re.search(CL + r"(active_connection|notify_network_route_changed)$|network_route$", x)), deep=True)):
            seq = [e for e in p.ev if e[0] == "call" and rx.search(e[1])]
            names_ = [last(e[1]) for e in seq]
            k += len(seq)
            c.ob("order", nm, names_ == want[:len(names_)], "%s does %s" % (nm, names_))
            for e in seq:
                if not e[1].endswith("notify_application"):
                    d = full_desc(core(e[2][0], True))
                    c.ob("order", "%s whom" % nm, "Call::active_connection(arg0)" in d, "%s acts on %s" % (nm, d[:80]))
                # each earlier step succeeded
                i = p.ev.index(e)
                for x in seq[:seq.index(e)]:
                    good = any(y[0] == "assume" and y[1].op == "discr" and y[2] == ("e", frozenset((0,))) and same_call(y[1].a[0], x) for y in p.ev[:i])
                    c.ob("order", "%s after %s" % (nm, last(x[1])), good, "%s goes on after %s failed" % (nm, last(x[1])))
            if p.kind == "ret" and ok_ret(p.ret) is True:
                c.ob("order", "%s complete" % nm, names_ == want, "%s succeeds after %s" % (nm, names_))
        c.floor("steps of %s" % nm, k, 3)


def same_call(v, e):
    return desc(core(v, True)) == desc(core(e[3], True)) if len(e) > 3 and hasattr(e[3], "op") else tail(e[1]).split("::")[-1] in desc(v)


def data(c):
    c.rule("data", "before the connection is up a callee lets no RTP in (receive_rtp without incoming traffic), and only the data payload type is ever registered")
    F = c.F
    n = 0
    for fn in {x[0] for x in call_sites(F, PC + r"receive_rtp$")}:
        if group(fn) or "::sim::" in fn:
            continue
        f = fn
        while "{closure" in f:
            f = f.rsplit("::{closure", 1)[0]
        rx = re.compile(PC + r"receive_rtp$")
        roots = [f]
        for r in roots:
            g = c.graph(r, interest=lambda x: x != r and rx.search(x), noinline=lambda x: x != r and (rx.search(x) or re.search(r"negotiate_srtp_keys$|_v4$", x)), deep=True, max_nodes=100000)
            for node in g.nodes:
                evs_ = list(node.ev) + [e for ee, j in node.succ for e in ee]
                for e in evs_:
                    if e[0] == "call" and rx.search(e[1]):
                        n += 1
                        pt, inc = desc(core(e[2][1], True)), desc(core(e[2][2], True))
                        out = only_called_from(F, r, {F.one(CN + "start_outgoing_child$")}) or r.endswith("start_outgoing_child")
                        c.ob("data", "payload type in %s" % tail(r), pt in ("101", "RTP_DATA_PAYLOAD_TYPE"), "the payload type registered is %s" % pt)
                        c.ob("data", "incoming in %s" % tail(r), out or inc in ("0", "False", "false"), "%s lets RTP in before the call is accepted" % tail(r))
    c.floor("registrations of RTP", n, 2)


def check(c):
    gates(c)
    chain(c)
    accepts(c)
    data(c)
    return "strong", "every place of the program that can let media of a 1:1 call flow, every path by which it is reached, and every state, event and sender that leads there"
