"""C04: hang-ups end the right calls and are propagated only to the other devices"""
from fsm_lib import *

TECHNIQUE = "decision table read off every path of the call state machine's hang-up handling, and automata over the functions that send hang-ups to devices (MIR)"
CL = r"core::call::Call::"
CM = r"core::call_manager::CallManager::"
OVER = {"Terminating", "Terminated"}
RING = {"WaitingToProceed", "ConnectingBeforeAccepted", "ConnectedBeforeAccepted"}
PROP = "send_hangup_via_rtp_data_and_signaling_to_all_except"
REASONS = {("Outgoing", "NeedPermission"): "CallEndReason::RemoteHangupNeedPermission", ("Incoming", "AcceptedOnAnotherDevice"): "CallEndReason::RemoteHangupAccepted",
           ("Incoming", "DeclinedOnAnotherDevice"): "CallEndReason::RemoteHangupDeclined", ("Incoming", "BusyOnAnotherDevice"): "CallEndReason::RemoteHangupBusy"}
SPREAD = {"Normal": "Hangup::DeclinedOnAnotherDevice{%s}", "NeedPermission": "Hangup::NeedPermission{%s}"}
SENDER = {"ReceivedHangup": "arg3@ReceivedHangup.0.sender_device_id", "ConnectionObserverEvent": "arg3@ConnectionObserverEvent.1"}


def table(c):
    c.rule("applies", "an incoming call does nothing about a hang-up that names this very device; once a device is active, only its hang-ups count; every other hang-up counts")
    c.rule("ends", "a hang-up that counts ends the call, exactly once, with the call's own id and the reason for its type and direction")
    c.rule("spread", "an outgoing call that is still ringing tells exactly the other devices, naming the sender: declined for a normal hang-up, need-permission for that one; nothing is spread otherwise")
    g, es, allv = call_table(c)
    n = nspread = 0
    seen = set()
    for e in es:
        if e.event == "ReceivedHangup" or (e.event == "ConnectionObserverEvent" and e.obs == {"ReceivedHangup"}):
            pass
        else:
            c.ob("spread", "only for hang-ups", not any(a.name == PROP or a.name == "remote_hangup" for a in e.acts), "%s handles a hang-up" % e.what())
            continue
        if e.states & OVER:
            continue
        acts = [a for a in e.acts if a.name != "ref_count"]
        n += 1
        way = e.event
        hang = e.fact("hangup") or allv["hangup"]
        mine = e.fact("about") == "this device"
        other = e.fact("active") == "known" and e.fact("sender") == "other"
        if e.dir == {"Incoming"} and mine:
            c.ob("applies", "own device (%s)" % way, not acts, "an incoming call acts on a hang-up sent on behalf of this device: %s" % (acts and acts[0].name))
            continue
        if other:
            c.ob("applies", "inactive device (%s)" % way, not acts, "a hang-up of a device that is not the active one leads to %s" % (acts and acts[0].name))
            continue
        if e.fact("failed"):
            if any(a.name == "remote_hangup" for a in acts):
                pass
            else:
                continue
        spread = [a for a in acts if a.name == PROP]
        ended = [a for a in acts if a.name == "remote_hangup"]
        if acts:
            # what has to be looked at before anything is done
            named = hang & {"AcceptedOnAnotherDevice", "DeclinedOnAnotherDevice", "BusyOnAnotherDevice"}
            c.ob("applies", "whose (%s)" % way, not ("Incoming" in e.dir and named) or e.fact("about") == "another device", "an incoming call acts on a %s hang-up without looking whether it names this device" % "/".join(sorted(named)))
            c.ob("applies", "active (%s)" % way, e.fact("active") == "none" or e.fact("sender") == "active", "a hang-up counts without looking whether its sender is the active device")
        ran = e.fact("ran worker") or e.fact("ran notify")
        # --- counted
        if not acts and not ran:
            # either the work is never handed on (the state cannot be ended and ... ) or the hang-up was ignored
            ok = e.states <= {"NotYetStarted"} or e.fact("stopped")
            c.ob("applies", "counts (%s)" % way, ok, "a hang-up (%s, %s call) in %s is ignored" % ("/".join(sorted(hang))[:60], "/".join(sorted(e.dir)), "/".join(sorted(e.states))[:80]))
        if ran and not e.fact("failed"):
            c.ob("ends", "once (%s)" % way, len(ended) == 1, "a hang-up ends the call %d times" % len(ended))
        for a in ended:
            want = {REASONS.get((d, h), "Option::None") for d in e.dir for h in hang}
            seen |= {(d, h) for d in e.dir for h in hang}
            c.ob("ends", "reason %s %s" % ("/".join(sorted(e.dir)), "/".join(sorted(hang)) if len(hang) < 4 else "any"), want == {a.args[1]}, "a %s hang-up of an %s call is reported as %s" % ("/".join(sorted(hang)), "/".join(sorted(e.dir)), a.args[1]))
            c.ob("ends", "own call (%s)" % way, a.args[0] == "Call::call_id(arg1)", "the call ended is %s" % a.args[0])
        moved = [a for a in acts if a.name == "set_state"]
        if not e.states & {"NotYetStarted"} and not (e.fact("failed") == "set_state"):
            c.ob("ends", "marked (%s)" % way, len(moved) == 1 and moved[0].args == ("CallState::Terminating",), "a hang-up in %s does not mark the call as terminating" % "/".join(sorted(e.states))[:80])
        for a in spread:
            nspread += 1
            dev = SENDER[way]
            ok = e.dir == {"Outgoing"} and len(hang) == 1 and e.states <= RING and SPREAD.get(next(iter(hang)), "-%s") % dev == a.args[0] and a.args[1] == dev and not a.deferred
            c.ob("spread", "%s (%s)" % ("/".join(sorted(hang)), way), ok, "a %s hang-up from %s in %s is spread as %s to all except %s" % ("/".join(sorted(hang)), dev, "/".join(sorted(e.states))[:60], a.args[0], a.args[1]))
        must = e.dir == {"Outgoing"} and hang <= set(SPREAD) and e.states <= RING and e.fact("failed") not in ("set_state",)
        if must:
            c.ob("spread", "made %s (%s)" % ("/".join(sorted(hang)), way), len(spread) == 1, "a %s hang-up while ringing is passed on %d times" % ("/".join(sorted(hang)), len(spread)))
    c.ob("ends", "every type", seen >= {(d, h) for d in allv["dir"] for h in allv["hangup"]}, "not every type and direction of hang-up was seen")
    c.floor("kinds of path of a hang-up", n, 40)
    c.floor("hang-ups passed on", nspread, 4)


def devices(c):
    c.rule("devices", "a hang-up for all reaches every connection; one for all except a device reaches every connection but that device's, and never that one; signaling carries the call's own id and the hang-up given")
    F = c.F
    for nm, exc in (("send_hangup_via_rtp_data_to_all", None), ("send_hangup_via_rtp_data_to_all_except", "arg2")):
        per_connection(c, "devices", nm, F.one(CL + nm + "$"), r"Connection::inject_send_hangup_via_rtp_data$", exc, lambda e: desc(core(e[2][1], True)) == "arg1")
    f = F.one(CL + "send_hangup_via_signaling_to_all$")
    rx = re.compile(CM + r"send_hangup$")
    k = 0
    for p in paths(c.graph(f, interest=lambda n: n != f and rx.search(n), noinline=lambda n: n != f and (rx.search(n) or n.endswith("Call::call_id")), deep=True)):
        for e in p.calls(rx.pattern):
            k += 1
            a = [full_desc(core(x, True)) for x in e[2]]
            c.ob("devices", "signaling", re.match(r"arg0$|Call\{arg0\.", a[1]) and a[2] in ("Call::call_id(arg0)", "arg0.call_id") and a[3] == "SendHangup{arg1}", "hang-up by signaling: %s" % a[1:])
        if p.kind == "ret" and ok_ret(p.ret) is True:
            c.ob("devices", "signaling sent", len(list(p.calls(rx.pattern))) == 1, "success without sending the hang-up")
    c.floor("hang-ups by signaling", k, 1)
    f = F.one(CL + PROP + "$")
    rx = re.compile(CL + r"send_hangup_via_(rtp_data_to_all_except|signaling_to_all)$")
    for p in paths(c.graph(f, interest=lambda n: n != f and rx.search(n), noinline=lambda n: n != f and rx.search(n), deep=True)):
        seq = [(last(e[1]), tuple(desc(core(x, True)) for x in e[2])) for e in p.ev if e[0] == "call" and rx.search(e[1])]
        for s in seq:
            c.ob("devices", "both ways args", s in (("send_hangup_via_rtp_data_to_all_except", ("arg0", "arg1", "arg2")), ("send_hangup_via_signaling_to_all", ("arg0", "arg1"))), "the hang-up is spread as %s" % (s,))
        if p.kind == "ret" and ok_ret(p.ret) is True:
            c.ob("devices", "both ways", len(seq) == 2 and len({s[0] for s in seq}) == 2, "the hang-up is spread by %s" % [s[0] for s in seq])


def per_connection(c, rule, nm, f, effect, excluded, good=None):
    """the effect happens to every connection of the map, except the excluded device's"""
    rx = re.compile(effect)
    noi = re.compile(r"core::connection::Connection::(inject_\w+|remote_device_id|terminate)$")
    g = c.graph(f, interest=lambda n: n != f and rx.search(n), noinline=lambda n: n != f and noi.search(n), deep=True)
    n = [0, 0]

    def step(q, e):
        have, same_, done = q
        begin = finish = False
        if e[0] == "assume" and e[1].op == "discr" and re.match(r"[\w:]+::next(_back)?\(.*connection_map", desc(e[1].a[0])) and e[2][0] == "e":
            begin, finish = e[2][1] == frozenset((1,)), True
        elif e[0] == "enter" and "{closure" in e[1] and e[1].startswith(f):
            begin = finish = True
        elif e[0] == "exit" and "{closure" in e[1] and e[1].startswith(f):
            finish = True
        if begin or finish:
            if have and not done and same_ is not True:
                return Bad("a connection is left out")
            if begin:
                n[0] += 1
            return (True, None, False) if begin else (False, None, False)
        if e[0] == "assume" and have and excluded and ("remote_device_id(" in desc(e[1]) or re.search(r"next\(.*iter(_mut)?\(.*\)\.0", desc(e[1]))) and re.search(r"\barg\d\b", desc(e[1])):
            r = e[2]
            ty = desc(e[1])
            if re.search(r"\b%s\b" % excluded, ty) and not re.search(r"\barg(?!0)(?!%s\b)\d" % excluded[3:], ty):
                if r[0] == "r":
                    eq = True if r[1] == 0 and r[2] == 0 else False if (r[1] > 0 or r[2] < 0 or 0 in r[3]) else None
                else:
                    eq = (r[1] == frozenset((1,))) if e[1].op == "eq" else None
                if eq is not None:
                    return (have, eq, done)
        if e[0] == "call" and rx.search(e[1]):
            n[1] += 1
            if not have:
                return Bad("%s is called for something other than a connection of the map" % last(e[1]))
            if not re.search(r"(next|elem)\(.*connection_map", desc(core(e[2][0], True))):
                return Bad("%s is called on %s" % (last(e[1]), desc(core(e[2][0], True))[:80]))
            if done:
                return Bad("%s is called twice for a connection" % last(e[1]))
            if excluded and same_ is not False:
                return Bad("%s is called without the connection being another device's" % last(e[1]))
            if good is not None and not good(e):
                return Bad("%s is given %s" % (last(e[1]), [desc(core(x, True))[:60] for x in e[2][1:]]))
            return (have, same_, True)
        return q

    def end(q, node):
        return None
    c.auto(rule, nm, g, (False, None, False), step, end=end)
    c.floor("%s: connections looked at" % nm, n[0], 1)
    c.floor("%s: effects" % nm, n[1], 1)
    # the loop is left early only on a failure
    for p in paths(g):
        if p.kind == "ret" and ok_ret(p.ret) is not False:
            it = [e for e in p.ev if e[0] == "assume" and e[1].op == "discr" and re.match(r"[\w:]+::next(_back)?\(.*connection_map", desc(e[1].a[0]))]
            rt = [e for e in p.ev if e[0] == "call" and re.search(r"HashMap<.*>?::retain$|HashMap::retain$|for_each$", e[1])]
            c.ob(rule, "%s to the end" % nm, (bool(it) and it[-1][2] == ("e", frozenset((0,)))) or bool(rt), "%s returns success before it looked at every connection" % tail(f))


def manager(c):
    c.rule("busy", "a busy answer of a device is passed to the others as busy on another device, naming and leaving out the sender, for the active call and peer only")
    c.rule("own", "remote_hangup ends the active call only if it has the id given; a hang-up is injected only into the active call, if id and peer are its own")
    F = c.F
    f = F.one(CM + r"handle_received_busy$")
    rx = re.compile(CL + r"(%s|inject_\w+|send_hangup\w+)$|%shandle_terminate_active_call$|Platform>?::compare_remotes$" % (PROP, CM))
    g = c.graph(f, interest=lambda n: n != f and rx.search(n), noinline=lambda n: n != f and (rx.search(n) or re.search(r"Call::(call_id|remote_peer)$|active_call$", n)) , deep=True, closures=False)
    k = 0
    for p in paths(g):
        sp = [e for e in p.ev if e[0] == "call" and re.search(CL + r"(send_hangup|inject_)", e[1])]
        tm = [e for e in p.ev if e[0] == "call" and e[1].endswith("handle_terminate_active_call")]
        for e in sp:
            k += 1
            a = [full_desc(core(x, True)) for x in e[2][1:]]
            dev = re.search(r"BusyOnAnotherDevice\{(.*)\}$", a[0])
            c.ob("busy", "passed on", last(e[1]) == PROP and bool(dev) and dev.group(1) == a[1] and re.fullmatch(r"arg3(\.sender_device_id)?", a[1]) is not None, "a busy answer is passed on as %s(%s)" % (last(e[1]), ", ".join(a)))
        for e in tm:
            a = [full_desc(core(x, True)) for x in e[2][1:]]
            c.ob("busy", "ended after", len(sp) == 1 and p.ev.index(sp[0]) < p.ev.index(e), "the call is ended before the other devices are told")
            c.ob("busy", "reason", a[1:] == ["Option::None", "CallEndReason::RemoteBusy"], "a busy answer ends the call with %s" % a[1:])
    c.floor("busy answers passed on", k, 1)
    f = F.one(CM + r"remote_hangup$")
    rx = re.compile(CM + r"(terminate_active_call|handle_terminate_active_call|call_is_active)$")
    for p in paths(c.graph(f, interest=lambda n: n != f and rx.search(n), noinline=lambda n: n != f and rx.search(n), deep=True)):
        for i, e in enumerate(p.ev):
            if e[0] == "call" and e[1].endswith("terminate_active_call"):
                own = [x for x in p.ev[:i] if x[0] == "assume" and re.search(r"call_is_active\(arg0,arg1\)", desc(x[1])) and x[1].op != "discr" and x[2] == ("e", frozenset((1,)))]
                a = [full_desc(core(x, True)) for x in e[2][1:]]
                c.ob("own", "remote_hangup", bool(own) or len(a) == 3 and a[0] == "arg1", "remote_hangup ends the active call without looking at its id")
                if len(a) == 3 and a[0] == "arg1":
                    a = a[1:]
                c.ob("own", "remote_hangup args", a[0] in ("0", "False", "false") and (a[1] in ("arg2", "CallEndReason::RemoteHangup") or "arg2" in a[1]), "remote_hangup ends the call with %s" % a)
    should = F.one(CL + r"should_send_hangup$")
    nd = {v: k for k, v in names(F, "ringrtc::common::CallDirection").items()}
    for p in paths(c.graph(should, deep=True)):
        d = p.variant(F, "arg0.direction")
        if d == frozenset({"Incoming"}):
            c.ob("own", "should_send incoming", desc(p.ret) in ("1", "True", "true"), "an incoming call sends a hang-up only if %s" % desc(p.ret))
        elif d == frozenset({"Outgoing"}):
            c.ob("own", "should_send outgoing", "did_send_offer" in desc(p.ret) or any("did_send_offer" in desc(x[1]) for x in p.ev if x[0] == "assume"), "an outgoing call sends a hang-up if %s" % desc(p.ret))


def check(c):
    table(c)
    devices(c)
    manager(c)
    return "strong", "every path of every hang-up, by signaling or over media, of every type, direction, sender and call state; and every function that sends hang-ups to devices"
