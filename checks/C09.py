"""C09: signaling messages go out one at a time, in order, and none is lost or repeated"""
from cm_lib import *

TECHNIQUE = "automaton over the message queue's sender, path tables of the operations that report outcomes and end calls, and who-may-touch rules for queue, marker and the application's send functions (MIR)"
Q = "SignalingMessageQueue"
SENT = {"on_send_offer": "Offer", "on_send_answer": "Answer", "on_send_ice": "Ice", "on_send_hangup": "Hangup", "on_send_busy": "Busy"}
RUN = re.compile(r"(Box(<.*>)?|FnOnce(<.*>)?|dyn .*|FnMut|Fn)(::| as .*::)call_(once|mut)$|::call_once$|::call$")


def is_flag(e):
    return e[0] == "store" and store_path(e) and store_path(e)[-1] == (Q, "messages_in_flight")


def sender(c):
    c.rule("single", "a message is handed to the application only while none is in flight, the oldest first, each once; the marker is set exactly if the application took it and has to report the outcome; then nothing more is handed on")
    c.rule("failing", "a message that the application refuses is an error of its own call, and the next ones are still sent")
    F = c.F
    f = F.one(CM + "send_next_message$")
    n, kept = [0] * 6, [0]
    adt = [x for x in F.adts if re.search(r"::MessageSendResult$", x)]
    vals = {v[0]: int(v[1]) for v in F.adts[adt[0]]["vs"]}

    def step(q, e):
        mode, pushed, over = q
        if e[0] in ("call", "mcall") and re.search(r"VecDeque(<.*>)?::push_back$", e[1]) and "message_queue" in desc(e[2][0]):
            n[0] += 1
            if pushed or desc(core(e[2][1], True)) != "arg1":
                return Bad("something else is put into the queue, or twice")
            return mode, True, over
        if e[0] == "assume" and e[1].op != "discr" and re.match(r"(not\()?Platform::assume_messages_sent\(", desc(e[1])) and e[2][0] == "e" and len(e[2][1]) == 1:
            # fixed before the first message is sent
            over = bool(next(iter(e[2][1]))) != desc(e[1]).startswith("not(")
            return ("unmarked" if over else "flying") if mode == "marked" else mode, pushed, over
        if e[0] == "assume" and re.search(r"message_queue[\w~.]*\.messages_in_flight$", desc(e[1])) and e[1].op != "discr" and e[2][0] == "e" and mode in ("idle", "free", "after"):
            return ("free" if e[2][1] == frozenset((0,)) else "busy"), pushed, over
        if e[0] in ("call", "mcall") and re.search(r"::pop_front$", e[1]):
            n[1] += 1
            if mode != "free":
                return Bad("a message is taken from the queue while one may be in flight")
            return "popped", pushed, over
        if e[0] in ("call", "mcall") and re.search(r"VecDeque(<.*>)?::(pop_back|swap_remove\w*|remove|clear|drain|truncate|push_front|insert|rotate\w*|retain\w*)$", e[1]):
            return Bad("the queue is changed by %s" % tail(e[1]))
        if e[0] == "assume" and e[1].op == "discr" and mode == "popped" and "Option" in str(e[1].a[1]) and "pop_front(" in desc(e[1].a[0]) and e[2][0] == "e":
            return ("have" if e[2][1] == frozenset((1,)) else "empty"), pushed, over
        if e[0] in ("call", "mcall") and e[2] and desc(e[2][0]).endswith("message_closure"):
            n[2] += 1
            if mode != "have" or "pop_front(" not in desc(e[2][0]):
                return Bad("a message is handed to the application that was not just taken from the queue")
            return "sent", pushed, over
        if e[0] == "assume" and e[1].op == "discr" and mode == "sent" and "message_closure" in desc(e[1].a[0]) and e[2][0] == "e" and "Result" in str(e[1].a[1]) and "MessageSendResult" not in str(e[1].a[1]):
            return ("took" if e[2][1] == frozenset((0,)) else "refused"), pushed, over
        if e[0] == "assume" and mode in ("took", "took in flight", "took unsent") and "message_closure" in full_desc(e[1]) and e[2][0] == "e" and len(e[2][1]) == 1:
            v, sent = next(iter(e[2][1])), None
            if e[1].op == "discr" and "MessageSendResult" in str(e[1].a[1]):
                sent = v == vals["Sent"]
            elif e[1].op == "eq":
                t = full_desc(e[1])
                sent = bool(v) if t.count("::Sent") else not v if t.count("::NotSent") else None
            return ("took in flight" if sent else "took unsent") if sent is not None else mode, pushed, over
        if is_flag(e):
            n[3] += 1
            if not mode.startswith("took"):
                return Bad("the marker of a message in flight is changed without one being sent")
            t = desc(e[3])
            if re.match(r"not\(Platform::assume_messages_sent\(", t):
                new = "marked" if over is None else "unmarked" if over else "flying"
            elif t in ("1", "True"):
                new = "flying" if over is False else None
            elif t in ("0", "False"):
                new = "unmarked" if over or mode == "took unsent" else None
            else:
                new = None
            if new is None or new != "unmarked" and mode != "took in flight":
                return Bad("the marker of a message in flight becomes %s" % t[:60])
            return new, pushed, over
        if e[0] == "store" and store_path(e) and store_path(e)[-1] == (Q, "last_sent_message_type"):
            if not mode.startswith("took") and mode not in ("marked", "unmarked", "flying", "sent") or not re.search(r"pop_front\(.*\.message_type", full_desc(e[3])):
                return Bad("the type of the last message becomes %s" % full_desc(e[3])[-60:])
            kept[0] += 1
            return q
        if e[0] == "call" and re.search(CM + "internal_error$", e[1]):
            n[4] += 1
            if mode != "refused" or not re.search(r"pop_front\(.*\.call_id$", full_desc(core(e[2][1], True))):
                return Bad("the failure of a message is an error of %s" % full_desc(core(e[2][1], True))[:60])
            return "after", pushed, over
        if e[0] == "assume" and mode == "after" and e[1].op == "discr" and "internal_error(" in desc(e[1].a[0]) and e[2] == ("e", frozenset((1,))):
            return "broken", pushed, over
        if e[0] == "call" and re.search(r"lock$", e[1]) and "message_queue" in desc(e[2][0]) and mode in ("unmarked", "marked", "flying", "after"):
            if mode in ("marked", "flying"):
                return Bad("the next message is looked for although one may be in flight")
            return "idle", pushed, over
        return q

    def end(q, node):
        mode, pushed, over = q
        if mode in ("have", "sent", "popped"):
            return Bad("a message taken from the queue is lost")
        if mode.startswith("took"):
            return Bad("the marker isn't set after a message was sent")
        if mode == "refused":
            return Bad("a message that the application refuses goes unnoticed")
        if mode in ("unmarked", "marked", "after"):
            return Bad("sending stops with messages left and none in flight")
        n[5] += 1
        return None
    g = c.graph(f, interest=lambda x: x != f and re.search(CM + "internal_error$", x), noinline=lambda x: bool(re.search(STEPS, x)) and x != f, deep=True, cap=3000, big=True)
    c.auto("single", "send_next_message", g, ("idle", False, None), step, end=end)
    c.floor("messages put into the queue", n[0], 1)
    c.floor("messages taken from the queue", n[1], 1)
    c.floor("messages handed to the application", n[2], 1)
    c.floor("changes of the marker", n[3], 1)
    c.floor("failures of messages", n[4], 1)
    c.floor("types of messages remembered", kept[0], 1)
    for p in steps(c, f):
        if p.kind != "ret":
            continue
        b = Before(F, p, len(p.ev))
        given = [e for e in p.ev if e[0] == "assume" and e[1].op == "discr" and desc(e[1].a[0]) == "arg1"]
        push = [e for e in p.ev if e[0] in ("call", "mcall") and re.search(r"::push_back$", e[1])]
        if given and given[0][2] == ("e", frozenset((1,))):
            why = [e for e in p.ev if e[0] == "assume" and e[1].op == "discr" and e[2] == ("e", frozenset((1,))) and desc(e[1].a[0]).endswith(".message_queue")]
            c.ob("single", "queued", len(push) == 1 or bool(why), "a message that is to be sent isn't put into the queue")
        if ok_ret(p.ret) is True:
            # success: the queue is empty or something is in flight
            last_ = None
            for e in p.ev:
                if e[0] == "assume" and e[1].op == "discr" and "pop_front(" in desc(e[1].a[0]) and "message_closure" not in desc(e[1].a[0]) and e[2] == ("e", frozenset((0,))):
                    last_ = "empty"
                elif e[0] == "assume" and e[1].op != "discr" and re.search(r"messages_in_flight$", desc(e[1])) and e[2] == ("e", frozenset((1,))):
                    last_ = "in flight"
                elif is_flag(e):
                    last_ = "in flight"
                elif e[0] in ("call", "mcall") and re.search(r"::pop_front$", e[1]):
                    last_ = None
            c.ob("failing", "goes on", last_ is not None, "sending stops with messages left and none in flight")


def touch(c):
    c.rule("queue", "the queue is changed only by sending, by dropping an ended call's messages and by reset; the marker is cleared only when an outcome is reported, a call starts, or on reset")
    c.rule("application", "the application is given a message only by the queue's closures, which are run only by the queue's sender; each says sent exactly if the application took it")
    F = c.F
    snd, trim, reset = F.one(CM + "send_next_message$"), F.one(CM + "trim_messages$"), F.one(CM + "handle_reset$")
    fail, sent = F.one(CM + "handle_message_send_failure$"), F.one(CM + "handle_message_sent$")
    hc, ho = F.one(CM + "handle_call$"), F.one(CM + "handle_received_offer$")
    new = [x for x in F.fns if re.search(r"SignalingMessageQueue::new$", x)]
    n = 0
    for fn in sorted(raw_mentions(F, Q, "queue")):
        n += 1
        root = fn.split("::{closure")[0]
        c.ob("queue", "queue in %s" % tail(root), root in (snd, trim, reset) + tuple(new) or only_called_from(F, root, {snd, trim, reset}), "%s touches the queue of messages" % short(root))
    clear = set()
    for fn, kind, rv, ln in field_writes(F, Q, "messages_in_flight"):
        n += 1
        root = fn.split("::{closure")[0]
        if root in new or root == snd or only_called_from(F, root, {snd}):
            continue
        clear.add(root)
        for p in steps(c, root):
            for e in p.ev:
                if is_flag(e):
                    c.ob("queue", "cleared in %s" % tail(root), desc(e[3]) in ("0", "False"), "%s sets the marker of a message in flight to %s" % (short(root), desc(e[3])[:50]))
    ok = {snd, reset, fail, sent, hc, ho}
    for r in sorted(clear):
        c.ob("queue", "marker in %s" % tail(r), r in ok or only_called_from(F, r, ok), "%s clears the marker of a message in flight" % short(r))
    c.floor("places that touch queue or marker", n, 5)
    via = {r.split("::{closure")[0] for x in clear - ok for r in F.callers().get(x, ())} - ok
    # a starting call: only when it was really made
    for f in (hc, ho):
        for p in steps(c, f, inline=[CM + "check_for_collision$"], expand=[r"validate_offer$"]):
            for i, e in enumerate(p.ev):
                if is_flag(e) or e[0] == "call" and e[1] in clear | via:
                    made = [x for x in p.ev[:i] if x[0] == "call" and re.search(r"core::call::Call::new$", x[1])]
                    b = Before(F, p, i)
                    c.ob("queue", "start in %s" % tail(f), bool(made) and (b.truth(r"arg0~*\.busy") == 0 or any(x[0] == "call" and re.search(CM + "(terminate_call|clear_active_call)$", x[1]) for x in p.ev[:i])), "the marker is cleared for a call that doesn't start")
    # closures
    k = m = 0
    closures = {}
    for fn, bi, ref, t in call_sites(F, r"Platform.*::on_send_(offer|answer|ice|hangup|busy)$"):
        if re.search(r"as ringrtc::core::platform::Platform>", fn):
            continue
        k += 1
        c.ob("application", "in %s" % tail(fn), "{closure" in fn and fn.startswith("ringrtc::core::call_manager::CallManager::"), "%s gives the application a message past the queue" % short(fn))
        closures[fn] = 1
    for cl in sorted(closures):
        own = cl.split("::{closure")[0]
        for p in steps(c, cl):
            if p.kind != "ret":
                continue
            m += 1
            call = [e for e in p.ev if e[0] == "call" and re.search(r"Platform.*::on_send_\w+$", e[1])]
            r = desc(core(p.ret, True))
            if ok_ret(p.ret) is False:
                continue
            for e in call:
                res = [x for x in p.ev if x[0] == "assume" and x[1].op == "discr" and "Result" in str(x[1].a[1]) and last(e[1]) + "(" in desc(x[1].a[0])[:60]]
                c.ob("application", "refused in %s" % tail(own), bool(res) and res[0][2] == ("e", frozenset((0,))), "a message that the application refuses is said to be sent")
            c.ob("application", "said in %s" % tail(own), (len(call) == 1) == ("NotSent" not in r and "Sent" in r) and len(call) <= 1, "a message handed on %d times is said to be %s" % (len(call), r[-30:]))
        item = None
        for p in steps(c, own, closures=False):
            for e in p.ev:
                if e[0] == "call" and e[1] == snd and any(str(x.a[1]) == cl for v in e[2] for x in subvals(v) if x.op == "agg" and x.a[0] == "clo"):
                    item = next((x for v in e[2] for x in subvals(v) if x.op == "agg" and x.a[0] == "adt" and x.a[4] and "message_closure" in x.a[4]), None)
                    clo = next(x for v in e[2] for x in subvals(v) if x.op == "agg" and x.a[0] == "clo" and str(x.a[1]) == cl)
                    if item is None:
                        continue
                    ty = variant_of(agg_field(item, "message_type"))
                    ident = desc(core(agg_field(item, "call_id"), True))
                    for q in steps(c, cl):
                        for y in q.ev:
                            if y[0] == "call" and re.search(r"Platform.*::on_send_\w+$", y[1]):
                                c.ob("application", "type of %s" % last(y[1]), SENT.get(last(y[1])) == ty, "%s goes through the queue as %s" % (last(y[1]), ty))
                                got = desc(core(y[2][2], True))
                                w = re.fullmatch(r"arg0\.(\d+)", got)
                                cap = desc(core(clo.a[5][int(w.group(1))], True)) if w and int(w.group(1)) < len(clo.a[5]) else got
                                c.ob("application", "id of %s" % last(y[1]), cap == ident or cap.endswith("call_id") and ident.endswith("call_id"), "a message for %s goes through the queue as one for %s" % (cap[:40], ident[:40]))
            sends = [e for e in p.ev if e[0] == "call" and e[1] == snd]
            if p.kind == "ret" and ok_ret(p.ret) is not False:
                c.ob("application", "queued in %s" % tail(own), len(sends) <= 1, "%s queues a message %d times" % (short(own), len(sends)))
        c.ob("application", "through the queue in %s" % tail(own), item is not None, "%s gives the application a message past the queue" % short(own))
    c.floor("messages given to the application", k, 5)
    c.floor("ways to give the application a message", m, 8)
    # who runs the closures
    for fn in sorted(raw_mentions(F, "SignalingMessageItem", "message_closure")):
        root = fn.split("::{closure")[0]
        c.ob("application", "run by %s" % tail(root), root == snd or only_called_from(F, root, {snd}) or fn in {x[0] for x in field_writes(F, "SignalingMessageItem", "message_closure")}, "%s runs a message's closure" % short(root))


def outcomes(c):
    c.rule("next", "when the application reports the outcome of a message, the marker is cleared and then the next message is sent")
    c.rule("failure", "a failed message ends its own call, unless it was an ICE candidate of a connected call or the call is already ending")
    F = c.F
    snd = F.one(CM + "send_next_message$")
    n = 0
    for name in ("handle_message_sent", "handle_message_send_failure"):
        f = F.one(CM + name + "$")
        for p in steps(c, f, inline=[CM + "(reset_messages_in_flight|active_call)$"], deep=False):
            if p.kind != "ret":
                continue
            cl = [i for i, e in enumerate(p.ev) if is_flag(e)]
            nx = [i for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == snd]
            lock = [e for e in p.ev if e[0] == "assume" and e[1].op == "discr" and e[2] == ("e", frozenset((1,))) and desc(e[1].a[0]).endswith("message_queue")]
            n += 1
            if not nx or not cl:
                c.ob("next", name, bool(lock), "%s doesn't go on to the next message" % short(f))
                continue
            c.ob("next", name, len(nx) == 1 and cl[-1] < nx[0] and variant_of(p.ev[nx[0]][2][1]) == "None", "%s sends on before the outcome is noted" % short(f))
            te = [i for i, e in enumerate(p.ev) if e[0] == "call" and re.search(CM + r"(terminate\w*|handle_terminate\w*|internal_\w+)$", e[1])]
            c.ob("next", name + " ends", all(i < nx[0] for i in te), "the call is ended after the next message was sent")
    c.floor("reports of outcomes", n, 4)
    f = F.one(CM + "handle_message_send_failure$")
    seen = set()
    for p in steps(c, f, inline=[CM + "active_call$"], deep=False):
        if p.kind != "ret":
            continue
        te = [(i, e) for i, e in enumerate(p.ev) if e[0] == "call" and re.search(CM + r"(terminate_active_call|terminate_call|handle_terminate_active_call|internal_\w+)$", e[1])]
        b = Before(F, p, te[0][0] if te else len(p.ev))
        own = None
        for x, y, o in b.eqs():
            if "arg1" in (x, y) and any("active_call_id" in z for z in (x, y)):
                own = o
        conn = ice = None
        for e in b.q.ass:
            t = full_desc(e[1])
            if e[1].op == "eq" and "last_sent_message_type" in t:
                ice = bool(next(iter(e[2][1]))) if e[2][0] == "e" and len(e[2][1]) == 1 else ice
            if ice is None and e[1].op == "discr" and e[2] == ("e", frozenset((1,))) and desc(e[1].a[0]).endswith(".message_queue"):
                ice = False  # the queue can't be read any more: a panic elsewhere
            if e[1].op == "discr" and e[2][0] == "e" and "last_sent_message_type" in t:
                if "Option" in str(e[1].a[1]):
                    ice = False if e[2][1] == frozenset((0,)) else ice
                else:
                    vals = {v[0]: int(v[1]) for v in F.adts["ringrtc::core::signaling::MessageType"]["vs"]}
                    ice = True if e[2][1] == frozenset((vals["Ice"],)) else False if vals["Ice"] not in e[2][1] else ice
        states = None
        sv = {v[0]: int(v[1]) for v in F.adts["ringrtc::common::CallState"]["vs"]}
        for e in b.q.ass:
            if e[1].op == "discr" and "CallState" in str(e[1].a[1]) and e[2][0] == "e":
                states = e[2][1] if states is None else states & e[2][1]
            if e[1].op == "discr" and "Result" in str(e[1].a[1]) and desc(e[1].a[0]).startswith("Call::state(") and e[2] == ("e", frozenset((1,))):
                conn = False
            if e[1].op != "discr" and "connected_or_reconnecting" in desc(e[1]) and e[2][0] == "e" and len(e[2][1]) == 1:
                conn = bool(next(iter(e[2][1])))
        if states is not None:
            up = {sv[x] for x in UP}
            conn = True if states <= up else False if not states & up else conn
        if te:
            seen.add("ends")
            a = te[0][1][2]
            c.ob("failure", "own", own is True or len(a) > 3 and d(a[1]) == "arg1", "a failed message ends a call that isn't its own")
            c.ob("failure", "candidate", conn is False or ice is False, "a failed candidate ends a call that may be connected")
            c.ob("failure", "once", len(te) == 1, "a failed message ends the call %d times" % len(te))
            why = next((variant_of(core(x, True)) for x in reversed(a) if variant_of(core(x, True))), None)
            c.ob("failure", "reason", why == "SignalingFailure", "a failed message ends the call with %s" % why)
        elif own is True:
            seen.add("stays")
            c.ob("failure", "stays", conn is True and ice is True, "a failed message doesn't end its call")
    c.floor("outcomes of a failure", len(seen), 2)


UP = ("ConnectedBeforeAccepted", "ConnectedAndAccepted", "ReconnectingAfterAccepted")


def trims(c):
    c.rule("trim", "when a call ends, exactly its messages other than hang-up and busy are dropped from the queue")
    F = c.F
    f = F.one(CM + "trim_messages$")
    n = 0
    cls = set()
    for p in steps(c, f, closures=False):
        if p.kind != "ret":
            continue
        r = [e for e in p.ev if e[0] in ("call", "mcall") and re.search(r"VecDeque(<.*>)?::retain(_mut)?$", e[1]) and desc(e[2][0]).endswith(".queue")]
        if ok_ret(p.ret) is True:
            n += 1
            c.ob("trim", "all", len(r) == 1, "the messages of an ended call stay")
            for e in r:
                cls |= {x for v in e[2] for x in subvals(v) if x.op == "agg" and x.a[0] == "clo"}
    c.floor("ways to drop messages", n, 1)
    vals = {v[0]: int(v[1]) for v in F.adts["ringrtc::core::signaling::MessageType"]["vs"]}
    k = 0
    for x in cls:
        for p in steps(c, str(x.a[1])):
            if p.kind != "ret":
                continue
            b = Before(F, p, len(p.ev))
            same = None
            for s, t, o in b.eqs():
                if {re.sub(r"^.*\.", "", s), re.sub(r"^.*\.", "", t)} & {"call_id"}:
                    same = o
            allowed = set(vals)
            for e in b.q.ass:
                if e[1].op == "discr" and desc(e[1].a[0]).endswith("message_type") and e[2][0] == "e":
                    allowed &= {v for v in vals if vals[v] in e[2][1]}
            r = desc(core(p.ret, True))
            for v in sorted(allowed):
                w = re.search(r"message_type (Eq|Ne) MessageType::(\w+)|MessageType::(\w+) (Eq|Ne) ", r)
                q = re.match(r"(not\()?eq\(", r)
                if r in ("0", "1", "True", "False"):
                    keep = r in ("1", "True")
                elif w:
                    keep = (v == (w.group(2) or w.group(3))) == ((w.group(1) or w.group(4)) == "Eq")
                elif q and "MessageType::" in r:
                    keep = (v == re.search(r"MessageType::(\w+)", r).group(1)) != bool(q.group(1))
                elif q and "call_id" in r:
                    keep = "same" if not q.group(1) else "other"
                else:
                    keep = None
                k += 1
                if keep == "other":
                    c.ob("trim", v, v not in ("Hangup", "Busy"), "%s messages of an ended call are dropped" % v)
                    continue
                want = True if same is False else v in ("Hangup", "Busy") if same is True else None
                if want is None:
                    # the same answer whatever the id
                    c.ob("trim", v, keep is True and v in ("Hangup", "Busy"), "%s messages are %s whatever their call" % (v, "kept" if keep else "dropped"))
                else:
                    c.ob("trim", v, keep is want, "%s messages of %s call are %s" % (v, "another" if same is False else "an ended", "kept" if keep else "dropped"))
    c.floor("kinds of messages considered", k, 6)


def check(c):
    sender(c)
    touch(c)
    outcomes(c)
    trims(c)
    return "strong", "every path of the queue's sender, of the reports of outcomes and of an ending call's trimming; every place that touches the queue, its marker or gives the application a message"
