"""C12: in-call control messages count only if for this call and newer than the last"""
from fsm_lib import *

TECHNIQUE = "path tables of the connection state machine, the control message parser and the control message sender (MIR)"
CN = r"core::connection::Connection::"
EFF = r"core::connection::Connection::(set_state|notify_observer|internal_error|set_remote_max_bitrate|set_network_route|send_\w+|update_\w+|handle_received_\w+|buffer_local_ice_candidates|notify_terminate_complete|enable_media|call_id)$|PeerConnection::\w+$|Actor::send$|Stopper::\w+$|EventStream::\w+$"
RECV = {"ReceivedAcceptedViaRtpData", "ReceivedHangup", "ReceivedSenderStatusViaRtpData", "ReceivedReceiverStatusViaRtpData"}
QUIET = re.compile(r"Connection::(call_id|id|connection_id|direction|clone)$|Stopper::has_been_stopped$")
STATUS = {"ReceivedSenderStatusViaRtpData": ("last_remote_sender_status", "notify_observer"),
          "ReceivedReceiverStatusViaRtpData": ("last_remote_receiver_status", "set_remote_max_bitrate")}


def actions(p):
    for i, e in enumerate(p.ev):
        if e[0] == "call" and re.search(EFF, e[1]) and not QUIET.search(e[1]):
            yield i, e
        elif e[0] == "store" and store_path(e) and store_path(e)[0][0] == "ConnectionStateMachine":
            yield i, e


def status_action(e):
    """(which field it reports, the value) of an action that applies a remote status"""
    if e[0] != "call":
        return None
    if e[1].endswith("::set_remote_max_bitrate"):
        return "last_remote_receiver_status", core(e[2][1], True)
    if e[1].endswith("::notify_observer"):
        v = core(e[2][1], True)
        if variant_of(v) == "RemoteSenderStatusChanged":
            return "last_remote_sender_status", core(payload(v), True)
    return None


def receiving(c):
    g, rs, _, _ = connection_rows(c, EFF)
    seen = {k: 0 for k in RECV}
    newer = shown = 0
    for r in rs:
        p = r.p
        mine = r.events & RECV
        own = []
        if mine and len(r.events) > 1 and any(True for _ in actions(p)):
            c.ob("own call", "dispatch", False, "an event of %s has an effect before it is known which it is" % "/".join(sorted(r.events)))
            continue
        if mine and len(r.events) == 1:
            n = next(iter(mine))
            acts = list(actions(p))
            own = [i for i, e in enumerate(p.ev) if e[0] == "assume" and e[1].op == "eq" and e[2] == ("e", frozenset((1,)))
                   and {re.sub(r"(\.0)?$", "", full_desc(core(x, True)), count=1) for x in e[1].a[:2]} >= {"arg3@%s" % n}
                   and any("call_id(arg1)" in full_desc(x) for x in e[1].a[:2])]
            if acts:
                seen[n] += 1
                c.ob("own call", n, bool(own) and own[0] < acts[0][0], "%s has an effect without its call id being that of the connection" % n)
        field = STATUS.get(next(iter(r.events)) if len(r.events) == 1 else None, (None,))[0]
        stored = None
        for i, e in actions(p):
            if e[0] == "store":
                which = store_path(e)[0][1]
                if not which.startswith("last_remote_"):
                    continue
                n = next(iter(r.events)) if len(r.events) == 1 else None
                good = which == field and len(store_path(e)) == 1
                c.ob("newest", "%s kept" % which, good, "%s is changed by %s" % (which, "/".join(sorted(r.events))))
                if not good:
                    continue
                v = payload(e[3]) if variant_of(e[3]) == "Some" else core(e[3], True)
                parts = [full_desc(core(x, True)) for x in v.a[5]] if v.op == "agg" else []
                c.ob("newest", "%s value" % which, parts == ["arg3@%s.2" % n, "arg3@%s.1" % n], "%s becomes %s" % (which, desc(e[3])[:100]))
                stored = which
        for i, e in actions(p):
            sa = status_action(e)
            if sa is None:
                continue
            which, v = sa
            d = full_desc(v)
            n = next(iter(r.events)) if len(r.events) == 1 else None
            if field == which:
                c.ob("newest", "%s applied" % which, d == "arg3@%s.1" % n and stored == which, "the remote status applied is %s" % d[:100])
            else:
                c.ob("newest", "%s caught up" % which, d.endswith("arg0.%s.1" % which) or d == "arg0.%s.1" % which, "the remote status applied is %s" % d[:100])
            shown += 1
        if field and (stored or any(status_action(e) for _, e in actions(p))):
            n = next(iter(r.events))
            none = p.variant(c.F, "arg0.%s" % field) == frozenset(("None",)) or any(
                e[0] == "assume" and optfact(e) == ("arg0.%s" % field, 0) for e in p.ev)
            lo = p.rng({"arg3@%s.2" % n: 1, "arg0.%s.0" % field: -1})[0]
            newer += 1
            c.ob("newest", "%s strictly newer" % field, none or lo >= 1, "a status that is not newer than the last one counts")
        if field and own and not stored and p.kind == "ret":
            n = next(iter(r.events))
            c.ob("newest", "%s remembered" % field, p.rng({"arg3@%s.2" % n: 1, "arg0.%s.0" % field: -1})[1] <= 0, "a newer status is not remembered as the newest")
        # a newer, different status of an accepted call is applied
        if field and stored and r.states <= {"ConnectedAndAccepted", "ReconnectingAfterAccepted"} and p.kind == "ret":
            n = next(iter(r.events))
            same_ = [e for e in p.ev if e[0] == "assume" and e[1].op == "eq" and e[2] == ("e", frozenset((1,)))
                     and any(("arg0.%s" % field) in full_desc(x) for x in e[1].a[:2])]
            done = [1 for _, e in actions(p) if status_action(e)]
            c.ob("newest", "%s not lost" % field, bool(done) or bool(same_), "a newer status of an accepted call is not applied")
    c.floor("control message actions", min(seen.values()), 1)
    c.floor("newest statuses", newer, 4)
    c.floor("statuses applied", shown, 4)
    F = c.F
    inside = F.reach([F.one(CONN)])
    for fld in ("last_remote_sender_status", "last_remote_receiver_status"):
        ws = field_writes(F, "ConnectionStateMachine", fld)
        for fn, how, rv, line in ws:
            c.ob("newest", "%s writers %s" % (fld, tail(fn)), fn in inside or how == "new", "%s changes %s" % (short(fn), fld))
        c.floor("writers of " + fld, len(ws), 2)


IDS = {"ReceivedAcceptedViaRtpData": "accepted", "ReceivedHangup": "hangup", "ReceivedSenderStatusViaRtpData": "sender_status", "ReceivedReceiverStatusViaRtpData": "receiver_status"}


def parsing(c):
    F = c.F
    f = F.one(CN + r"inject_received_via_rtp_data$")
    rx = re.compile(r"inject_event$|Message>?::decode$")
    g = c.graph(f, interest=lambda n: rx.search(n), noinline=lambda n: rx.search(n), deep=True, cap=2000, max_nodes=200000)
    M = r"Message::decode\(arg1\)"
    seen = set()

    def step(q, e):
        if e[0] == "assume":
            o = optfact(e)
            if o and re.fullmatch(M + r"\.\w+", full_desc(e[1].a[0]) if e[1].op == "discr" else "") and o[1] == 1:
                return q | {full_desc(e[1].a[0]).rsplit(".", 1)[1]}
            if e[1].op == "discr" and "direction" in desc(e[1]) and e[2] == ("e", frozenset((1,))):
                return q | {"outgoing"}
            return q
        if not (e[0] == "call" and e[1].endswith("::inject_event")):
            return q
        ev = core(e[2][1], True)
        n = variant_of(ev)
        if n not in IDS:
            return q if n == "InternalError" else Bad("a control message causes the event %s" % n)
        seen.add(n)
        part = IDS[n]
        if part not in q:
            return Bad("%s is raised without the message having that part" % n)
        cid = full_desc(core(ev.a[5][0], True))
        if cid not in ("CallId{Message::decode(arg1).%s.id}" % part, "CallId{0}"):
            return Bad("%s names the call %s" % (n, cid[:80]))
        if n == "ReceivedAcceptedViaRtpData" and "outgoing" not in q:
            return Bad("an incoming call takes 'accepted' from the caller")
        if n in STATUS:
            if full_desc(core(ev.a[5][2], True)) != "Message::decode(arg1).seqnum" or "seqnum" not in q:
                return Bad("%s gets the sequence number %s" % (n, full_desc(ev.a[5][2])[:80]))
            txt = full_desc(ev.a[5][1])
            others = set(re.findall(M + r"\.(\w+)", txt)) - {part}
            if others:
                return Bad("%s takes its content from %s" % (n, sorted(others)))
            if n == "ReceivedSenderStatusViaRtpData":
                st = core(ev.a[5][1], True)
                for k in ("video_enabled", "sharing_screen", "audio_enabled"):
                    v = agg_field(st, k)
                    if v is None or full_desc(core(v, True)) != "Message::decode(arg1).%s.%s" % (part, k):
                        return Bad("the %s of the sender status is %s" % (k, desc(v)[:80] if v is not None else "missing"))
        return q
    c.auto("parsed", "parts", g, frozenset(), step)
    c.ob("parsed", "all parts", seen == set(IDS), "control messages no longer cause %s" % sorted(set(IDS) - seen))
    # nobody else raises these events
    allowed = {f}
    n = 0
    for fn, b in F.fns.items():
        for vs in raised(b):
            if vs in IDS:
                n += 1
                c.ob("parsed", "raised %s by %s" % (vs, tail(fn)), fn == f or only_called_from(F, fn, {f}), "%s raises %s" % (short(fn), vs))
    c.floor("control message events raised", n, 4)


def raised(fn):
    for b in fn.b:
        for s in b["s"]:
            rv = s[1]
            if isinstance(rv, dict) and rv.get("r") == "agg" and rv.get("vn") in IDS and "ConnectionEvent" in str(rv.get("d")):
                yield rv["vn"]


def arrival(c):
    F = c.F
    f = F.one(r"core::connection::Connection.*handle_rtp_received$")
    rx = re.compile(r"inject_received_via_rtp_data$")
    g = c.graph(f, interest=lambda n: rx.search(n), noinline=lambda n: rx.search(n), deep=True)
    T = "arg0.last_received_rtp_data_timestamp"
    n = 0
    for p in paths(g):
        got = p.calls(rx)
        st = [e for e in p.ev if e[0] == "store" and store_path(e) and store_path(e)[-1][1] == "last_received_rtp_data_timestamp"]
        for e in st:
            c.ob("arrival", "time kept", full_desc(core(e[3], True)) == "arg1.timestamp" and bool(got), "the time of the last control message becomes %s" % desc(e[3])[:80])
        for e in got:
            n += 1
            c.ob("arrival", "channel", p.rng({"arg1.pt": 1})[:2] == (101, 101) and p.rng({"arg1.ssrc": 1})[:2] == (13, 13), "any packet counts as a control message")
            c.ob("arrival", "not older", p.rng({"arg1.timestamp": 1, T: -1})[0] >= 0 and bool(st), "an older packet counts as a control message")
            c.ob("arrival", "content", full_desc(core(e[2][1], True)) == "arg2", "the control message is %s" % desc(e[2][1])[:80])
    c.floor("packets taken as control messages", n, 1)


ACC = "accumulated_rtp_data_message"
SEND = re.compile(r"PeerConnection::send_rtp$")


def sending(c):
    F = c.F
    # whoever changes the accumulated message or sends something as a control message
    users = {re.sub(r"::\{closure#\d+\}.*$", "", n) for n in raw_mentions(F, "Connection", ACC)} - {n for n in F.fns if n.endswith("Clone>::clone")}
    roots = set()
    callers = F.callers()

    def outermost(n, seen=()):
        """up to the functions that decide what goes into the message"""
        b = F.fns[n]
        takes_code = n in needs_code
        if not takes_code:
            roots.add(n)
            return
        for m in callers.get(n, ()):
            m = re.sub(r"::\{closure#\d+\}.*$", "", m)
            if m not in seen:
                outermost(m, seen + (n,))
    needs_code = {n for n in users if any("FnOnce" in x[1] for x in calls_of(F, n))}
    for n in users:
        outermost(n)
    senders = {n for n in F.fns if re.search(r"core::connection::Connection", n) and "{closure" not in n and any(SEND.search(x[1]) for x in calls_of(F, n))}
    for s in senders:
        if not only_called_from(F, s, roots | users):
            for m in callers.get(s, ()):
                roots.add(re.sub(r"::\{closure#\d+\}.*$", "", m))
    c.floor("ways to send a control message", len(roots), 4)
    nsend = nchg = 0
    for r in sorted(roots):
        rx = re.compile(r"PeerConnection::send_rtp$")
        touch = users | senders
        g = c.graph(r, interest=lambda n: rx.search(n) or n in touch or any(n.startswith(t + "::{closure") for t in touch), noinline=lambda n: rx.search(n) or re.search(r"Message>?::(encode|encoded_len)$|StatsObserver|BandwidthController|notify_observer$", n), deep=True, max_nodes=150000, cap=400)
        nm = tail(r)

        def step(q, e):
            nonlocal nsend, nchg
            changed, numbered, encoded, none = q
            if e[0] == "assume":
                o = optfact(e)
                if o and o[1] == 0 and re.match(r"arg[01]\.", o[0]) and re.search(r"_enabled$|sharing_screen$|sender_status$", o[0]):
                    return q[:3] + (none | {o[0]},)
                return q
            if e[0] == "store":
                path = [x[1] for x in store_path(e)]
                if ACC in path:
                    rest = path[path.index(ACC) + 1:]
                    nchg += 1
                    if not rest:
                        return Bad("the accumulated message is replaced by %s" % desc(e[3])[:80])
                    if rest[0] == "seqnum":
                        v = payload(e[3]) if variant_of(e[3]) == "Some" else e[3]
                        d = desc(v)
                        if d != "(1+arg0.%s.seqnum)" % ACC and d != "1":
                            return Bad("the sequence number becomes %s" % d[:80])
                        return (changed, True, None, none)
                    if len(rest) == 1:
                        v = payload(e[3]) if variant_of(e[3]) == "Some" else None
                        if v is None:
                            return Bad("%s is taken out of the accumulated message" % rest[0])
                        if v.op == "agg":
                            i = agg_field(v, "id")
                            idv = (payload(i) if i is not None and variant_of(i) == "Some" else i) if i is not None else None
                            if idv is None or not re.search(r"\barg0\.call_id(\.id)?$", full_desc(core(idv, True))):
                                return Bad("%s is sent for the call %s" % (rest[0], desc(i)[:60] if i is not None else "?"))
                            if rest[0] == "sender_status":
                                for k in ("video_enabled", "sharing_screen", "audio_enabled"):
                                    d = desc(agg_field(v, k))
                                    prev = "arg0.%s.sender_status.%s" % (ACC, k)
                                    gone = "arg1.%s" % k in none and (prev in none or "arg0.%s.sender_status" % ACC in none)
                                    if not (d == "arg1.%s" % k or d == prev and "arg1.%s" % k in none or d == "Option::None" and gone):
                                        return Bad("%s of the sender status becomes %s" % (k, d[:80]))
                        return (True, False, None, none)
                    return Bad("%s of the accumulated message is changed" % ".".join(rest))
                return q
            if e[0] == "call" and re.search(r"Message>?::encode$", e[1]):
                if full_desc(core(e[2][0], True)) != "arg0." + ACC and desc(core(e[2][0], True)) != "arg0." + ACC:
                    return Bad("the message sent is %s" % desc(e[2][0])[:80])
                if changed and not numbered:
                    return Bad("a changed message is sent under an old sequence number")
                return (changed, numbered, "yes", none)
            if e[0] == "call" and SEND.search(e[1]):
                nsend += 1
                if encoded is None or not re.search(r"(^|\()BytesMut.*~", desc(e[2][2])):
                    return Bad("what is sent is not the accumulated message: %s" % desc(e[2][2])[:80])
                h = core(e[2][1], True)
                ts, sq = agg_field(h, "timestamp"), agg_field(h, "seqnum")
                t = desc(ts) if ts is not None else ""
                if not re.fullmatch(r"\(1\+.*last_sent_rtp_data_timestamp\)", t):
                    return Bad("the packet carries the time %s" % t[:80])
                if desc(sq) != "(%s as u16)" % t:
                    return Bad("the packet carries the number %s" % desc(sq)[:80])
                if (desc(agg_field(h, "pt")), desc(agg_field(h, "ssrc"))) != ("101", "13"):
                    return Bad("the packet is not sent as a control message")
                return q
            return q

        def end(q, node):
            return "the accumulated message is changed without a new sequence number" if q[0] and not q[1] else None
        c.auto("sending", nm, g, (False, False, None, frozenset()), step, end=end)
    c.floor("control messages sent", nsend, 4)
    c.floor("changes of the accumulated message", nchg, 4)
    # the clock of the sent packets only goes up
    ws = field_writes(F, "WebRtcData", "last_sent_rtp_data_timestamp")
    for fn, how, rv, line in ws:
        ok = how == "new" or re.sub(r"::\{closure#\d+\}.*$", "", fn) in senders
        c.ob("sending", "clock writers %s" % tail(fn), ok, "%s changes the time of the last sent message" % short(fn))
    c.floor("clock writers", len(ws), 2)


def calls_of(F, n):
    out = []
    for m in [n] + [x for x in F.fns if x.startswith(n + "::{closure")]:
        for b in F.fns[m].b:
            t = b["t"]
            if t["k"] == "call":
                fr = t["f"].get("f") if isinstance(t["f"], dict) else None
                nm = (fr or {}).get("r") or (fr or {}).get("fn") or ""
                out.append((m, nm if isinstance(nm, str) else str(nm)))
    return out


def check(c):
    c.rule("own call", "an event from a received control message does nothing unless its call id equals the connection's")
    c.rule("newest", "a remote status is kept and applied only if its sequence number is above the last kept one, and a newer one is always kept and, in an accepted call, applied if it differs")
    c.rule("parsed", "the events raised for a control message carry that part's own call id, content and the message's sequence number, and are raised nowhere else")
    c.rule("arrival", "only packets of the control channel count, none older than the last one")
    c.rule("sending", "every control message sent is the whole accumulated message; every change of it gets the next sequence number, names this call and drops no earlier part; packet times go up by one")
    receiving(c)
    parsing(c)
    arrival(c)
    sending(c)
    return "strong", "every path of the connection's event dispatch, of the message parser and of every function that sends control messages"
