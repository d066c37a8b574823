"""T01: the reliable transport never exceeds its window and never resends what was acked (crate mrp)"""
from rules import *

W = "mrp::window::BufferWindow::"
S = "mrp::stream::MrpStream::"


def pos_alts(seq, left, cap):
    """seq inside the window [left, left+cap-1]: (in, before, after) as alternative conditions"""
    sat = "saturating_add(%s,(-1+%s))" % (left, cap)
    ins_lo = [({seq: 1, left: -1}, 0, None)]
    ins_hi = [({seq: 1, sat: -1}, None, 0), ({seq: 1, left: -1, cap: -1}, None, -1)]
    before = [({seq: 1, left: -1}, None, -1)]
    after = [({seq: 1, sat: -1}, 1, None), ({seq: 1, left: -1, cap: -1}, 0, None)]
    return ins_lo, ins_hi, before, after


def check(c):
    c.rule("window-put", "put refuses exactly the sequence numbers outside [left, left+capacity-1], with the error that says on which side, and stores the element at seqnum-left")
    c.rule("window-get", "get_mut looks only at position seqnum-left of a sequence number inside the window")
    c.rule("window-drop", "drop_front(n) drains exactly min(len, n) elements and moves left by n")
    c.rule("window-fields", "left and the capacity limit change only in the window's own sliding functions; the limit never changes")
    c.rule("send", "the sending closure runs only when the window is not full, with the next sequence number; the packet is buffered under that number only after the closure succeeded; a full window is refused before anything happens")
    c.rule("fragments", "fragments are sent only if all of them fit, otherwise refused before anything is sent")
    c.rule("ack-in", "an acknowledgement outside [left, next seqnum] changes nothing; one inside drops exactly ack-left packets")
    c.rule("resend", "only buffered (unacknowledged) packets whose timeout is due are resent, each due packet is, and the timeout is renewed after a successful resend")
    c.rule("recv-full", "a packet beyond the receive window is refused with ReceiveWindowFull of its sequence number")
    F = c.F

    # --- put
    L, C_, SEQ = "arg0.left", "arg0.capacity_limit", "arg1"
    lo, hi, before, after = pos_alts(SEQ, L, C_)
    g = c.graph(W + "put$")
    n = 0
    for p in paths(g):
        if p.kind == "panic" or p.kind == "mpanic":
            continue
        n += 1
        r = p.ret
        st = p.stores("BufferWindow", "data")
        e = err_of(r)
        if e is not None:
            v = variant_of(e)
            c.ob("window-put", "refusal %s" % v, v in ("BeforeWindow", "AfterWindow") and need(p, before if v == "BeforeWindow" else after) and not st and not p.calls("push_back|insert"),
                 "put returns %s although the sequence number is not known to be %s the window, or after changing the buffer" % (v, v[:6]))
            continue
        inside = need(p, lo) and need(p, hi)
        c.ob("window-put", "accept", inside and ok_ret(r) is True, "put accepts a sequence number that may lie outside [left, left+capacity-1]")
        if st:
            c.ob("window-put", "stores the element", desc(st[-1][3]) == "arg2", "put stores %s instead of the given element" % desc(st[-1][3]))
            gm = p.calls(r"VecDeque::get_mut$|VecDeque::index_mut$|IndexMut::index_mut$")
            c.ob("window-put", "position", gm and desc(gm[-1][2][1]) in ("(-1*arg0.left+arg1)", "(arg1+-1*arg0.left)"), "put stores the element at %s instead of seqnum-left" % (desc(gm[-1][2][1]) if gm else "an unknown position"))
        else:
            ok = any(need(p, [({"len(%s)" % d: 1, L: 1, SEQ: -1}, 1, None)]) for d in ("arg0.data", "arg0.data~")) or p.calls("resize|insert$")
            c.ob("window-put", "slot exists", ok, "put can return Ok without storing: the slot for seqnum-left need not exist")
        for e2 in p.calls("push_back$"):
            c.ob("window-put", "filler", desc(e2[2][1]) == "Option::None", "put fills skipped slots with %s" % desc(e2[2][1]))
    c.floor("window-put", n, 3)

    # --- get_mut
    g = c.graph(W + "get_mut$")
    n = 0
    for p in paths(g):
        for e in p.calls(r"VecDeque::(get_mut|get|index_mut|iter_mut)$"):
            n += 1
            c.ob("window-get", "position", desc(e[2][1]) == "(-1*arg0.left+arg1)" if len(e[2]) > 1 else False, "get_mut looks at position %s instead of seqnum-left" % (desc(e[2][1]) if len(e[2]) > 1 else "?"))
            c.ob("window-get", "bounds", need(p, lo), "get_mut looks up a sequence number that may be left of the window")
    c.floor("window-get", n, 1)

    # --- drop_front
    g = c.graph(W + "drop_front$")
    n = 0
    for p in paths(g):
        if p.kind != "ret":
            continue
        st = [e for e in p.ev if e[0] == "store" and store_path(e) and store_path(e)[-1] == ("BufferWindow", "left")]
        dr = p.calls(r"VecDeque::(drain|truncate|split_off|clear|pop_front)$")
        n += 1
        c.ob("window-drop", "left moves by n", len(st) == 1 and desc(st[0][3]) == "(arg0.left+arg1)", "drop_front moves left to %s" % [desc(e[3]) for e in st])
        full = "min(arg1,len(arg0.data))"
        okd = False
        for e in dr:
            if e[1].endswith("::drain"):
                a = desc(e[2][1])
                okd = a in ("RangeTo{%s}" % full, "Range{0,%s}" % full, "RangeTo{min(len(arg0.data),arg1)}") or \
                    (a == "RangeTo{arg1}" and need(p, [({"arg1": 1, "len(arg0.data)": -1}, None, 0)])) or \
                    (a in ("RangeTo{len(arg0.data)}", "RangeFull") and need(p, [({"arg1": 1, "len(arg0.data)": -1}, 0, None)]))
            elif e[1].endswith("::clear"):
                okd = need(p, [({"arg1": 1, "len(arg0.data)": -1}, 0, None)])
            elif e[1].endswith("pop_front"):
                okd = True
        c.ob("window-drop", "drains min(len,n)", okd, "drop_front does not drain exactly the first min(len, n) elements: %s" % [desc(e[2]) for e in dr])
    c.floor("window-drop", n, 1)

    # --- field writers
    owners = {"left": {W + "with_capacity_limit", W + "drain_front", W + "drop_front"}, "capacity_limit": {W + "with_capacity_limit"}}
    n = 0
    for fld, allowed in owners.items():
        for fn, kind, rv, ln in field_writes(F, "BufferWindow", fld):
            n += 1
            ok = fn.split("::{")[0] in allowed or fn.startswith(W) and fld == "left" and only_called_from(F, fn, allowed)
            c.ob("window-fields", "%s in %s" % (fld, tail(fn)), ok, "%s changes BufferWindow::%s" % (fn, fld))
    c.floor("window-fields", n, 4)

    # --- try_send
    SB = "arg0.send_buffer."
    full_alts = [({"len(%sdata)" % SB: 1, SB + "capacity_limit": -1}, 0, None)]
    g = c.graph(S + "try_send$")
    nextseq = "(%sleft+len(%sdata))" % (SB, SB)
    n = 0
    for p in paths(g):
        calls = [e for e in p.ev if is_closure_call(e, 1)]
        st = [e for e in p.ev if e[0] == "store" and any(x[1] in ("send_buffer", "data") for x in store_path(e) or [])]
        grow = p.calls("push_back$")
        c.ob("send", "closure once", len(calls) <= 1, "the sending closure can run twice")
        if calls:
            n += 1
            lo_, hi_, ne_ = p.rng({"len(%sdata)" % SB: 1, SB + "capacity_limit": -1})
            c.ob("send", "not full", hi_ <= -1 or 0 in ne_, "the sending closure runs although the window may be full")
            a = payload(calls[0][2][1]) if calls[0][2][1].op == "agg" else None
            sq = agg_field(a, "seqnum") if a is not None else None
            c.ob("send", "next seqnum", sq is not None and desc(sq) == nextseq, "the sending closure gets sequence number %s, not left+len" % (desc(sq) if sq is not None else "?"))
            c.ob("send", "no piggyback", agg_field(a, "ack_num") is not None and desc(agg_field(a, "ack_num")) == "Option::None", "a data packet header carries an ack number")
            res = calls[0][3]
            ks = p.variant(F, desc(res)) if False else None
            okv = [e for e in p.ass if e[1].op == "discr" and desc(e[1].a[0]) == desc(res) and e[2][0] == "e"]
            good = okv and okv[-1][2][1] == frozenset((0,))
            if st or grow:
                first = min(p.ev.index(e) for e in list(st) + list(grow))
                c.ob("send", "buffer after success", good and first > p.ev.index(calls[0]), "the packet is buffered although the sending closure has not succeeded")
            if p.kind == "ret" and good:
                gm = p.calls(r"VecDeque::get_mut$|index_mut$|push_back$")
                pos = [desc(e[2][1]) for e in p.calls(r"VecDeque::get_mut$")]
                c.ob("send", "buffered at its number", all(d == "len(%sdata)" % SB for d in pos) and gm, "the sent packet is buffered at position %s instead of seqnum-left" % pos)
                for e in st:
                    v = e[3]
                    nm = agg_field(v, "next_send_at")
                    if nm is not None:
                        c.ob("send", "timeout kept", desc(nm).endswith(".1"), "the buffered packet's timeout is %s, not what the closure returned" % desc(nm))
            if p.kind == "ret" and okv and okv[-1][2][1] == frozenset((1,)):
                c.ob("send", "failed send", ok_ret(p.ret) is False and not st and not grow, "a failed send is reported as success or buffered")
        elif p.kind == "ret":
            c.ob("send", "refused when full", ok_ret(p.ret) is False and variant_of(err_of(p.ret)) == "SendWindowFull" and not st and not grow, "try_send returns without sending and without SendWindowFull")
    c.floor("send", n, 2)

    # --- fragments
    g = c.graph(S + "try_send_fragmented$", boundary=lambda x: x == S + "try_send")
    n = 0

    def frag(q, e):
        if e[0] == "assume":
            r = rngfact(e, {"len(arg1)": 1, "len(%sdata)" % SB: 1, SB + "capacity_limit": -1})
            if r and r[1] <= 0:
                return "fits"
            if r and r[0] >= 1:
                return "toobig"
        if e[0] == "call" and e[1] == S + "try_send" or is_closure_call(e, 2):
            if q != "fits" and q != "sent":
                return Bad("a fragment is sent before it is known that all of them fit the window")
            return "sent"
        if e[0] == "ret" and q not in ("fits", "sent") and variant_of(err_of(e[1])) != "SendWindowFull" :
            return Bad("returns without sending the fragments and without SendWindowFull")
        return q
    c.auto("fragments", "all or nothing", g, "start", frag)
    n = sum(1 for nd in g.nodes for e in nd.ev if e[0] == "call" and e[1] == S + "try_send")
    c.floor("fragments", n, 1)

    # --- incoming acks: both receive functions
    n = 0
    for fn, extra in (("receive", {}), ("receive_and_merge", {})):
        ack = "arg1.ack_num"
        g = c.graph(S + fn + "$", interest=lambda x: x.endswith("BufferWindow::drop_front") or x.endswith("VecDeque::drain"), boundary=lambda x: x in (S + "merge_packets", S + "update_receiver_window"))
        for p in paths(g):
            if p.kind != "ret":
                continue
            av = p.variant(F, ack)
            drains = [e for e in p.calls("VecDeque::(drain|pop_front|clear|truncate|split_off)$") if "send_buffer" in desc(e[2][0])]
            lefts = [e for e in p.ev if e[0] == "store" and store_path(e) and ("BufferWindow", "left") in store_path(e) and ("MrpStream", "send_buffer") in store_path(e)]
            if drains or lefts:
                n += 1
                inr = need(p, [({ack: 1, SB + "left": -1}, 0, None)])
                ub = need(p, [({ack: 1, SB + "left": -1, "len(%sdata)" % SB: -1}, None, 0)])
                c.ob("ack-in", fn + " only valid acks", inr and ub and av == frozenset(("Some",)), "the send window moves on an acknowledgement that may be stale or of something never sent")
                want = {"(%s)" % "+".join(sorted([SB + "left", "(-1*%sleft+%s)" % (SB, ack)])), ack}
                c.ob("ack-in", fn + " exact", all(desc(e[3]) == ack for e in lefts) and lefts, "an acknowledgement moves the send window to %s instead of the acknowledged number" % [desc(e[3]) for e in lefts])
            elif av == frozenset(("Some",)):
                out = need(p, [({ack: 1, SB + "left": -1}, None, 0)]) or need(p, [({ack: 1, SB + "left": -1, "len(%sdata)" % SB: -1}, 1, None)])
                c.ob("ack-in", fn + " valid acks count", out, "an acknowledgement inside the window may be ignored")
            if av == frozenset(("Some",)):
                c.ob("ack-in", fn + " result", ok_ret(p.ret) is True, "an acknowledgement makes receive fail")
    c.floor("ack-in", n, 2)

    # --- try_resend
    g = c.graph(S + "try_resend$")
    n = 0

    def resend(q, e):
        # (present?, due?, awaiting renewal, exhausted)
        pres, due, renew, last = q
        d, vals = assumed(e)
        if d is not None:
            if d.endswith("transmit") and "send_buffer" in d:
                due = True if vals == frozenset((1,)) else due
                if vals == frozenset((0,)):
                    due = None if due is not True else due
            elif "next_send_at" in d and "arg1" in d:
                t = truth_of_due(e)
                if t is not None:
                    due = t
            elif d.startswith("discr(") and "::next(" in d:
                if due is True:
                    return Bad("a packet that is due is skipped")
                last = vals == frozenset((0,))
                pres = due = None
        if is_closure_call(e, 2):
            if due is not True:
                return Bad("a packet is resent although it is not known to be due")
            if renew:
                return Bad("a packet is resent without renewing the previous one's timeout")
            if "send_buffer" not in desc(e[2][1]) and "send_buffer" not in repr(e[2][1]):
                return Bad("what is resent does not come from the send buffer: %s" % desc(e[2][1]))
            due, renew = None, True
        if e[0] == "store" and store_path(e) and store_path(e)[-1] == ("PendingPacket", "next_send_at"):
            if not re.match(r"(\w+::)?call(_mut)?\(arg2", desc(e[3])):
                return Bad("the timeout is set to %s, not to what the closure returned" % desc(e[3]))
            renew = False
        if e[0] == "ret":
            if ok_ret(e[1]) is not False:
                if renew:
                    return Bad("returns without renewing the timeout of a resent packet")
                if due is True:
                    return Bad("a packet that is due is skipped")
                if last is False:
                    return Bad("stops before all buffered packets have been looked at")
        return (pres, due, renew, last)
    c.auto("resend", "try_resend", g, (None, None, False, None), resend)
    n = sum(1 for nd in g.nodes for e in nd.ev if is_closure_call(e, 2))
    c.floor("resend", n, 1)
    rg = [desc(e[2]) for nd in g.nodes for e in nd.ev if e[0] == "call" and e[1].endswith("RangeInclusive::new")]
    for d in set(rg):
        c.ob("resend", "range", d == SB + "left,(-1+%sleft+len(%sdata))" % (SB, SB), "the packets looked at are %s, not left..=left+len-1" % d)

    # --- receive beyond the window
    RB = "arg0.receive_buffer."
    n = 0
    for fn in ("receive", "receive_and_merge"):
        g = c.graph(S + fn + "$", boundary=lambda x: x in (S + "merge_packets", S + "update_send_window", W + "drain_front"))
        lo, hi, before, after = pos_alts("arg1.seqnum", RB + "left", RB + "capacity_limit")
        for p in paths(g):
            e = err_of(p.ret) if p.kind == "ret" else None
            if e is not None and variant_of(e) == "ReceiveWindowFull":
                n += 1
                c.ob("recv-full", fn, need(p, after) and desc(payload(e)) == "arg1.seqnum", "ReceiveWindowFull is reported for a sequence number that is not beyond the window")
            elif p.kind == "ret" and need(p, after):
                c.ob("recv-full", fn, False, "a packet beyond the receive window is not refused")
    c.floor("recv-full", n, 2)
    return "other", "path tables and automata over the MIR of crate mrp: every path of put/get_mut/drop_front/try_send/try_send_fragmented/receive/try_resend is enumerated and its conditions, closure calls and stores compared with the window specification"


def truth_of_due(e):
    """does the assumption say that now >= next_send_at?"""
    o = ordfact(e)
    if o is None:
        return None
    op, a, b = o
    if a == "arg1":
        return op == ">="
    return True if op == "<" else None
