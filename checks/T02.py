"""T02: every acknowledged reliable message is processed, exactly once and in order (crate mrp and its group call consumer)"""
from rules import *

W = "mrp::window::BufferWindow::"
S = "mrp::stream::MrpStream::"
M = "mrp::merge_buffer::MergeBuffer::"


def check(c):
    F = c.F
    c.rule("take", "a received packet is put into the window under its own number together with its header; what is handed out is exactly what was drained from the front, in order; packets without header fields are passed through")
    c.rule("drain", "drain_front removes exactly the leading run of present elements and moves left by the number removed")
    c.rule("ack-flag", "an acknowledgement is requested whenever packets were drained or a packet left of the window arrived, and the request is withdrawn only after an acknowledgement was sent")
    c.rule("ack-out", "an acknowledgement carries the left edge of the receive window and is sent only when one is due")
    c.rule("merge", "every drained packet is delivered, merged, or belongs to an abandoned fragment group; errors are raised only for the inconsistent layouts they name and abandon the group")
    c.rule("merge-buffer", "a merge buffer accepts exactly content_length pieces, says it is complete exactly then, and merges all of them in order")
    c.rule("fragment-header", "the number of fragments is announced on the first fragment only")
    c.rule("consumer", "the group call processes every message a receive hands out")

    # ---- receive: what goes in and what comes out
    n = 0
    for fn in ("receive", "receive_and_merge"):
        g = c.graph(S + fn + "$", boundary=lambda x: x in (S + "merge_packets", S + "update_send_window", W + "put", W + "drain_front"))
        for p in paths(g):
            if p.kind != "ret":
                continue
            puts = p.calls("BufferWindow::put$")
            dr = p.calls("BufferWindow::drain_front$")
            ackset = [e for e in p.ev if e[0] == "store" and store_path(e) and store_path(e)[-1] == ("MrpStream", "should_ack")]
            seq = p.variant(F, "arg1.seqnum")
            ack = p.variant(F, "arg1.ack_num")
            n += 1
            for e in puts:
                v = e[2][2]
                c.ob("take", fn + " number", desc(e[2][1]) == "arg1.seqnum" and "receive_buffer" in desc(e[2][0]), "a received packet is stored under number %s" % desc(e[2][1]))
                c.ob("take", fn + " content", v.op == "agg" and [desc(x).replace("clone(arg1)", "arg1") for x in v.a[5]] == ["arg1", "arg2"], "the stored packet is %s instead of the header and packet received" % desc(v))
            if puts:
                r = outcome(p, puts[-1][3])
                c.ob("take", fn + " one put", len(puts) == 1, "a packet is put twice")
                if r == 0:
                    c.ob("take", fn + " drains after put", len(dr) >= 1, "a stored packet is not followed by draining the window")
                    d = outcome(p, dr[0][3]) if dr else None
                    if d == 1:
                        c.ob("ack-flag", fn + " drained", ackset and desc(ackset[-1][3]) == "1", "packets were drained without requesting an acknowledgement")
                        src = out_source(p.ret, dr[0][3])
                        c.ob("take", fn + " hands out", src, "what was drained is not what is handed out: %s" % desc(p.ret))
                    elif d == 0:
                        c.ob("take", fn + " nothing ready", not out_source(p.ret, dr[0][3]) and ok_ret(p.ret) is not False, "something is handed out although nothing was drained")
                elif r == 1:
                    e = err_of(p.ret)
                    werr = [x for x in p.ass if x[1].op == "discr" and x[1].a[1].endswith("WindowError") and x[2][0] == "e"]
                    wv = None
                    for x in p.ass:
                        if x[1].op == "discr" and x[1].a[1].endswith("WindowError"):
                            a = F.adts[x[1].a[1]]
                            wv = [v[0] for v in a["vs"] if int(v[1]) in x[2][1]] if x[2][0] == "e" else wv
                    if wv == ["BeforeWindow"]:
                        c.ob("ack-flag", fn + " duplicate", ackset and desc(ackset[-1][3]) == "1", "a duplicate left of the window does not request an acknowledgement again")
                        c.ob("take", fn + " duplicate ignored", ok_ret(p.ret) is not False and not dr, "a duplicate is not ignored")
                    elif wv == ["AfterWindow"]:
                        c.ob("take", fn + " beyond", e is not None and variant_of(e) == "ReceiveWindowFull" and not ackset, "a packet beyond the window is not refused")
                    else:
                        c.ob("take", fn + " put errors told apart", False, "the reason put failed is not looked at")
            else:
                c.ob("take", fn + " no put", ack == frozenset(("Some",)) or seq == frozenset(("None",)), "a packet with a sequence number may be dropped without being put into the window")
                if ack == frozenset(("None",)) and seq == frozenset(("None",)):
                    c.ob("take", fn + " plain", "arg2" in desc(p.ret, 9) or any("arg2" in desc(e[2]) or "arg2" in repr(e[2]) for e in p.calls("into_vec|box|vec") ) or any(e[0] == "store" and "arg2" in desc(e[3]) for e in p.ev), "a packet without protocol fields is not passed through")
            for e in ackset:
                c.ob("ack-flag", fn + " only set", desc(e[3]) == "1", "receiving withdraws the acknowledgement request")
    c.floor("take", n, 10)

    # closures that map a drained packet to what the user gets
    for nm, f in sorted(F.fns.items()):
        if re.match(re.escape(S) + r"(receive|receive_and_merge)::\{closure#\d+\}$", nm):
            g = c.graph("^" + re.escape(nm) + "$")
            for p in paths(g):
                if p.kind == "ret":
                    c.ob("take", "map " + tail(nm), re.match(r"^arg1(\.0)?\.1$", desc(p.ret)) is not None, "a drained packet is mapped to %s instead of its data" % desc(p.ret))

    # ---- drain_front
    g = c.graph(W + "drain_front$")
    n = 0
    for p in paths(g):
        if p.kind != "ret":
            continue
        st = [e for e in p.ev if e[0] == "store" and store_path(e) and store_path(e)[-1] == ("BufferWindow", "left")]
        rem = p.calls(r"VecDeque::(drain|pop_front|split_off|truncate|clear)$")
        if ok_ret(p.ret) is False or not rem:
            c.ob("drain", "nothing to drain", not st and not rem, "drain_front reports nothing but changes the window")
            continue
        n += 1
        drains = [e for e in rem if e[1].endswith("::drain")]
        pops = [e for e in rem if e[1].endswith("pop_front")]
        if drains:
            a = drains[0][2][1]
            cnt = payload(a, len(a.a[5]) - 1) if a.op == "agg" else None
            good = cnt is not None and re.match(r"^(len\(arg0\.data\)|\w+::position\(arg0\.data,.*\))$", desc(cnt))
            c.ob("drain", "how many", good and len(drains) == 1 and not pops, "drain_front drains %s instead of the leading run of present elements" % (desc(a)))
            if good and desc(cnt).startswith("len("):
                posn = [e for e in p.calls("::position$")]
                c.ob("drain", "all present", posn and outcome(p, posn[0][3]) == 0, "the whole buffer is drained without knowing that every element is present")
            mv = st and desc(absint.ladd(st[-1][3], cnt, -1)) == "arg0.left" if cnt is not None else False
            c.ob("drain", "left moves by the count", mv, "drain_front drains %s elements but moves left to %s" % (desc(cnt) if cnt is not None else "?", [desc(e[3]) for e in st]))
            rv = p.ret
            tup = payload(rv) if rv.op == "agg" and rv.a[2] == "Some" else rv
            els = payload(tup, 1) if tup is not None else None
            c.ob("drain", "returns the drained", els is not None and "VecDeque::drain" in desc(els, 8), "drain_front returns %s" % (desc(els) if els is not None else "?"))
        else:
            c.ob("drain", "element by element", bool(st) and len(pops) >= 1, "drain_front removes elements without moving left")
    c.floor("drain", n, 1)
    k = 0
    for nd in g.nodes:
        for e in nd.ev:
            if e[0] == "call" and e[1].endswith("::position"):
                for a in e[2]:
                    if a.op == "agg" and a.a[0] == "clo":
                        g2 = c.graph("^" + re.escape(a.a[1]) + "$")
                        for p in paths(g2):
                            if p.kind != "ret":
                                continue
                            k += 1
                            d = desc(p.ret)
                            v = p.variant(F, "arg1")
                            good = d in ("not((discr(arg1) Eq 1))", "(discr(arg1) Eq 0)", "(discr(arg1) Ne 1)") or (d == "1" and v == frozenset(("None",))) or (d == "0" and v == frozenset(("Some",))) or \
                                (d in ("0", "1") and any(optfact(x) == ("arg1", 1 - int(d)) for x in p.ass))
                            c.ob("drain", "stops at the first gap", good, "the run of elements to drain ends where %s, not at the first missing element" % d)
    # pop_front form: every pop after seeing a present front, left bumped per pop
    if any(e[0] == "call" and e[1].endswith("VecDeque::pop_front") for nd in g.nodes for e in nd.ev):
        def pop(q, e):
            seen, owed = q
            o = optfact(e)
            if o and "front(" in o[0]:
                seen = True
            if e[0] == "call" and e[1].endswith("pop_front"):
                if not seen:
                    return Bad("an element is removed without looking whether it is present")
                return (False, owed + 1 if owed < 2 else owed)
            if e[0] == "store" and store_path(e) and store_path(e)[-1] == ("BufferWindow", "left"):
                owed = 0
            if e[0] == "ret" and owed:
                return Bad("elements are removed without moving left")
            return (seen, owed)
        c.auto("drain", "pop loop", g, (False, 0), pop)

    # ---- should_ack
    n = 0
    for fn, kind, rv, ln in field_writes(F, "MrpStream", "should_ack"):
        n += 1
        ok = fn.split("::{")[0] in {S + "try_send_ack", S + "update_receiver_window", S + "receive", S + "receive_and_merge", S + "with_capacity_limit", } or fn.startswith("<mrp::stream::MrpStream<") and fn.endswith("Default>::default") or only_called_from(F, fn, {S + "try_send_ack", S + "update_receiver_window", S + "receive", S + "receive_and_merge"})
        c.ob("ack-flag", "written in %s" % tail(fn), ok, "%s writes should_ack" % fn)
    c.floor("ack-flag", n, 4)
    g = c.graph(S + "try_send_ack$")
    n = 0
    for p in paths(g):
        if p.kind != "ret":
            continue
        calls = [e for e in p.ev if is_closure_call(e, 1)]
        st = [e for e in p.ev if e[0] == "store" and store_path(e) and store_path(e)[-1] == ("MrpStream", "should_ack")]
        due = p.truth("arg0.should_ack")
        c.ob("ack-out", "when due", (len(calls) == 1) == (due == 1), "an acknowledgement is %s" % ("sent although none is due" if calls else "not sent although one is due"))
        if calls:
            n += 1
            h = payload(calls[0][2][1])
            c.ob("ack-out", "content", h is not None and desc(agg_field(h, "ack_num")) == "arg0.receive_buffer.left" and desc(agg_field(h, "seqnum")) == "Option::None", "the acknowledgement is %s, not the left edge of the receive window" % desc(h))
            r = outcome(p, calls[0][3])
            if r == 0:
                c.ob("ack-out", "withdrawn after sending", st and desc(st[-1][3]) == "0" and p.ev.index(st[-1]) > p.ev.index(calls[0]) and ok_ret(p.ret) is not False, "the request is not withdrawn after the acknowledgement was sent")
            elif r == 1:
                c.ob("ack-out", "kept after failure", not st and ok_ret(p.ret) is False, "the request is withdrawn although sending failed")
            else:
                c.ob("ack-out", "result looked at", not st, "the request is withdrawn whatever the outcome of sending")
        else:
            c.ob("ack-out", "untouched", not st, "the acknowledgement request is changed without sending")
    c.floor("ack-out", n, 2)

    # ---- merge
    g = c.graph(S + "merge_packets$", boundary=lambda x: x.startswith(M), widen=1)
    ITEM = r"(?:\w+::)?next\(arg1~*\)"
    item = re.compile("^" + ITEM)
    NP = re.compile("^" + ITEM + r"\.0\.num_packets$")

    # q = (mbuf, mend, disp, within, np, big, bufnew, complete, done, stored): after a store in this
    # iteration the buffer's state is known; later assumptions are about the value that was in it before
    def merge(q, e):
        mbuf, mend, disp, within, np, big, fresh, complete, done, stored = q
        o = optfact(e)
        if o:
            d, k = o
            if re.match("^" + ITEM + "$", d):
                bad = undisposed(disp, mbuf, mend, within, fresh, complete)
                if bad and done is False:
                    return Bad(bad)
                if k == 0:
                    done = True
                else:
                    return (mbuf, mend, None, None, None, None, None, False, False, False)
            elif d == "arg0.merge_buffer" or d == "arg0.merge_buffer~":
                if not stored:
                    mbuf = k
            elif d.startswith("arg0.merge_end_seqnum"):
                mend = k
            elif re.match("^" + ITEM + r"\.0\.seqnum$", d):
                if k == 0:
                    disp = "noseq"
            elif NP.match(d):
                np = "none" if k == 0 else (np or "some")
            elif "MergeBuffer::push" in d:
                if k == 1:
                    disp = "pusherr"
        elif e[0] == "assume":
            t, f = e[1], e[2]
            d = desc(t)
            if f[0] == "e" and "MergeBuffer::push" in d and len(f[1]) == 1:
                complete = next(iter(f[1])) == 1
            if f[0] == "r":
                cst, ts = lin(t)
                ds = {desc(x): k for x, k in ts.items()}
                lo, hi, ne = f[1] - cst, f[2] - cst, {z - cst for z in f[3]}
                if len(ds) == 1 and NP.match(next(iter(ds))) and next(iter(ds.values())) == 1:
                    if hi <= 1:
                        np = "le1" if hi == 1 else "zero"
                        if lo == hi == 1:
                            np = "one"
                    elif lo >= 2:
                        np = "ge2"
                    elif lo >= 1 or 0 in ne:
                        np = "nonzero"
                if len(ds) == 2:
                    for sgn in (1, -1):
                        it = [x for x, k in ds.items() if k == sgn]
                        ot = [x for x, k in ds.items() if k == -sgn]
                        if len(it) == 1 and len(ot) == 1:
                            l2, h2 = (lo, hi) if sgn == 1 else (-hi, -lo)
                            if re.match("^" + ITEM + r"\.0\.seqnum$", it[0]) and ot[0].startswith("arg0.merge_end_seqnum"):
                                within = True if h2 <= 0 else (False if l2 >= 1 else None)
                            if "num_packets" in it[0] and ot[0].endswith("receive_buffer.capacity_limit"):
                                big = True if l2 >= 1 else (False if h2 <= 0 else None)
        if e[0] == "store":
            sp = store_path(e)
            if sp and sp[-1] == ("MrpStream", "merge_buffer"):
                v = e[3]
                stored = True
                if desc(v) == "Option::None":
                    if complete and disp == "pushed":
                        disp = "taken"
                    mbuf = 0
                else:
                    mbuf = 1
                    if "MergeBuffer::new" in desc(v):
                        if disp != "newpushed":
                            return Bad("a new fragment buffer is kept without the first fragment in it")
                        fresh = (fresh or frozenset()) | {"buf"}
            if sp and sp[-1] == ("MrpStream", "merge_end_seqnum"):
                v = desc(e[3])
                if v != "Option::None":
                    if not (re.search(r"-1\+", v) and v.count(".0.seqnum") == 1 and v.count(".0.num_packets") == 1) :
                        return Bad("the end of a fragment group is set to %s instead of seqnum + num_packets - 1" % v)
                    fresh = (fresh or frozenset()) | {"end"}
                mend = 0 if v == "Option::None" else 1
        if e[0] == "call":
            if e[1] == M + "push":
                if not re.match("^" + ITEM + r"\.1$", desc(e[2][1])):
                    return Bad("the fragment buffer gets %s instead of the packet" % desc(e[2][1]))
                if "MergeBuffer::new" in desc(e[2][0]):
                    disp = "newpushed"
                elif "merge_buffer" in desc(e[2][0]):
                    if np not in ("none", "zero"):
                        return Bad("a packet announcing a new fragment group is merged into the group in progress")
                    disp = "pushed"
                complete = False
            elif e[1] == M + "new":
                if np != "ge2" or big is not False:
                    return Bad("a fragment group is started although its size is not known to be between 2 and the window's capacity")
                if mbuf == 1:
                    return Bad("a fragment group is started while another is in progress")
            elif e[1].endswith("Vec::push"):
                a = desc(e[2][1])
                if "MergeBuffer::merge" in a:
                    if not complete:
                        return Bad("an incomplete fragment group is delivered")
                    disp, complete = "delivered", False
                elif re.match("^" + ITEM + r"\.1$", a):
                    if disp is not None:
                        return Bad("a packet is delivered twice")
                    if mbuf != 0:
                        return Bad("a packet is delivered on its own while a fragment group is in progress")
                    if np not in ("none", "zero", "le1", "one"):
                        return Bad("a packet that starts a fragment group is delivered on its own")
                    disp = "delivered"
                else:
                    return Bad("%s is delivered" % a)
        if e[0] == "ret":
            r = e[1]
            er = err_of(r)
            if er is None:
                if done is not True:
                    return Bad("returns before all drained packets were looked at")
            else:
                v = variant_of(er)
                if v == "PacketMergeConflict":
                    if np not in ("nonzero", "ge2", "one", "some"):
                        return Bad("a merge conflict is reported for a packet that does not start a group")
                    if mbuf != 0:
                        return Bad("the group in progress is kept after a merge conflict")
                    if np == "some":
                        return Bad("a merge conflict is reported for a packet announcing zero fragments")
                elif v == "InvalidNumPackets":
                    if big is not True and big != "conv":
                        return Bad("a group that fits the window is refused")
                elif v == "InvalidMergeState":
                    if mbuf == 1 :
                        return Bad("the group in progress is kept after an error")
        return (mbuf, mend, disp, within, np, big, fresh, complete, done, stored)

    def undisposed(disp, mbuf, mend, within, fresh, complete):
        if complete and disp == "pushed" or disp == "taken":
            return "a complete fragment group is not delivered"
        if disp == "newpushed" and fresh != frozenset(("buf", "end")):
            return "a new fragment group is not remembered together with where it ends"
        if disp is None:
            if mend == 1 and mbuf == 0 and within is True:
                return None
            return "a drained packet is dropped although it does not belong to an abandoned fragment group"
        return None

    def merge0(q, e):
        # conversion failures count as 'too big'
        if e[0] == "assume":
            o = optfact(e)
            if o and "try_from(" in o[0] and o[1] == 1:
                q = q[:5] + ("conv",) + q[6:]
        return merge(q, e)
    c.auto("merge", "merge_packets", g, (None, None, "start", None, None, None, None, False, None, False), merge0)
    n = sum(1 for nd in g.nodes for e in nd.ev if e[0] == "call" and (e[1].startswith(M) or e[1].endswith("Vec::push")))
    c.floor("merge", n, 4)

    # ---- merge buffer
    g = c.graph(M + "new$")
    for p in paths(g):
        if p.kind == "ret":
            if ok_ret(p.ret) is False:
                c.ob("merge-buffer", "empty refused", need(p, [({"arg0": 1}, 0, 0)]), "a merge buffer for a positive number of pieces is refused")
            else:
                v = payload(p.ret)
                c.ob("merge-buffer", "size", v is not None and desc(agg_field(v, "content_length")) == "arg0", "a merge buffer's length is not the requested one")
    g = c.graph(M + "push$")
    n = 0
    for p in paths(g):
        if p.kind != "ret":
            continue
        n += 1
        pu = p.calls("Vec::push$")
        full = need(p, [({"len(arg0.data)": 1, "arg0.content_length": -1}, 0, None)])
        if pu:
            lo, hi, ne = p.rng({"len(arg0.data)": 1, "arg0.content_length": -1})
            c.ob("merge-buffer", "push when not full", (hi <= -1 or 0 in ne) and desc(pu[0][2][1]) == "arg1" and len(pu) == 1, "a piece is added to a full buffer, or something else is added")
            d = desc(payload(p.ret)) if ok_ret(p.ret) and payload(p.ret) is not None else desc(p.ret)
            good = d in ("(len(arg0.data~) Eq arg0.content_length)", "(arg0.content_length Eq len(arg0.data~))", "(len(arg0.data~) Ge arg0.content_length)") or \
                d == "1" and need(p, [({"len(arg0.data~)": 1, "arg0.content_length": -1}, 0, 0)]) or d == "0" and 0 in p.rng({"len(arg0.data~)": 1, "arg0.content_length": -1})[2]
            c.ob("merge-buffer", "complete when full", good, "push says %s instead of whether all pieces are there" % d)
        else:
            c.ob("merge-buffer", "refused when full", full and ok_ret(p.ret) is False, "a piece is dropped although the buffer is not full")
    c.floor("merge-buffer", n, 2)
    g = c.graph(M + "merge$")
    for p in paths(g):
        if p.kind == "ret":
            d = desc(p.ret)
            ext = p.calls("::extend$")
            c.ob("merge-buffer", "all pieces", need(p, [({"len(arg0.data)": 1, "arg0.content_length": -1}, 0, 0)]), "merging does not check that all pieces are there")
            c.ob("merge-buffer", "in order", len(ext) == 1 and re.match(r"^\w+::next\(arg0\.data\)$", desc(ext[0][2][0])) and desc(ext[0][2][1]).rstrip("~") == "arg0.data", "the merged value is not the first piece extended with the rest")

    # ---- fragments announce their number on the first one only
    n = 0
    for nm in sorted(F.fns):
        if nm.startswith(S + "try_send_fragmented::{closure"):
            g = c.graph("^" + re.escape(nm) + "$")
            for p in paths(g):
                if p.kind != "ret":
                    continue
                cs = [e for e in p.ev if e[0] == "call" and re.search(r"::(call_mut|call_once|call)$", e[1])]
                if not cs:
                    continue
                hs = [x for x in cs[0][2][1].a[5]] if cs[0][2][1].op == "agg" else []
                idx = hs[0] if len(hs) == 3 else None
                h = hs[1] if len(hs) == 3 else None
                if h is None:
                    c.ob("fragment-header", "closure arguments", False, "the sending closure does not get index, header and fragment")
                    continue
                n += 1
                lo, hi, ne = p.rng({desc(idx): 1})
                npv = desc(agg_field(h, "num_packets")) if agg_field(h, "num_packets") is not None else desc(h) + ".num_packets"
                if lo == hi == 0:
                    c.ob("fragment-header", "first", npv not in ("Option::None", "arg1.num_packets"), "the first fragment does not announce how many there are")
                elif 0 in ne or lo >= 1:
                    c.ob("fragment-header", "others", npv in ("Option::None", "arg1.num_packets"), "a later fragment announces a number of fragments: %s" % npv)
                else:
                    c.ob("fragment-header", "index looked at", False, "the number of fragments is announced whatever the index")
    c.floor("fragment-header", n, 2)

    # ---- consumer
    RG = "core::group_call::"
    hand = [x for x in call_sites(F, r"^mrp::stream::MrpStream::receive(_and_merge)?$") if not x[0].startswith("mrp::")]
    c.floor("consumer", len(hand), 1)
    for fn, bi, ref, t in hand:
        g = c.graph("^" + re.escape(fn) + "$", boundary=lambda x: x.endswith("handle_sfu_to_device_inner") or x.startswith("mrp::"), depth=6)

        def cons(q, e):
            cur, fin = q
            o = optfact(e)
            if o and re.search(r"next\(.*MrpStream::receive", o[0]) and re.match(r"^(?:\w+::)?next\([^()]*MrpStream::receive\w*\([^()]*\)~*\)$", re.sub(r"\((?:[^()]|\([^()]*\))*\)(?=~*\)$)", "()", o[0]) if False else o[0]) or o and o[0].startswith("IntoIter::next(") and "receive" in o[0] and balanced_end(o[0]):
                if cur == "item":
                    return Bad("a message that became ready is not processed")
                if o[1] == 0:
                    return (None, True)
                return ("item", False)
            if e[0] == "call" and (e[1].endswith("handle_sfu_to_device_inner")):
                return ("handled", fin)
            if o and "decode(" in o[0] and o[1] == 1 and cur == "item":
                return ("undecodable", fin)
            if e[0] == "ret" and fin is False:
                return Bad("processing stops before all messages that became ready were handled")
            return (cur, fin)
        c.auto("consumer", tail(fn), g, (None, None), cons)
        c.ob("consumer", tail(fn) + " loop", any(optfact(e) and "next(" in optfact(e)[0] for nd in g.nodes for evs, j in nd.succ for e in evs), "the messages handed out are not iterated")
    return "other", "path tables and automata over the MIR of crate mrp and of the group call's handling of reliable messages"


def balanced_end(d):
    """d is one call expression next(...) and nothing after it"""
    n = 0
    for i, ch in enumerate(d):
        if ch == "(":
            n += 1
        elif ch == ")":
            n -= 1
            if n == 0:
                return d[i + 1:] in ("", "~")
    return False


def outcome(p, val):
    """0/1 discriminant assumed for the call result on this path"""
    d = desc(val)
    r = None
    for e in p.ass:
        o = optfact(e)
        if o and o[0] == d:
            r = o[1]
    return r


def out_source(ret, drained):
    """the returned value is made of the drained packets"""
    return mentions(ret, lambda x: x is drained) or desc(drained) in desc(ret, 12)
