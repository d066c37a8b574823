"""C11: ending a call always finishes the teardown and reports its end exactly once"""
from cm_lib import *

TECHNIQUE = "path tables of every function on the way of a call's end (which errors can leave it early), and of the ownership that tells the last reference (MIR)"
CL = r"core::call::Call::"
DROP = r"core::call::Call<.*Drop>?::drop$"


def reaching(F, rx):
    """functions from which a call matching rx can be reached directly or through helpers"""
    out = {fn for fn, bi, ref, t in call_sites(F, rx)}
    return out


def closures_in(v):
    """closures among a term's parts"""
    return [x for x in subvals(v) if x.op == "agg" and x.a[0] == "clo"]


def errs_of(p):
    """calls (name, line) whose failure a path knows of"""
    out = []
    for e in p.ev:
        if e[0] == "assume" and e[1].op == "discr" and e[2] == ("e", frozenset((1,))) and "Result" in str(e[1].a[1]):
            v = e[1].a[0]
            while v.op in ("f", "as", "mut", "pure", "cast") and v.a and not (v.op == "pure"):
                v = v.a[0]
            if v.op == "call":
                out.append(str(v.a[2]))
    return out


def end(c):
    """terminate_call: every way through it hands on the closing of the call"""
    c.rule("closes", "whatever fails on the way, ending a call hands the closing of exactly that call to the worker, which closes it on every path")
    c.rule("told", "the application is told that a call ended exactly when a reason is given, once, before the closing is handed on, for this call and its peer")
    c.rule("trimmed", "the messages of the call that are pending are dropped before anything else happens")
    F = c.F
    f = F.one(CM + "terminate_call$")
    tdc = F.one(CM + "terminate_and_drop_call$")
    oce = F.one(CM + "on_call_ended$")
    trim = F.one(CM + "trim_messages$")
    closers = {fn for fn, bi, ref, t in call_sites(F, CM + r"terminate_and_drop_call$")}
    c.ob("closes", "who closes", all(x.split("::{closure")[0] == f or only_called_from(F, x.split("::{closure")[0], {f}) for x in closers) and bool(closers), "a call is closed by %s" % sorted(short(x) for x in closers))
    spawn = CM + r"worker_spawn$|Actor(<.*>)?::send$|Actor(<.*>)?::send_delayed$"
    n = 0
    g_paths = steps(c, f, extra=(spawn,), closures=False)
    for p in g_paths:
        if p.kind != "ret":
            continue
        hand = [i for i, e in enumerate(p.ev) if e[0] == "call" and re.search(spawn, e[1]) and any(F.reach([str(x.a[1])]) & {tdc} for v in e[2] for x in closures_in(v))]
        fail = [x for x in errs_of(p)]
        why = "after %s failed" % tail(fail[0]) if fail else "on some path"
        n += 1
        c.ob("closes", "handed on", len(hand) == 1, "ending a call hands its closing on %d times %s" % (len(hand), why))
        order = [tail(e[1]) for e in p.ev if e[0] == "call" and re.search(STEPS + "|" + spawn + r"|inject_\w+$", e[1])]
        tr = [i for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == trim]
        first = [i for i, e in enumerate(p.ev) if e[0] == "call" and re.search(STEPS + "|" + CL + r"(inject|send)_\w+$|" + spawn, e[1])]
        c.ob("trimmed", "first", len(tr) == 1 and first[0] == tr[0] and d(p.ev[tr[0]][2][1]) == "arg1.call_id", "the order is %s" % order[:4])
        told = [i for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == oce]
        reason = [e[2] for e in p.ev if e[0] == "assume" and e[1].op == "discr" and desc(e[1].a[0]) == "arg3"]
        if ("e", frozenset((0,))) in reason:
            c.ob("told", "without reason", not told, "an end without a reason is reported")
        else:
            peer = [x for x in fail if re.search(CL, x)]
            c.ob("told", "with reason", len(told) == 1 or bool(peer) and not told, "an end with a reason is reported %d times %s" % (len(told), why))
        for i in told:
            a = p.ev[i][2]
            c.ob("told", "what", d(a[2]) == "arg1.call_id" and d(a[3]).startswith("arg3") and re.search(r"remote_peer\(arg1[^,]*\)$", d(a[1])) is not None, "the end reported is %s" % [d(x)[:40] for x in a[1:4]])
            c.ob("told", "before", all(i < h for h in hand), "the end is reported after the closing was handed on")
    c.floor("ways through the ending of a call", n, 6)
    # the closure itself: every path closes, once
    m = 0
    for x in sorted(closers):
        if "{closure" not in x:
            c.ob("closes", "on the worker", False, "%s closes a call on its own thread" % short(x))
            continue
        for p in steps(c, x):
            if p.kind != "ret":
                continue
            k = [e for e in p.ev if e[0] == "call" and e[1] == tdc]
            fail = errs_of(p)
            m += 1
            c.ob("closes", "closing", len(k) == 1, "the closing is done %d times%s" % (len(k), " after %s failed" % tail(fail[0]) if fail else ""))
            c.ob("told", "closing", not p.calls(CM + r"on_call_ended$|notify_\w+$"), "the closing reports the end")
    c.floor("ways through the closing", m, 3)
    for p in steps(c, f, extra=(CM + r"worker_spawn$",)):
        for e in p.ev:
            if e[0] == "call" and e[1] == tdc:
                c.ob("closes", "which", d(e[2][1]) == "arg1.call_id", "the call closed is %s" % d(e[2][1])[:60])
    # handing on really runs it
    nw = 0
    for w in [x for x in F.fns if re.search(CM + r"worker_spawn$", x)]:
        for p in steps(c, w, extra=(r"Actor(<.*>)?::send$",), closures=False):
            if p.kind != "ret":
                continue
            nw += 1
            stopped = [e for e in p.ev if e[0] == "assume" and "has_been_stopped" in desc(e[1]) and e[2] == ("e", frozenset((1,)))]
            c.ob("closes", "spawned", bool(p.calls(r"Actor(<.*>)?::send$")) or bool(stopped), "work for the worker is dropped although it runs")
    c.floor("ways to hand work to the worker", nw, 1)
    # dropping: out of the map, then terminated
    k = 0
    for p in steps(c, tdc, extra=(CL + "terminate$",), closures=False):
        if p.kind != "ret":
            continue
        rm = [i for i, e in enumerate(p.ev) if e[0] == "call" and re.search(r"HashMap(<.*>)?::remove$", e[1])]
        te = [i for i, e in enumerate(p.ev) if e[0] == "call" and re.search(CL + "terminate$", e[1])]
        fail = errs_of(p)
        none = [e for e in p.ev if e[0] == "assume" and e[1].op == "discr" and e[2] == ("e", frozenset((0,))) and "Option" in str(e[1].a[1])]
        if not te:
            c.ob("closes", "terminated", bool(none) or any(re.search(r"lock$", x) for x in fail), "a call taken out of the map isn't terminated%s" % (" after %s failed" % tail(fail[0]) if fail else ""))
            continue
        k += 1
        c.ob("closes", "removed", len(rm) == 1 and rm[0] < te[0] and d(p.ev[rm[0]][2][1]) == "arg1", "a call is terminated while it can still be found")
        c.ob("closes", "that one", len(te) == 1 and "remove(" in d(p.ev[te[0]][2][0]) or desc(p.ev[te[0]][2][0]).find("call_by_call_id") >= 0, "the call terminated is %s" % d(p.ev[te[0]][2][0])[:80])
        if p.kind == "ret":
            c.ob("closes", "reported", True, "")
    c.floor("ways to terminate a call", k, 1)


# calls whose failure may end the teardown early: a poisoned lock, the state machine that is gone
EARLY = re.compile(r"lock$|set_state$|inject_event$|inject_\w+$|wait_for_terminate$|call_manager$|wait$|map_err$|ptr_as_\w+$|call_id$|try_into$")


def components(c):
    c.rule("components", "a part of the call that fails to be closed doesn't keep the others from being closed: media, the parent connection and every connection are closed on every path, except where a lock was poisoned")
    F = c.F
    f = F.one(CL + r"terminate_connections$")
    f2 = F.one(CL + r"terminate$")
    ct = r"core::connection::Connection::terminate$"
    di = CM + r"disconnect_incoming_media$"
    n = 0
    ps = steps(c, f, extra=(ct, di, r"HashMap(<.*>)?::(drain|into_iter|values_mut|iter_mut)$", CL + r"call_context$"))
    drained = 0
    for p in ps:
        if p.kind != "ret":
            continue
        n += 1
        fail = errs_of(p)
        err = ok_ret(p.ret) is False
        hard = [x for x in fail if EARLY.search(x) and not re.search(ct, x)]
        if err:
            c.ob("components", "left early", bool(hard), "closing the connections is left early after %s failed" % tail((fail or ["?"])[-1]))
            src = desc(p.ret)
            c.ob("components", "not a part", not re.search(r"Connection::terminate\(|disconnect_incoming_media\(", src), "a part that fails to close ends the teardown")
            continue
        dr = [i for i, e in enumerate(p.ev) if e[0] in ("call", "mcall") and re.search(r"(drain|into_iter|values_mut|iter_mut|mem::take)$", e[1]) and any("connection_map" in desc(x) for x in e[2])]
        c.ob("components", "all connections", bool(dr), "the connections aren't visited")
        drained += bool(dr)
        ctx = [e for e in p.ev if e[0] == "assume" and e[1].op == "discr" and e[2] == ("e", frozenset((0,))) and desc(e[1].a[0]).endswith("call_context(arg0)")]
        c.ob("components", "media", not ctx or bool(p.calls(di)), "the incoming media stays connected")
        some = [e for e in p.ev if e[0] == "assume" and e[1].op == "discr" and "Option" in str(e[1].a[1]) and re.search(r"\.forking\b", desc(e[1].a[0])) and e[2] == ("e", frozenset((1,)))]
        par = [e for e in p.ev if e[0] == "call" and re.search(ct, e[1]) and "forking" in desc(e[2][0])]
        c.ob("components", "parent", not some or len(par) == 1, "the parent connection isn't closed")
    c.floor("ways through closing the connections", drained, 2)
    # within the loop: each connection taken out is terminated before the next is taken
    g = c.graph(f, interest=lambda x: re.search(ct, x), noinline=lambda x: bool(re.search(ct, x)), deep=True)
    nxt = re.compile(r"Iterator>?::next$|Drain.*::next$|\bnext$")
    seen = []

    def step(q, e):
        if e[0] in ("call", "mcall") and nxt.search(e[1]):
            if q == "have":
                return Bad("a connection is left out of the teardown")
            return "asked"
        if e[0] == "assume" and q == "asked" and e[1].op == "discr" and "Option" in str(e[1].a[1]) and e[2][0] == "e":
            if e[2][1] == frozenset((1,)):
                return "have"
            if e[2][1] == frozenset((0,)):
                return "end"
        if e[0] == "call" and re.search(ct, e[1]) and q == "have":
            seen.append(1)
            return "done"
        return q
    c.auto("components", "each connection", g, "start", step, end=lambda q, node: Bad("a connection is left out of the teardown") if q in ("have",) else None)
    c.floor("connections closed in the loop", len(seen), 1)
    # Call::terminate
    k = 0
    for p in steps(c, f2, extra=(CL + r"(set_state|inject_event|wait_for_terminate|terminate_connections)$", r"Stopper::\w+$")):
        if p.kind != "ret":
            continue
        fail = errs_of(p)
        if ok_ret(p.ret) is False:
            c.ob("components", "terminate", bool([x for x in fail if EARLY.search(x) or re.search(r"terminate_connections$", x)]), "terminating a call is left early after %s failed" % tail((fail or ["?"])[-1]))
        else:
            k += 1
            c.ob("components", "timers", bool(p.calls(r"stop_all_and_join$")) and bool(p.calls(CL + r"terminate_connections$")), "a call ends without stopping its timers or closing its connections")
    c.floor("ways to terminate", k, 1)


def counter(F):
    """the field of a call that counts its references"""
    n = [fl[0] for a, v in F.adts.items() if a.endswith("core::call::Call") for fl in v["vs"][0][2] if re.match(r"(core::option::)?Option<.*Arc<\(\)", F.ts(fl[1]))]
    return n[0] if len(n) == 1 else "reference"


def concluded(c):
    c.rule("last", "that a call concluded is told exactly when its very last reference is given up: the reference that ends counts itself out atomically, and every copy of a call counts")
    c.rule("who", "the application is told that a call concluded only by the last reference to the call, or for an offer or an application call that never became a call")
    F = c.F
    f = F.one(DROP)
    ncc = F.one(CM + r"notify_call_concluded$")
    n = m = 0
    for p in steps(c, f, extra=(r"::ref_count$",)):
        if p.kind != "ret":
            continue
        k = [i for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == ncc]
        last = None
        taken = None
        for e in p.ev:
            if e[0] == "assume" and e[1].op == "discr" and e[2][0] == "e" and len(e[2][1]) == 1:
                v = e[1].a[0]
                val = next(iter(e[2][1]))
                if any(x.op in ("pure", "call") and re.search(r"Arc(<.*>)?::into_inner$", str(x.a[0] if x.op == "pure" else x.a[2])) and "arg0.%s" % counter(F) in desc(x) for x in subvals(v)):
                    last = val
                elif desc(v) == "arg0." + counter(F):
                    taken = val
        n += 1
        if k:
            m += 1
            c.ob("last", "only the last", last == 1, "a call is concluded without being known to be its last reference")
            a = p.ev[k[0]][2]
            c.ob("last", "once", len(k) == 1, "concluding is told %d times" % len(k))
            c.ob("last", "which", d(a[2]) == "arg0.call_id" and re.search(r"remote_peer\(arg0[^,]*\)$", d(a[1])) is not None, "what is concluded is %s" % [d(x)[:40] for x in a[1:3]])
            after = [e for e in p.ev[k[0] + 1:] if e[0] == "call" and re.search(r"ringrtc::core", e[1]) and not re.search(r"::(fmt|ref_count)$", e[1])]
            c.ob("last", "after everything", not after, "something is done after a call was concluded: %s" % [tail(e[1]) for e in after][:2])
        elif last == 1:
            fail = errs_of(p)
            c.ob("last", "not lost", any(re.search(CL + r"(call_manager|remote_peer)$", x) for x in fail), "the last reference to a call goes without concluding it")
        elif last is None:
            c.ob("last", "unknown", taken == 0, "a reference goes without finding out whether it was the last")
    c.floor("ways a reference goes", n, 3)
    c.floor("ways a call concludes", m, 1)
    # the counter: made with the call, copied with every copy, given up only here
    new = F.one(CL + r"new$")
    cl = F.one(r"core::call::Call<.*Clone>?::clone$")
    kinds = {}
    fld = counter(F)
    for fn, kind, rv, ln in field_writes(F, "Call", fld):
        root = fn.split("::{closure")[0]
        kinds.setdefault(kind, set()).add(root)
        c.ob("last", "counter in %s" % tail(root), kind == "new" and root in (new, cl) or root == f or only_called_from(F, root, {new, cl, f}), "%s touches what counts the references of a call" % short(root))
    c.floor("places that make the counter", sum(len(x) for x in kinds.values()), 3)
    for p in steps(c, cl, extra=()):
        if p.kind == "ret":
            v = agg_field(core(p.ret), fld)
            r = desc(v) if v is not None else "?"
            gone = any(e[0] == "assume" and e[1].op == "discr" and desc(e[1].a[0]) == "arg0." + fld and e[2] == ("e", frozenset((0,))) for e in p.ev)
            c.ob("last", "copies", "arg0." + fld in r or gone and variant_of(v) == "None", "a copy of a call counts %s" % r[:60])
    for p in paths(c.graph(new, interest=lambda x: False, small=8, cap=60, closures=False)):
        if p.kind == "ret" and ok_ret(p.ret) is not False:
            w = [x for x in subvals(p.ret) if x.op == "agg" and x.a[4] and fld in x.a[4]]
            v = agg_field(w[0], fld) if w else None
            c.ob("last", "new", v is not None and not any(x.op == "arg" for x in subvals(v)) and variant_of(v) != "None", "a new call counts %s" % (desc(v)[:60] if v is not None else "?"))
    # who tells
    n = 0
    offer, api = F.one(CM + r"handle_received_offer$"), F.one(CM + r"internal_create_api_error$")
    for fn, bi, ref, t in call_sites(F, CM + r"notify_call_concluded$"):
        n += 1
        root = fn.split("::{closure")[0]
        c.ob("who", "in %s" % tail(root), root in (f, offer, api) or only_called_from(F, root, {f, offer, api}), "%s tells that a call concluded" % short(root))
    for fn, bi, ref, t in call_sites(F, r"Platform.*::on_call_concluded$"):
        root = fn.split("::{closure")[0]
        c.ob("who", "the application in %s" % tail(root), root == ncc or only_called_from(F, root, {ncc, f, offer, api}), "%s tells the application that a call concluded" % short(root))
    c.floor("places that conclude", n, 3)
    for p in steps(c, api):
        if p.kind != "ret":
            continue
        k = [i for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == ncc]
        o = [i for i, e in enumerate(p.ev) if e[0] == "call" and re.search(CM + r"on_call_ended$", e[1])]
        ie = [i for i, e in enumerate(p.ev) if e[0] == "call" and re.search(CM + r"internal_(api_)?error$", e[1])]
        c.ob("who", "api", (len(k), len(o), len(ie)) in ((1, 1, 0), (0, 0, 1)) and (not k or o[0] < k[0]), "a failed api is reported ended %d times, concluded %d times, with %d errors" % (len(o), len(k), len(ie)))
        for i in k + o:
            c.ob("who", "api which", [d(x) for x in p.ev[i][2][1:3]] == ["arg1", "arg2"], "a failed api reports %s" % [d(x)[:40] for x in p.ev[i][2][1:3]])


def check(c):
    end(c)
    components(c)
    concluded(c)
    return "strong", "every path of ending, closing, terminating and concluding a call, and every place that tells the application so"
