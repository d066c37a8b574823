"""C06: messages and commands for another call or peer never affect the active call"""
from cm_lib import *

TECHNIQUE = "path tables of every call manager operation that names a call id (each effect on the active call must be preceded by the facts that id and peer are its own), of the pending messages and of the error handlers (MIR)"
PURE = re.compile(r"Call::(remote_peer|state|summary|should_\w+|active_\w+|direction|call_id|call_manager|call_context|get_\w+|is_\w+|ref_count|local_device_id|media_type|connection\w*|terminating|early_ice\w*|clone|drop|new)$")
LOCK = re.compile(r"lock$|RwLock::(read|write)$")
PENDING = r"PendingCallMessages::\w+$"


def argn(F, f, rx):
    """positions of the arguments whose type matches"""
    return [i for i in range(F.fns[f].args) if re.search(rx, F.ts(F.fns[f].l[i + 1][0] if isinstance(F.fns[f].l[i + 1], (list, tuple)) else F.fns[f].l[i + 1]))]


def same_id(b, arg):
    rx = re.compile(r"\b%s\b(?!\.\w*peer)" % arg)
    for x, y, o in b.eqs():
        if o and any(rx.match(t) for t in (x, y)) and any(re.search(r"call_id", t) for t in (x, y)):
            return True
    for e in b.q.ass:
        if e[2][0] == "r" and e[2][1] == e[2][2] == 0 and rx.search(desc(e[1])) and "call_id" in desc(e[1]):
            return True
        if e[1].op in ("call", "pure") and e[2] == ("e", frozenset((1,))) and re.search(r"call_is_active\(arg0,%s\)" % arg, desc(e[1])):
            return True
    return False


def other_id(b, arg):
    rx = re.compile(r"\b%s\b" % arg)
    for x, y, o in b.eqs():
        if not o and any(rx.match(t) for t in (x, y)) and any(re.search(r"call_id", t) for t in (x, y)):
            return True
    return False


def same_peer(b, arg):
    for e in b.q.ass:
        if e[1].op != "discr" and e[2] == ("e", frozenset((1,))):
            t = full_desc(e[1])
            if "compare_remotes(" in t and re.search(r"\b%s\b" % arg, t) and "remote_peer(" in t:
                return True
    return False


def failed_by(p):
    """what made a path return an error"""
    out = []
    for e in p.ev:
        if e[0] == "assume" and e[1].op == "discr" and e[2] == ("e", frozenset((1,))) and "Result" in str(e[1].a[1]):
            for x in subvals(e[1].a[0]):
                if x.op == "call":
                    out.append(str(x.a[2]))
                    break
            else:
                out.append(desc(e[1].a[0]))
    return out


def commands(c):
    c.rule("own id", "an operation that names a call id touches the active call only after the id was seen to be the active call's")
    c.rule("own peer", "a message of a peer touches the active call only after the peer was seen to be the active call's")
    c.rule("harmless", "an operation for another call doesn't fail, except where a lock was poisoned: the error handler of the interface ends the active call")
    F = c.F
    skip = {F.one(CM + x) for x in ("handle_call$", "handle_received_offer$")}
    # operations whose failure ends the active call
    iae = F.one(CM + "internal_api_error$")
    ends = set()
    for fn in F.callers().get(iae, ()):
        for bi, ref, t in ((x[1], x[2], x[3]) for x in call_sites(F, CM + r"handle_\w+$") if x[0] == fn):
            ends |= set(F.targets(ref))
    fns = []
    for f in F.fns:
        if not re.match(r"ringrtc::core::call_manager::CallManager::\w+$", f) or f in skip:
            continue
        ids = argn(F, f, r"(^|:)CallId$")
        if len(ids) != 1 or argn(F, f, r"^&?(mut )?(ringrtc::)?core::call::Call<|PendingCallMessages"):
            continue
        fns.append((f, "arg%d" % ids[0], ["arg%d" % i for i in argn(F, f, r"AppRemotePeer")]))
    n = acts = 0
    for f, ida, peers in sorted(fns):
        msg = re.search(r"::handle_received_", f)
        for p in steps(c, f, inline=[CM + "active_call$"], extra=(PENDING, CM + r"handle_\w+$"), deep=False):
            n += 1
            hit = False
            for i, e in enumerate(p.ev):
                if e[0] != "call":
                    continue
                who = None
                if re.search(CALLS, e[1]) and not PURE.search(e[1]) and e[2]:
                    t = full_desc(core(e[2][0], True))
                    if "active_call_id" in t:
                        who = "does %s" % last(e[1])
                elif re.search(CM + r"(terminate_call|handle_terminate_active_call)$", e[1]):
                    who = "ends a call"
                elif re.search(CM + r"(terminate_active_call|internal_error)$", e[1]):
                    if d(e[2][1]) == ida:
                        acts += 1
                        continue
                    who = "ends the active call"
                elif e[1] == iae and any(x[0] == "call" and x[1] in ends for x in p.ev[:i]) and "internal_" not in f:
                    continue            # the failure of an operation that is judged by itself
                elif re.search(CM + r"(internal_api_error|clear_active_call|release_busy)$", e[1]):
                    who = "ends the active call"
                if not who:
                    continue
                acts += 1
                hit = True
                b = Before(F, p, i)
                c.ob("own id", "%s %s" % (tail(f), who), same_id(b, ida), "%s %s without knowing that the id is its own" % (short(f), who))
                if msg or f.endswith("internal_create_api_error"):
                    for pe in peers:
                        c.ob("own peer", "%s %s" % (tail(f), who), same_peer(b, pe) or "remote_peer_equals" in " ".join(desc(x[1]) for x in b.q.ass), "%s %s without knowing that the peer is its own" % (short(f), who))
            if f in ends and p.kind == "ret" and not hit and ok_ret(p.ret) is False:
                why = failed_by(p)
                lastf = why[-1] if why else "?"
                b = Before(F, p, len(p.ev))
                good = LOCK.search(lastf) or re.search(r"Call::remote_peer$|CallManager::(reset_messages_in_flight|send_next_message)$", lastf) or same_id(b, ida)
                c.ob("harmless", tail(f), bool(good), "%s fails for another call after %s" % (short(f), tail(lastf)))
    c.floor("operations that name a call", len(fns), 12)
    c.floor("operations whose failure ends the active call", len(ends), 8)
    c.floor("effects on the active call", acts, 9)
    c.floor("paths of those operations", n, 60)


def errors(c):
    """an api that makes a call: its failure is about that call only"""
    c.rule("failures", "a failed new call or offer ends the active call only if that is the very call that was being made")
    F = c.F
    f = F.one(CM + "internal_create_api_error$")
    k = 0
    for p in steps(c, f, inline=[CM + "active_call$"], extra=(CM + r"remote_peer_equals_active$",), deep=False):
        for i, e in enumerate(p.ev):
            if e[0] == "call" and re.search(CM + r"(internal_api_error|internal_error|terminate\w*|handle_terminate\w*)$", e[1]):
                k += 1
                b = Before(F, p, i)
                c.ob("failures", "id", same_id(b, "arg2") or len(e[2]) > 2 and d(e[2][1]) == "arg2", "a failed new call ends the active call without comparing ids")
    c.floor("ends by failures", k, 1)
    # the errors of the interface reach only the handler of the api they come from
    f = F.one(CM + "internal_error$")
    for p in steps(c, f, inline=[CM + "active_call$"], deep=False):
        for i, e in enumerate(p.ev):
            if e[0] == "call" and re.search(CM + r"terminate_active_call$", e[1]):
                c.ob("failures", "internal", d(e[2][1]) == "arg1" or same_id(Before(F, p, i), "arg1"), "an internal error ends another call")


def pending(c):
    c.rule("bounded", "the messages kept for a call that has not started are bounded: nothing is added to the list unless it is shorter than the limit or something was removed")
    c.rule("kept", "a message is added only to those of the same call id, together with the peer that sent it; messages for another id replace them; a hang-up replaces what is kept")
    c.rule("replayed", "what was kept is given to a new call once, and only with the same call id and a peer that compared equal")
    F = c.F
    si = F.one(r"PendingCallMessages::save_ice_candidates$")
    sh = F.one(r"PendingCallMessages::save_hangup$")
    n = 0
    for p in paths(c.graph(si, deep=True)):
        if p.kind != "ret":
            continue
        b = Before(F, p, len(p.ev))
        push = [(i, e) for i, e in enumerate(p.ev) if e[0] in ("call", "mcall") and re.search(r"Vec(Deque)?(<.*>)?::(push|push_back|insert|extend\w*|append)$", e[1])]
        for i, e in push:
            n += 1
            less = False
            cut = any(x[0] in ("call", "mcall") and re.search(r"::(remove|pop|pop_front|drain|truncate|swap_remove|clear)$", x[1]) for x in p.ev[:i])
            for x in p.ev[:i]:
                if x[0] == "assume" and x[2][0] == "r" and x[1].op == "len" and x[2][2] <= 1000:
                    less = True
            c.ob("bounded", "push", less or cut, "a candidate is kept without a limit")
            c.ob("kept", "same id", same_id(Before(F, p, i), "arg2"), "a candidate is added to those of another call")
            t = full_desc(e[2][1])
            c.ob("kept", "with its peer", "arg1" in t and "arg3" in t, "a candidate is kept without the peer that sent it")
        st = [e for e in p.ev if e[0] == "store" and "PendingCallMessages::" in desc(e[3])]
        for e in st:
            n += 1
            t = full_desc(e[3])
            stored = t + " ".join(full_desc(x[3]) for x in p.ev if x[0] == "store")
            c.ob("kept", "new", "IceCandidates" in t and "arg2" in t and "arg1" in stored and "arg3" in stored, "what is kept becomes %s" % t[:80])
        if not push and not st:
            c.ob("kept", "dropped", same_id(b, "arg2"), "a candidate for a call that is not known is dropped")
    c.floor("candidates kept", n, 3)
    k = 0
    for p in paths(c.graph(sh, deep=True)):
        if p.kind != "ret":
            continue
        st = [e for e in p.ev if e[0] == "store" and "PendingCallMessages::" in desc(e[3])]
        k += len(st)
        t = full_desc(st[-1][3]) if st else ""
        c.ob("kept", "hangup", len(st) == 1 and "Hangup" in t and all(a in t for a in ("arg1", "arg2", "arg3")), "a hang-up that comes early becomes %s" % (t[:80] or "nothing"))
    c.floor("hang-ups kept", k, 2)
    # replay
    f = F.one(CM + "handle_received_offer$")
    m = took = 0
    for p in steps(c, f, inline=[CM + "check_for_collision$"], expand=[r"validate_offer$"]):
        for i, e in enumerate(p.ev):
            if e[0] != "call" or not re.search(r"core::call::Call::inject_received_(ice|hangup|answer)$", e[1]):
                continue
            m += 1
            b = Before(F, p, i)
            what = core(e[2][1], True)
            t = full_desc(what)
            same = [x for x in b.eqs() if x[2] and "arg2" in x[:2] and any("pending_call_messages" in y and "call_id" in y for y in x[:2])]
            c.ob("replayed", "id", bool(same), "a kept message is given to a call with another id")
            peer = None
            for x in b.q.ass:
                if x[1].op != "discr" and x[2][0] == "e" and len(x[2][1]) == 1 and "compare_remotes(" in full_desc(x[1]):
                    peer = x
            good = peer is not None and peer[2][1] == frozenset((1,))
            c.ob("replayed", "peer", good, "a kept message is given to the call of another peer")
            if good:
                pt = full_desc(peer[1])
                own = re.search(r"arg1\b", pt) and "pending_call_messages" in pt
                if "next(" in t:
                    # the peer compared is the one kept with this very message
                    elem = t[:t.rindex(".")] if "." in t else t
                    own = own and (elem in pt or "remote_peer" in pt and "IntoIter::next" not in pt and False)
                c.ob("replayed", "its own peer", bool(own), "the peer compared is not the one that sent the kept message")
            c.ob("replayed", "to the new call", any(x.op == "call" and re.search(r"core::call::Call::new$", str(x.a[2])) for x in subvals(core(e[2][0], True))), "a kept message is given to %s" % d(e[2][0])[:60])
            tk = [x for x in p.ev[:i] if x[0] in ("mcall", "call") and re.search(r"mem::(take|replace)$|Option(<.*>)?::take$", x[1])]
            c.ob("replayed", "once", bool(tk), "kept messages stay after they were given to a call")
    c.floor("kept messages given to a call", m, 4)


def check(c):
    commands(c)
    errors(c)
    pending(c)
    return "strong", "every path of every call manager operation that names a call id, of the error handlers and of the pending messages"
