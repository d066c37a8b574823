"""C07: at most one call at a time, and the busy flag always matches it"""
from cm_lib import *
from C08 import act, TABLE

TECHNIQUE = "dataflow over every function that touches the busy flag, the active call id and the group call's join state (MIR path tables), and who-may-call rules"
GC = r"core::group_call::Client::"
LOOK = r"CallManager(<.*>)?::(clone|new|fmt|active_call|call_active|call_is_active|busy|create_group_call_client|create_call_link_call_client|handle_received_call_message|handle_received_hangup|handle_received_ice)$"


def plain(fn):
    return re.sub(r"<[^<>]*(<[^<>]*>)?[^<>]*>", "", fn)


def changes(e):
    """the change of busy or of the active call id an event makes: ('busy', v) / ('active', v)"""
    if e[0] == "store":
        sp = store_path(e)
        if sp and sp[-1] == ("CallManager", "busy"):
            return "busy", {"0": "free", "1": "taken"}.get(d(e[3]), "?")
        if sp and sp[-1] == ("CallManager", "active_call_id"):
            v = e[3]
            return "active", None if variant_of(v) == "None" else d(v)
    if e[0] in ("mcall", "call") and re.search(r"(Option(<.*>)?|mem)::(take|replace|insert|get_or_insert\w*|swap)$", e[1]) and e[2]:
        for x in e[2][:2]:
            t = desc(x)
            if re.search(r"\.active_call_id\W*$", t):
                return "active", None if e[1].endswith("take") else "?"
            if re.search(r"arg\d+[~.\w]*\.busy\W*$", t):
                return "busy", "?"
    return None


def direct(c):
    c.rule("taken", "the busy flag is set, and the active call id with it, only by an outgoing call or an incoming offer that found neither set while holding the flag's lock; both are set together with nothing in between that can fail")
    c.rule("released", "busy and the active call id are cleared together, and only while the call that ends is known to be the active one")
    c.rule("refused", "a new outgoing call while busy is refused without any effect")
    F = c.F
    users = raw_mentions(F, "CallManager", "busy") | raw_mentions(F, "CallManager", "active_call_id")
    takes = frees = 0
    hc, ho = F.one(CM + "handle_call$"), F.one(CM + "handle_received_offer$")
    single = {}
    for fn in sorted(users):
        root = fn.split("::{closure")[0]
        if re.search(LOOK, root):
            # these only look: no store may come from them
            for p in steps(c, root):
                for e in p.ev:
                    ch = changes(e)
                    if ch and not root.endswith("::new"):
                        c.ob("released", "changes in %s" % tail(root), False, "%s changes %s" % (short(root), ch[0]))
            continue
        for p in steps(c, root, inline=[CM + "check_for_collision$"]):
            for i, e in enumerate(p.ev):
                ch = changes(e)
                if not ch:
                    continue
                b = Before(F, p, i)
                what, v = ch
                if what == "busy" and v == "taken":
                    takes += 1
                    c.ob("taken", "by %s" % tail(root), root in (hc, ho) or only_called_from(F, root, {hc, ho}), "%s marks the user busy" % short(root))
                    freed = [x for x in p.ev[:i] if changes(x) == ("busy", "free") or x[0] == "call" and re.search(CM + "(release_busy|release_active_call)$", x[1])]
                    c.ob("taken", "free before in %s" % tail(root), b.truth(r"arg0~*\.busy") == 0 or bool(freed), "busy is taken without being known to be free")
                    gone = [x for x in p.ev[:i] if x[0] == "assume" and x[1].op == "discr" and x[2] == ("e", frozenset((0,))) and "Option" in str(x[1].a[1]) and re.search(r"\.active_call_id$", desc(x[1].a[0]))]
                    c.ob("taken", "no active call in %s" % tail(root), bool(gone), "busy is taken while a call may be active")
                    nxt = [x for x in p.ev[i + 1:] if x[0] in ("call", "store", "ret") or x[0] == "assume" and x[1].op == "discr"][:1]
                    good = bool(nxt) and changes(nxt[0]) is not None and changes(nxt[0])[0] == "active" and changes(nxt[0])[1] not in (None, "?")
                    c.ob("taken", "together in %s" % tail(root), good, "busy is taken without the call becoming the active one at once")
                elif what == "active" and v not in (None, "?"):
                    prev = [x for x in p.ev[:i] if changes(x)]
                    ins = [x for x in p.ev[:i] if x[0] == "call" and re.search(r"HashMap(<.*>)?::insert$", x[1])]
                    c.ob("taken", "active in %s" % tail(root), bool(prev) and changes(prev[-1]) == ("busy", "taken"), "a call becomes active without the user being marked busy")
                    idt = v[len("Option::Some{"):-1] if v.startswith("Option::Some{") else v
                    c.ob("taken", "which in %s" % tail(root), bool(ins) and d(ins[-1][2][1]) == idt, "the active call becomes %s, which is not the one that was filed" % v[:60])
                elif v == "?":
                    c.ob("taken", "by %s" % tail(root), False, "%s changes %s in an unknown way" % (short(root), what))
                else:
                    frees += 1
                    single.setdefault(root, set()).add(what)
            # what one path clears
            cl = [changes(e)[0] for e in p.ev if changes(e) and changes(e)[1] in (None, "free")]
            if cl and p.kind == "ret" and ok_ret(p.ret) is not False and root not in (ho,):
                single.setdefault(root + " paths", []).append(tuple(sorted(set(cl))))
                if set(cl) == {"busy", "active"}:
                    i = next(k for k, e in enumerate(p.ev) if changes(e))
                    c.ob("released", "%s knows the call" % tail(root), which_call(Before(F, p, i)), "%s clears the active call without knowing that it is the one that ends" % short(root))
    c.floor("places that take busy", takes, 2)
    c.floor("places that clear", frees, 3)
    # functions that clear only one of the two are halves: every caller does both
    halves = {r: w for r, w in single.items() if not r.endswith(" paths") and len(w) == 1 and r != ho}
    both = {r for r, w in single.items() if not r.endswith(" paths") and len(w) == 2 and r != ho}
    for r in both:
        c.ob("released", "%s together" % tail(r), all(set(x) == {"active", "busy"} for x in single.get(r + " paths", ())), "%s clears only one of busy and the active call on some path" % short(r))
    n = 0
    names_ = {r: next(iter(w)) for r, w in halves.items()}
    callers = {fn.split("::{closure")[0] for r in names_ for fn in F.callers().get(r, ())}
    reset = F.one(CM + "handle_reset$")
    for fn in sorted(callers):
        c.ob("released", "halves in %s" % tail(fn), fn in (ho, reset) or only_called_from(F, fn, {ho, reset}), "%s clears busy or the active call without knowing which call is active" % short(fn))
        for p in steps(c, fn):
            done = []
            for e in p.ev:
                if e[0] == "call" and e[1] in names_:
                    done.append(names_[e[1]])
                elif changes(e) and changes(e)[1] in (None, "free"):
                    done.append(changes(e)[0])
            n += len(done)
            if done and p.kind == "ret" and ok_ret(p.ret) is True:
                c.ob("released", "both in %s" % tail(fn), set(done) == {"busy", "active"}, "%s clears only %s" % (short(fn), "/".join(sorted(set(done)))))
            if fn == reset and p.kind == "ret" and ok_ret(p.ret) is True:
                c.ob("released", "reset", set(done) == {"busy", "active"}, "reset leaves %s" % ("busy or the active call set"))
    c.floor("uses of the halves", n, 2)
    # the one that clears both: its answer decides whether the call is terminated
    c.rule("ended", "a call is terminated exactly by the one that took it out of the active state: terminate_call runs if and only if that succeeded, and only for that call")
    term = CM + "terminate_call$"
    tf = F.one(term)
    k = 0
    for fn in sorted({f.split("::{closure")[0] for b in both for f in F.callers().get(b, ())} | {f.split("::{closure")[0] for f in F.callers().get(tf, ())}):
        if fn in (ho, reset):
            continue
        for p in steps(c, fn, extra=["^" + re.escape(b) + "$" for b in both]):
            rel = [(i, e) for i, e in enumerate(p.ev) if e[0] == "call" and e[1] in both]
            trm = [(i, e) for i, e in enumerate(p.ev) if e[0] == "call" and re.search(term, e[1])]
            for i, e in trm:
                k += 1
                won = [r for j, r in rel if j < i]
                t = Before(F, p, i)
                yes = bool(won) and any(x[0] == "assume" and x[1].op != "discr" and x[2] == ("e", frozenset((1,))) and any(desc(core(x[1], True)) == desc(core(r[3], True)) for r in won) for x in p.ev[:i])
                c.ob("ended", "terminates in %s" % tail(fn), yes and len(trm) == 1, "%s terminates a call that it did not take out of the active state" % short(fn))
                idd = [desc(core(r[2][1], True)) for r in won]
                about = full_desc(core(e[2][1], True))
                known = idd and (about + ".call_id" in idd[-1] or idd[-1] in about or any({x, y} == {idd[-1], y} and about in x + y and o for x, y, o in t.eqs()) or id_of(p, i, about, idd[-1]))
                c.ob("ended", "whom in %s" % tail(fn), bool(known), "%s terminates %s after releasing %s" % (short(fn), about[:60], idd))
            if rel and not trm and p.kind == "ret":
                lost = any(x[0] == "assume" and x[1].op != "discr" and x[2] == ("e", frozenset((0,))) and any(desc(core(x[1], True)) == desc(core(r[3], True)) for _, r in rel) for x in p.ev)
                failed = ok_ret(p.ret) is not True
                k += 1
                c.ob("ended", "released in %s" % tail(fn), lost or failed, "%s takes a call out of the active state and does not terminate it" % short(fn))
    c.floor("terminations", k, 2)
    m = 0
    for p in steps(c, hc):
        seq = [a for a in (act2(e) for e in p.ev) if a]
        b = Before(F, p, len(p.ev))
        m += 1
        if b.truth(r"arg0\.busy") == 1:
            c.ob("refused", "busy", not seq and ok_ret(p.ret) is False, "a new call while busy leads to %s" % (seq or "success"))
        if any(a in ("taken", "insert", "start") for a in seq):
            c.ob("refused", "free", b.truth(r"arg0\.busy") == 0, "a new call starts without the user being known to be free")
        if p.kind == "ret" and ok_ret(p.ret) is True:
            c.ob("refused", "started", [a for a in seq if a in ("insert", "taken", "active", "timer", "start")] == ["insert", "taken", "active", "timer", "start"], "a new call is reported started after %s" % seq)
    c.floor("paths of a new call", m, 4)


def act2(e):
    ch = changes(e)
    if ch:
        return "taken" if ch == ("busy", "taken") else "active" if ch[0] == "active" and ch[1] else "free"
    if e[0] == "call" and re.search(r"HashMap(<.*>)?::insert$", e[1]):
        return "insert"
    if e[0] == "call" and re.search(CALLS, e[1]):
        return {"start_timeout_timer": "timer", "inject_start_call": "start"}.get(last(e[1]))
    if e[0] == "call" and re.search(CM + r"(terminate\w*|send_\w+|clear_active_call|release\w*)$", e[1]):
        return last(e[1])
    return None


def which_call(b):
    """is the active call id known to equal the argument"""
    for x, y, o in b.eqs():
        if o and ("active_call_id" in x) != ("active_call_id" in y):
            return True
    for e in b.q.ass:
        if e[2][0] == "r" and e[2][1] == e[2][2] == 0 and "active_call_id" in desc(e[1]) and "arg" in desc(e[1]):
            return True
    return False


def id_of(p, i, about, ident):
    """the path knows that the call's own id equals the id released"""
    for e in p.ev[:i]:
        if e[0] == "assume" and e[2][0] == "r" and e[2][1] == e[2][2] == 0:
            t = desc(e[1])
            if "call_id" in t and ident.split(".")[0] in t:
                return True
        if e[0] == "assume" and e[1].op == "eq" and e[2] == ("e", frozenset((1,))):
            x, y = full_desc(core(e[1].a[0], True)), full_desc(core(e[1].a[1], True))
            if any("call_id" in t for t in (x, y)) and any(ident.split(".")[0] in t for t in (x, y)):
                return True
    return False


def group(c):
    c.rule("group", "a group call joins only from the not-joined state and only if it took busy from free; it gives busy back only when it leaves the joining, pending or joined state, and then is not joined; nothing else moves it between joined and not joined")
    F = c.F
    tb, rb, li = F.one(GC + "take_busy$"), F.one(GC + "release_busy$"), F.one(GC + "leave_inner$")
    sj = F.one(GC + "set_join_state_and_notify_observer$")
    n = 0
    stores = lambda p: [(i, e) for i, e in enumerate(p.ev) if e[0] == "store" and store_path(e) and store_path(e)[-1] == ("State", "busy")]
    for p in paths(c.graph(tb, deep=True)):
        if p.kind != "ret":
            continue
        n += 1
        st = stores(p)
        b = Before(F, p, st[0][0] if st else len(p.ev))
        r = desc(p.ret)
        if r in ("1", "True"):
            c.ob("group", "take", len(st) == 1 and d(st[0][1][3]) == "1" and b.truth(r"arg0\.busy") == 0, "busy is said to be taken without being free and set")
        else:
            c.ob("group", "not taken", not st and r in ("0", "False"), "busy is changed although it is not taken")
    c.floor("outcomes of taking busy", n, 3)
    for p in paths(c.graph(rb, deep=True)):
        for i, e in stores(p):
            c.ob("group", "release value", d(e[3]) == "0", "releasing busy sets it to %s" % d(e[3]))
    touch = {f for f in raw_mentions(F, "State", "busy")}
    for fn in sorted(touch):
        c.ob("group", "user %s" % tail(fn), fn in (tb, rb) or only_called_from(F, fn, {tb, rb}), "%s touches the busy flag" % short(fn))
    # join
    rx = re.compile(GC + r"(take_busy|release_busy|set_join_state_and_notify_observer|end|leave_inner|accept_ring_if_needed|set_peek_result_inner|start_peer_connection|request_remote_devices_as_soon_as_possible|set_send_rates_inner|send_\w+|cancel_full_group_ring_if_needed|on_client_joined|tick)$|SfuClient|Observer")
    seen = set()
    k = 0
    roots = {f for t in (tb, rb, sj) for f in F.callers().get(t, ())} | {f for f in raw_mentions(F, "State", "join_state") if any(w[0] == f for w in field_writes(F, "State", "join_state"))}
    for fn in sorted(roots):
        if fn == sj:
            continue
        g = c.graph(fn, interest=lambda x: x != fn and rx.search(x), noinline=lambda x: x != fn and rx.search(x), small=8, cap=60, closures=False, max_nodes=100000)

        def step(q, e, fn=fn):
            # q: what is known: join state variants, took busy, released
            states, took, rel = q
            if e[0] == "assume" and e[1].op == "discr" and re.search(r"\.join_state$", desc(e[1].a[0])) and e[2][0] == "e":
                return frozenset(x for x in states if vals[x] in e[2][1]) or states, took, rel
            if e[0] == "assume" and e[1].op == "call" and e[1].a[2] == tb and e[2][0] == "e":
                return states, next(iter(e[2][1])) == 1 if len(e[2][1]) == 1 else took, rel
            if e[0] == "call" and e[1] == tb:
                seen.add("take")
                if states != {"NotJoined"}:
                    return Bad("busy is taken by a group call that may be %s" % "/".join(sorted(states)))
                return q
            if e[0] == "call" and e[1] == rb:
                seen.add("release")
                if "NotJoined" in states or fn != li and not only_called_from(F, fn, {li}):
                    return Bad("busy is given back by a group call that may not have taken it")
                return states, took, True
            new = None
            if e[0] == "call" and e[1] == sj:
                new = variant_of(core(e[2][1], True))
            elif e[0] == "store" and store_path(e) and store_path(e)[-1] == ("State", "join_state"):
                new = variant_of(core(e[3], True)) or d(e[3])
            if new is not None:
                seen.add(new)
                if new == "Joining":
                    if took is not True or states != {"NotJoined"}:
                        return Bad("a group call joins without having taken busy")
                    return frozenset(("Joining",)), None, rel
                if new == "NotJoined":
                    if states == {"NotJoined"}:
                        return q
                    if not rel:
                        return Bad("a group call that may be %s becomes not joined and stays busy" % "/".join(sorted(states)))
                    return frozenset(("NotJoined",)), took, False
                if "NotJoined" in states:
                    return Bad("a group call becomes %s that may not have joined" % new)
                return states - {"NotJoined"}, took, rel
            if e[0] == "call" and e[1] in (li, ):
                return frozenset(("NotJoined",)), None, False
            return q

        def end(q, node, fn=fn):
            states, took, rel = q
            if took is True:
                return Bad("busy was taken and the group call does not join")
            if rel:
                return Bad("busy was given back and the group call stays joined")
            return None

        vals = {v[0]: int(v[1]) for v in F.adts["ringrtc::core::group_call::JoinState"]["vs"]}
        k += 1
        c.auto("group", tail(fn), g, (frozenset(vals), None, False), step, end=end)
    c.floor("functions that move the join state", k, 4)
    c.floor("moves of the join state", len(seen & {"take", "release", "Joining", "NotJoined"}), 4)
    c.rule("ends", "a group call that ends leaves first")
    ef = F.one(GC + "end$")
    for p in paths(c.graph(ef, interest=lambda x: rx.search(x) and x != ef, noinline=lambda x: rx.search(x) and x != ef, deep=True)):
        if p.kind != "ret":
            continue
        left = [1 for e in p.ev if e[0] == "call" and e[1] == li]
        nj = any(e[0] == "assume" and e[1].op == "discr" and re.search(r"\.join_state$", desc(e[1].a[0])) and e[2] == ("e", frozenset((vals["NotJoined"],))) for e in p.ev)
        c.ob("ends", "end", bool(left) != nj, "a group call that %s ends %s leaving" % ("is not joined" if nj else "may be joined", "after" if left else "without"))


def check(c):
    direct(c)
    group(c)
    return "strong", "every function that reads or changes the busy flag, the active call id or the join state of a group call, on every path"
