"""G05: received media keys are taken in only from their owner, in a valid form"""
from cm_lib import *

TECHNIQUE = "path tables of the functions that take in media keys (every key, id and counter traced to the message they came from, every use preceded by the facts about its owner), automaton over the re-offering of held keys, who-may-call and who-may-write rules (MIR)"
GC = r"core::group_call::Client::"
HELD = "pending_media_receive_keys"


def gsteps(c, f, **kw):
    return steps(c, f, extra=(GC + r"\w+$", r"core::crypto::Context::\w+$"), **kw)


def elem_of(v):
    """the collection element a value was taken from, and which part"""
    v = core(v, True)
    if v.op == "f":
        return desc(core(v.a[0], True)), str(v.a[1])
    return None, None


def pred(c, clo):
    """what a search's closure says of an element it accepts: pairs compared equal, with captured values put back"""
    out = None
    for p in steps(c, str(clo.a[1])):
        if p.kind != "ret":
            continue
        b = Before(c.F, p, len(p.ev))
        r = core(p.ret, True)
        eqs = [(x, y) for x, y, o in b.eqs() if o]
        for e in b.q.ass:
            if e[2][0] == "r" and e[2][1] == e[2][2] == 0:
                ds = [desc(t) for t in lin(e[1])[1]]
                if len(ds) == 2:
                    eqs.append(tuple(ds))
        t = desc(r)
        if t in ("0", "False"):
            continue
        if r.op == "eq":
            eqs.append((desc(core(r.a[0], True)), desc(core(r.a[1], True))))
        elif t not in ("1", "True"):
            return set()

        def back(s):
            w = re.fullmatch(r"arg0\.(\d+)", s)
            return desc(core(clo.a[5][int(w.group(1))], True)) if w and int(w.group(1)) < len(clo.a[5]) else s
        eqs = {tuple(sorted((back(x), back(y)))) for x, y in eqs}
        out = eqs if out is None else out & eqs
    return out or set()


def closures_of(v):
    return [x for x in subvals(v) if x.op == "agg" and x.a[0] == "clo"]


def check(c):
    F = c.F
    c.rule("owner", "a key is taken in only after a participant of the call with exactly the key's demux id was found and its user id compared equal to the sender's; a key of an unknown participant is held with its sender, demux id and counter; any other is dropped")
    c.rule("form", "a key from a message has exactly the length of a key, a counter that fits, and goes together with the demux id of the same message and the sender that the application authenticated")
    c.rule("held", "held keys are all offered again, once, with their own sender, demux id, counter and secret, and after the participants were updated")
    c.rule("participant", "what a participant's entry says of its user and demux id comes from one device of the SFU's list; an entry outlives an update only if its user id compared equal")
    c.rule("nowhere else", "keys are taken in, held, and marked as received nowhere else")
    ctx = F.one("core::crypto::Context::add_receive_secret$")
    takers = set()
    for fn, bi, ref, t in call_sites(F, r"core::crypto::Context::add_receive_secret$"):
        if fn.startswith("ringrtc::core::crypto"):
            continue
        takers.add(fn.split("::{closure")[0])
    c.floor("functions that take in keys", len(takers), 1)
    n = k = 0
    for f in sorted(takers):
        for p in gsteps(c, f, cap=600):
            took = False
            for i, e in enumerate(p.ev):
                if e[0] == "call" and e[1] == ctx:
                    n += 1
                    took = True
                    did, ctr, sec = (d(x) for x in e[2][1:4])
                    b = Before(F, p, i)
                    user = None
                    for x, y, o in b.eqs():
                        for s, t in ((x, y), (y, x)):
                            if o and s.endswith(".user_id") and re.fullmatch(r"arg\d+(\.\w+)?", t):
                                user = (s[:-len(".user_id")], t)
                    c.ob("owner", "user", user is not None, "a key is taken in without comparing the sender's user id with the participant's")
                    if not user:
                        continue
                    dev = user[0]
                    # the participant: found by the demux id
                    wanted = set()
                    for x, y, o in b.eqs():
                        if o and dev + ".demux_id" in (x, y):
                            wanted |= {x, y}
                    for a in b.q.ass:
                        ds = {desc(t) for t in lin(a[1])[1]} if a[2][0] == "r" and a[2][1] == a[2][2] == 0 else ()
                        if len(ds) == 2 and dev + ".demux_id" in ds:
                            wanted |= ds
                    for a in b.ev:
                        if a[0] in ("call", "mcall") and re.search(r"::(find|find_map)$", a[1]) and "remote_devices" in desc(a[2][0]) and desc(core(a[3], True)) == dev:
                            for cl in closures_of(a[2][1]):
                                for q in pred(c, cl):
                                    if "arg1.demux_id" in q:
                                        wanted |= set(q)
                    wanted = {x for x in wanted if re.fullmatch(r"arg\d+(\.\w+)?", x)} - {"arg1.demux_id"}
                    good = did in wanted or did == dev + ".demux_id" and len(wanted) == 1
                    did = next(iter(wanted)) if good and did not in wanted else did
                    c.ob("owner", "demux id", good, "a key is taken in for demux id %s without having found that participant" % did)
                    parts = [x for x in (did, ctr, sec, user[1])]
                    c.ob("owner", "parts", len(set(parts)) == 4 and all(re.fullmatch(r"arg\d+(\.\w+)?", x) for x in parts), "a key is taken in with other parts than were given: %s" % parts)
                    hold = (user[1], did, ctr, sec)
            marks = [e for e in p.ev if e[0] == "store" and store_path(e) and store_path(e)[-1][1] == "media_keys_received"]
            for e in marks:
                c.ob("owner", "marked", took, "a participant is marked as having sent a key although it was not taken in")
            pu = [e for e in p.ev if e[0] in ("call", "mcall") and re.search(r"Vec(<.*>)?::push$", e[1]) and HELD in desc(e[2][0])]
            for e in p.ev:
                if e[0] in ("call", "mcall") and re.search(r"::(clear|truncate|pop|remove|swap_remove|retain\w*|drain|split_off|dedup\w*|insert)$", e[1]) and e[2] and HELD in desc(e[2][0]):
                    c.ob("held", "kept", False, "%s takes held keys away" % short(f))
                if e[0] == "store" and store_path(e) and store_path(e)[-1][1] == HELD:
                    c.ob("held", "kept", False, "%s replaces the held keys" % short(f))
            for i, e in enumerate(p.ev):
                if e in pu:
                    k += 1
                    b = Before(F, p, i)
                    none = [a for a in b.q.ass if a[1].op == "discr" and a[2] == ("e", frozenset((0,))) and "Option" in str(a[1].a[1]) and re.search(r"find|next\(", desc(a[1].a[0]))]
                    c.ob("owner", "held", bool(none) and not took, "a key is held although its participant is known")
                    v = core(e[2][1], True)
                    fs = [desc(core(x, True)) for x in v.a[5]] if v.op == "agg" else []
                    c.ob("owner", "held parts", len(fs) == 4 and len(set(fs)) == 4 and all(re.fullmatch(r"arg\d+", x) for x in fs), "a key is held as %s" % fs)
            c.ob("owner", "one of three", len(pu) + took <= 1, "a key is used %d times" % (len(pu) + took))
            if p.kind == "ret" and not took and not pu:
                b = Before(F, p, len(p.ev))
                c.ob("owner", "dropped", any(not o and (x.endswith(".user_id") or y.endswith(".user_id")) for x, y, o in b.eqs()), "a key of a participant is dropped although nothing speaks against it")
    c.floor("keys taken in", n, 1)
    c.floor("keys held", k, 1)

    # ---- from the message
    taker_rx = "|".join(re.escape(t) + "$" for t in sorted(takers))
    froms = {}
    for fn, bi, ref, t in call_sites(F, taker_rx):
        froms.setdefault(fn, 0)
    msg = re_offer = 0
    peekers = set()
    for fn in sorted(froms):
        if HELD in mentioned(F, fn):
            peekers.add(fn)
            continue
        for p in gsteps(c, fn, cap=600):
            for i, e in each_call(p, taker_rx):
                msg += 1
                b = Before(F, p, i)
                user, did, ctr, sec = (core(x, True) for x in e[2][1:5])
                u, m, t = desc(user), desc(did), desc(e[2][3])
                base = m[:-len(".demux_id")] if m.endswith(".demux_id") else None
                c.ob("form", "demux id", base is not None, "a received key is taken for %s" % m)
                w = re.fullmatch(r"\w*[\w:]*try_into\((.*)\)|[\w:]*try_from\((.*)\)", t)
                src = w and (w.group(1) or w.group(2))
                c.ob("form", "counter", bool(base and src == base + ".ratchet_counter"), "a received key's counter is %s" % t[:80])
                ok = [a for a in b.q.ass if a[1].op == "discr" and a[2] == ("e", frozenset((0,))) and re.search(r"try_(into|from)\(", desc(a[1].a[0]))]
                c.ob("form", "counter fits", bool(ok), "a received key's counter is used without knowing that it fits")
                # the secret
                copied = [a for a in b.ev if a[0] in ("call", "mcall") and re.search(r"copy_from_slice$", a[1]) and base and d(a[2][1]) == base + ".secret"]
                made = re.search(r"try_(into|from)\(%s\.secret" % re.escape(base or "?"), desc(e[2][4]))
                c.ob("form", "secret", bool(copied) and copied[-1][2][0] is not None and desc(sec).rstrip("~") == desc(core(copied[-1][2][0], True)).rstrip("~") or bool(made), "a received key's secret is %s" % desc(sec)[:80])
                ln = [a for a in b.q.ass if a[1].op == "len" and base and desc(a[1].a[0]) == base + ".secret" and a[2][0] == "r" and a[2][1] == a[2][2] == 32]
                safe = [a for a in b.q.ass if a[1].op == "discr" and a[2] == ("e", frozenset((0,))) and re.search(r"(safe_copy_from_slice|try_into|try_from)\(.*\.secret", desc(a[1].a[0]))]
                c.ob("form", "length", bool(ln or safe), "a received key is used without knowing that it has the length of a key")
                # the sender: what the message's receiver was given
                own = fn.split("::{closure")[0]
                w = re.fullmatch(r"arg0\.(\d+)", u)
                good = False
                if w:
                    for q in gsteps(c, own, closures=False):
                        for a in q.ev:
                            if a[0] in ("call", "mcall"):
                                for v in a[2]:
                                    for cl in closures_of(v):
                                        if str(cl.a[1]) == fn and int(w.group(1)) < len(cl.a[5]):
                                            z = desc(core(cl.a[5][int(w.group(1))], True))
                                            good = bool(re.fullmatch(r"arg\d+", z))
                                            froms[fn] = (own, z)
                else:
                    good = bool(re.fullmatch(r"arg\d+", u))
                    froms[fn] = (own, u)
                c.ob("form", "sender", good, "a received key's sender is %s" % u[:80])
    c.floor("keys from messages", msg, 1)
    # who hands messages to the client: with the sender that the application gave
    j = 0
    hm = F.one(CM + "handle_received_call_message$")
    for fn, v in sorted(froms.items()):
        if not v:
            continue
        own, z = v
        pos = int(z[3:])
        for caller, bi, ref, t in call_sites(F, re.escape(own) + "$"):
            c.ob("form", "handed on by %s" % tail(caller), caller.split("::{closure")[0] == hm or only_called_from(F, caller.split("::{closure")[0], {hm}), "%s hands messages to a group call" % short(caller))
        for p in steps(c, hm, extra=(re.escape(own) + "$", CM + r"handle_\w+$")):
            for i, e in each_call(p, re.escape(own) + "$"):
                j += 1
                c.ob("form", "authenticated sender", d(e[2][pos]) == "arg1", "a message is handed to a group call as one of %s" % d(e[2][pos]))
                who = [a for a in p.ev[:i] if a[0] in ("call", "mcall") and re.search(r"::find$", a[1])]
                by = [q for a in who for cl in closures_of(a[2][1]) for q in pred(c, cl)]
                g = any(any(x.endswith("group_id") and x.startswith("arg1") for x in q) and any(not x.startswith("arg1.client") and "group_id" in x for x in q) for q in by) or any(o and "group_id" in x and "group_id" in y for x, y, o in Before(F, p, i).eqs())
                c.ob("form", "own group", g, "a message is handed to a group call without comparing the group's id")
    c.floor("messages handed to group calls", j, 1)

    # ---- held keys are offered again
    for fn in sorted(peekers):
        rx = re.compile(GC + r"\w+$")
        g = c.graph(fn, interest=lambda x: x != fn and bool(rx.search(x)), noinline=lambda x: x != fn and bool(rx.search(x)), small=8, cap=60, closures=False, big=True)
        cnt = [0, 0]

        def step(q, e):
            st, cur = q
            if e[0] == "store" and store_path(e):
                last_ = store_path(e)[-1][1]
                if last_ == "remote_devices" and st in ("taken", "loop"):
                    return Bad("participants are updated after the held keys were looked at")
                if last_ == HELD:
                    if st != "idle":
                        return Bad("held keys are lost")
                    cnt[0] += 1
                    return "taken", None
            if e[0] in ("call", "mcall") and re.search(r"::(into_iter|drain|iter)$", e[1]) and (HELD in desc(e[2][0]) or st == "taken" and "phi(" in desc(e[2][0])):
                if tail(e[1]).endswith("drain"):
                    cnt[0] += 1
                return "loop", None
            if e[0] in ("call", "mcall") and re.search(r"::(clear|truncate|pop|remove|swap_remove|retain\w*|skip|take|step_by|filter)$", e[1]) and HELD in desc(e[2][0]):
                return Bad("held keys are lost")
            if e[0] in ("call", "mcall") and re.search(r"Iterator.*::next$|::next$", e[1]) and st == "loop" and (HELD in desc(e[2][0]) or cur is not None or "phi" in desc(e[2][0])):
                if cur not in (None, "done"):
                    return Bad("a held key is lost")
                return st, "next"
            if e[0] == "assume" and st == "loop" and cur == "next" and e[1].op == "discr" and "Option" in str(e[1].a[1]) and e[2][0] == "e":
                return (st, "have") if e[2][1] == frozenset((1,)) else ("idle", "over")
            if e[0] == "call" and re.search(taker_rx, e[1]):
                cnt[1] += 1
                ps = [elem_of(x) for x in e[2][1:5]]
                if cur != "have":
                    return Bad("a key is offered that was not held, or twice")
                if len({x for x, _ in ps}) != 1 or [y for _, y in ps] != ["0", "1", "2", "3"]:
                    return Bad("a held key is offered with parts %s" % [y for _, y in ps])
                return st, "done"
            return q

        def end(q, node):
            if q[0] in ("taken", "loop") and q[1] != "over":
                return Bad("held keys are lost")
            return None
        c.auto("held", tail(fn), g, ("idle", None), step, end=end)
        c.floor("times the held keys are taken", cnt[0], 1)
        c.floor("times a held key is offered again", cnt[1], 1)
    c.floor("functions that offer held keys again", len(peekers), 1)

    # ---- participants
    m = 0
    lib = [x for x in F.fns if x.startswith("ringrtc::core::group_call::") and re.search(r"Client::set_peek_result_inner(::\{closure|$)", x)]
    for fn in sorted(lib):
        if not re.search(r"RemoteDeviceState", F.ts(F.fns[fn].l[0][0] if isinstance(F.fns[fn].l[0], (list, tuple)) else F.fns[fn].l[0])):
            continue
        for p in gsteps(c, fn, closures=False):
            if p.kind != "ret":
                continue
            r = core(p.ret, True)
            t = desc(r)
            b = Before(F, p, len(p.ev))
            if t in ("Option::None",) or r.op == "agg" and str(r.a[2]) == "None":
                continue
            if r.op == "agg" and str(r.a[1]).endswith("RemoteDeviceState"):
                m += 1
                did, uid = desc(core(agg_field(r, "demux_id"), True)), desc(core(agg_field(r, "user_id"), True))
                good = did.endswith(".demux_id") and (uid == did[:-len("demux_id")] + "user_id" or re.fullmatch(r"arg\d+", uid))
                c.ob("participant", "new", bool(good), "a participant is entered with demux id %s and user id %s" % (did, uid))
                c.ob("participant", "no key yet", desc(agg_field(r, "media_keys_received")) in ("0", "False"), "a new participant is said to have sent a key")
            elif "HashMap::" in t or "remove(" in t or "get(" in t:
                m += 1
                good = any(o and t + ".user_id" in (x, y) for x, y, o in b.eqs())
                c.ob("participant", "kept", good, "a participant's entry is kept without comparing its user id")
            elif "(" in t and not t.startswith("Option::"):
                pass
    c.floor("ways to make a participant's entry", m, 2)
    new = set(x for x in F.fns if re.search(r"RemoteDeviceState::new$", x))
    for fld in ("demux_id", "user_id"):
        for fn, kind, rv, ln in field_writes(F, "RemoteDeviceState", fld):
            if "core::group_call" in fn and not F.fns[fn].derived:
                c.ob("participant", "%s in %s" % (fld, tail(fn)), fn.split("::{closure")[0] in new | {x.split("::{closure")[0] for x in lib}, "%s changes a participant's %s" % (short(fn), fld))

    # ---- nowhere else
    ok = takers | {x.split("::{closure")[0] for x in peekers}
    for fn in sorted(raw_mentions(F, "State", HELD)):
        root = fn.split("::{closure")[0]
        c.ob("nowhere else", "held in %s" % tail(root), root in ok or only_called_from(F, root, ok) or fn in {x[0] for x in field_writes(F, "State", HELD) if x[1] == "agg"} or re.search(r"Client::(start|new)$", root), "%s touches the held keys" % short(root))
    for fn, kind, rv, ln in field_writes(F, "RemoteDeviceState", "media_keys_received"):
        root = fn.split("::{closure")[0]
        c.ob("nowhere else", "marked in %s" % tail(root), root in takers | new or F.fns[fn].derived or root in {x.split("::{closure")[0] for x in lib}, "%s marks a participant as having sent a key" % short(root))
    return "strong", "every path that takes in, holds, offers again or marks a received key; every way to make or keep a participant's entry; every caller"


def mentioned(F, fn):
    return {HELD} if fn in raw_mentions(F, "State", HELD) else set()
