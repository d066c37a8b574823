"""G03: frame-key ratchets are one-way and receive-key memory is bounded"""
from crypto_lib import *

TECHNIQUE = "static analysis: per-path terms for every derived key over MIR, automata for the ratchet loops, bounds on the retained states"

RATCHET = "'RingRTC Ratchet'"


def secret_of(v):
    return key_label(v)


def check(c):
    F = c.F
    c.rule("derive", "whenever a sender state is built or advanced, its cipher key and MAC key are derived from its current secret under different labels, both different from the ratchet label")
    c.rule("ratchet", "one step replaces the secret by the output of the derivation under the ratchet label from the old one and moves the counter by exactly one")
    c.rule("loop", "ratcheting ahead derives once per counter step until the counter equals the wanted one")
    c.rule("bound", "a receive key is added in front only when fewer than the maximum are kept, the last one being dropped first")
    c.rule("retain", "the old secret kept with a receive state is ratcheted up to a fixed distance behind before the state is stored")
    c.rule("writers", "keys, secrets and counters are written nowhere else")

    # ---- derive: constructor and one step
    labels = {}
    SS = X + "SenderState"
    makers = set()
    n = 0
    # every non-derived function of crypto that returns or mutates a sender state and is not itself only a part of one
    roots = [F.one("^" + SS + "::new$"), F.one("^" + SS + "::mut_advance_ratchet$")]
    for fn in roots:
        g = c.graph(fn, bytes=True)
        for p in paths(g):
            if p.kind != "ret":
                continue
            n += 1
            if fn.endswith("::new"):
                st = {k: agg_field(p.ret, k) for k in ("current_aes_key", "current_hmac_key", "current_secret", "ratchet_counter")}
                c.ob("derive", "new secret", st["current_secret"] is not None and desc(st["current_secret"]) == "arg1" and desc(st["ratchet_counter"]) == "arg0", "a new sender state does not start with the given secret and counter")
                sec = st["current_secret"]
            else:
                st = final_fields(p, "SenderState")
                sec = st.get("current_secret")
                kl = key_label(sec) if sec is not None else None
                c.ob("ratchet", "step", kl is not None and kl[1] == RATCHET and desc(kl[0]) == "arg0.current_secret", "advancing sets the secret to %s" % (full(sec)[:160] if sec is not None else "nothing"))
                ctr = st.get("ratchet_counter")
                c.ob("ratchet", "counter", ctr is not None and desc(ctr) in ("wrapping_add(arg0.ratchet_counter,1)",), "advancing sets the counter to %s" % (desc(ctr) if ctr is not None else "nothing"))
            for k in ("current_aes_key", "current_hmac_key"):
                kl = key_label(st[k]) if st.get(k) is not None else None
                good = kl is not None and sec is not None and same_term(kl[0], sec)
                c.ob("derive", "%s %s" % (tail(fn), k), good, "%s leaves %s as %s, not derived from the current secret" % (tail(fn), k, full(st[k])[:160] if st.get(k) is not None else "before"))
                if kl:
                    labels.setdefault(k, set()).add(kl[1])
    c.floor("derive", n, 2)
    la, lh = labels.get("current_aes_key", set()), labels.get("current_hmac_key", set())
    c.ob("derive", "labels", len(la) == len(lh) == 1 and la != lh and RATCHET not in la | lh, "key labels are not distinct: %s %s" % (sorted(la), sorted(lh)))

    # ---- writers
    allowed = {SS + "::new", SS + "::mut_advance_ratchet"}
    n = 0
    for fld in ("current_aes_key", "current_hmac_key", "current_secret", "ratchet_counter"):
        for fn, kind, rv, ln in field_writes(F, "SenderState", fld):
            if "core::crypto" not in fn:
                continue
            n += 1
            b = fn.split("::{")[0]
            ok = b in allowed or only_called_from(F, b, allowed) or fn.startswith("<" + X) and F.fns[fn].derived
            c.ob("writers", "%s in %s" % (fld, tail(fn)), ok, "%s writes SenderState.%s" % (fn, fld))
    c.floor("writers", n, 5)

    # ---- trying a state further ahead
    g = c.graph("^" + X + "ReceiverState::try_advance_ratchet$", widen=1, bytes=True)

    def loop(q, e):
        owed, stepped, eq = q
        if e[0] == "call" and e[1].endswith("::expand") and desc(e[2][1]) == RATCHET:
            if owed:
                return Bad("two derivations for one counter step")
            hk = unwrap(e[2][0])
            if not (calls_of(hk, "new") and same_term(hk.a[3][1], e[2][2])):
                return Bad("the next secret is not derived from the one before")
            return (True, stepped, False)
        if e[0] in ("call", "mcall") and e[1].endswith("::wrapping_add") and "ratchet_frame" not in desc(e[2][0]):
            if not (e[2][1].op == "k" and e[2][1].a[0] == 1):
                return Bad("the counter moves by %s for one derivation" % desc(e[2][1]))
            if not owed:
                return Bad("the counter moves without a derivation")
            return (False, True, eq)
        if e[0] == "assume":
            cst, ts = lin(e[1]) if e[2][0] == "r" else (0, {})
            ds = [desc(t) for t in ts]
            if "arg1" in ds and len(ds) == 2 and e[2][1] == e[2][2] == cst:
                return (owed, stepped, True)
        if e[0] == "ret":
            if owed:
                return Bad("a derivation is not counted")
            if not eq:
                return Bad("ratcheting stops although the counter is not known to be the wanted one")
            ss = agg_field(e[1], "sender_state")
            rc = agg_field(ss, "ratchet_counter") if ss is not None else None
            if rc is None or desc(rc) not in ("arg1",):
                return Bad("the advanced state's counter is %s" % (desc(rc) if rc is not None else "unknown"))
            kl = key_label(agg_field(ss, "current_aes_key"))
            if kl is None or not same_term(kl[0], agg_field(ss, "current_secret")):
                return Bad("the advanced state's keys do not belong to its secret")
            os, oc = agg_field(e[1], "old_secret"), agg_field(e[1], "old_ratchet_counter")
            if os is None or oc is None:
                return Bad("the advanced state has no old secret")
            pair = (desc(os), desc(oc))
            if pair not in (("arg0.sender_state.current_secret", "arg0.sender_state.ratchet_counter"), ("arg0.old_secret", "arg0.old_ratchet_counter")):
                return Bad("the retained old secret and its counter do not belong together: %s" % (pair,))
        return (owed, stepped, eq)
    c.auto("loop", "try_advance_ratchet", g, (False, False, False), loop)
    # the secret and counter a search starts from belong together
    k = 0
    for nd in g.nodes:
        for e in nd.ev:
            if e[0] == "call" and e[1].endswith("::expand") and desc(e[2][1]) == RATCHET:
                k += 1
    c.floor("loop", k, 1)

    # ---- what decrypt stores is limited
    g = c.graph("^" + X + "Context::decrypt$", widen=1, bytes=True)
    seen = [0, set()]

    def lim(q, e):
        if e[0] == "assume" and e[2][0] == "r":
            cst, ts = lin(e[1])
            if len(ts) == 1:
                x = next(iter(ts))
                if x.op == "pure" and x.a[0] == "wrapping_sub" and e[2][2] < 256:
                    return (strip(x.a[1][0]), x.a[1][1], e[2][2] - cst)
        if e[0] == "store":
            root = e[1]
            v = e[3]
            if root[0] == "H" and mentions_field(root[1], "Context", "remote_states_by_id") and v.op == "agg" and short(v.a[1] or "") == "ReceiverState":
                seen[0] += 1
                ss, oc = agg_field(v, "sender_state"), agg_field(v, "old_ratchet_counter")
                rc = agg_field(ss, "ratchet_counter")
                if q is None or not (strip(rc) is q[0] and same_term(oc, q[1])):
                    return Bad("a receive state is stored without limiting how old a secret it keeps")
                if q[2] > 5:
                    return Bad("a stored receive state keeps a secret %s steps old" % q[2])
                seen[1].add(q[2])
        return q
    c.auto("retain", "decrypt", g, None, lim)
    c.floor("retain", seen[0], 1)
    # ratcheting the old secret forward: one derivation per counter step (loops of limit_ooo)
    lims = [fn for fn, kind, rv, ln in field_writes(F, "ReceiverState", "old_ratchet_counter") if kind == "set"]
    for fn in sorted(set(lims)):
        gl = c.graph("^" + re.escape(fn) + "$", widen=1, bytes=True)

        def old(q, e):
            if e[0] == "call" and e[1].endswith("::expand") and mentions_field(e[2][2], "ReceiverState", "old_secret"):
                if desc(e[2][1]) != RATCHET:
                    return Bad("the old secret is derived under label %s" % desc(e[2][1]))
                hk = unwrap(e[2][0])
                if not (calls_of(hk, "new") and same_term(hk.a[3][1], e[2][2])):
                    return Bad("the old secret is not derived from itself")
                if q == 1:
                    return Bad("two derivations of the old secret for one counter step")
                return 1
            if e[0] == "store" and store_path(e) and store_path(e)[-1] == ("ReceiverState", "old_ratchet_counter"):
                v = e[3]
                if not (v.op == "pure" and v.a[0] == "wrapping_add" and v.a[1][1].op == "k" and v.a[1][1].a[0] == 1):
                    return Bad("the old counter becomes %s" % desc(v))
                if q != 1:
                    return Bad("the old counter moves without deriving the old secret")
                return 0
            if e[0] == "ret" and q == 1:
                return Bad("the old secret is derived without moving its counter")
            return q
        c.auto("retain", tail(fn), gl, 0, old)

    # ---- bound
    n = 0
    for fn in sorted({s[0] for s in call_sites(F, "^" + X + "ReceiverState::new$")}):
        g = c.graph("^" + re.escape(fn) + "$", bytes=True)
        for p in paths(g):
            if p.kind != "ret":
                continue
            adds = [e for e in p.calls(r"Vec::(insert|push|extend|append|splice)$|VecDeque::(push_front|push_back|insert)$") if mentions_field(e[2][0], "Context", "remote_states_by_id")]
            if not adds:
                continue
            n += 1
            e = adds[0]
            c.ob("bound", "in front", len(adds) == 1 and (e[1].endswith("::insert") and desc(e[2][1]) == "0" or e[1].endswith("push_front")), "a new receive key is not put in front of the older ones")
            i = p.ev.index(e)
            drops = [x for x in p.calls(r"::(pop|pop_back|truncate|clear|drain)$") if p.ev.index(x) < i and mentions_field(x[2][0], "Context", "remote_states_by_id")]
            late = [x for x in p.calls(r"::truncate$") if p.ev.index(x) > i and mentions_field(x[2][0], "Context", "remote_states_by_id") and x[2][1].op == "k" and x[2][1].a[0] <= 5]
            lim_ok = bool(late)
            for x in p.ass:
                if x[2][0] == "r":
                    cst, ts = lin(x[1])
                    if len(ts) == 1 and next(iter(ts)).op == "len" and mentions_field(next(iter(ts)), "Context", "remote_states_by_id"):
                        lo, hi, ne = x[2][1] - cst, x[2][2] - cst, {z - cst for z in x[2][3]}
                        # by induction at most 5 are there before
                        if hi <= 4 or 5 in ne:
                            lim_ok = True
                        elif drops and lo <= 5:
                            lim_ok = True
            trunc = [x for x in drops if x[1].endswith("truncate") and x[2][1].op == "k" and x[2][1].a[0] <= 4]
            c.ob("bound", "at most five", lim_ok or bool(trunc) or bool(drops) and any(x[1].endswith("pop") or x[1].endswith("pop_back") for x in drops), "a receive key is added without dropping the oldest one when five are kept")
            v = e[2][-1]
            sec = agg_field(agg_field(v, "sender_state"), "current_secret") if v.op == "agg" else None
            c.ob("bound", "the given secret", sec is not None and desc(sec) == "arg3" and desc(agg_field(v, "old_secret")) == "arg3" and desc(agg_field(v, "old_ratchet_counter")) == "arg2", "the new receive key is not the one given")
    c.floor("bound", n, 2)
    for fn, bi, ref, t in call_sites(F, r"alloc::vec::Vec::(push|insert|extend|append|extend_from_slice|resize)$"):
        if fn.startswith(X) and any("ReceiverState" in F.tys[x]["s"] for x in (ref.get("rga") or ref["ga"])):
            b = fn.split("::{")[0]
            adders = {X + "Context::add_receive_secret"}
            c.ob("bound", "adds in " + tail(fn), b in adders or only_called_from(F, b, adders), "%s adds receive keys" % fn)
    return "other", "key terms on every path of the constructors, ratchet loops as automata, bound of the retained receive keys by induction"


def same_term(a, b):
    """equal up to the position of the change inside a place"""
    if a is b or strip_ptr(a) is strip_ptr(b):
        return True
    return full(a) == full(b) and "phi" not in full(a) and ".." not in full(a)


def strip_ptr(v):
    while v.op in ("*", "gp", "cast", "box"):
        v = v.a[0] if v.op != "cast" else v.a[1]
    return v


def final_fields(p, owner):
    """last value of every field of *arg0: from stores and from in-place changes by calls"""
    out = {}
    for e in p.ev:
        if e[0] == "store":
            sp = store_path(e)
            if sp and sp[-1][0] == owner:
                out[sp[-1][1]] = e[3]
        if e[0] == "call" and e[1].endswith("::expand"):
            v = e[2][2]
            b = v
            s = strip(v)
            if s.op == "f" and short(s.a[2]) == owner:
                out[s.a[1]] = mk("mut", -2, id(e) % 10**9, b, (e[1], e[2]))
    return out
