"""G10: send endorsements are stored only when verified and used only while they stand"""
from cm_lib import *

TECHNIQUE = "path tables of taking in, storing and handing out endorsements, helpers inlined (every store preceded by the verification of exactly what is stored, every set handed out preceded by the validity of its own epoch), who-may-call rule, table of the validity test (MIR)"
GC = r"core::group_call::Client::"
EC = r"core::endorsements::EndorsementsCache::"
RESP = "GroupSendEndorsementsResponse::"


def at0(p, pat):
    """the lin facts pinned to zero: the pairs of terms known equal"""
    out = set()
    for e in p.ass:
        if e[2][0] == "r" and e[2][1] == e[2][2] == 0:
            t = lin(e[1])[1]
            if len(t) == 2:
                out.add(frozenset(d(x) for x in t))
        elif e[1].op == "eq" and e[2][0] == "e" and e[2][1] == frozenset({1}):
            out.add(frozenset((d(e[1].a[0]), d(e[1].a[1]))))
    return out


def closure_does(c, v, pat):
    """a closure (or function) handed to an iterator: does every path that yields something yield a call of pat on its argument?"""
    clos = [x for x in subvals(v) if x.op == "agg" and x.a[0] == "clo"]
    if len(clos) != 1:
        return bool(re.search(pat, d(v)))
    got = False
    for p in steps(c, str(clos[0].a[1])):
        if p.kind != "ret" or ret_none(p):
            continue
        r = d(p.ret)
        if not re.search(pat, r):
            return False
        got = True
    return got


def ret_none(p):
    return p.ret is not None and d(p.ret) == "Option::None"


def before(p, i):
    q = Path()
    q.ev = p.ev[:i]
    q.ass = [e for e in q.ev if e[0] == "assume"]
    q.kind, q.ret, q.nodes = "at", None, ()
    return q


def known(q, pat, want):
    """is the discriminant of the value so described known to be want (last word)"""
    for e in reversed(q.ass):
        if e[1].op == "discr" and re.fullmatch(pat, d(e[1].a[0])):
            return e[2][0] == "e" and e[2][1] == frozenset({want})
    return False


def within(v, part):
    """does a value contain another, as the same term"""
    return any(x == part for x in subvals(v)) or any(core(x, True) == core(part, True) for x in subvals(v))


def known_v(q, v, want):
    for e in reversed(q.ass):
        if e[1].op == "discr" and core(e[1].a[0], True) == core(v, True):
            return e[2][0] == "e" and e[2][1] == frozenset({want})
    return False


def is_true(q, pat, want=1):
    for e in reversed(q.ass):
        if e[1].op != "discr" and re.fullmatch(pat, d(e[1])):
            return e[2] == ("e", frozenset({want})) or e[2][0] == "r" and e[2][1] == e[2][2] == want
    return False


def taking_in(c, f):
    F = c.F
    n = k = 0
    for p in steps(c, f, extra=(EC + r"\w+$", RESP + r"\w+"), inline=(GC + r"\w+$",), closures=False, cap=600):
        if p.kind not in ("ret",):
            continue
        stored = False
        resp = None
        for e in p.ev:
            if e[0] == "call" and e[1].endswith("zkgroup::deserialize") and "arg2.serialized" in d(e[2][0]):
                resp = d(e[3])
        for i, e in enumerate(p.ev):
            if e[0] != "call":
                continue
            if re.search(EC + "insert$", e[1]):
                n += 1
                stored = True
                q = before(p, i)
                exp, what = d(e[2][1]), d(e[2][2])
                R = re.escape(resp or "?")
                c.ob("stored", "%s: the epoch stored under" % short(f), exp == "%sexpiration(%s)" % (RESP, resp), "endorsements are stored under %s, not the expiration of the response they came in" % exp[:80])
                rc = [(j, x) for j, x in enumerate(q.ev) if x[0] == "call" and x[1].endswith("receive_with_ciphertexts")]
                ok = len(rc) == 1 and d(rc[0][1][2][0]) == resp and known_v(q, rc[0][1][3], 0)
                c.ob("stored", "%s: verified" % short(f), ok, "endorsements are stored on a path where the response they came in was not verified")
                if not ok:
                    continue
                _, ct, now, key = rc[0][1][2]
                c.ob("stored", "%s: the key it is verified with" % short(f), re.fullmatch(r"arg0\.obfuscated_resolver\.\w*public_key", d(key)) and known(q, re.escape(d(key)), 1), "the response is verified with %s, not the public key the call was given" % d(key)[:80])
                c.ob("stored", "%s: the time it is verified at" % short(f), re.search(r"^Timestamp::from_epoch_seconds\((as_secs|Duration::as_secs)\(SystemTime::duration_since\(arg1,UNIX_EPOCH\)\)\)$", d(now)), "the response is verified as of %s, not the time it was received" % d(now)[:80])
                c.ob("stored", "%s: not expired" % short(f), any(o and (o[0] == ">=" and d_in(o[1], exp) and d_in(o[2], d(now)) or o[0] == "<" and d_in(o[2], exp) and d_in(o[1], d(now))) for o in (ordfact(x) for x in q.ass)), "endorsements are stored without the response's expiration having been compared with the time it was received")
                eq = at0(q, "")
                ml = "len(arg2.member_ciphertexts)"
                c.ob("stored", "%s: every member's ciphertext is valid" % short(f), frozenset((ml, "len(%s)" % d(ct))) in eq and "arg2.member_ciphertexts" in d(ct), "the response is verified although some member's ciphertext may have been left out")
                z = [x for x in q.ev if x[0] == "call" and x[1].endswith("Iterator::zip") and within(e[2][2], x[3])]
                ids = [a for x in z for a in x[2] if not within(a, rc[0][1][3])]
                c.ob("stored", "%s: what is stored" % short(f), len(z) == 1 and len(ids) == 1 and within(e[2][2], rc[0][1][3]), "what is stored is not the verified endorsements paired with the members' ids: " + what[:100])
                for a in ids:
                    c.ob("stored", "%s: every member's id is known" % short(f), frozenset((ml, "len(%s)" % d(a))) in eq and "arg2.member_ciphertexts" in d(a), "endorsements are paired with ids although some member's id may have been left out: the pairs would shift")
                    fm = [x for x in q.ev if x[0] == "call" and re.search(r"(flat_map|filter_map|map)$", x[1]) and within(a, x[3])]
                    c.ob("stored", "%s: where ids come from" % short(f), bool(fm) and all(closure_does(c, x[2][1], r"resolve_user_id_bytes|\.member_resolver|MemberResolver::") or "resolve" in d(x[2][1]) for x in fm), "members' ids do not come from the call's member resolver")
                c.ob("stored", "%s: members" % short(f), any(x[2][0] == "r" and x[2][1] >= 1 and d(x[1]) == ml for x in q.ass) or is_true(q, r"\S*is_empty\(arg2\.member_ciphertexts\)", 0), "a response for no members is taken in")
            if e[1].endswith("EndorsementsCache::set_invalid"):
                k += 1
                c.ob("reported", "%s: which epoch a failure invalidates" % short(f), d(e[2][1]) == "%sexpiration(%s)" % (RESP, resp), "a failure invalidates the epoch %s" % d(e[2][1])[:80])
        cache = known(p, r"arg0\.group_send_endorsement_cache", 1)
        key = not known(p, r"arg0\.obfuscated_resolver\.\w*public_key", 0)
        ups = [e for e in p.ev if e[0] == "call" and e[1].endswith("handle_endorsements_update")]
        if stored:
            c.ob("stored", "%s: what is said of stored endorsements" % short(f), d(p.ret) == "%sexpiration(%s)" % (RESP, resp) and all(re.match(r"EndorsementsCache::get_\w+\(arg0\.group_send_endorsement_cache~?,", d(e[2][2])) or "Result::Ok{" in d(e[2][2]) for e in ups), "after endorsements were stored the epoch returned is %s" % d(p.ret)[:80])
        else:
            c.ob("reported", "%s: no epoch" % short(f), ret_none(p), "an epoch is returned although no endorsements were stored")
            if cache and key:
                k += 1
                c.ob("reported", "%s: a failure" % short(f), bool(ups) and all("Result::Err{" in d(e[2][2]) for e in ups), "a response is refused without a word to the application (or reported as a success)")
                if any(e[0] == "call" and e[1].endswith("receive_with_ciphertexts") for e in p.ev):
                    c.ob("reported", "%s: a failed verification invalidates its epoch" % short(f), any(e[0] == "call" and e[1].endswith("EndorsementsCache::set_invalid") for e in p.ev), "an epoch whose verification failed stays in use")
    c.floor("paths that store endorsements", n, 1)
    c.floor("paths that refuse a response", k, 4)


def d_in(s, t):
    return s == t or t in s and len(t) > 8


def cache(c):
    F = c.F
    n = 0
    f = EC + "is_valid$"
    for p in steps(c, f):
        if p.kind != "ret":
            continue
        r = d(p.ret)
        if r in ("0", "False"):
            continue
        n += 1
        got = known(p, r"HashMap::get\(arg0\.last_updated,arg1\)", 1) or is_true(p, r"HashMap::contains_key\(arg0\.last_updated,arg1\)")
        c.ob("valid", "received", got, "an epoch for which nothing was received counts as valid")
        own = is_true(p, r"HashMap::contains_key\(arg0\.invalid_markers,arg1\)", 0) or known(p, r"HashMap::get\(arg0\.invalid_markers,arg1\)", 0)
        c.ob("valid", "its own marker", own, "an epoch that was marked invalid counts as valid")
        NONE = r"HashMap::get\(arg0\.invalid_markers,Option::None\)"
        UP = r"(?:HashMap::get\(arg0\.last_updated,arg1\))"
        none = known(p, NONE, 0) or re.fullmatch(r"\(%s\.0 Lt %s\)" % (NONE, UP), r) or re.fullmatch(r"\(%s Gt %s\.0\)" % (UP, NONE), r)
        if not none:
            for e in p.ass:
                o = ordfact(e)
                if o and (o[0] == "<" and re.fullmatch(NONE + r"\.0", o[1]) and re.fullmatch(UP, o[2])):
                    none = True
        c.ob("valid", "the marker of all epochs", none, "an epoch that was not updated since everything was marked invalid counts as valid: " + r[:80])
    c.floor("ways to be valid", n, 2)
    k = 0
    for g in sorted(x for x in F.fns if re.search(EC + r"\w+$", x)):
        ty = F.ts(F.fns[g].l[0])
        if "GroupSend" not in ty:
            continue
        for p in steps(c, g, extra=(EC + "is_valid$",), cap=400):
            if p.kind != "ret" or ret_none(p):
                continue
            k += 1
            # the set it is taken from: the cache's entry at one epoch
            src = None
            for e in p.ev:
                if e[0] == "call" and re.search(r"BTreeMap(<.*>)?::(get|get_key_value)$", e[1]) and d(e[2][0]) == "arg0.endorsements":
                    src = {d(e[2][1]), d(e[3]) + ".0"}
                elif e[0] == "call" and re.search(r"(Iter(ator)?(<.*>)?::(last|next_back)|last_key_value)$", e[1]) and "arg0.endorsements" in d(e[2][0]):
                    src = {d(e[3]) + ".0", "Iter::last(arg0.endorsements).0"}
            if not src:
                c.ob("handed out", short(g) + ": source", False, "what is handed out is not a set of the cache")
                continue
            ok = any(is_true(p, r"EndorsementsCache::is_valid\(arg0~?,%s\)" % re.escape(s)) for s in src)
            c.ob("handed out", short(g) + ": validity", ok, "endorsements are handed out without the validity of their epoch having been checked")
            ret = d(p.ret)
            if "into_full_token" in ret:
                a = [e for e in p.ev if e[0] == "call" and e[1].endswith("into_full_token")]
                c.ob("handed out", short(g) + ": the token's epoch", len(a) == 1 and d(a[0][2][1]) in src, "a token is made for another epoch than the one its endorsements are of")
            else:
                ep = [d(x) for x in (agg_parts(p.ret) or [])][:1]
                c.ob("handed out", short(g) + ": the epoch said", bool(ep) and ep[0] in src, "endorsements are handed out under another epoch: " + str(ep)[:80])
            # every recipient asked for must have one
            nx = [e for e in p.ev if e[0] == "call" and re.search(r"(^|::)next$", tail(e[1])) and re.search(r"^arg\d~*$", d(e[2][0]))]
            if F.fns[g].args > 2 and not nx:
                ok = any(e[0] == "call" and re.search(r"::(collect|try_fold|try_for_each)$", e[1]) and known_v(p, e[3], 1) for e in p.ev)
                c.ob("handed out", short(g) + ": all of them", ok, "recipients without an endorsement are passed over: the rest are handed out")
            for e in nx:
                if not known_v(p, e[3], 1):
                    continue
                look = [x for x in p.ev if x[0] == "call" and re.search(r"HashMap(<.*>)?::get$", x[1]) and core(x[2][1], True) == core(e[3], True)]
                c.ob("handed out", short(g) + ": every recipient", bool(look) and all(known_v(p, x[3], 1) for x in look), "a recipient without an endorsement is passed over: the rest are handed out")
                c.ob("handed out", short(g) + ": from the checked set", all("arg0.endorsements" in d(x[2][0]) for x in look), "a recipient's endorsement comes from elsewhere")
    c.floor("ways to hand out endorsements", k, 4)
    # what the cache's own changes do
    ins = inv = 0
    for g in sorted(x for x in F.fns if re.search(EC + r"\w+$", x)):
        for p in steps(c, g, extra=(EC + "is_valid$",), cap=400):
            if p.kind != "ret":
                continue
            w = {}
            for e in p.ev:
                if e[0] == "call" and e[2] and re.search(r"(HashMap|BTreeMap)(<.*>)?::(insert|entry|remove|clear|retain|extend|get_mut|drain|append|split_off|pop_last|pop_first)$", e[1]):
                    m = d(e[2][0])
                    if m.startswith("arg0."):
                        w.setdefault(m.split("~")[0], []).append((e[1].split("::")[-1], [d(x) for x in e[2][1:]]))
            put = [x for x in w.get("arg0.endorsements", []) if x[0] not in ("remove", "retain", "pop_first")]
            if put:
                ins += 1
                up = w.get("arg0.last_updated", [])
                mk = w.get("arg0.invalid_markers", [])
                key = put[0][1][0] if put[0][1] else "?"
                c.ob("valid", short(g) + ": a new set", [(x[0], x[1][0] if x[1] else "") for x in up] == [("insert", key)] and "Instant::now" in up[0][1][1], "a set is stored without the time of its epoch's update")
                ok = sorted((x[0], x[1][0] if x[1] else "") for x in mk) == sorted([("remove", key), ("remove", "Option::None")])
                c.ob("valid", short(g) + ": a new set's markers", ok, "storing a set lifts other marks than that of its own epoch and that of all epochs")
            elif any(x[0] in ("remove", "clear", "retain") for x in w.get("arg0.invalid_markers", [])):
                gone = {x[1][0] for x in w.get("arg0.endorsements", []) if x[0] == "remove" and x[1]}
                c.ob("valid", short(g) + ": a mark lifted", all(x[0] == "remove" and x[1][0] in gone for x in w["arg0.invalid_markers"] if x[0] != "insert"), "an epoch's invalid mark is lifted while its set stays")
            elif w.get("arg0.last_updated"):
                c.ob("valid", short(g) + ": an update without a set", all(x[0] == "remove" for x in w["arg0.last_updated"]), "an epoch counts as updated without a new set")
            for x in w.get("arg0.invalid_markers", []):
                if x[0] == "insert":
                    inv += 1
                    c.ob("valid", short(g) + ": marking", x[1][0] == "arg1" and "Instant::now" in x[1][1], "the mark put in is of another epoch or time than asked for")
    c.floor("ways to store a set", ins, 1)
    c.floor("ways to mark an epoch invalid", inv, 1)


def agg_parts(v):
    v = core(v, True)
    if v.op == "agg" and v.a[0] == "tuple":
        return v.a[5]
    for x in subvals(v):
        if x.op == "agg" and x.a[0] == "tuple" and len(x.a[5]) == 2:
            return x.a[5]
    return None


def sending(c):
    F = c.F
    n = k = 0
    fs = set()
    for fn, bi, ref, t in call_sites(F, EC + r"get_endorsements_for_users$"):
        fs.add(fn.split("::{closure")[0])
    for fn in F.fns:
        if re.search(r"core::group_call::", fn) and "send_signaling_message_to_adhoc_group" in str(F.fns[fn].b) and "Observer" in str(F.fns[fn].b):
            fs.add(fn.split("::{closure")[0])
    c.floor("functions that send with endorsements", len(fs), 1)
    for f in sorted(fs):
        for p in steps(c, f, extra=(EC + r"\w+$",), cap=600):
            for i, e in enumerate(p.ev):
                if e[0] != "call":
                    continue
                if e[1].endswith("Observer::send_signaling_message_to_adhoc_group"):
                    n += 1
                    q = before(p, i)
                    g = [x for x in q.ev if x[0] == "call" and x[1].endswith("EndorsementsCache::get_endorsements_for_users")]
                    ok = len(g) == 1 and known_v(q, g[0][3], 1)
                    c.ob("sending", short(f) + ": handed out", ok, "a message is sent with endorsements the cache did not hand out")
                    if ok:
                        c.ob("sending", short(f) + ": epoch and endorsements", within(e[2][3], g[0][3]) and "epoch_seconds" in d(e[2][3]) and within(e[2][4], g[0][3]), "a message's expiration and endorsements are not those handed out together")
                        c.ob("sending", short(f) + ": the epoch asked for", re.fullmatch(r"arg\d", d(g[0][2][1])), "endorsements are asked for of another epoch than the update's: " + d(g[0][2][1])[:60])
            if p.kind == "ret":
                g = [x for x in p.ev if x[0] == "call" and x[1].endswith("EndorsementsCache::get_endorsements_for_users")]
                if g and known_v(p, g[0][3], 0):
                    k += 1
                    c.ob("sending", short(f) + ": without endorsements", not any(x[0] == "call" and x[1].endswith("to_adhoc_group") for x in p.ev), "a message goes out with endorsements although there are none for its recipients")
    c.floor("sends with endorsements", n, 1)
    c.floor("sends without", k, 1)


def check(c):
    F = c.F
    c.rule("stored", "a set is stored only on paths where the response parsed, is for at least one member, had not expired when received, every member's ciphertext and id resolved, and it verified as of that time under the call's endorsement key; stored is exactly its endorsements paired with the members' ids, under its expiration, which alone is returned")
    c.rule("reported", "a response that is refused is reported as an error and yields no epoch; one that fails on its members or verification marks its own epoch invalid, and no other")
    c.rule("valid", "an epoch is valid only if something was received for it, it has no mark of its own and was updated after everything was marked; storing a set, and nothing else, updates its epoch and lifts its mark and that of all epochs")
    c.rule("handed out", "the cache hands out endorsements and tokens only of an epoch found valid, under that epoch, and only if every recipient asked for has one")
    c.rule("sending", "messages with endorsements carry the epoch and endorsements handed out together; without them the recipients get ordinary messages")
    f = F.one(GC + r"handle_send_endorsements_response_inner$")
    ins = F.one(EC + "insert$")
    bad = set()
    todo, seen = [ins], {ins}
    callers = F.callers()
    while todo:
        x = todo.pop()
        for y in callers.get(x, ()):
            y = y if isinstance(y, str) else y[0]
            if y == f or y in seen:
                continue
            seen.add(y)
            cs = callers.get(y, ())
            if not cs or "{closure" in y and y.split("::{closure")[0] != f:
                bad.add(y)
            todo.append(y)
    c.ob("stored", "who stores", not bad, "endorsements are stored from elsewhere: %s" % sorted(short(b) for b in bad)[:3])
    taking_in(c, f)
    cache(c)
    sending(c)
    c.cov["functions"] = sorted(x for x in F.fns if re.search(EC, x))
    return "strong", "every path that takes in, stores, marks, hands out or sends endorsements"
