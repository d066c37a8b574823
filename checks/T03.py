"""T03: every HTTP request is answered exactly once, also on failure"""
from rules import *

TECHNIQUE = "path tables and lock-state automata over the MIR of the delegating HTTP client and its C entry points"
H = "ringrtc::lite::http::"
TBL = "response_callback_by_request_id"


def is_cb(e):
    return e[0] == "call" and re.search(r"::(call_once|call_mut|call)$", e[1]) and e[2]


def lock_auto(is_event, msg):
    def step(q, e):
        if e[0] == "call" and re.search(r"Mutex::(lock|try_lock)$|RwLock::(read|write)$", e[1]):
            return q | {desc(e[2][0])}
        d = released(e)
        if d is not None:
            return frozenset(x for x in q if x not in d and d not in x)
        if is_event(e):
            m = msg(q, e)
            if m:
                return Bad(m)
        return q
    return step


def check(c):
    F = c.F
    c.rule("register", "a request's callback is stored under a fresh id (the counter, which moves by one) before the request is handed to the application, with that id and the request unchanged, exactly once")
    c.rule("answer", "a response takes the callback stored under its id out of the table and calls it exactly once with exactly that response; an unknown id calls nothing")
    c.rule("unlocked", "no internal lock is held while a callback runs, and the table is not locked while the application is called")
    c.rule("table", "callbacks enter and leave the table only through these two paths")
    c.rule("c-api", "the C entry points pass on the id and the response they were given, or a failure")
    c.rule("sim", "the built-in client calls its callback exactly once however the request ends")

    # --- register
    snd = F.one("^<" + H + "DelegatingClient as " + H + "Client>::send_request$|^" + H + "DelegatingClient::send_request$")
    g = c.graph("^" + re.escape(snd) + "$")
    n = 0
    for p in paths(g):
        if p.kind != "ret":
            continue
        n += 1
        ins = [e for e in p.calls(r"HashMap::(insert|try_insert)$|Entry::(or_insert|insert_entry|or_insert_with)$|VacantEntry::insert$") if TBL in desc(e[2][0])]
        dl = p.calls(r"Delegate::send_request$")
        c.ob("register", "once", len(ins) == 1 and len(dl) == 1, "send_request stores %d callbacks and hands over %d requests" % (len(ins), len(dl)))
        if len(ins) != 1 or len(dl) != 1:
            continue
        key = ins[0][2][1] if len(ins[0][2]) > 2 else None
        kd = desc(key) if key is not None else ""
        c.ob("register", "order", p.ev.index(ins[0]) < p.ev.index(dl[0]), "the request is handed to the application before its callback is stored")
        c.ob("register", "fresh id", kd.endswith(".next_request_id") or "next_request_id" in kd, "the callback is stored under %s" % kd)
        c.ob("register", "same id", desc(dl[0][2][1]) == kd, "the application gets id %s but the callback is stored under %s" % (desc(dl[0][2][1]), kd))
        c.ob("register", "callback", desc(ins[0][2][-1]) == "arg2", "the stored callback is %s" % desc(ins[0][2][-1]))
        c.ob("register", "request", desc(dl[0][2][2]) == "arg1", "the application gets %s instead of the request" % desc(dl[0][2][2]))
        st = [e for e in p.ev if e[0] == "store" and store_path(e) and store_path(e)[-1][1] == "next_request_id"]
        nid = r"(arg0\.response_callbacks\.)?(.*\.)?next_request_id"
        ok = len(st) == 1 and re.fullmatch(r"wrapping_add\(%s,1\)|\(1\+%s\)" % (nid, nid), desc(st[0][3])) is not None
        c.ob("register", "counter moves", ok, "the request id counter becomes %s" % [desc(e[3]) for e in st])
    c.floor("register", n, 1)
    for fn, kind, rv, ln in field_writes(F, "ResponseCallbacks", "next_request_id"):
        b = fn.split("::{")[0]
        c.ob("table", "counter in " + tail(b), b.startswith("<" + H + "ResponseCallbacks as") or F_used(F, b, {snd}), "%s changes the request id counter" % fn)

    # --- answer
    rcv = F.one("^" + H + "DelegatingClient::received_response$")
    g = c.graph("^" + re.escape(rcv) + "$")
    n = k = 0
    for p in paths(g):
        if p.kind != "ret":
            continue
        n += 1
        rm = [e for e in p.calls(r"HashMap::(remove|remove_entry)$|OccupiedEntry::(remove|remove_entry)$") if TBL in desc(e[2][0])]
        c.ob("answer", "taken out", len(rm) == 1 and (len(rm[0][2]) < 2 or desc(rm[0][2][1]) == "arg1"), "the response's callback is not taken out of the table under its id")
        cbs = [e for e in p.ev if is_cb(e)]
        c.ob("answer", "at most once", len(cbs) <= 1, "a callback is called twice")
        if not rm:
            continue
        some = [optfact(e)[1] for e in p.ass if optfact(e) and optfact(e)[0].rstrip("~") == desc(rm[0][3])]
        if cbs:
            k += 1
            e = cbs[0]
            c.ob("answer", "its callback", "remove" in desc(e[2][0]) and TBL in desc(e[2][0]), "what is called is %s" % desc(e[2][0]))
            a = e[2][1]
            c.ob("answer", "its response", desc(a) in ("tuple{arg2}", "arg2"), "the callback gets %s instead of the response" % desc(a))
        else:
            c.ob("answer", "known id is answered", 0 in some, "a response for a pending request can end without calling its callback")
    c.floor("answer", n, 2)
    c.floor("answer-cb", k, 1)
    c.auto("unlocked", "callback", g, frozenset(), lock_auto(is_cb, lambda q, e: "the callback runs while %s is locked" % sorted(q) if q else None))
    g = c.graph("^" + re.escape(snd) + "$")
    c.auto("unlocked", "delegate", g, frozenset(), lock_auto(lambda e: e[0] == "call" and e[1].endswith("Delegate::send_request"),
           lambda q, e: "the application is called while the callback table is locked" if any("response_callbacks" in x for x in q) else None))

    # --- who touches the table
    n = 0
    for fn, kind, rv, ln in field_writes(F, "ResponseCallbacks", TBL):
        n += 1
        b = fn.split("::{")[0]
        c.ob("table", "in " + tail(b), b.startswith("<" + H + "ResponseCallbacks as") or F_used(F, b, {snd, rcv}), "%s changes the table of pending callbacks" % fn)
    c.floor("table", n, 2)

    # --- C entry points
    n = 0
    for nm, some in (("rtc_http_Client_received_response", True), ("rtc_http_Client_request_failed", False)):
        g = c.graph("^" + H + "ios::" + nm + "$", boundary=lambda x: x == rcv)
        for p in paths(g):
            if p.kind != "ret":
                continue
            cs = p.calls("DelegatingClient::received_response$")
            nn = [e for e in p.ass if "arg0" in desc(e[1])]
            if not cs:
                c.ob("c-api", nm + " null only", bool(nn), "%s ignores a response for a valid client" % nm)
                continue
            n += 1
            a = cs[0][2]
            c.ob("c-api", nm + " once", len(cs) == 1 and desc(a[1]) == "arg1", "%s answers request %s" % (nm, desc(a[1])))
            c.ob("c-api", nm + " kind", variant_of(a[2]) == ("Some" if some else "None"), "%s reports %s" % (nm, desc(a[2])[:80]))
            if some and payload(a[2]) is not None:
                r = payload(a[2])
                s = agg_field(r, "status")
                b = agg_field(r, "body")
                c.ob("c-api", nm + " status", s is not None and re.search(r"arg2\.status_code", desc(s)) is not None, "the status is %s" % (desc(s) if s is not None else "?"))
                c.ob("c-api", nm + " body", b is not None and re.search(r"arg2\.body", full(b)) is not None or b is not None and ("from_raw_parts" in full(b) or full(b) == "array" and any("arg2.body" in desc(e[1]) for e in p.ass)), "the body is %s" % (full(b)[:120] if b is not None else "?"))
    c.floor("c-api", n, 2)

    # --- the built-in client
    for x in F.find("^<" + H + r"sim::HttpClient as .*>::send_request$"):
        gs = c.graph("^" + re.escape(x) + "$")
        snds = [e for e in evs(gs) if callev(e, "actor::Actor(<.*>)?::send$")]
        c.ob("sim", "handed to the actor", len(snds) >= 1, "the built-in client does not hand the request to its thread")
        cls = sorted({v.a[1] for e in snds for a in e[2] for v in subvals(a) if v.op == "agg" and v.a[0] == "clo"})
        for y in cls:
            g = c.graph("^" + re.escape(y) + "$", closures=False)

            def once(q, e):
                if is_cb(e) and "Request" not in e[1]:
                    if q:
                        return Bad("the callback can run twice")
                    return 1
                if e[0] == "ret" and not q:
                    return Bad("a request can end without calling its callback")
                return q
            c.auto("sim", tail(y), g, 0, once)
    c.floor("sim", sum(1 for o in c.obs if o[0] == "sim"), 2)
    return "other", "every path of the client's two entry points, who touches the table, and which locks are held at the calls"


def F_used(F, b, allowed):
    return b in allowed or only_called_from(F, b, allowed)
