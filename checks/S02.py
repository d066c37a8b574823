"""S02: callbacks of the media engine never block on it, and no thread of the library waits for itself"""
from lock_lib import *
from facts import tail

TECHNIQUE = "interprocedural effect analysis over MIR (waits, locks and engine calls reachable from every foreign callback, locks alive across calls into the engine) and a waits-for relation between the library's threads"
NOTE = "The audio device module's functions do the engine's work on its own thread and are not observers; only its bounded wait is checked."

# test support: waits for the queues to run empty, only asked for by CallManager::synchronize
SYNC = re.compile(r"::(handle_synchronize|sync_thread)$")
IDLE = re.compile(r"EventStream::recv$")


def lockname(l):
    return "static " + re.sub(r"\w+::", "", l[1]) if l[0] == "type" else "%s.%s" % l


def check(c):
    F = c.F
    L = Locks(F, skip=lambda n: not re.search(r"\b(ringrtc|mrp|call_sim)\b", n) or bool(SYNC.search(n)))
    acq = L.summaries()
    c.rule("wait", "A callback of the media engine never waits for another thread: no sleep, join, condition variable, blocking receive or bounded send is reachable from it.")
    c.rule("lock", "A callback of the media engine takes no lock that some thread holds while it calls into the engine or waits for its answer.")
    c.rule("threads", "No thread of a call waits, directly or through others, for its own work: who waits for whom has no cycle, and the engine's threads wait for nobody.")
    c.rule("bounded", "The audio device's functions wait only for a bounded time.")

    cbs = sorted(engine_callbacks(F))
    c.floor("wait", len(cbs), 12)

    # locks alive across the engine
    calls = {}
    for n, f in F.fns.items():
        if L.skip(n):
            continue
        for b in f.b:
            t = b["t"]
            if t["k"] == "call" and t["f"]["k"] == "fn" and ENGINE.search(name(t["f"]["f"])):
                calls.setdefault(n, name(t["f"]["f"]))
    c.floor("lock", len(calls), 40)
    for n in calls:
        L.direct[n][("engine", calls[n])] = ("here", 0)
    L.acq = L.close({n: dict(L.direct[n]) for n in acq}, ())
    acq = L.acq
    held = {}
    for n in sorted(F.fns):
        if L.skip(n):
            continue
        c.cov["functions"].add(n)
        for h, l, line, m in L.held(n, engine=True):
            if l[0] == "engine" or l[0] == "wait" and "engine" in waited(L, l[1]):
                held.setdefault(h, (n, l, m))
    for n in cbs:
        ws = [l for l in acq.get(n, {}) if l[0] == "wait"]
        c.ob("wait", tail(n), not ws, ws and "%s, which the media engine calls on its own threads, waits for another thread (%s)" % (tail(n), " -> ".join(tail(x) for x in L.chain(n, ws[0]))))
        for l in sorted((l for l in acq.get(n, {}) if l[0] not in ("wait", "engine")), key=str):
            bad = held.get(l)
            c.ob("lock", "%s: %s" % (tail(n), lockname(l)), not bad,
                 bad and "%s, which the media engine calls on its own threads, takes %s (%s), and %s calls into the engine while it holds this lock" % (tail(n), lockname(l), " -> ".join(tail(x) for x in L.chain(n, l)), tail(bad[0])))
    c.floor("lock", len(held), 5)

    # who waits for whom
    q = {o: queued(L, {o}) for o in ("Call", "CallStateMachine", "Connection", "ConnectionStateMachine", "CallManager", "Client", "Worker")}
    for o in ("Call", "Connection"):    # the thread that runs the state machine itself
        q[o] = [n for n in q[o] if not any(l[0] == "wait" and IDLE.search(l[1]) for l in acq.get(n, {}))]
    G = {
        "call": [n for n in F.fns if owner(n) == "CallStateMachine" and "{closure" not in n],
        "call worker": list(q["CallStateMachine"]) + list(q["Call"]),
        "connection": [n for n in F.fns if owner(n) == "ConnectionStateMachine" and "{closure" not in n],
        "connection worker": list(q["ConnectionStateMachine"]) + list(q["Connection"]),
        "manager worker": list(q["CallManager"]),
        "group call": list(q["Client"]),
        "engine": cbs,
    }
    for t, least in (("call", 10), ("call worker", 4), ("connection", 10), ("connection worker", 3), ("manager worker", 2), ("group call", 10)):
        c.floor("threads", len([n for n in G[t] if not L.skip(n)]), least)
    edges = {}
    for t, ns in G.items():
        for n in ns:
            for l in acq.get(n, {}):
                if l[0] != "wait" or IDLE.search(l[1]):
                    continue
                to = waits_for(l[1])
                c.ob("threads", "%s thread: whom %s waits for" % (t, tail(l[1])), bool(to), "%s waits in %s, and whom it waits for is not known" % (tail(n), tail(l[1])))
                for u in to:
                    edges.setdefault((t, u), (n, l))
    nxt = {}
    for t, u in edges:
        nxt.setdefault(t, set()).add(u)
    for (t, u), (n, l) in sorted(edges.items()):
        seen, todo = set(), [u]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += nxt.get(x, ())
        c.ob("threads", "%s waits for %s" % (t, u), t not in seen,
             "the %s thread waits for the %s thread (%s), which in turn waits for it" % (t, u, " -> ".join(tail(x) for x in L.chain(n, l))))
    c.floor("threads", len(edges), 4)

    for n, f in sorted(F.fns.items()):
        if owner(n) == "AudioDeviceModule" and "{closure" not in n:
            for b in f.b:
                t = b["t"]
                if t["k"] == "call" and t["f"]["k"] == "fn" and WAIT.search(name(t["f"]["f"])) and re.search(r"::(new|drop)$", n) is None:
                    c.ob("bounded", "%s: %s" % (tail(n), tail(name(t["f"]["f"]))), bool(re.search(r"_timeout$|_deadline$", name(t["f"]["f"]))), "%s waits without a bound" % tail(n))
    c.floor("bounded", len([1 for r, *_ in c.obs if r == "bounded"]), 1)
    return "strong", ("%d callbacks, %d functions that call into the engine and %d locks alive across such calls or across a wait for its answer were found; "
                      "the waits-for relation between %d kinds of threads has %d edges." % (len(cbs), len(calls), len(held), len(G), len(edges)))


def waits_for(fn):
    o, m = owner(fn), fn.split("::")[-1]
    if o in ("Call", "Connection"):
        return ["call" if o == "Call" else "connection"] + (["call worker" if o == "Call" else "connection worker"] if m == "terminate" else [])
    return [WAITS[o]] if o in WAITS else []
