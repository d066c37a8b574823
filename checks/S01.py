"""S01: the library cannot deadlock itself: no relock, no lock-order cycle, no waiting for a thread that needs a held lock"""
from lock_lib import *
from facts import tail

TECHNIQUE = "interprocedural lock-set dataflow over MIR (which guard is alive at each call, which locks each call takes), lock-order graph with serialised worker code taken out, and a waits-for relation between threads"
NOTE = "Locks are identified by the type and field they live in, not by instance."

# What a function takes does not count under this lock, with the reason.
FRESH = [
    (("CallManager", "busy"), r"core::call::Call<.*>::handle_received_offer$|core::call::Call::handle_received_offer$", "the call was created a few lines above and no other thread knows it yet"),
    (("CallManager", "active_call_id"), r"core::call::Call(<.*>)?::handle_received_offer$", "as above"),
    (("CallManager", "call_by_call_id"), r"core::call::Call(<.*>)?::handle_received_offer$", "as above"),
    (("Connection", "webrtc"), r"core::call::Call(<.*>)?::connect_incoming_media$", "media is connected once, after the only incoming media of the connection was created"),
]


def build(c):
    F = c.F
    L = Locks(F, skip=lambda n: not re.search(r"\b(ringrtc|mrp|call_sim)\b", n))
    L.summaries()
    for h, pat, why in FRESH:
        L.excuse(h, pat)
    return L


def nm(l):
    if l[0] == "type":
        return "static " + re.sub(r"\w+::", "", l[1])
    return "%s.%s" % l


def check(c):
    F = c.F
    L = build(c)
    W, roots, spawn = L.worker_only(r"CallStateMachine(<.*>)?::\w+$", "CallStateMachine", "worker_thread")
    c.rule("relock", "No function takes a lock, itself or through anything that runs during its calls, while a guard of that same lock is alive.")
    c.rule("order", "The relation 'taken while held' between locks has no cycle. Two steps of a cycle that meet in a lock of a call and both run only on that call's worker thread cannot happen at the same time and are not counted.")
    c.rule("wait", "Whoever waits for another thread (its end, its answer) holds no lock that this thread's work takes.")
    c.rule("worker", "Everything queued for a call's worker thread runs there and nowhere else: the closures handed to it are the ones found.")
    E, waits = {}, {}
    fns = 0
    for n in sorted(F.fns):
        if L.skip(n):
            continue
        fns += 1
        c.cov["functions"].add(n)
        for h, l, line, m in L.held(n):
            (waits if l[0] == "wait" else E).setdefault((h, l), []).append((n, line, m))
    c.cov["call_sites"] += L.sites + L.waits
    c.floor("worker", len(roots), 6)
    c.ob("worker", "spawners found", bool(spawn), "no function that hands work to the call's worker was found")

    for h in sorted({l for l in L.taken()} | {h for h, _ in E}, key=str):
        at = E.get((h, h), [])
        c.ob("relock", nm(h), not at, at and "%s takes %s while it holds it%s" % (tail(at[0][0]), nm(h), how(L, at[0][2], h)))
    c.floor("relock", len(L.taken()), 30)

    serial = {e: all(n in W for n, _, _ in s) for e, s in E.items()}
    order = [e for e in E if e[0] != e[1]]
    by = {}
    for e in order:
        by.setdefault(e[0], []).append(e)
    nxt = {e: [f for f in by.get(e[1], ()) if not (e[1][0] == "Call" and serial[e] and serial[f])] for e in order}
    bad = {}
    for e in order:
        prev, todo = {}, [e]
        while todo and e not in prev:
            x = todo.pop(0)
            for f in nxt[x]:
                if f not in prev:
                    prev[f] = x
                    todo.append(f)
        if e in prev:
            x, cyc = prev[e], [e]
            while x != e:
                cyc.append(x)
                x = prev[x]
            bad[e] = [cyc[0]] + cyc[:0:-1]
    least = min((len(x) for x in bad.values()), default=0)
    bad = {e: x for e, x in bad.items() if len(x) == least}
    for e in sorted(order, key=str):
        cyc = bad.get(e)
        msg = ""
        if cyc:
            msg = "lock order cycle: " + "; ".join("%s takes %s while it holds %s%s" % (tail(E[x][0][0]), nm(x[1]), nm(x[0]), how(L, E[x][0][2], x[1])) for x in cyc)
        c.ob("order", "%s before %s" % (nm(e[0]), nm(e[1])), not cyc, msg)
    c.floor("order", len(order), 60)

    T = threads(L)
    for (h, w), at in sorted(waits.items(), key=str):
        who = waited(L, w[1])
        for t in who:
            need = T[t] if t in T else {}
            c.ob("wait", "%s while waiting in %s" % (nm(h), tail(w[1])), h not in need,
                 h in need and "%s waits in %s while it holds %s, which %s takes on the thread it waits for" % (tail(at[0][0]), tail(w[1]), nm(h), tail(need[h])))
        c.ob("wait", "%s: known wait under %s" % (tail(w[1]), nm(h)), bool(who), "a wait in %s happens under %s in %s, and whom it waits for is not known" % (tail(w[1]), nm(h), tail(at[0][0])))
    c.floor("wait", len(waits), 8)
    return "strong", ("%d functions and %d lock acquisitions were analysed; %d locks, %d ordered pairs of locks and %d waits made under a lock were found. "
                      "Locks are told apart by the structure and field they live in; two instances of the same lock count as the same, which can only add cycles." % (fns, L.sites, len(L.taken()), len(order), len(waits)))


def how(L, m, l):
    if not m:
        return ""
    return " (through %s)" % " -> ".join(tail(x) for x in L.chain(m, l))
