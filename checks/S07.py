"""S07: actor tasks run one at a time, in order, never after stop; stopping terminates"""
from rules import *

TECHNIQUE = "typestate automata over the control-flow graph of the actor thread, its senders and its stopper (MIR dataflow)"
A = "ringrtc::common::actor::"


def is_run(e):
    """a task's boxed function is called"""
    if e[0] == "call" and re.search(r"::(call_once|call_mut|call)$", e[1]) and e[2]:
        return is_field(strip(e[2][0]), "Task", "run") or mentions_field(e[2][0], "Task", "run")
    return False


def check(c):
    F = c.F
    c.rule("thread", "one thread per actor is started and tasks are only called from its loop")
    c.rule("loop", "the loop calls a task only after it read the stop flag as not set since taking that task, calls nothing after it read it as set, calls only tasks without a deadline or tasks whose deadline it waited for, and keeps every delayed task in the queue")
    c.rule("wait", "a delayed task is taken out of the queue only when waiting for the time left until its own deadline ended without a message, and the loop waits without limit only while the queue is empty")
    c.rule("order", "delayed tasks are queued with the earliest deadline first")
    c.rule("task", "an immediate task has no deadline, a delayed one the time of sending plus the delay, each with the given function")
    c.rule("send", "sending puts exactly the given task in the channel and ignores a closed one")
    c.rule("stop", "stopping sets the actor's flag and then wakes its loop with a message")
    c.rule("stop-all", "stopping takes every registered actor, stops each with its own flag, releases the registry and then joins each thread")
    c.rule("register", "the thread is registered with the flag and the channel its loop uses")

    # --- start: spawn, register
    start = F.one("^" + A + r"Actor(<State>)?::start$")
    g = c.graph("^" + re.escape(start) + "$", boundary=lambda x: x.startswith(start + "::{closure"), closures=False)
    body = None
    n = 0
    spawns = []
    for p in paths(g):
        if p.kind != "ret":
            continue
        sp = p.calls(r"thread::(\w+::)?Builder::spawn$|thread::(\w+::)?spawn$|Builder::spawn_scoped$")
        c.ob("thread", "one spawn", len(sp) <= 1, "an actor starts more than one thread")
        rg = p.calls("register_actor$|Vec::push$")
        if sp:
            cl = [v for v in sp[0][2] if v.op == "agg" and v.a[0] == "clo"]
            if cl:
                body = cl[0]
                spawns.append(sp[0])
        if ok_ret(p.ret) is True:
            n += 1
            pushes = p.calls("Vec::push$")
            c.ob("register", "before returning", bool(pushes) and bool(sp), "start returns an actor that is not registered with its stopper")
            for e in pushes:
                h = e[2][1]
                fl = agg_field(h, "stopped")
                caps = [desc(x) for x in body.a[5]] if body is not None else []
                c.ob("register", "same flag", fl is not None and desc(fl) in caps and any(strip(fl) is strip(x) for x in body.a[5]), "the registered stop flag is not the one the thread reads")
                ac = agg_field(h, "actor")
                snd = desc(ac) if ac is not None else ""
                c.ob("register", "same channel", "mpsc::channel().0" in snd and any("mpsc::channel().1" in x for x in caps), "the registered actor does not send to the thread's channel")
                jh = agg_field(h, "join_handle")
                c.ob("register", "same thread", jh is not None and "spawn(" in desc(jh), "the registered join handle is not the spawned thread's")
    c.floor("register", n, 1)
    if body is None:
        raise Missing("the closure given to thread spawn in %s" % start)

    # --- who calls tasks
    n = 0
    for fn, f in F.fns.items():
        if not fn.startswith(A):
            continue
        for b in f.b:
            t = b["t"]
            if t["k"] == "call" and t["f"]["k"] == "fn" and re.search(r"::(call_once|call_mut|call)$", t["f"]["f"]["fn"]) and t["a"] and "(&mut State)" in F.ts(F_opty(F, f, t["a"][0])):
                n += 1
                ok = fn == body.a[1] or fn.startswith(A + "Task") or only_called_from(F, fn, {body.a[1].split("::{closure")[0]})
                c.ob("thread", "calls in " + tail(fn), ok, "%s calls a task outside the actor's loop" % fn)
    c.floor("thread", n, 1)

    # --- the loop
    g = c.graph("^" + re.escape(body.a[1]) + "$", widen=1)
    STOPFLAG = [i for i, x in enumerate(body.a[5]) if "Atomic" in desc(x)]
    flagd = {"arg0.%d" % i for i in STOPFLAG}
    cnt = [0, 0, 0]

    def loop(q, e):
        # q: (have, flag): have None / 'msg' / 'late' (waited for) ; flag None/0/1 since the task was taken; task form: 'd' delayed 'i' immediate
        have, flag, form, wait = q
        if e[0] == "call":
            if re.search(r"Receiver::(recv|recv_timeout|try_recv|iter)$", e[1]) or e[1].endswith("recv_deadline"):
                if have is not None:
                    return Bad("a task that was received is neither run nor kept")
                w = "forever"
                if e[1].endswith("recv_timeout"):
                    w = desc(e[2][1])
                return (None, None, None, w)
            if e[1].endswith("BinaryHeap::pop"):
                cnt[1] += 1
                if have is not None:
                    return Bad("a task that was received is dropped")
                if not wait or wait == "forever":
                    return Bad("a delayed task is taken without waiting for its deadline")
                return ("late", None, None, wait)
            if e[1].endswith("BinaryHeap::push"):
                cnt[2] += 1
                if have != "msg" or form == "i":
                    return Bad("a task that is not a delayed one just received is queued")
                return (None, None, None, wait)
            if is_run(e):
                cnt[0] += 1
                if flag != 0:
                    return Bad("a task is run although the stop flag was not read as unset since it was taken")
                if have == "msg" and form != "i":
                    return Bad("a delayed task is run as soon as it was received")
                if have is None:
                    return Bad("something that was not received is run")
                return (None, None, None, wait)
        if e[0] == "assume":
            d, vals = assumed(e)
            if d in flagd:
                return (have, 0 if vals == frozenset((0,)) else 1, form, wait)
            o = optfact(e)
            if o:
                if o[0].startswith("BinaryHeap::pop(") and o[0].endswith(")") and o[1] == 0:
                    return (None, None, None, wait)
                if re.match(r"(\w+::)?Receiver::recv", o[0]) or o[0].startswith("Receiver::recv"):
                    if o[0].endswith(".deadline"):
                        return (have, flag, "d" if o[1] == 1 else "i", wait)
                    if o[0].endswith(")@Err.0"):
                        # Timeout / Disconnected
                        return (have, flag, form, wait if o[1] == 0 else None)
                    if o[0].endswith(")") or o[0].endswith(")~"):
                        if o[1] == 0:
                            return ("msg", None, None, wait)
        if e[0] == "ret":
            if have is not None and flag != 1:
                return Bad("the thread ends with a received task that was not run although it was not stopped")
        if e[0] == "call" and flag == 1 and re.search("Receiver::recv", e[1]):
            return Bad("the loop goes on after reading the stop flag as set")
        return (have, flag, form, wait)
    c.auto("loop", "actor thread", g, (None, None, None, None), loop)
    c.floor("loop-run", cnt[0], 1)
    c.floor("loop-pop", cnt[1], 1)
    c.floor("loop-push", cnt[2], 1)

    # --- waiting: what is waited for
    n = 0
    bad = set()

    def waiting(q, e):
        nonlocal n
        if e[0] == "call" and e[1].endswith("BinaryHeap::peek"):
            return ("peek", None)
        o = optfact(e) if e[0] == "assume" else None
        if o and q[0] == "peek" and o[0].startswith("BinaryHeap"):
            return ("peek", o[1]) if ".deadline" not in o[0] else q
        if e[0] == "call" and e[1].endswith("Receiver::recv"):
            if q[1] != 0:
                return Bad("waits without limit although a delayed task may be queued")
            n += 1
        if e[0] == "call" and e[1].endswith("Receiver::recv_timeout"):
            a = e[2][1]
            d = desc(a)
            n += 1
            if q[1] != 1:
                return Bad("waits for a deadline without looking at the queue")
            if d in ("from_secs(0)", "Duration::ZERO"):
                return q
            if not (re.search(r"saturating_duration_since\(BinaryHeap.*\.deadline(\.0)?,Instant::now\(\)\)$", d) or re.search(r"(checked_)?duration_since\(BinaryHeap.*\.deadline", d)):
                return Bad("waits for %s, not for the time left until the first queued task's deadline" % d)
        return q
    c.auto("wait", "actor thread", g, (None, None), waiting)
    c.floor("wait", n, 2)
    # immediate form of a waited-for task keeps its function
    for e in evs(g):
        if is_run(e):
            d = desc(e[2][0])
            c.ob("loop", "runs what was taken " + ("pop" if "pop" in d else "recv"), re.search(r"(recv|recv_timeout|pop)\(.*\.run$", d) is not None, "the function called is %s" % d)

    # --- order
    cm = [x for x in F.find(r"actor::Task<?.*::cmp$|<.*actor::Task<.*> as core::cmp::Ord>::cmp$")]
    c.floor("order", len(cm), 1)
    for x in cm:
        g = c.graph("^" + re.escape(x) + "$")
        for p in paths(g):
            if p.kind == "ret":
                c.ob("order", "reversed deadlines", earliest_first(p), "the queue does not put the earliest deadline first: cmp returns %s" % desc(p.ret))
    for x in F.find(r"<.*actor::Task<.*> as core::cmp::PartialOrd>::(partial_cmp|lt|gt|le|ge)$|actor::Task.*::partial_cmp$"):
        g = c.graph("^" + re.escape(x) + "$", noinline=lambda y: y in cm)
        for p in paths(g):
            if p.kind == "ret":
                d = desc(p.ret)
                c.ob("order", "partial_cmp is cmp", re.match(r"(Option::Some\{)?(\w+::)?(Ord::|Task::)?(ord)?cmp\(arg0,arg1\)\}?$", d) is not None or earliest_first(p), "partial_cmp disagrees with cmp: %s" % d)

    # --- tasks and senders
    n = 0
    for nm, dl in (("send", None), ("send_delayed", "arg1")):
        g = c.graph("^" + A + r"Actor(<State>)?::" + nm + "$")
        for p in paths(g):
            if p.kind in ("panic", "mpanic") or any(e[0] == "mpanic" for e in p.ev):
                c.ob("send", nm + " harmless", False, "%s can panic" % nm)
                continue
            s = p.calls(r"Sender::send$")
            c.ob("send", nm + " once", len(s) == 1 and desc(s[0][2][0]) == "arg0.sender", "%s does not send exactly one task to the actor's channel" % nm)
            for e in s[:1]:
                n += 1
                v = e[2][1]
                run, d = agg_field(v, "run"), agg_field(v, "deadline")
                c.ob("task", nm + " function", run is not None and desc(run) == ("arg2" if dl else "arg1"), "%s sends %s instead of the given function" % (nm, desc(run) if run is not None else "?"))
                if dl:
                    x = payload(d) if d is not None and d.op == "agg" else d
                    dd = desc(x) if x is not None else ""
                    c.ob("task", nm + " deadline", dd in ("Instant::add(Instant::now(),arg1)", "Add::add(Instant::now(),arg1)"), "%s sets the deadline to %s" % (nm, dd))
                else:
                    c.ob("task", nm + " deadline", d is not None and desc(d) == "Option::None", "%s sends a task with a deadline" % nm)
    c.floor("task", n, 2)

    # --- stop
    st = F.find(r"<.*actor::Actor<.*> as .*Stop>::stop$|actor::Actor.*::stop$")
    c.floor("stop", len(st), 1)
    for x in st:
        g = c.graph("^" + re.escape(x) + "$")

        def stop(q, e):
            if e[0] == "mcall" and e[1].endswith("::store") and desc(e[2][0]).startswith("arg1"):
                return 1 if desc(e[2][1]) == "1" else 0
            if e[0] == "call" and e[1].endswith("Sender::send"):
                if q != 1:
                    return Bad("the actor's loop is woken before its stop flag is set")
                d = agg_field(e[2][1], "deadline")
                if d is None or desc(d) != "Option::None":
                    return Bad("the loop is woken with a delayed task")
                return 2
            if e[0] == "ret" and q != 2:
                return Bad("stop returns without setting the flag and waking the loop")
            return q
        c.auto("stop", tail(x), g, 0, stop)

    # --- stop all
    g = c.graph("^" + A + "Stopper::stop_all_without_joining$")
    ACT = lambda d: "arg0.actors" in d

    def stops(e):
        return e[0] == "call" and e[1].endswith("Stop::stop") and ACT(desc(e[2][0])) and re.sub(r"\.stopped$", "", desc(e[2][1])) == re.sub(r"\.actor$", "", desc(e[2][0]))
    c.auto("stop-all", "each actor stopped", g, ("idle", None), each_elem(ACT, stops, "a registered actor"))
    n = sum(1 for e in evs(g) if stops(e))
    c.floor("stop-all", n, 1)
    for e in evs(g):
        if e[0] == "call" and re.search(r"Iterator::(filter|take|skip|take_while|skip_while|step_by|filter_map|rev)$", e[1]):
            c.ob("stop-all", "all", e[1].endswith("rev"), "only some of the registered actors are stopped (%s)" % tail(e[1]))
        if e[0] == "call" and e[1].endswith("::drain"):
            c.ob("stop-all", "drains all", desc(e[2][1]) == "RangeFull", "only %s of the registered actors are stopped" % desc(e[2][1]))

    def flagfirst(q, e):
        if e[0] == "store" and store_path(e) and ("Stopper", "has_been_stopped") in store_path(e) and desc(e[3]) == "1":
            return 1
        if e[0] == "call" and e[1].endswith("Mutex::lock") and q == 0:
            return Bad("the stopper takes its actors before it is marked as stopped")
        return q
    c.auto("stop-all", "marked first", g, 0, flagfirst)
    g = c.graph("^" + A + "Stopper::stop_all_and_join$")
    HND = lambda d: "collect" in d or "stop_all_without_joining" in d or "drain(arg0.actors" in d or "Vec::new" in d

    def joins(e):
        return e[0] == "call" and e[1].endswith("JoinHandle::join")
    c.auto("stop-all", "each thread joined", g, ("idle", None), each_elem(lambda d: HND(d) and "IntoIter::next" in d or "into_iter" in d, joins, "a thread to join"))
    nj = sum(1 for e in evs(g) if joins(e))
    c.floor("join", nj, 1)

    def held(q, e):
        if e[0] == "call" and e[1].endswith("Mutex::lock"):
            return 1
        if released(e) is not None:
            return 0
        if joins(e) and q:
            return Bad("threads are joined while the registry of actors is locked")
        return q
    c.auto("stop-all", "joins unlocked", g, 0, held)
    return "other", "automata over every path of the actor's thread, senders and stopper"


def F_opty(F, f, o):
    if "p" in o:
        return f.l[o["p"][0]]
    return o.get("ty", f.l[0])


def earliest_first(p):
    """the comparison of two deadlines, reversed"""
    d = desc(p.ret).replace("Ord::", "").replace("Ordering::", "").replace("Option::", "")
    if re.fullmatch(r"reverse\((ord)?cmp\(arg0\.deadline,arg1\.deadline\)\)|(ord)?cmp\(arg1\.deadline,arg0\.deadline\)", d):
        return True
    none = False
    know = set()
    for e in p.ass:
        o = optfact(e)
        if o and o[0] in ("arg0.deadline", "arg1.deadline") and o[1] == 0:
            none = True     # only tasks with a deadline are queued
        r = ordfact(e)
        if r:
            a, b = r[1].replace("@Some.0", ""), r[2].replace("@Some.0", "")
            know.add((r[0], a[:4], b[:4]))
        if e[1].op == "eq" or desc(e[1]).startswith("eq("):
            if e[2][0] == "e" and e[2][1] == frozenset((1,)):
                know.add(("=",))
    if none:
        return True
    d = d.replace("Some{", "").rstrip("}")
    return {"Less": ("<", "arg1", "arg0") in know, "Greater": ("<", "arg0", "arg1") in know or ("<", "arg1", "arg0") not in know and (">=", "arg1", "arg0") in know and (">=", "arg0", "arg1") not in know and ("=",) not in know,
            "Equal": ("=",) in know or (">=", "arg1", "arg0") in know and (">=", "arg0", "arg1") in know}.get(d, False)
