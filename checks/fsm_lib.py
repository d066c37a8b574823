"""tables of the two 1:1 call state machines, read off every path through their event dispatch"""
from rules import *
from absint import K, Val
from keys_lib import full_desc, core, same

CONN = r"core::connection_fsm::ConnectionStateMachine::handle_event$"
CALL = r"core::call_fsm::CallStateMachine::handle_event$"


def names(F, adt):
    vs = F.adts[adt]["vs"]
    return {d: n for n, d, _ in vs}


def last(n):
    return n.rsplit("::", 1)[-1]


class Row:
    """one path: the events and states it stands for and what it does"""
    def __init__(self, F, p, ev, st, events, states):
        self.p = p
        self.events = self.of(p, ev, events)
        self.states = self.of(p, st, states)

    @staticmethod
    def of(p, arg, allv):
        left = set(allv)
        for e in p.ev:
            if e[0] == "assume" and e[1].op == "discr" and desc(core(e[1].a[0], True)) == arg and e[2][0] == "e":
                left &= set(e[2][1])
        return frozenset(allv[i] for i in left)


def rows(c, which, eff, ev, st, evadt, stadt, **kw):
    """every path through the dispatch, with the functions matching `eff` as its visible actions"""
    F = c.F
    f = F.one(which)
    rx = re.compile(eff)
    pol = dict(interest=lambda n: n != f and rx.search(n), noinline=lambda n: n != f and rx.search(n), deep=True, max_nodes=150000)
    pol.update(kw)
    g = c.graph(f, **pol)
    events, states = names(F, evadt), names(F, stadt)
    return g, [Row(F, p, ev, st, events, states) for p in paths(g)], events, states


def connection_rows(c, eff, **kw):
    return rows(c, CONN, eff, "arg3", "arg2", "ringrtc::core::connection_fsm::ConnectionEvent", "ringrtc::common::ConnectionState", **kw)


def call_rows(c, eff, **kw):
    return rows(c, CALL, eff, "arg3", "arg2", "ringrtc::core::call_fsm::CallEvent", "ringrtc::common::CallState", **kw)


def raw_mentions(F, owner, field):
    """functions whose own body mentions owner.field"""
    out = set()

    def places(x):
        if isinstance(x, (list, tuple)):
            if len(x) >= 4 and x[0] == "f" and x[2] == field and isinstance(x[3], str) and last(x[3]) == owner:
                return True
            return any(places(y) for y in x)
        if isinstance(x, dict):
            return any(places(y) for y in x.values())
        return False
    for n, fn in F.fns.items():
        if not n.startswith(("ringrtc::", "<ringrtc::")) and "ringrtc::" not in n:
            continue
        if places(fn.b):
            out.add(n)
    return out



CALL_EFF = r"core::call::Call::(set_state|handle_start_call|proceed|received_answer|received_ice|accept_locally|accept_remotely|send_\w+|notify_\w+|internal_error|handle_ice_failed|terminate_complete|terminate_connections\w*|set_active_device_id|active_device_id|active_connection|start_call_summary_stats_collection|direction|local_device_id|terminating|inject_\w+|wait_for_terminate|call_manager|call_id)$|core::call_manager::CallManager::\w+$|core::connection::Connection::\w+$|Actor::send$|Stopper::\w+$|EventStream::\w+$"
CALL_QUIET = re.compile(r"core::call::Call::(active_device_id|active_connection|direction|local_device_id|terminating|inject_internal_error|call_manager|call_id|wait_for_terminate|start_call_summary_stats_collection)$|Stopper::has_been_stopped$|Actor::send$")


class Entry:
    """one kind of path: what is known on it and what it does, in order"""
    __slots__ = ("k", "acts", "kind", "events", "states", "obs", "conn", "dir", "event")

    def __init__(self, k, acts, kind, allv):
        self.k, self.acts, self.kind = k, acts, kind
        d = dict(k)
        self.events, self.states, self.dir = (d.get(x, allv[x]) for x in ("events", "states", "dir"))
        self.event = next(iter(self.events)) if len(self.events) == 1 else None
        self.obs = d.get("obs", allv["obs"]) if self.event == "ConnectionObserverEvent" else frozenset()
        self.conn = d.get("conn", allv["conn"]) if self.obs == {"StateChanged"} else frozenset()

    def fact(self, n):
        return dict(self.k).get(n)

    def what(self):
        n = self.event or ("any event" if len(self.events) > 3 else "/".join(sorted(self.events)))
        if self.obs:
            n += " " + ("/".join(sorted(self.obs)) if len(self.obs) < 3 else "any")
        if self.conn and len(self.conn) < 3:
            n += " " + "/".join(sorted(self.conn))
        return n


class Act:
    __slots__ = ("name", "fn", "args", "deferred", "guarded", "k")

    def __init__(self, name, fn, args, deferred, guarded, k):
        self.name, self.fn, self.args, self.deferred, self.guarded, self.k = name, fn, args, deferred, guarded, k

    def key(self):
        return (self.name, self.fn, self.args, self.deferred, self.guarded, self.k)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash((self.name, self.args, self.deferred))

    def __repr__(self):
        return "%s%s(%s)" % ("~" if self.deferred else "", self.name, ",".join(self.args))


def call_table(c):
    """every kind of path through the call's event dispatch, with its facts and its actions"""
    F = c.F
    f = F.one(CALL)
    rx = re.compile(CALL_EFF)
    g = c.graph(f, interest=lambda n: n != f and rx.search(n), noinline=lambda n: n != f and (rx.search(n) or re.search(r"core::call::Call<.*Drop>?::drop$", n)), deep=True, max_nodes=250000, cap=400)
    if g.truncated:
        raise RuntimeError("the call state machine is too large")
    ADT = {"events": "ringrtc::core::call_fsm::CallEvent", "states": "ringrtc::common::CallState", "obs": "ringrtc::core::connection::ConnectionObserverEvent",
           "conn": "ringrtc::common::ConnectionState", "dir": "ringrtc::common::CallDirection", "hangup": "ringrtc::core::signaling::Hangup"}
    nm = {k: names(F, v) for k, v in ADT.items()}
    allv = {k: frozenset(v.values()) for k, v in nm.items()}
    subj = {"arg3": "events", "arg2": "states", "arg3@ConnectionObserverEvent.0": "obs", "arg3@ConnectionObserverEvent.0@StateChanged.0": "conn", "Call::direction(arg1)": "dir"}
    out = {}
    memo = {}

    def learn(know, e):
        t, r = e[1], e[2]
        if t.op == "discr" and r[0] == "e":
            d = memo.get(id(t))
            if d is None:
                d = memo[id(t)] = (desc(core(t.a[0], True)), t)
            d = d[0]
            if d in subj:
                k = subj[d]
                cur = dict(know)
                cur[k] = cur.get(k, allv[k]) & frozenset(nm[k][i] for i in r[1] if i in nm[k])
                return frozenset(cur.items())
            if re.fullmatch(r"arg3@ReceivedHangup\.0\.hangup|arg3@ConnectionObserverEvent\.0@ReceivedHangup\.0", d):
                cur = dict(know)
                cur["hangup"] = cur.get("hangup", allv["hangup"]) & frozenset(nm["hangup"][i] for i in r[1] if i in nm["hangup"])
                return frozenset(cur.items())
            if d == "Call::active_device_id(arg1)" and len(r[1]) == 1:
                return frozenset(dict(know, active="known" if 0 in r[1] else "none").items())
            m = re.match(r"Call::(\w+)\(", d)
            if m and r[1] == frozenset((1,)) and m.group(1) not in ("active_device_id",):
                return frozenset(dict(know, failed=m.group(1)).items())
            return know
        ds = desc(t)
        if t.op != "discr" and re.match(r"Call::terminating\((Call\{)?arg1\b", ds) and r == ("e", frozenset((0,))):
            return frozenset(dict(know, looked=True).items())
        if t.op != "discr" and re.match(r"Call::terminating\((Call\{)?arg1\b", ds) and r == ("e", frozenset((1,))):
            return frozenset(dict(know, ending=True).items())
        # the device an event comes from is, or is not, the active one
        if "active_device_id" in ds or "local_device_id" in ds:
            if r[0] == "r":
                eqv = r[1] == 0 and r[2] == 0
                nev = r[1] > 0 or r[2] < 0 or 0 in r[3]
            else:
                eqv, nev = t.op == "eq" and r[1] == frozenset((1,)), t.op == "eq" and r[1] == frozenset((0,))
            if re.search(r"active_device_id\(arg1\)", ds) and re.search(r"arg3@ConnectionObserverEvent\.1|arg3@ReceivedHangup\.0\.sender_device_id", ds):
                if eqv or nev:
                    return frozenset(dict(know, sender="active" if eqv else "other").items())
            elif re.search(r"local_device_id\(arg1\)", ds):
                if eqv or nev:
                    return frozenset(dict(know, about="this device" if eqv else "another device").items())
            return know
        if re.match(r"Stopper::has_been_stopped", ds) and r == ("e", frozenset((1,))):
            return frozenset(dict(know, stopped=True).items())
        return know

    def step(q, e):
        know, acts, stack = q
        if e[0] == "assume":
            k2 = learn(know, e)
            if any(isinstance(v, frozenset) and not v for _, v in k2):
                return q
            return (k2, acts, stack) if k2 is not know else q
        if e[0] == "enter" and re.search(r"_spawn::\{closure", e[1]):
            k2 = dict(know)
            k2.pop("looked", None)
            r = "ran " + re.search(r"(\w+)_spawn::\{closure", e[1]).group(1)
            k2[r] = min(k2.get(r, 0) + 1, 3)
            return (frozenset(k2.items()), acts, stack + (e[1],))
        if e[0] == "exit" and stack and e[1] == stack[-1]:
            k2 = dict(know)
            k2.pop("looked", None)
            return (frozenset(k2.items()), acts, stack[:-1])
        if e[0] == "call" and re.search(r"Actor::send$", e[1]):
            m = re.search(r"(\w+)_thread", desc(core(e[2][0], True)))
            k2 = dict(know)
            r = "asked " + (m.group(1) if m else "?")
            k2[r] = min(k2.get(r, 0) + 1, 3)
            return (frozenset(k2.items()), acts, stack)
        if e[0] == "call" and rx.search(e[1]) and not CALL_QUIET.search(e[1]):
            args = tuple(full_desc(core(x, True)) for x in e[2][1:])
            a = Act(last(e[1]), e[1], args, bool(stack), dict(know).get("looked", False), know)
            if acts and acts[-1].name == a.name and acts[-1].args == a.args and acts[-1].deferred == a.deferred:
                return q if a.name not in ("set_state",) else (know, acts + (a,), stack)
            return (know, acts + (a,), stack)
        return q

    def end(q, node):
        know, acts, stack = q
        out[(know, acts)] = node
        return None
    v = run_auto(g, (frozenset(), (), ()), step, end=end)
    return g, [Entry(k, a, n, allv) for (k, a), n in out.items()], allv
