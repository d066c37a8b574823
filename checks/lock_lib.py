"""locks held and taken: which lock a guard belongs to, which guards are alive at each call, and what calls take"""
import re
from collections import defaultdict

GUARD = re.compile(r"(MutexGuard|RwLockReadGuard|RwLockWriteGuard|ReentrantMutexGuard)<")
ACQ = re.compile(r"(std::sync::.*Mutex(<.*>)?::(lock|try_lock)|std::sync::.*RwLock(<.*>)?::(read|write|try_read|try_write)|call_mutex::CallMutex(<.*>)?::\w*lock\w*|call_rwlock::CallRwLock(<.*>)?::(read|write)|lock_api::.*::(lock|read|write))$")
# waiting for another thread
WAIT = re.compile(r"(Condvar(<.*>)?::wait\w*|JoinHandle(<.*>)?::join|Receiver(<.*>)?::(recv|recv_timeout|recv_deadline|blocking_recv)|SyncSender(<.*>)?::send|Barrier::wait|actor::Stopper::stop_all_and_join|thread::(functions::)?(sleep|park)|block_on\w*)$")
# calls into the media engine
ENGINE = re.compile(r"::(Rust_\w+|rffi::\w+)$")
# what is handed to these runs on another thread or later
ASYNC = re.compile(r"(actor::Actor(<.*>)?::\w+|actor::\w*|thread::(spawn|Builder::spawn|functions::spawn)|thread::\w*::?Builder::spawn\w*|::\w*spawn\w*|::send_delayed|::start_actor|channel::send|schedule_work_until_terminating)$")
PASS = re.compile(r"(Deref(Mut)?>?::deref(_mut)?|AsRef>?::as_ref|Borrow>?::borrow|Clone>?::clone|From>?::from|Into>?::into|Arc(<.*>)?::\w+|Box(<.*>)?::new)$")


def name(ref):
    return ref.get("r") or ref["fn"]


class Locks:
    def __init__(self, F, skip=lambda n: False):
        self.F = F
        self.skip = skip
        self.d = {}
        self.clo_at = defaultdict(list)     # closure -> (fn, operands)
        self.kept = defaultdict(set)        # (owner, field) -> closures kept there
        for n, f in F.fns.items():
            for b in f.b:
                for pl, rv, ln in b["s"]:
                    if rv["r"] == "agg" and rv["ak"] == "closure":
                        self.clo_at[rv["d"]].append((n, rv["os"]))
        self.acq = None
        self.opaque = {}                    # held lock -> functions whose own locks do not count under it
        self.acq_under = {}
        self.sites = self.waits = 0
        self.unknown = set()

    def defs(self, n):
        r = self.d.get(n)
        if r is None:
            r = defaultdict(list)
            f = self.F.fns[n]
            for b in f.b:
                for pl, rv, ln in b["s"]:
                    if len(pl) == 1 and rv["r"] not in ("dead", "live"):
                        r[pl[0]].append(("s", rv))
                t = b["t"]
                if t["k"] == "call" and len(t["d"]) == 1:
                    r[t["d"][0]].append(("c", t))
            self.d[n] = r
        return r

    def place(self, n, p, depth=0):
        """(owner, field) a place comes from: its last named field"""
        fs = [x for x in p[1:] if isinstance(x, list) and x[0] == "f"]
        if fs:
            x = fs[-1]
            owner = str(x[3])
            if x[3] is None or "{closure" in owner or owner == "":
                if "{closure" in n and p[0] == 1 and len(fs) == 1:
                    return self.captured(n, x[1], depth)
                if len(fs) == 1:
                    return self.local(n, p[0], depth)
                x = fs[-2]
                owner = str(x[3])
            if re.search(r"(Mutex|RwLock|Arc|Box|Option|Result|ControlFlow|ManuallyDrop|Some|\(.*\)|tuple)$", owner.split("<")[0]) and len(fs) > 1:
                x = fs[-2]
                owner = str(x[3])
            elif re.search(r"(Option|Result|ControlFlow|Arc|Box)$", owner.split("<")[0]):
                return self.local(n, p[0], depth)
            return owner.split("::")[-1].split("<")[0], x[2]
        return self.local(n, p[0], depth)

    def captured(self, n, k, depth):
        for fn, os in self.clo_at.get(n, ())[:1]:
            if k < len(os) and os[k]["k"] in ("m", "p"):
                return self.place(fn, os[k]["p"], depth + 1)
        return None

    def local(self, n, l, depth):
        if depth > 14:
            return None
        f = self.F.fns[n]
        if 1 <= l <= f.args:
            return None
        for kind, x in self.defs(n).get(l, ())[:3]:
            if kind == "s":
                if x["r"] in ("ref", "ptr", "rawptr", "addr") and "p" in x:
                    r = self.place(n, x["p"], depth + 1)
                elif x["r"] in ("use", "cast") and x["o"]["k"] in ("m", "p"):
                    r = self.place(n, x["o"]["p"], depth + 1)
                else:
                    r = None
            elif x["f"]["k"] == "fn" and PASS.search(name(x["f"]["f"])) and x["a"] and x["a"][0]["k"] in ("m", "p"):
                r = self.place(n, x["a"][0]["p"], depth + 1)
            else:
                r = None
            if r:
                return r
        return None

    def lock_of(self, n, t):
        a = t["a"][0]
        r = self.place(n, a["p"]) if a["k"] in ("m", "p") else None
        if r is None:
            f = self.F.fns[n]
            ty = self.F.ts(f.l[a["p"][0]][0] if isinstance(f.l[a["p"][0]], (list, tuple)) else f.l[a["p"][0]]) if a["k"] in ("m", "p") else "static %s" % str(a)[:60]
            ty = re.sub(r"^&(mut )?", "", ty)
            self.unknown.add((n, ty))
            return "type", ty
        return r

    def type_of(self, n, l):
        x = self.F.fns[n].l[l]
        return self.F.ts(x[0] if isinstance(x, (list, tuple)) else x)

    def closures_in(self, n, o, depth=0):
        """closures an operand is or holds"""
        if o["k"] == "fn":
            return [m for m in self.F.targets(o["f"])]
        if o["k"] not in ("m", "p") or depth > 6:
            return []
        out = []
        for kind, x in self.defs(n).get(o["p"][0], ())[:3]:
            if kind == "s" and x["r"] == "agg":
                if x["ak"] == "closure":
                    out.append(x["d"])
                else:
                    for y in x["os"]:
                        out += self.closures_in(n, y, depth + 1)
            elif kind == "s" and x["r"] in ("use", "cast") :
                out += self.closures_in(n, x["o"], depth + 1)
            elif kind == "s" and x["r"] == "ref":
                out += self.closures_in(n, {"k": "p", "p": x["p"]}, depth + 1)
            elif kind == "c" and x["f"]["k"] == "fn" and re.search(r"Box(<.*>)?::new$|Into>?::into$|From.*::from$|unsize", name(x["f"]["f"])):
                for y in x["a"]:
                    out += self.closures_in(n, y, depth + 1)
        return out

    def build_kept(self):
        for n, f in self.F.fns.items():
            for b in f.b:
                for pl, rv, ln in b["s"]:
                    if rv["r"] == "agg" and rv["ak"] == "adt":
                        a = self.F.adts.get(rv["d"])
                        if not a or not str(rv["d"]).startswith("ringrtc::"):
                            continue
                        v = a["vs"][rv.get("v", 0) if isinstance(rv.get("v", 0), int) else 0]
                        for (fname, *_), o in zip(v[2], rv["os"]):
                            for cl in self.closures_in(n, o):
                                if "{closure" in cl:
                                    self.kept[(rv["d"].split("::")[-1], fname)].add(cl)

    def callees(self, n, t):
        """bodies that run during this call"""
        fo = t["f"]
        out = []
        if fo["k"] == "fn":
            nm = name(fo["f"])
            if ACQ.search(nm):
                return []
            later = bool(ASYNC.search(nm))
            out += self.F.targets(fo["f"])
            if not later:
                for o in t["a"]:
                    out += [x for x in self.closures_in(n, o)]
            if re.search(r"Fn(Once|Mut)?(<.*>)?>?::call(_once|_mut)?$", nm) and t["a"] and t["a"][0]["k"] in ("m", "p"):
                w = self.place(n, t["a"][0]["p"])
                if w in self.kept:
                    out += self.kept[w]
        return [x for x in out if x in self.F.fns and not self.skip(x)]

    def excuse(self, held, pat):
        """what functions matching pat take does not count while this lock is held"""
        pat = re.compile(pat)
        self.opaque.setdefault(held, set()).update(n for n in self.F.fns if pat.search(n))
        return self.opaque[held]

    def under(self, h):
        """summaries as they count while h is held"""
        if h not in self.opaque:
            return self.summaries()
        if h not in self.acq_under:
            acq = self.summaries()
            off = self.opaque[h]
            self.acq_under[h] = self.close({n: (dict(self.direct[n]) if n not in off else {}) for n in acq}, off)
        return self.acq_under[h]

    def summaries(self):
        """function -> {lock: (how)} taken while it runs"""
        if self.acq is not None:
            return self.acq
        self.build_kept()
        direct, calls = defaultdict(dict), {}
        for n, f in self.F.fns.items():
            if self.skip(n):
                continue
            cs = set()
            for b in f.b:
                t = b["t"]
                if t["k"] == "call" and not b.get("c"):
                    if t["f"]["k"] == "fn" and ACQ.search(name(t["f"]["f"])) and not self.inner(n):
                        direct[n].setdefault(self.lock_of(n, t), ("here", t.get("line")))
                        self.sites += 1
                    elif t["f"]["k"] == "fn" and WAIT.search(name(t["f"]["f"])) and "common::actor::" not in n:
                        direct[n].setdefault(("wait", n), ("here", t.get("line")))
                        self.waits += 1
                    for m in self.callees(n, t):
                        cs.add(m)
            calls[n] = cs
        self.rev = defaultdict(set)
        for n, cs in calls.items():
            for m in cs:
                self.rev[m].add(n)
        self.direct = direct
        self.acq = self.close({n: dict(direct[n]) for n in calls}, ())
        return self.acq

    def taken(self):
        return {l for d in self.direct.values() for l in d if l[0] != "wait"}

    def close(self, acq, off):
        work = [n for n in acq if acq[n]]
        while work:
            m = work.pop()
            for n in self.rev.get(m, ()):
                new = False
                if n in off:
                    continue
                for l in acq[m]:
                    if l not in acq[n]:
                        acq[n][l] = ("via", m)
                        new = True
                if new:
                    work.append(n)
        return acq

    def chain(self, n, l):
        """how a function comes to take a lock"""
        out = []
        while n:
            out.append(n)
            x = self.acq[n].get(l)
            n = x[1] if x and x[0] == "via" else None
        return out

    def worker_only(self, machine, owner, field):
        """functions that run only on the worker thread of one state machine: the closures handed to its spawning
        functions and what only they call"""
        F = self.F
        gen = [n for n in F.fns if re.search(machine, n) and "{closure" not in n]
        spawn = set()
        while True:
            new = set()
            for n in gen:
                if n in spawn or not any(self.is_param(self.type_of(n, i)) for i in range(1, F.fns[n].args + 1)):
                    continue
                for b in F.fns[n].b:
                    t = b["t"]
                    if t["k"] == "call" and t["f"]["k"] == "fn" and (re.search(r"actor::Actor(<.*>)?::send$", name(t["f"]["f"])) and t["a"][0]["k"] in "mp" and self.place(n, t["a"][0]["p"]) == (owner, field) or any(m in spawn for m in F.targets(t["f"]["f"]))):
                        new.add(n)
            if not new:
                break
            spawn |= new
        roots, away = set(), set()
        for n, f in F.fns.items():
            if self.skip(n):
                continue
            for b in f.b:
                t = b["t"]
                if t["k"] != "call" or t["f"]["k"] != "fn":
                    continue
                mine = any(m in spawn for m in F.targets(t["f"]["f"]))
                if n in spawn and mine:
                    continue
                if mine or ASYNC.search(name(t["f"]["f"])):
                    for o in t["a"]:
                        for m in self.closures_in(n, o):
                            (roots if mine else away).add(m)
        callers = F.callers()
        W = {n for n in F.fns if not self.skip(n)}
        ch = True
        while ch:
            ch = False
            for n in list(W):
                if n in roots and n not in away:
                    continue
                if n in away:
                    ok = False
                elif "{closure" in n:
                    ok = bool(self.clo_at.get(n)) and all(m in W for m, _ in self.clo_at[n])
                else:
                    cs = callers.get(n, ())
                    ok = bool(cs) and all(m in W for m in cs)
                if not ok:
                    W.discard(n)
                    ch = True
        return W, roots, spawn

    def is_param(self, ty):
        return bool(re.match(r"^(impl |[A-Z]\w*$|dyn |.*FnOnce)", ty))

    def inner(self, n):
        """the lock wrappers themselves"""
        return bool(re.search(r"core::call_(mutex|rwlock)::|^<?std::|^<?core::|^<?alloc::", n))

    def held(self, n, engine=False):
        """[(lock held, lock taken, line, callee or None)]"""
        f = self.F.fns[n]
        acq = self.summaries()
        out = []
        ins = {0: {}}
        work = [0]
        seen = {}
        while work:
            i = work.pop()
            st = {k: set(v) for k, v in ins[i].items()}
            b = f.b[i]

            def take(o, dst):
                if o["k"] == "m" and len(o["p"]) >= 1 and o["p"][0] in st and o["p"][0] != dst:
                    v = st[o["p"][0]]
                    if len(o["p"]) == 1 or GUARD.search(self.type_of(n, dst)):
                        st.pop(o["p"][0])
                    if GUARD.search(self.type_of(n, dst)) or "closure" in self.type_of(n, dst) or len(o["p"]) == 1:
                        st.setdefault(dst, set()).update(v)
            for pl, rv, ln in b["s"]:
                if rv["r"] == "dead":
                    st.pop(pl[0], None)
                elif rv["r"] in ("use", "cast"):
                    take(rv["o"], pl[0])
                elif rv["r"] == "agg":
                    for o in rv["os"]:
                        take(o, pl[0])
            t = b["t"]
            if t["k"] == "drop":
                p = t.get("p") or t.get("d")
                if p and len(p) == 1:
                    st.pop(p[0], None)
            elif t["k"] == "call":
                H = set().union(*st.values()) if st else set()
                line = t.get("line")
                fresh = set()
                if t["f"]["k"] == "fn" and ACQ.search(name(t["f"]["f"])) and not self.inner(n):
                    l = self.lock_of(n, t)
                    fresh.add(l)
                    if "try_" not in name(t["f"]["f"]):
                        for h in H:
                            out.append((h, l, line, None))
                elif engine and t["f"]["k"] == "fn" and ENGINE.search(name(t["f"]["f"])):
                    for h in H:
                        out.append((h, ("engine", name(t["f"]["f"])), line, None))
                elif t["f"]["k"] == "fn" and WAIT.search(name(t["f"]["f"])):
                    own = set().union(*(st.get(o["p"][0], set()) for o in t["a"] if o["k"] == "m"), set())
                    for h in H - own:
                        out.append((h, ("wait", n), line, None))
                else:
                    dt = self.type_of(n, t["d"][0])
                    for m in self.callees(n, t):
                        for h in H:
                            for l in self.under(h).get(m, ()) if m not in self.opaque.get(h, ()) else ():
                                out.append((h, l, line, m))
                        for l in acq.get(m, ()):
                            if GUARD.search(dt) and GUARD.search(self.type_of(m, 0)) and "{closure" not in m:
                                fresh.add(l)
                moved = set()
                for o in t["a"]:
                    if o["k"] == "m" and o["p"][0] in st:
                        v = st[o["p"][0]]
                        if len(o["p"]) == 1:
                            st.pop(o["p"][0])
                        moved |= v
                if GUARD.search(self.type_of(n, t["d"][0])):
                    fresh |= moved
                if fresh and GUARD.search(self.type_of(n, t["d"][0])):
                    st.setdefault(t["d"][0], set()).update(fresh)
            for j in succs(t):
                if f.b[j].get("c"):
                    continue
                old = ins.get(j)
                if old is None:
                    ins[j] = {k: set(v) for k, v in st.items()}
                    work.append(j)
                else:
                    ch = False
                    for k, v in st.items():
                        if not v <= old.get(k, set()):
                            old.setdefault(k, set()).update(v)
                            ch = True
                    if ch:
                        work.append(j)
        return out


def succs(t):
    k = t["k"]
    out = []
    if isinstance(t.get("t"), int):
        out.append(t["t"])
    if isinstance(t.get("o"), int):
        out.append(t["o"])
    for x in t.get("ts", ()):
        out.append(x[1])
    return out


def owner(n):
    """the type a function belongs to"""
    m = re.search(r"::([A-Z]\w*)(<[^{]*>)?(::\w+|::\{closure#\d+\})*$", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", n))))
    return m.group(1) if m else None


def engine_callbacks(F):
    """functions the media engine calls on its own threads to tell of something"""
    return [n for n, f in F.fns.items() if re.search(r"ringrtc::webrtc::", n) and str(f.abi).startswith("C") and "audio_device_module" not in n and not re.search(r"Rust_\w+$", n)]


def queued(L, who):
    """closures that functions of these types hand to threads or actors"""
    out = {}
    for n, f in L.F.fns.items():
        if L.skip(n) or owner(n) not in who:
            continue
        for b in f.b:
            t = b["t"]
            if t["k"] == "call" and t["f"]["k"] == "fn" and ASYNC.search(name(t["f"]["f"])):
                for o in t["a"]:
                    for m in L.closures_in(n, o):
                        if m in L.F.fns:
                            out[m] = n
    return out


def threads(L):
    """thread group -> {lock: function taking it}"""
    F = L.F
    G = {}
    G["connection"] = [n for n in F.fns if owner(n) == "ConnectionStateMachine"] + list(queued(L, {"Connection", "ConnectionStateMachine"}))
    G["call"] = [n for n in F.fns if owner(n) == "CallStateMachine"] + list(queued(L, {"Call", "CallStateMachine"}))
    G["call worker"] = list(queued(L, {"CallStateMachine"}))
    G["connection worker"] = list(queued(L, {"ConnectionStateMachine"}))
    G["manager worker"] = list(queued(L, {"CallManager"}))
    G["audio worker"] = [n for n in F.fns if owner(n) == "Worker"] + list(queued(L, {"Worker"}))
    G["engine"] = engine_callbacks(F)
    return {t: {l: n for n in ns for l in L.summaries().get(n, {}) if l[0] != "wait"} for t, ns in G.items()}


WAITS = {"AudioDeviceModule": "audio worker", "Connection": "connection", "Call": "call", "ConnectionStateMachine": "connection worker", "CallStateMachine": "call worker",
         "CallManager": "manager worker", "CreateSessionDescriptionObserver": "engine", "SetSessionDescriptionObserver": "engine"}


def waited(L, n):
    o = owner(n)
    if o in WAITS:
        return [WAITS[o]]
    return []
