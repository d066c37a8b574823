"""S10: the network simulator loses packets only as configured and keeps its accounts"""
from rules import *
from absint import lin, ladd, mk, K, Val

TECHNIQUE = "symbolic walk of a packet through the closures it is moved into (captures followed by value over MIR), with every way to lose or deliver it enumerated"
NOTE = "tasks handed to an actor run once and in order (property S07); rand's generators sample as documented"
SEND = r"mpsc::(Sync)?Sender(<.*>)?::send$"
NI = re.compile(r"common::actor::Actor(<.*>)?::start$")
P = "ringrtc::simnet::router::"


def closures_in(v):
    """the outermost closures in a value"""
    if not isinstance(v, Val):
        return []
    if v.op == "agg" and v.a[0] == "clo":
        return [v]
    out = []
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            out += [z for z in closures_in(y) if z not in out]
    return out


def subst(v, caps, env="arg0"):
    """the value with the closure's captures replaced"""
    if not isinstance(v, Val):
        return v
    if v.op == "f" and v.a[0].op == "arg" and "arg%d" % v.a[0].a[0] == env and str(v.a[1]).isdigit() and int(v.a[1]) < len(caps):
        return caps[int(v.a[1])]
    if v.op == "f":
        b = subst(v.a[0], caps, env)
        x = agg_field(b, v.a[1]) if b.op in ("agg", "upd") else None
        return x if x is not None else mk("f", b, *v.a[1:])
    if v.op == "lin":
        c, d = lin(v)
        out = K(c)
        for t, k in d.items():
            out = ladd(out, subst(t, caps, env), k)
        return out
    return mk(v.op, *[subst(x, caps, env) if isinstance(x, Val) else tuple(subst(y, caps, env) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], Val) else x for x in v.a])


def same_pkt(v, d):
    if desc(v) == d:
        return True
    if v.op == "agg" and short(str(v.a[1])) == "Packet":
        return all(agg_field(v, n) is not None and desc(agg_field(v, n)) == "%s.%s" % (d, n) for n in ("source", "dest", "data"))
    return False


def bits(v):
    """a DataSize (or number of bits) as a number"""
    x = agg_field(v, "bits")
    return x if x is not None else v


def room(e):
    """(capacity - needed as a linear term, lowest, highest) a queue-size assumption says, or None"""
    if e[0] != "assume":
        return None
    _, t, f = e
    if t.op == "ord" and f[0] == "e" and len(f[1]) == 1:
        a, b = t.a[0], t.a[1]
        lt = next(iter(f[1])) == 1
        A, B = [x if x is not v else mk("f", v, "bits", "DataSize") for v in (a, b) for x in [bits(v)]]
        df = ladd(A, B, -1)
        lo, hi = (-INF, -1) if lt else (0, INF)
    elif f[0] == "r":
        df, lo, hi = t, f[1], f[2]
    else:
        return None
    c, d = lin(df)
    caps = [x for x in d if "queue_size" in desc(x)]
    if len(caps) != 1 or abs(d[caps[0]]) != 1:
        return None
    if d[caps[0]] == -1:
        df, lo, hi = ladd(K(0), df, -1), -hi, -lo
    c, d = lin(df)
    need = ladd(mk("lin", 0, ()) if False else K(0), ladd(df, caps[0], -1), -1)
    return need, lo, hi


class Walk:
    def __init__(self, c):
        self.c, self.out = c, []
        self.graphs = {}

    def table(self, fn):
        if fn not in self.graphs:
            self.graphs[fn] = paths(self.c.graph("^" + re.escape(fn) + "$", bytes=True))
        return self.graphs[fn]

    def go(self, fn, pkt, caps, feats, depth=0):
        """follow the packet described by pkt through fn; feats is what happened to it so far"""
        if depth > 12:
            raise RuntimeError("the packet's way does not end")
        for p in self.table(fn):
            if p.kind != "ret":
                self.out.append((feats + [("panic", fn)], fn))
                continue
            fs = list(feats) + self.facts(p, pkt, caps)
            nxt = []
            for e in p.ev:
                if e[0] not in ("call", "mcall"):
                    continue
                if re.search(SEND, e[1]):
                    for cl in closures_in(e[2][1]):
                        ks = [i for i, x in enumerate(cl.a[5]) if same_pkt(x, pkt)]
                        if ks:
                            nxt.append(("task", e, cl, ks[0]))
                elif re.search(r"PacketReceiver>?::receive_packet$", e[1]) and len(e[2]) > 1 and same_pkt(e[2][1], pkt):
                    nxt.append(("deliver", e))
                elif e[0] == "call" and not e[1].startswith("core::fmt") and any(same_pkt(x, pkt) for x in e[2]):
                    nxt.append(("other", e))
            if len(nxt) > 1:
                self.out.append((fs + [("copies", fn)], fn))
                continue
            if not nxt:
                self.out.append((fs + [("lost",)], fn))
                continue
            x = nxt[0]
            if x[0] == "deliver":
                self.out.append((fs + [("delivered", desc(x[1][2][0]))], fn))
            elif x[0] == "other":
                self.out.append((fs + [("given away", facts_tail(x[1][1]))], fn))
            else:
                _, e, cl, k = x
                task = [v for v in subvals(e[2][1]) if v.op == "agg" and short(str(v.a[1])) == "Task"]
                dl = agg_field(task[0], "deadline") if task else None
                if dl is None or not (ok_ret(dl) is False):
                    fs.append(("delay", full(subst(dl, caps)) if dl is not None else "?"))
                fs.append(("to", desc(e[2][0])))
                self.go(closure_fn(self.c.F, cl), "arg0.%d" % k, [subst(y, caps) for y in cl.a[5]], fs, depth + 1)

    def facts(self, p, pkt, caps):
        out = []
        for e in p.ev:
            if e[0] == "assume":
                o = optfact(e)
                if o and "HashMap::get" in o[0]:
                    m = re.search(r"\.(\w+_by_ip),(?:SocketAddr::ip\()?%s\.(\w+)" % re.escape(pkt), o[0])
                    out.append(("lookup", (m.group(1), m.group(2)) if m else o[0], o[1]))
                elif e[1].op == "call" and re.search(r"gen_bool|random_bool", desc(e[1])) and e[2][0] == "e":
                    prev = p.truth("arg1.previous_packet_dropped")
                    out.append(("chance", re.search(r"(?:config\.)?(\w*)\)$", desc(e[1])).group(1), prev, next(iter(e[2][1]))))
                else:
                    if ".rate" in full(subst(e[1], caps)):
                        out.append(("duration seen",))
                    r = room(e)
                    if r:
                        need, lo, hi = r
                        out.append(("room", "yes" if lo >= 0 and lo == 0 else "no" if hi == -1 else "%s..%s" % (lo, hi), subst(need, caps)))
            elif e[0] == "call" and re.search(r"Atomic\w*(<\w+>)?::(fetch_\w+|store|swap|compare_\w+)$", e[1]) and "queued_size" in desc(e[2][0]):
                out.append(("account", e[1].split("::")[-1], subst(e[2][1], caps)))
            elif e[0] == "call" and re.search(r"thread::(functions::)?sleep$|functions::sleep$", e[1]):
                out.append(("transmit", full(subst(e[2][0], caps))))
            elif e[0] == "store":
                sp = store_path(e)
                if sp and sp[-1][1] == "previous_packet_dropped":
                    out.append(("mark", desc(e[3])))
        return out


def facts_tail(n):
    return "::".join(n.split("::")[-2:])


def closure_fn(F, cl):
    n = str(cl.a[1])
    if n in F.fns:
        return n
    raise Missing("body of closure " + n)


def per_bit(amount):
    """(amount in bits, bits per counted unit)"""
    if amount.op == "bin" and amount.a[0] == "Div" and amount.a[2].op == "k":
        return amount.a[1], amount.a[2].a[0]
    return amount, 1


def check(c):
    F = c.F
    c.rule("fate", "a packet is lost only where its interface is unknown, the configured chance says so, or the queue has no room; otherwise it goes on exactly once, unchanged")
    c.rule("route", "a sent packet takes the link of its source address, a received one that of its destination address, and then the receiver of that interface")
    c.rule("chance", "the chance of loss is the configured one, or the configured repeated one right after a loss, and whether a packet was lost is remembered")
    c.rule("room", "a packet is refused by the queue exactly when the bytes queued and its own together exceed the configured size")
    c.rule("account", "what is added to the bytes queued when a packet enters is exactly what is taken off when it leaves, in one counter per link")
    c.rule("delay", "each link delays a packet once, by a time drawn from the configured interval, and the interval may be a single value")
    c.rule("links", "each interface gets two links, built from its sending and its receiving configuration")
    c.rule("unchanged", "source, destination and data of a packet cross the native interface unchanged")

    n = 0
    for entry, mp, ad in ((r"^ringrtc::simnet::router::Router::send_packet$", "send_link_by_ip", "source"),
                          (r"^<ringrtc::simnet::router::Router as ringrtc::simnet::router::PacketReceiver>::receive_packet$", "receive_link_by_ip", "dest")):
        w = Walk(c)
        w.go(F.one(entry), "arg1", [], [])
        side = mp.split("_")[0]
        sent = False
        for fs, fn in w.out:
            kind = fs[-1][0]
            where = tail(fn.split("::{closure")[0]) + " (%s)" % side
            if kind in ("panic", "copies", "given away"):
                c.bad("fate", "%s %s" % (kind, where), {"panic": "the simulator can panic in %s", "copies": "a packet goes on more than once in %s", "given away": "a packet ends up in something unknown in %s"}[kind] % where)
                continue
            look = [x for x in fs if x[0] == "lookup"]
            ch = [x for x in fs if x[0] == "chance"]
            rm = [x for x in fs if x[0] == "room"]
            acc = [x for x in fs if x[0] == "account"]
            dl = [x for x in fs if x[0] == "delay"]
            marks = [x[1] for x in fs if x[0] == "mark"]
            for x in look:
                c.ob("route", "%s %s" % (side, x[1]), x[1] == (mp, ad), "a packet %s is routed by %s" % ("sent" if side == "send" else "received", x[1]))
            for x in ch:
                want = "repeated_loss_probability" if x[2] == 1 else "loss_probability" if x[2] == 0 else None
                c.ob("chance", "probability (%s)" % side, x[1] == want, "the chance of loss is %s when the packet before it was %s" % (x[1], {1: "lost", 0: "not lost", None: "lost or not"}[x[2]]))
                m = [y for y in marks]
                c.ob("chance", "remembered (%s)" % side, m[-1:] == [str(x[3])], "after a packet was %s the link remembers %s" % ("lost" if x[3] else "kept", m))
            for x in rm:
                c.ob("room", "comparison (%s)" % side, x[1] in ("yes", "no"), "the queue size is compared with an offset: %s" % x[1])
            if kind == "lost":
                if look and look[-1][2] == 0:
                    ok, why = not ch and not rm, "unknown interface"
                elif ch and ch[-1][3] == 1:
                    ok, why = not rm, "chance"
                elif rm and rm[-1][1] == "no":
                    ok, why = True, "full queue"
                    need(c, rm[-1], fs, side)
                else:
                    ok, why = False, "no reason"
                n += 1
                c.ob("fate", "lost: %s in %s" % (why, where), ok, "a packet is lost in %s for none of the configured reasons" % where)
                c.ob("account", "lost: %s (%s)" % (why, side), not acc, "a packet that never entered the queue changes the bytes queued")
                continue
            n += 1
            c.ob("route", "%s looked up" % side, len(look) == 1 and look[0][2] == 1, "a packet is delivered without its interface having been looked up")
            c.ob("fate", "kept by chance (%s)" % side, len(ch) == 1 and ch[0][3] == 0, "a packet is delivered although chance had it lost, or without asking (%s)" % [x[3] for x in ch])
            c.ob("fate", "kept by queue (%s)" % side, len(rm) == 1 and rm[0][1] == "yes", "a packet enters the queue without room for it")
            c.ob("delay", "once (%s)" % side, len(dl) == 1 and "delay_distribution" in dl[0][1] and "from_millis" in dl[0][1] and dl[0][1].count("now()") == 1, "a packet is delayed by %s" % [x[1][:100] for x in dl])
            c.ob("route", "%s delivered" % side, fs[-1][1] == "arg1.receiver", "a packet is delivered to %s" % fs[-1][1])
            tr = [x for x in fs if x[0] == "transmit"]
            ad2 = [x for x in acc if x[1] == "fetch_add"]
            sb = [x for x in acc if x[1] == "fetch_sub"]
            c.ob("account", "in and out (%s)" % side, len(acc) == 2 and len(ad2) == 1 and len(sb) == 1, "the bytes queued are changed by %s on a packet's way" % [x[1] for x in acc])
            if len(ad2) == 1 and len(sb) == 1:
                c.ob("account", "same amount (%s)" % side, full(ad2[0][2]) == full(sb[0][2]), "%s is added to the bytes queued but %s taken off" % (full(ad2[0][2]), full(sb[0][2])))
                S, per = per_bit(ad2[0][2])
                cc, d = lin(S)
                ln = [k for t, k in d.items() if desc(t) == "len(%s.data)" % pk(fs, "arg1") or re.match(r"len\(arg\d(\.\w+)*\.data\)$", desc(t))]
                c.ob("account", "whole packet (%s)" % side, len(d) == 1 and ln == [8 if per == 8 else 1] and cc >= 0, "a packet is counted as %s" % full(ad2[0][2]))
                need(c, rm[-1], fs, side, S, per) if rm else None
                quick = any(x[0] == "duration seen" for x in fs)
                c.ob("delay", "transmission (%s)" % side, (len(tr) == 1 or not tr and quick) and all("rate" in x[1] and str(full(S)) in x[1] for x in tr), "transmission takes %s" % [x[1] for x in tr])
                sent = sent or len(tr) == 1
        c.ob("delay", "transmitted (%s)" % side, sent, "a packet leaves the queue without its transmission taking time")
    c.floor("fate", n, 8)
    for fn, bi, ref, t in call_sites(F, r"Atomic\w*(<\w+>)?::(fetch_\w+|store|swap|compare_\w+)$"):
        if fn.startswith(P) or fn.startswith("<" + P):
            c.ob("account", "only there: " + ref["fn"].split("::")[-1], ref["fn"].split("::")[-1] in ("fetch_add", "fetch_sub"), "%s changes a counter by %s" % (fn, ref["fn"]))

    # --- links
    g = c.graph(r"^ringrtc::simnet::router::Router::add_interface$", bytes=True, noinline=lambda x: NI.search(x))
    n = 0
    for p in paths(g):
        for e in p.calls(SEND):
            cls = closures_in(e[2][1])
            if not cls or p.kind != "ret":
                continue
            cl = [x for x in cls if P + "Router::add_interface" in str(x.a[1])]
            if not cl:
                continue
            cl = cl[0]
            caps = list(cl.a[5])
            h = c.graph("^" + re.escape(closure_fn(F, cl)) + "$", bytes=True)
            for q in paths(h):
                ins = q.calls(r"HashMap(<.*>)?::insert$")
                byf = {desc(x[2][0]).split(".")[-1]: x for x in ins}
                c.ob("links", "registered", set(byf) == {"send_link_by_ip", "receive_link_by_ip"} and len(ins) == 2, "add_interface registers %s" % sorted(byf))
                for name, cfg, rcv in (("send_link_by_ip", "arg2", "arg0"), ("receive_link_by_ip", "arg3", "arg4")):
                    if name not in byf:
                        continue
                    n += 1
                    key, link = [subst(v, caps) for v in byf[name][2][1:3]]
                    c.ob("links", name + " key", desc(key) == "arg1", "the link is registered under %s" % desc(key))
                    link_of(c, F, link, cfg, rcv, name)
    c.floor("links", n, 2)

    # --- native interface
    n = 0
    g = c.graph(r"injectable_network::Rust_InjectableNetworkSender_SendUdp$", bytes=True, noinline=lambda x: "RffiIpPort::socket_addr" in x or "SocketAddr as" in x)
    for p in paths(g):
        for e in p.calls(r"PacketSender>?::send_udp$"):
            n += 1
            s, d, b = [agg_field(e[2][1], x) for x in ("source", "dest", "data")]
            c.ob("unchanged", "sent source", s is not None and re.search(r"\barg1\b", full(s)) and not re.search(r"\barg2\b", full(s)), "the source of a sent packet is %s" % full(s))
            c.ob("unchanged", "sent destination", d is not None and re.search(r"\barg2\b", full(d)) and not re.search(r"\barg1\b", full(d)), "the destination of a sent packet is %s" % full(d))
            c.ob("unchanged", "sent data", b is not None and re.search(r"from_raw_parts\(arg3(\.0)?,arg4\)", full(b)) is not None, "the data of a sent packet is %s" % full(b))
    g = c.graph(r"injectable_network::InjectableNetwork::receive_udp$", bytes=True)
    for p in paths(g):
        for e in p.calls(r"Rust_InjectableNetwork_ReceiveUdp$"):
            n += 1
            a = [full(x) for x in e[2]]
            c.ob("unchanged", "received source", "arg1.source" in a[1] and "dest" not in a[1], "the source of a received packet is %s" % a[1])
            c.ob("unchanged", "received destination", "arg1.dest" in a[2] and "source" not in a[2], "the destination of a received packet is %s" % a[2])
            c.ob("unchanged", "received data", "arg1.data" in a[3], "the data of a received packet is %s" % a[3])
            c.ob("unchanged", "received length", a[4] == "len(arg1.data)", "the length of a received packet is %s" % a[4])
    c.floor("unchanged", n, 2)
    return "strong", ("A packet handed to the router is followed by value through every closure it is captured by, up to the interface's receiver; all ways it can be lost, "
                      "delayed, counted and delivered are enumerated from MIR and compared with the configuration.")


def pk(fs, d):
    return d


def need(c, rm, fs, side, S=None, per=None):
    cc, d = lin(rm[2])
    q = [(t, k) for t, k in d.items() if "queued_size" in desc(t)]
    rest = ladd(rm[2], q[0][0], -q[0][1]) if q else None
    c.ob("room", "bytes queued (%s)" % side, len(q) == 1 and q[0][1] in (1, 8), "the room in the queue is computed without the bytes queued: %s" % desc(rm[2]))
    if not q:
        return
    rc, rd = lin(rest)
    c.ob("room", "whole packet (%s)" % side, rc >= 0 and len(rd) == 1 and next(iter(rd.values())) == q[0][1] * (1 if q[0][1] == 8 else 1) and next(iter(rd)).op == "len", "the packet's own size is taken to be %s" % desc(rest))
    if S is not None:
        c.ob("room", "same size (%s)" % side, full(rest) == full(S) and q[0][1] == per, "the room needed is %s for a packet counted as %s/%s" % (full(rest), full(S), per))


def start_args(v):
    """(closure) an Actor::start call was given"""
    v = payload_of(v)
    if v is not None and v.op == "call" and NI.search(next((x for x in v.a if isinstance(x, str)), "")):
        for a in v.a:
            if isinstance(a, tuple):
                for x in a[::-1]:
                    for cl in closures_in(x):
                        return cl
    return None


def payload_of(v):
    while v is not None and v.op == "f" and v.a[0].op == "as":
        v = v.a[0].a[0]
    return v


def state_of(c, F, actor):
    """the state an actor is started with"""
    cl = start_args(actor)
    if cl is None:
        return None
    h = c.graph("^" + re.escape(closure_fn(F, cl)) + "$", bytes=True)
    ps = [p for p in paths(h) if p.kind == "ret"]
    if len(ps) != 1:
        return None
    r = ps[0].ret
    if r.op == "agg" and r.a[2] == "Ok":
        r = payload(r)
    return subst(r, list(cl.a[5]))


def link_of(c, F, link, cfg, rcv, name):
    st = state_of(c, F, agg_field(payload_of(link), "actor")) if agg_field(payload_of(link), "actor") is not None else None
    if st is None:
        c.bad("links", name + " state", "the state of the link in %s could not be determined: %s" % (name, full(link)[:200]))
        return
    c.ob("links", name + " configuration", desc(agg_field(st, "config")) == cfg, "the link in %s is configured by %s" % (name, desc(agg_field(st, "config"))))
    c.ob("chance", name + " at first", desc(agg_field(st, "previous_packet_dropped")) == "0", "a new link takes the packet before the first one for lost")
    dd = full(agg_field(st, "delay_distribution"))
    m = [x for x in subvals(agg_field(st, "delay_distribution")) if x.op == "call" and re.search(r"RangeInclusive(<.*>)?::new$|Uniform(<.*>)?::new_inclusive$", next((y for y in x.a if isinstance(y, str)), ""))]
    c.ob("delay", name + " interval", "as_millis(%s.delay_min)" % cfg in dd and "as_millis(%s.delay_max)" % cfg in dd and dd.index("delay_min") < dd.index("delay_max"), "the delays of %s are drawn from %s" % (name, dd))
    c.ob("delay", name + " single value", bool(m), "a configuration with a fixed delay panics: the interval %s is empty" % dd)
    lb = payload_of(agg_field(st, "leaky_bucket"))
    ls = state_of(c, F, agg_field(lb, "actor")) if lb is not None and agg_field(lb, "actor") is not None else None
    if ls is None:
        c.bad("links", name + " queue", "the queue of the link in %s could not be determined" % name)
        return
    c.ob("links", name + " queue configuration", desc(agg_field(lb, "config")) == cfg, "the queue in %s is configured by %s" % (name, desc(agg_field(lb, "config"))))
    c.ob("account", name + " one counter", agg_field(lb, "queued_size") == agg_field(ls, "queued_size"), "the queue in %s adds to one counter and takes off another" % name)
    c.ob("account", name + " from zero", full(agg_field(lb, "queued_size")) in ("new(0)", "default()"), "the bytes queued start at %s" % full(agg_field(lb, "queued_size")))
    c.ob("route", name + " receiver", full(agg_field(ls, "receiver")) == rcv, "packets leaving %s go to %s" % (name, full(agg_field(ls, "receiver"))))
