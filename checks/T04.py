"""T04: SFU and call-link requests validate first and report one truthful result each"""
from rules import *
from keys_lib import core, full_desc, same
from S10 import closures_in

TECHNIQUE = "path tables of the request functions, of their response handlers and of the status classification (MIR)"
L = r"ringrtc::lite::"
SEND = r"http::Client(>)?::send_request$"
CALL = re.compile(r"(Box(<.*>)?|FnOnce(<.*>)?|dyn .*)(::| as .*::)call_once$")
ALREADY, INVALID, EXPIRED, FAILED, JSON, NOT_STARTED = 705, 704, 703, 602, 702, 404
CLASSES = {"Informational": (100, 199), "Success": (200, 299), "Redirection": (300, 399), "ClientError": (400, 499), "ServerError": (500, 599), "RequestError": (600, 699), "ResponseError": (700, 799)}
OPS = {"sfu::peek": True, "sfu::join": True, "call_links::read_call_link": True, "call_links::create_call_link": False, "call_links::update_call_link": True, "call_links::delete_call_link": True}
KEY = r"arg\d+(\.call_link_root_key)?(@V\d\.0)?"


def status(v):
    """the constant of a status value, or its description"""
    v = core(v)
    if v.op == "kc":
        m = re.search(r"ResponseStatus\((\d+)\)", desc(v))
        return int(m.group(1)) if m else desc(v)
    if v.op == "agg" and v.a[0] == "adt" and v.a[1].endswith("ResponseStatus"):
        x = v.a[5][0]
        return x.a[0] if x.op == "k" else full_desc(core(x))
    return full_desc(v)


def outcome(v):
    """('Ok', payload) or ('Err', status) of a reported result"""
    v = v if v.op != "mut" else core(v)
    if v.op == "agg" and v.a[0] == "tuple" and len(v.a[5]) == 1:
        v = v.a[5][0]
    n = variant_of(v)
    if n == "Ok":
        return "Ok", payload(v)
    if n == "Err":
        return "Err", status(payload(v))
    return None, v


def callback(e, want):
    """is this the call of the result callback"""
    return e[0] == "call" and CALL.search(e[1]) and e[2] and want(core(e[2][0]))


def codes(p, root):
    lo, hi, ne = p.rng({root + ".status.code": 1})
    return max(lo, 0), min(hi, 65535), ne


def guards(c, name, f, valid):
    F = c.F
    g = c.graph(f, deep=True, closures=False)
    types = [F.ts(F.fns[f].l[i + 1]) for i in range(F.fns[f].args)]
    cb = [i for i, t in enumerate(types) if "FnOnce" in t]
    if not c.ob("one result", name + " callback", len(cb) == 1, "%s takes %d callbacks" % (name, len(cb))):
        return []
    mine = lambda v: v.op == "arg" and v.a[0] == cb[0]
    closures = []
    kinds = set()
    for p in paths(g):
        if p.kind != "ret":
            continue
        sends = [e for e in p.ev if e[0] == "call" and re.search(SEND, e[1])]
        cbs = [e for e in p.ev if callback(e, mine)]
        key = {next(iter(e[2][1])) == 1 for e in p.ass if e[1].op == "call" and e[1].a[2].endswith("::is_valid") and e[2][0] == "e" and len(e[2][1]) == 1 and re.fullmatch(KEY, full_desc(core(e[1].a[3][0])))}
        nokey = any((optfact(e) or (None, 1))[1] == 0 and re.fullmatch(KEY, (optfact(e) or ("",))[0].replace("~", "")) and "Option" in str(e) or
                    (e[1].op == "discr" and e[2] == ("e", frozenset((0,))) and re.fullmatch(r"arg\d+(\.call_link_root_key)?", full_desc(e[1].a[0])) and not valid_v(F, e[1])) for e in p.ass)
        if cbs:
            kinds.add("refused")
            c.ob("one result", name + " refused", len(cbs) == 1 and not sends, "%s reports %d results and sends %d requests" % (name, len(cbs), len(sends)))
            k, v = outcome(cbs[0][2][1])
            c.ob("validation", name + " refusal", k == "Err" and v == (INVALID if valid else ALREADY), "%s refuses with %s" % (name, v if k == "Err" else "a success"))
            c.ob("validation", name + " refuses only", key == {not valid}, "%s refuses %s" % (name, "without looking at the key" if not key else "the wrong keys"))
            continue
        kinds.add("sent")
        if not c.ob("one result", name + " sent", len(sends) == 1, "%s reports nothing and sends %d requests" % (name, len(sends))):
            continue
        c.ob("validation", name + " sends only", key == {valid} or (nokey and valid and not key), "%s sends a request for a root key that %s" % (name, "was not validated" if not key else "is unusable"))
        cl = closures_in(sends[0][2][2])
        own = [i for i, x in enumerate(cl[0].a[5]) if mine(core(x))] if len(cl) == 1 else []
        if c.ob("one result", name + " handler", len(own) == 1, "the result of %s is not reported by its response handler" % name):
            caps = tuple(full_desc(core(x)) for x in cl[0].a[5])
            if (cl[0].a[1], own[0]) not in closures:
                closures.append((cl[0].a[1], own[0]))
    c.ob("validation", name + " outcomes", kinds == {"refused", "sent"}, "%s never %s" % (name, "sends" if "sent" not in kinds else "refuses"))
    return closures


def valid_v(F, t):
    """does the discriminant belong to a key (V0, V1) rather than to an optional key"""
    return "Option" not in F.ts(t.a[1]) if len(t.a) > 1 and isinstance(t.a[1], int) else False


def handler(c, name, clo, own):
    """what the response handler reports, for every response"""
    F = c.F
    peek, create = name.endswith("peek"), name.endswith("create_call_link")
    g = c.graph(clo, deep=True, cap=1000, noinline=lambda x: re.search(r"::deobfuscate|::from_serialized$|JoinResponse::from$", x))
    mine = lambda v: v.op == "f" and v.a[0].op == "arg" and v.a[0].a[0] == 0 and v.a[1] == str(own)
    seen = set()
    for p in paths(g):
        if p.kind == "panic":
            c.ob("response", name + " panic", False, "the response handler of %s can panic" % name)
        if p.kind != "ret":
            continue
        root = "arg1"
        lo, hi, ne = codes(p, root)
        is404 = [e[2][1] for e in p.ass if e[1].op == "eq" and e[2][0] == "e" and any(status(x) == NOT_STARTED for x in e[1].a) and any(full_desc(core(x)) == root + ".status" for x in e[1].a)]
        yes404 = frozenset((1,)) in is404 or (lo, hi) == (404, 404)
        no404 = frozenset((0,)) in is404 or not lo <= 404 <= hi or 404 in ne
        if yes404 and (no404 or not lo <= 404 <= hi) or lo > hi:
            continue
        if any(e[1].op == "eq" and e[2][0] == "e" and all(isinstance(status(x), int) for x in e[1].a) and e[2][1] != {int(status(e[1].a[0]) == status(e[1].a[1]))} for e in p.ass):
            continue
        none = [o[1] for o in map(optfact, p.ass) if o and o[0].replace("~", "") == root]
        if 0 in none and 1 in none:
            continue
        cbs = [e for e in p.ev if callback(e, mine)]
        if not c.ob("one result", name + " reported", len(cbs) == 1, "%s reports %d results for one response" % (name, len(cbs))):
            continue
        k, v = outcome(cbs[0][2][1])
        parses = [e for e in p.ev if e[0] == "call" and e[1].endswith("de::from_slice") and full_desc(core(e[2][0], True)) == root + ".body"]
        # a result that is passed on as it is
        if k is None and parses and same(v, parses[0][3]):
            k = {0: "Ok", 1: "Err"}.get(next((o[1] for o in map(optfact, p.ass) if o and o[0].replace("~", "") == full_desc(parses[0][3])), None))
            if k == "Err":
                v = "the parser's error"
        what = "%s of %s" % ("a success" if k == "Ok" else "the status %s" % (v if k == "Err" else "?"), name)
        if 0 in none:
            seen.add("none")
            c.ob("response", name + " no response", k == "Err" and v == FAILED, "no response at all is reported as %s" % what)
            continue
        if not c.ob("response", name + " looked at", 1 in none, "a result is reported without looking whether there is a response"):
            continue
        parsed = None
        for e in parses[:1]:
            parsed = next((o[1] for o in map(optfact, p.ass) if o and o[0].replace("~", "") == full_desc(e[3])), None)
        facts_ = [o for o in map(optfact, p.ass) if o and "process_server_response" in o[0]]
        upd = next((o[1] for o in facts_ if o[0].replace("~", "").endswith(")") and not re.search(r"@Ok\.0", o[0])), None)
        new = facts_[-1][1] if len(facts_) > 1 else None
        if 200 <= lo and hi <= 299:
            seen.add("success")
            if not c.ob("response", name + " parsed", len(parses) == 1 and (parsed is not None or k is None), "a successful response of %s is reported without being parsed" % name):
                continue
            if parsed == 1:
                seen.add("malformed")
                c.ob("response", name + " malformed", k == "Err" and v == JSON, "an unreadable successful response is reported as %s" % what)
            elif k == "Err" and create and v == FAILED:
                c.ob("response", name + " key update", upd == 1, "a readable successful response is reported as %s" % what)
            else:
                if create:
                    c.ob("response", name + " key update", upd == 0, "a created call link whose key could not be updated is reported as %s" % what)
                    key = [full_desc(e[2][1]) for e in p.ev if e[0] == "call" and e[1].endswith("::from_serialized")]
                    c.ob("response", name + " updated key", len(key) == 1 and ("process_server_response" in key[0] or new == 0), "the link is reported with the key %s" % key)
                uses = isinstance(v, Val) and any(same(x, parses[0][3]) for x in subvals(v))
                c.ob("response", name + " success", k == "Ok" and uses, "a readable successful response is reported as %s" % what + ("" if uses else " that does not come from it"))
            continue
        if lo <= 299 and hi >= 200 and not is404:
            c.ob("response", name + " status", False, "a result is reported without looking at the status code %d..%d" % (lo, hi))
            continue
        if peek and yes404:
            ln = p.rng({"len(%s.body)" % root: 1})
            if ln[0] >= 1 or 0 in ln[2]:
                seen.add("404 body")
                why = {("expired" if "'expired'" in desc(e[1]) else "invalid" if "'invalid'" in desc(e[1]) else "?"): e[2][1] for e in p.ass if e[1].op == "eq" and ".reason" in full_desc(e[1])}
                want = EXPIRED if why.get("expired") == {1} else INVALID if why.get("invalid") == {1} else None
                if want and parsed == 0:
                    seen.add(want)
                    c.ob("response", name + " not found", k == "Err" and v == want, "a call link reported as %s is reported as %s" % ("expired" if want == EXPIRED else "invalid", what))
                else:
                    c.ob("response", name + " not found", k == "Err" and v in (root + ".status", NOT_STARTED), "'not found' with a reason is reported as %s" % what)
            elif ln[1] <= 0:
                seen.add("404")
                ok = k == "Ok" and isinstance(v, Val) and v.op == "agg" and v.a[1].endswith("PeekInfo") and all(re.search(r"default\(\)|Option::None|Vec::new|False|^0$", desc(x)) for x in v.a[5])
                c.ob("response", name + " nobody there", ok, "'not found' without a reason is reported as %s" % what)
            else:
                c.ob("response", name + " not found", False, "'not found' is reported as %s without looking for a reason" % what)
            continue
        if peek and not no404:
            c.ob("response", name + " not found", False, "a result is reported without looking whether the call was not found")
            continue
        seen.add("error")
        c.ob("response", name + " error", k == "Err" and v == root + ".status", "a response with an error status is reported as %s" % what)
    want = {"none", "success", "malformed", "error"} | ({"404", "404 body", EXPIRED, INVALID} if peek else set())
    c.ob("response", name + " cases", want <= seen, "%s does not tell apart: %s" % (name, sorted(map(str, want - seen))))


def classes(c):
    F = c.F
    f = F.one(L + r"http::ResponseStatusType::from_code$")
    got = {}
    for p in paths(c.graph(f)):
        if p.kind != "ret":
            continue
        lo, hi, ne = p.rng({"arg0": 1})
        lo, hi = max(lo, 0), min(hi, 65535)
        if lo <= hi:
            got.setdefault(variant_of(p.ret) or desc(p.ret), []).append((lo, hi))
    for n, (a, b) in CLASSES.items():
        xs = sorted(got.get(n, []))
        c.ob("classes", n, cover(xs) == [(a, b)], "status codes %s count as %s" % (cover(xs), n))
    rest = cover(sorted(sum((v for k, v in got.items() if k not in CLASSES), [])))
    c.ob("classes", "others", rest == [(0, 99), (800, 65535)], "status codes %s belong to no class" % rest)
    for fn, names in (("is_success", {"Success"}), ("is_error", {"ClientError", "ServerError", "RequestError", "ResponseError"})):
        f = F.one(L + r"http::ResponseStatusType::%s$" % fn)
        yes = set()
        for p in paths(c.graph(f)):
            if p.kind == "ret":
                vs = p.variant(F, "arg0")
                if p.ret.op == "k" and p.ret.a[0] == 1:
                    yes |= set(vs or ("everything",))
                elif p.ret.op != "k":
                    yes |= {"?" + desc(p.ret)}
        c.ob("classes", fn, yes == names, "%s is said of %s" % (fn, sorted(yes)))


def cover(xs):
    out = []
    for a, b in xs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def requesters(c):
    """the C entry points: at most one operation, whose result goes to the application's delegate once, with its request id"""
    F = c.F
    n = 0
    ops = re.compile(L + "(" + "|".join(OPS) + ")$")
    for name, f in sorted(F.fns.items()):
        if not re.search(r"::ios::rtc_sfu_\w+$", name) or "{" in name or not str(f.abi).startswith("C "):
            continue
        g = c.graph(name, deep=True, closures=False, interest=lambda x: ops.search(x), noinline=lambda x: ops.search(x))
        short_name = tail(name)
        done = set()
        types = [F.ts(f.l[i + 1]) for i in range(f.args)]
        dele = [i for i, t in enumerate(types) if "Delegate" in t]
        rid = [i for i, t in enumerate(types) if t == "u32"]
        for p in paths(g):
            if p.kind != "ret":
                continue
            cs = [e for e in p.ev if e[0] == "call" and ops.search(e[1])]
            if not cs:
                continue
            n += 1
            if not c.ob("requester", short_name + " one operation", len(cs) == 1, "%s starts %d operations" % (short_name, len(cs))):
                continue
            cl = closures_in(cs[0][2][-1])
            caps = [core(x) for x in cl[0].a[5]] if len(cl) == 1 else []
            own = [i for i, x in enumerate(caps) if x.op == "arg" and x.a[0] in dele]
            ids = [i for i, x in enumerate(caps) if x.op == "arg" and x.a[0] in rid]
            if not c.ob("requester", short_name + " delegate", len(own) == 1 and len(ids) == 1, "the result of %s does not go to its requester" % short_name) or cl[0].a[1] in done:
                continue
            done.add(cl[0].a[1])
            for q in paths(c.graph(cl[0].a[1], deep=True, noinline=lambda x: re.search(r"handle_(response|peek_result)$", x))):
                if q.kind != "ret":
                    continue
                hs = [e for e in q.ev if e[0] == "call" and re.search(r"handle_(response|peek_result)$", e[1])]
                got = [full_desc(core(x)) for x in hs[0][2]] if len(hs) == 1 else []
                c.ob("requester", short_name + " result", got == ["arg0.%d" % own[0], "arg0.%d" % ids[0], "arg1"], "the result of %s is passed on as %s" % (short_name, got))
    c.floor("requesters", n, 6)
    m = 0
    for name in sorted(F.fns):
        if re.search(r"::ios::rtc_sfu_\w*Delegate(::handle_response| as .*::handle_peek_result)$", name) or re.search(r"<ringrtc::lite::sfu::ios::rtc_sfu_Delegate as .*>::handle_peek_result$", name):
            m += 1
            g = c.graph(name, deep=True, cap=60)

            def step(q, e):
                o = optfact(e)
                if o and o[0].replace("~", "") == "arg2":
                    return (o[1], q[1])
                if e[0] == "call" and e[1] == "<indirect>":
                    a = [full_desc(core(x)) for x in e[2]]
                    r = next((core(x) for x in e[2] if core(x).op == "agg" and "Response" in str(core(x).a[1])), None)
                    if q[1]:
                        return Bad("tells the application twice")
                    if r is None or "arg1" not in a or a[:2] not in ([a[0], "arg0.retained"],):
                        return Bad("tells the application %s" % a)
                    code = full_desc(core(agg_field(r, "error_status_code")))
                    if q[0] is None:
                        return Bad("tells the application without looking at the result")
                    if q[0] == 1 and "arg2@Err.0.code" not in code.replace("arg2@Err.0.code", "arg2@Err.0.code"):
                        return Bad("reports an error with the code %s" % code)
                    if q[0] == 0 and ("arg2" in code or not re.search(r"\{0,\s*0\}|default\(\)", code)):
                        return Bad("reports a success with the error code %s" % code)
                    return (q[0], True)
                return q
            c.auto("requester", "delegate " + tail(name), g, (None, False), step, end=lambda q, nd: None if q[1] or not is_ret(g, nd) else "the application is not told")
    c.floor("delegates", m, 3)


def is_ret(g, n):
    return not any(e[0] in ("panic", "mpanic") for e in n.ev)


def check(c):
    F = c.F
    c.rule("validation", "a request is sent only for a usable root key (creating: only for one that is not usable yet); others are refused with the documented status before anything is sent")
    c.rule("one result", "every way through a request function either reports one result or sends one request whose handler owns the callback and reports one result")
    c.rule("response", "what the handler reports: no response 602; error status as is; unreadable success 702; 404 of a peek by its reason; success only from a parsed 2xx response")
    c.rule("classes", "status codes belong to their documented classes")
    c.rule("requester", "the C entry points hand the result to the requester's delegate once, with its id; an error code exactly for errors")
    classes(c)
    n = 0
    for name, valid in OPS.items():
        f = F.one(L + name + "$")
        for clo, own in guards(c, tail(name), f, valid):
            n += 1
            handler(c, tail(name), clo, own)
    c.floor("handlers", n, 6)
    known = {L + x for x in OPS}
    for s in call_sites(F, SEND):
        root = re.sub(r"(::\{closure#\d+\})+.*", "", s[0])
        if "::lite::" in root and "::sim::" not in root:
            ops = {F.one(L + x + "$") for x in OPS}
            c.ob("one result", "sends in " + tail(root), root in ops or only_called_from(F, root, ops), "%s sends a request outside the known operations" % root)
    requesters(c)
    return "strong", "every way through the six operations and their response handlers, with the status code as a range"
