"""S04: secrets and message contents are never logged; addresses are redacted"""
from rules import *
from absint import Val, full
import dfa
from logflow import Flow

TECHNIQUE = "backward taint over MIR from every formatted log argument to its sources; inclusion of address grammars in the compiled regex automata; path rules for the redaction functions"
NOTE = "what the native engine itself logs, text made by other crates, and secrets printed number by number are out of scope; debug and trace messages are compiled out of releases"
U, W, C = "ringrtc::core::util::", "ringrtc::webrtc::", "ringrtc::core::"
REDACT = [r"core::util::redact_string$", r"audio_device_module_utils::redact_for_logging$", r"audio_device_module_utils::redact_by_regex$"]

# what is logged on purpose although it is text, bytes or an address: (owner, field)
SHOWN = {
    # the server's own addresses
    (C + "group_call::SfuInfo", "udp_addresses"), (C + "group_call::SfuInfo", "tcp_addresses"), (C + "group_call::SfuInfo", "tls_addresses"), (C + "group_call::SfuInfo", "hostname"),
    # the group id in a malformed ring message
    ("ringrtc::protobuf::signaling::call_message::RingIntention", "group_id"), ("ringrtc::protobuf::signaling::call_message::RingResponse", "group_id"),
    # reasons and names made by the program, the server or the media engine
    (C + "endorsements::EndorsementUpdateError", "MissingField.0"), (C + "group_call::DheState", "reason"), (C + "group_call::DheState", "FailedToNegotiate.reason"),
    ("ringrtc::lite::sfu::SerializedPeekFailure", "reason"), ("ringrtc::lite::sfu::PeekInfo", "era_id"),
    (W + "stats_observer::VideoReceiverStatsSnapshot", "decoder_implementation"), (W + "stats_observer::VideoSenderStatsSnapshot", "encoder_implementation"),
    (W + "stats_observer::VideoSenderStatsSnapshot", "quality_limitation_reason"), (W + "audio_device_module::AudioDeviceModule", "backend_name"),
    ("ringrtc::virtual_audio::VirtualAudioDevicePair", "input_source"), ("ringrtc::virtual_audio::VirtualAudioDevicePair", "output_sink"),
    # the application's own name for the remote peer
    (C + "call_manager::PendingCallMessages", "remote_peer"), (C + "call_mutex::CallMutex", "mutex"),
    # messages on their way to the application's log
    ("ringrtc::electron::LogMessage", "file"), ("ringrtc::electron::LogMessage", "message"),
}
# the only text in what these keep is the application's own name for the remote peer
SHOWN_TEXT = {(C + "call_manager::PendingCallMessages", "received")}
# the text form of these is what they exist for
MEANT = re.compile(r"call_links::(base16::ConsonantBase16|root_key::CallLinkRootKey) as core::fmt::D")
# entry points whose text may be logged
ENTRIES = {"ringrtc::virtual_audio::VirtualAudioDevicePair::new"}
# text from other crates that identifies the user's devices
DEVICE = re.compile(r"DeviceInfoRef::(device_id|friendly_name|group_id)$")
# what a C string from native code may reach: the engine's own log and error messages, cubeb's after redaction
NATIVE = re.compile(r"logging::log_sink_OnLogMessage$|sdp_observer::(csd|ssd)_observer_on_failure$|SessionDescriptionObserver::on_(create|set)?_?failure$|audio_device_module::log_c_str$")


# ---- the grammar of what must go
def ch(s):
    return ("c", frozenset(s.encode()))


def seq(*a):
    return ("s",) + a


def alt(*a):
    return ("|",) + a


def rep(a, lo, hi):
    return ("r", a, lo, hi)


D = "0123456789"
DIG, COL = ch(D), ch(":")
HEX = rep(ch(D + "abcdefABCDEF"), 1, 4)
SEG = alt(ch("x"), HEX)                              # segments may be anonymised as x
V4 = seq(rep(seq(rep(DIG, 1, 3), ch(".")), 3, 3), alt(ch("x"), rep(DIG, 1, 3)))


def compressed(i, j, end=None):
    b = []
    for k in range(i):
        b += ([COL] if k else []) + [HEX]
    b += [COL, COL]
    for k in range(j):
        b += ([COL] if k else []) + [SEG if end is None else HEX]
    if end is not None:
        b += ([COL] if j else []) + [end]
    return seq(*b)


def grammars():
    v6 = {"full": seq(rep(seq(SEG, COL), 7, 7), SEG), "full with IPv4": seq(rep(seq(HEX, COL), 6, 6), V4)}
    for i in range(8):
        for j in range(8 - i):
            v6["%d::%d" % (i, j)] = compressed(i, j)
    for i in range(6):
        for j in range(6 - i):
            v6["%d::%d with IPv4" % (i, j)] = compressed(i, j, V4)
    al = ch(D + "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
    for j in range(5):
        v6["link-local %d with zone" % j] = seq(ch("fF"), ch("eE"), ch("8"), ch("0"), COL, COL, *([SEG] + [seq(COL, SEG)] * (j - 1) if j else []), ch("%"), al, rep(al, 0, 8))
    return {"IPv4 addresses": {"dotted": V4}, "IPv6 addresses": v6,
            "candidate foundations": {"foundation": seq(*[ch(k) for k in "candidate:"], DIG, rep(DIG, 0, 12))}}


def covers(pair, forms):
    """-> {form: text that is not matched as a whole}, states visited"""
    f, r = pair
    bad, n = {}, 0
    for k, g in forms.items():
        after = (32, 10, None) + ((41, 93) if "zone" not in k else ())
        x, a = dfa.uncovered(f, g, min(f.un), after)
        y, b = (None, 0) if x is not None else dfa.uncovered(r, dfa.rev(g), min(r.an), (32, None))
        n += a + b
        if x is not None or y is not None:
            bad[k] = (x if x is not None else y[::-1]).decode()
        if len(bad) > 3:
            break
    return bad, n


def consts(v):
    """the automata in a value"""
    return [x for x in subvals(v) if x.op == "hb" and str(x.a[0]).startswith("727573742d7265676578")]


def callee(v):
    return tail(v.a[2]) if isinstance(v, Val) and v.op == "call" else ""


def source_of(v, n=0):
    """the value behind conversions"""
    while isinstance(v, Val) and v.op == "call" and re.search(r"(into|from|to_string|to_owned|into_owned|as_ref|deref|borrow|clone)$", v.a[2]) and v.a[3]:
        v = v.a[3][0]
    return v


def const_text(v):
    return isinstance(v, Val) and (v.op in ("k", "str", "hb", "kb") or full(v).startswith("'"))


def redaction(c):
    """redact_string runs all redactors one after the other over the whole text"""
    rules = {
        "chain": "redact_string passes the whole text through redaction steps, each working on the previous one's result, and returns the last result",
        "grammar": "the automaton of one of the steps matches every text of the grammar as a whole, from its first to its last byte",
        "password": "every line with an ICE password is replaced by a constant text",
    }
    for k, t in rules.items():
        c.rule(k, t)
    fn = U + "redact_string"
    g = c.graph(fn, noinline=lambda n: n.endswith("util::replace_all"), bytes=True)
    gr = grammars()
    done = {}
    np = 0
    pwd = 0
    for p in paths(g):
        if p.kind != "ret":
            continue
        np += 1
        steps, v = [], source_of(p.ret)
        while callee(v).endswith("replace_all"):
            steps.append(v)
            v = source_of(v.a[3][0])
        key = tuple(tuple(full(x)[:4000] for x in consts(s)) for s in steps)
        pairs = []
        for s in steps:
            for b in subvals(s.a[3][1]):
                if b.op == "call" and b.a[2].endswith("build_from_dfas") and len(b.a[3]) == 3:
                    cs = [consts(x) for x in b.a[3][1:]]
                    if all(len(x) == 1 for x in cs):
                        pairs.append([dfa.Dfa(bytes.fromhex(x[0].a[0])) for x in cs])
                    break
            c.ob("chain", "replacement", const_text(s.a[3][2]), "a match is replaced by text that is not constant: %s" % full(s.a[3][2])[:80])
        if key not in done:
            done[key] = True
            for name, forms in gr.items():
                best = None
                for q in pairs:
                    b, n = covers(q, forms)
                    c.analysed = getattr(c, "analysed", 0) + n
                    if best is None or len(b) < len(best):
                        best = b
                    if not b:
                        break
                if best is None:
                    best = {"all": "no step is left that matches them"}
                c.ob("grammar", name, not best, "redact_string leaves (part of) %s readable, e.g. %s" % (name, "; ".join("%s: %r" % kv for kv in list(best.items())[:3])))
        # what the chain starts with
        hit = [e for e in p.ev if e[0] == "assume" and callee(e[1]) in PWD and e[2][0] == "e" and e[2][1] == frozenset({1})]
        miss = [e for e in p.ev if e[0] == "assume" and e[2] == ("e", frozenset({0})) and any(callee(x) in PWD + ("Iterator::position", "Iterator::any", "Iterator::find") for x in subvals(e[1]))]
        base = full(v)
        same = v.op == "arg"
        c.ob("password", "tested", not same or miss, "text is returned without looking for an ICE password")
        for e in p.ev:
            if e[0] == "call" and ADAPT.search(e[1]):
                k = e[2][1] if len(e[2]) > 1 else None
                ok = e[1].endswith("::skip") and isinstance(k, Val) and k.op != "lin" and any("position" in callee(x) for x in subvals(k))
                c.ob("password", "all lines", ok or not any(re.search("lines$|iter_mut$|::iter$", callee(x)) for x in subvals(e[2][0])), "not every line with an ICE password is replaced (%s)" % tail(e[1]))
        c.ob("password", "unchanged", not (same and hit), "text with an ICE password line is returned unchanged")
        joined = callee(v).endswith("join") and "arg0" in base
        c.ob("chain", "start", same or joined or "arg0" in base, "the redaction does not start from the text given: %s" % base[:120])
    c.floor("grammar", len([o for o in c.obs if o[0] == "grammar"]), 3)
    c.ob("chain", "paths", np > 0, "redact_string never returns")
    password(c, fn)


ADAPT = re.compile(r"Iterator::(take|skip|step_by|take_while|skip_while|map_while|nth|filter|next_back|last)$")
PWD = ("str::contains", "str::find", "str::starts_with", "str::ends_with", "str::eq", "str::matches", "str::match_indices", "str::strip_prefix", "str::split_once")


def password(c, fn):
    """the lines that are replaced"""
    F = c.F
    found = 0
    names = {fn}
    for p in paths(c.graph(fn, noinline=lambda x: x.endswith("util::replace_all"))):
        for e in p.ev:
            if e[0] == "call":
                names |= {x.a[1] for v in e[2] if isinstance(v, Val) for x in subvals(v) if x.op == "agg" and x.a[0] == "clo" and x.a[1] in F.fns}
    for n in sorted(names):
        f = F.fns[n]
        if F.ts(f.l[0]) == "bool":
            tests = [t for t in paths(c.graph(n))]
            for p in tests:
                for e in p.ev:
                    if e[0] == "call" and tail(e[1]) in PWD:
                        check_test(c, e)
            continue
        for p in paths(c.graph(n, noinline=lambda x: x.endswith("util::replace_all"))):
            if p.kind != "ret":
                continue
            for i, e in enumerate(p.ev):
                if e[0] == "call" and tail(e[1]) in PWD:
                    check_test(c, e)
                if e[0] == "assume" and callee(e[1]) in PWD and e[2] == ("e", frozenset({1})):
                    line = e[1].a[3][0]
                    if full(line).startswith("elem("):
                        continue       # inside a search for the first such line
                    found += 1
                    ok = False
                    for x in p.ev[i + 1:]:
                        if x[0] == "store" and const_text(x[3]):
                            ok = True
                            break
                        if x[0] == "call" and re.search(r"push(_str)?$|insert$|set$", x[1]) and any(const_text(y) for y in x[2][1:]):
                            ok = True
                            break
                        if x[0] == "call" and x[1].endswith("::next"):
                            break
                    ok = ok or ("{closure" in n and const_text(p.ret))
                    c.ob("password", "replaced", ok, "a line with an ICE password is kept")
                    # the lines looked at: from the first that has one, to the end
                    for s in subvals(line):
                        lo, hi = span(s)
                        okl = lo is None or full(lo) == "0" or (lo.op != "lin" and any("position" in callee(x) for x in subvals(lo)))
                        c.ob("password", "range", okl and hi is None, "only part of the lines is looked at: from %s to %s" % tuple("-" if x is None else full(x)[-60:] for x in (lo, hi)))
    c.ob("password", "exists", found > 0, "no path of redact_string replaces a line with an ICE password")


def span(v):
    """the bounds of a part of a sequence"""
    if v.op == "sub" and isinstance(v.a[1], tuple) and v.a[1][0] == "r":
        return v.a[1][1], v.a[1][2]
    if v.op == "call" and re.search(r"index(_mut)?$|get(_mut)?$", v.a[2]) and len(v.a[3]) > 1 and v.a[3][1].op == "agg":
        return agg_field(v.a[3][1], "start"), agg_field(v.a[3][1], "end")
    return None, None


def check_test(c, e):
    pat = full(e[2][1]).strip("'") if len(e[2]) > 1 else ""
    c.ob("password", "test", tail(e[1]) in ("str::contains", "str::find") and pat and pat in "ice-pwd:", "lines with an ICE password are recognised by %s(%r), which misses some" % (tail(e[1]), pat))


def replacing(c):
    c.rule("pieces", "replace_all searches the whole text, puts the replacement in place of every match, copies only what lies between matches, and gives the text back unchanged only without a match")
    g = c.graph(U + "replace_all")
    n = 0
    for p in paths(g):
        if p.kind != "ret":
            continue
        some, put, pushes = 0, 0, 0
        zero = False
        for e in p.ev:
            if e[0] == "call" and re.search(r"Regex(<.*>)?::find_iter$", e[1]):
                c.ob("pieces", "whole", full(source_of(e[2][1])) in ("arg0",), "only %s is searched" % full(e[2][1])[:60])
                n += 1
            elif e[0] == "call" and re.search(r"Regex(<.*>)?::(find|try_search|find_earliest)$", e[1]):
                n += 1
            elif e[0] == "assume" and e[1].op == "discr" and callee(e[1].a[0]) == "FindMatches::next" and e[2] == ("e", frozenset({1})):
                some += 1
            elif e[0] == "assume" and e[2][0] == "r" and e[2][2] == 0 and any(callee(x) == "Match::end" for x in subvals(e[1])):
                zero = True
            elif e[0] == "call" and ADAPT.search(e[1]):
                c.ob("pieces", "every match", not any(callee(x).endswith("find_iter") for x in subvals(e[2][0])), "only some of the matches are replaced (%s)" % tail(e[1]))
            elif e[0] == "call" and re.search(r"String(<.*>)?::push_str$|add_assign$", e[1]):
                pushes += 1
                a = e[2][1]
                if full(a) == "arg2":
                    put += 1
                    continue
                for s in subvals(a):
                    if s.op == "call" and re.search(r"index$|get$", s.a[2]) and len(s.a[3]) > 1:
                        r = s.a[3][1]
                        lo = agg_field(r, "start") if isinstance(r, Val) and r.op == "agg" else None
                        hi = agg_field(r, "end") if isinstance(r, Val) and r.op == "agg" else None
                        if lo is not None:
                            c.ob("pieces", "from", callee(lo) != "Match::start", "a match is copied into the result")
                        if hi is not None:
                            c.ob("pieces", "to", callee(hi) != "Match::end", "a match is copied into the result")
                        if lo is None and hi is None:
                            c.ob("pieces", "all", isinstance(r, Val) and any(callee(x).startswith("Match::") for x in subvals(r)), "the whole text is copied into the result")
        if pushes:
            c.ob("pieces", "each", put >= some, "%d matches, but the replacement is written %d times" % (some, put))
        if full(source_of(p.ret)) == "arg0":
            c.ob("pieces", "unchanged", not some or zero, "the text is returned unchanged although it has a match")
    c.floor("pieces", n, 1)


def devices(c):
    c.rule("prefix", "redact_for_logging shows at most four characters of ASCII text, and at most one of other text")
    for p in paths(c.graph(W + "audio_device_module_utils::redact_for_logging")):
        if p.kind != "ret":
            continue
        ascii_ = any(e[0] == "assume" and callee(e[1]) == "str::is_ascii" and full(e[1].a[3][0]) == "arg0" and e[2] == ("e", frozenset({1})) for e in p.ev)
        limit = 4 if ascii_ else 1
        same = any(e[0] == "assume" and e[1].op == "eq" and e[2] == ("e", frozenset({1})) and "Iterator::take" in full(e[1]) for e in p.ev)
        vals = [p.ret] + [x for e in p.ev if e[0] == "call" and re.search(r"push_str$|push$|extend|format$|join$|concat$", e[1]) for x in e[2][1:]]
        for v in vals:
            t = taken(v)
            c.ob("prefix", "ascii" if ascii_ else "other", t is not None and (t <= limit or same), "%s characters of a device name are kept where %d are allowed" % ("all" if t is None or t > 99 else t, limit))
    c.rule("captures", "redact_by_regex replaces every capture of every match by its redacted form, everywhere in the message")
    fn = W + "audio_device_module_utils::redact_by_regex"
    g = c.graph(fn, noinline=lambda n: n.endswith("redact_for_logging"))
    names = [n for n in c.F.fns if n == fn or n.startswith(fn + "::")]
    calls = [(n, b["t"]["f"]["f"]["fn"]) for n in names for b in c.F.fns[n].b if b["t"]["k"] == "call" and b["t"]["f"]["k"] == "fn"]
    c.ob("captures", "all matches", any(re.search(r"regex::.*Regex::(captures_iter|replace_all)$", x) for _, x in calls) and not any(re.search(r"Regex::(replace|replacen|captures)$|str::replacen$", x) for _, x in calls),
         "only the first match, or the first occurrence of a captured text, is redacted")
    n = 0
    for p in paths(g):
        if p.kind != "ret":
            continue
        for e in p.ev:
            if e[0] == "call" and e[1].endswith("str::replace"):
                n += 1
                b = source_of(e[2][2])
                c.ob("captures", "redacted", const_text(b) or any(callee(x).endswith("redact_for_logging") for x in subvals(b)), "a captured text is replaced by %s" % full(b)[:80])
            if e[0] == "call" and e[1].endswith("Iterator::skip") and ("captures" in full(e[2][0]) or "aptures" in full(e[2][0])):
                k = e[2][1]
                c.ob("captures", "groups", full(k) in ("0", "1"), "the first %s groups are left out" % full(k))
        v = variant_of(p.ret)
        if v == 0:
            c.ob("captures", "none", any(e[0] == "assume" and ("is_match" in full(e[1]) or "next" in full(e[1])) and e[2] == ("e", frozenset({0})) for e in p.ev), "nothing is redacted although the message may match")
    c.floor("captures", n, 1)


def taken(v):
    """how many characters of arg0 a value can show (None: all)"""
    if not isinstance(v, Val):
        return 0
    if v.op == "arg":
        return None if v.a[0] == 0 else 0
    if v.op == "call" and v.a[2].endswith("Iterator::take") and "chars" in full(v.a[3][0]):
        k = full(v.a[3][1])
        return int(k) if k.isdigit() else None
    if v.op == "call" and re.search(r"::(len|is_ascii|count|is_empty)$", v.a[2]):
        return 0
    if v.op == "sub" and v.a[1][0] == "r" and v.a[1][2] is not None:
        k = full(v.a[1][2])
        return int(k) if k.isdigit() else None
    if v.op in ("len", "discr", "eq", "ord", "chk"):
        return 0
    best = 0
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            t = taken(y)
            if t is None:
                return None
            best = max(best, t)
    return best


def statements(c):
    c.rule("bytes", "no log or error message prints bytes (keys, opaque messages, credentials), other than the server's addresses and the group id of a malformed ring")
    c.rule("address", "no log message prints a network address as such")
    c.rule("text", "text from outside and text kept in the program's structures is printed only when it passed a redaction function or is one of the texts meant for the log")
    F = c.F
    fl = Flow(F, REDACT)
    n = {}
    for fn, kind, line, src in fl.statements():
        n[kind] = n.get(kind, 0) + 1
        if kind in ("_print", "_eprint"):
            continue
        at = "%s:%s" % (F.fns[fn].file, line or "")
        for cls, s in sorted(src, key=str):
            rule = {"addr": "address"}.get(cls, cls)
            if s[0] in ("const", "redacted"):
                continue
            if kind == "impl" and MEANT.search(fn):
                continue
            ok = True
            what = ".".join(str(x).split("::")[-1] if "::" in str(x) else str(x) for x in s[1:3])
            if s[0] == "field":
                ok = (s[1], s[2]) in SHOWN or cls == "text" and (s[1], s[2]) in SHOWN_TEXT
            elif s[0] == "entry":
                ok = s[1] in ENTRIES
            elif s[0] == "native":
                ok = cls == "text" and bool(NATIVE.search(fn))
            elif s[0] == "external":
                ok = cls == "text" and not DEVICE.search(s[1])
            else:
                ok = cls == "text"
            c.ob(rule, "%s in %s" % (what, tail(fn) if "{closure" not in fn else "::".join(fn.split("::")[-3:])), ok, "%s: %s prints %s (%s) unredacted" % (at, "the text form made for the log" if kind == "impl" else "a log message", what, cls), [at])
    c.floor("bytes", n.get("log", 0), 700)
    c.seen = n


def check(c):
    redaction(c)
    replacing(c)
    devices(c)
    statements(c)
    return "strong", ("%d log statements at levels that releases keep, %d panics and %d error messages traced back to what they can print; "
                      "%d pairs of automaton states compared for the address grammars") % (c.seen.get("log", 0), c.seen.get("panic_fmt", 0), c.seen.get("format_err", 0), c.analysed)
