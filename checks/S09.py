"""S09: wire numbers and enum values mean the same wherever they are converted"""
import glob
from rules import *
from absint import lin, mk, K, Val
import facts as factsmod

TECHNIQUE = "conversion tables computed from MIR paths (number range -> variant, variant -> number), compared with the enum's own discriminants, with each other, with the Java, Swift and TypeScript declarations and with the protocol's field registry"
NOTE = "names pair the variants of one enum across languages; a value that crosses in a place where only the type is visible (an `as` cast) is taken from the discriminant the compiler computed"
REPO = os.environ.get("VERIF_REPO", "/repo")
B = 10 ** 30
CG = "ringrtc::core::group_call::"
CM = "ringrtc::common::"
PC = "ringrtc::webrtc::peer_connection_observer::"
J = "src/android/api/org/signal/ringrtc/"
S = "src/ios/SignalRingRTC/SignalRingRTC/"
T = "src/node/ringrtc/"


def vs(F, adt):
    if adt not in F.adts:
        raise Missing("enum %s" % adt)
    return [(v[0], v[1]) for v in F.adts[adt]["vs"]]


def inputs(p):
    """{term: (lo, hi, excluded)} / {term: set of discriminants} assumed about the arguments on this path"""
    out = {}
    for e in p.ass:
        t, f = desc(e[1]), e[2]
        if f[0] == "r":
            if e[1].op == "bin" and e[1].a[0] == "Div" and number(e[1].a[2]) and f[1] >= 0:
                d = number(e[1].a[2])
                t, f = desc(e[1].a[1]), ("r", f[1] * d, f[2] * d + d - 1, frozenset(y for x in f[3] for y in range(x * d, x * d + d)))
            lo, hi, ne = out.get(t, (-B, B, frozenset()))
            out[t] = (max(lo, f[1]), min(hi, f[2]), ne | f[3])
        elif f[0] == "e":
            old = out.get(t)
            out[t] = frozenset(f[1]) & old if isinstance(old, frozenset) else frozenset(f[1])
    return out


def leaf(v, enums):
    """(enum, variant) of the enum constructed inside v, through Some / Ok / a wrapping record"""
    for x in subvals(v):
        if x.op == "agg" and x.a[0] == "adt" and x.a[1] in enums:
            return x.a[1], x.a[2]
    return None


def number(v):
    c, d = lin(v)
    return c if not d else None


def none_like(v):
    """the result says 'no such value'"""
    return v.op == "agg" and v.a[2] in ("None", "Err")


class S09:
    def __init__(self, c):
        self.c, self.F = c, c.F
        self.tabs = {}

    def table(self, fn):
        if fn not in self.tabs:
            self.tabs[fn] = paths(self.c.graph("^" + re.escape(fn) + "$", bytes=True))
        return self.tabs[fn]

    # ---- A: a number is turned into the variant that has this number
    def from_number(self, fn, enum, fallback=None, names=None, width=1):
        c, F = self.c, self.F
        c.rule("from-number", "a conversion from a number yields, for each number, the variant with exactly that number, and an error, a panic or the documented default for every other number")
        disc = {n: d for n, d in vs(F, enum)}
        seen = {}
        ok, why = True, ""
        for p in self.table(fn):
            ins = {t: r for t, r in inputs(p).items() if isinstance(r, tuple)}
            lo = max([r[0] for r in ins.values()] or [-B])
            hi = min([r[1] for r in ins.values()] or [B])
            if lo > hi:
                continue
            single = lo // width == hi // width
            if p.kind != "ret":
                if single and lo in disc.values():
                    ok, why = False, "%d (%s) is refused" % (lo, [n for n, d in disc.items() if d == lo][0])
                continue
            el = [x for x in [p.ret.a[5][0] if p.ret.op == "agg" and p.ret.a[5] else p.ret] if desc(x).startswith("elem(")]
            if el and p.ret.op != "call":
                # the element of a literal list whose own number is the argument
                vars_ = [l[1] for y in subvals(el[0]) if y.op == "agg" and y.a[0] in ("aiter", "array") for x in y.a[5] for l in [leaf(x, {enum})] if l]
                eq = [e for e in p.ass if e[2][0] == "r" and e[2][1:3] == (0, 0) and {desc(t): k for t, k in lin(e[1])[1].items()} in ({"arg0": 1, "discr(%s)" % desc(el[0]): -1}, {"arg0": -1, "discr(%s)" % desc(el[0]): 1})]
                if not eq:
                    ok, why = False, "an element that need not have the number is chosen"
                for n in vars_:
                    seen.setdefault(n, set())
                continue
            if none_like(p.ret) or p.ret.op == "call" and any(e[2][0] == "e" and e[2][1] == frozenset([0]) and desc(e[1]) == "discr(%s)" % desc(p.ret) for e in p.ass):
                l = None
            else:
                l = leaf(p.ret, {enum})
            if l is None:
                if single and lo in disc.values() and not (names and [n for n, d in disc.items() if d == lo][0] in names):
                    ok, why = False, "%d (%s) is not recognised" % (lo, [n for n, d in disc.items() if d == lo][0])
                continue
            n = l[1]
            if not single:
                if n != fallback:
                    ok, why = False, "any number in %s..%s outside the table becomes %s" % (lo if lo > -B else "", hi if hi < B else "", n)
                continue
            seen.setdefault(n, set()).add((lo, hi))
            if names and n in names:
                continue
            if n == fallback and lo not in disc.values():
                continue
            if lo != disc.get(n) or (width > 1 and hi != lo + width - 1):
                ok, why = False, "%d..%d becomes %s, which is %s" % (lo, hi, n, disc.get(n)) if width > 1 else "%d becomes %s, which is %s" % (lo, n, disc.get(n))
        if ok and not seen:
            ok, why = False, "no table was found"
        miss = [n for n, d in disc.items() if n not in seen and not (names and n in names) and n != fallback]
        if ok and miss:
            ok, why = False, "%s is never produced" % ", ".join(miss)
        c.ob("from-number", tail(fn), ok, "%s: %s" % (tail(fn), why))

    # ---- variants to numbers or variants
    def mapping(self, fn, ret=None):
        """{variant discriminant: set of results} of a function that matches on one enum argument"""
        out = {}
        for p in self.table(fn):
            ds = [r for t, r in inputs(p).items() if isinstance(r, frozenset) and t.startswith("discr(arg")]
            if not ds:
                continue
            for d in frozenset.intersection(*ds):
                out.setdefault(d, set()).add(ret(p) if ret else (number(p.ret) if p.kind == "ret" else None))
        return out

    def to_number(self, fn, enum, want=None):
        c = self.c
        c.rule("to-number", "a conversion to a number gives each variant its own number")
        m = self.mapping(fn)
        ds = dict(vs(self.F, enum))
        ok = set(m) == set(ds.values()) and all(len(x) == 1 and None not in x for x in m.values())
        vals = [next(iter(x)) for x in m.values()] if ok else []
        if not c.ob("to-number", tail(fn), ok and len(set(vals)) == len(vals), "%s does not give every variant its own number: %s" % (tail(fn), {k: sorted(map(str, v)) for k, v in m.items()})):
            return {}
        byd = {d: n for n, d in ds.items()}
        return {byd[d]: next(iter(x)) for d, x in m.items()}

    def pairs(self, fn, src, dst, eq, inst=None):
        """every variant of src becomes the variant of dst that eq names"""
        c = self.c
        c.rule("variant-map", "a conversion between two enums that share numbers or meanings pairs equal meanings")
        sd = {d: n for n, d in vs(self.F, src)}
        n = 0
        for p in self.table(fn):
            fs = [r for t, r in inputs(p).items() if isinstance(r, frozenset) and "discr(" in t and r <= set(sd)]
            if p.kind != "ret" or not fs:
                continue
            for d in frozenset.intersection(*fs):
                got = self.result(p, dst)
                n += 1
                c.ob("variant-map", "%s/%s" % (inst or tail(fn), sd[d]), eq(sd[d], d, got), "%s turns %s::%s into %s" % (tail(fn), short(src), sd[d], got))
        return n

    def result(self, p, dst):
        l = leaf(p.ret, {dst})
        if l:
            return l[1]
        for v in subvals(p.ret):
            x = number(v) if v.op in ("k", "lin") else None
            if x is not None and x >= 0:
                return x
        return None


# ---- foreign declarations
def strip_comments(s):
    return re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", "", s, flags=re.S))


def foreign(path, name):
    """{member: number} of an enum declared in Java, Swift or TypeScript source"""
    with open(os.path.join(REPO, path)) as f:
        s = strip_comments(f.read())
    m = re.search(r"\benum\s+%s\b[^{]*\{" % name, s)
    if not m:
        raise Missing("enum %s in %s" % (name, path))
    i, d = m.end(), 1
    while d and i < len(s):
        d += {"{": 1, "}": -1}.get(s[i], 0)
        i += 1
    body = s[m.end():i - 1]
    out, n = {}, -1
    if path.endswith(".java"):
        items = [x.strip() for x in body.split(";")[0].split(",")]
    elif path.endswith(".swift"):
        items = [y.strip() for x in re.findall(r"^\s*case\s+([^:\n]+)$", body, re.M) for y in x.split(",")]
    else:
        items = [x.strip() for x in body.split(",")]
    for it in items:
        m = re.match(r"^(?:@\w+\s+)*(\w+)\s*(?:\([^)]*\))?\s*(?:=\s*(.+))?$", it, re.S)
        if not m:
            continue
        if m.group(2) is not None:
            e = m.group(2).strip().rstrip(";")
            if not re.fullmatch(r"[-0-9xXa-fA-F<>|()\s_]+", e):
                raise Missing("the number of %s in %s" % (m.group(1), path))
            n = int(eval(e, {"__builtins__": {}}))
        else:
            n += 1
        out[m.group(1)] = n
    return out


def norm(s):
    return s.replace("_", "").lower()


FOREIGN = [
    # rust enum, declarations, aliases (rust name -> other spellings), rust-only variants, ordinal function
    (CM + "CallEndReason", [(J + "CallManager.java", "CallEndReason"), (S + "CallManager.swift", "CallEndReason"), (T + "Service.ts", "CallEndReason")],
     {"failedtonegotiatesrtpkeys": ["failedtonegotiatedsrtpkeys"], "failedtonegotiatedsrtpkeys": ["failedtonegotiatesrtpkeys"]}, (), None),
    (CM + "ApplicationEvent", [(J + "CallManager.java", "CallEvent"), (S + "CallManager.swift", "CallManagerEvent")],
     {"localringing": ["ringinglocal"], "remoteringing": ["ringingremote"], "localaccepted": ["connectedlocal", "localconnected"], "remoteaccepted": ["connectedremote", "remoteconnected"]}, (), None),
    (CM + "CallMediaType", [(J + "CallManager.java", "CallMediaType"), (S + "RingValidation.swift", "CallMediaType"), (T + "Service.ts", "OfferType")],
     {"audio": ["audiocall"], "video": ["videocall"]}, (), None),
    ("ringrtc::core::signaling::HangupType", [(J + "CallManager.java", "HangupType"), (S + "CallManager.swift", "HangupType"), (T + "Service.ts", "HangupType")],
     {"acceptedonanotherdevice": ["accepted"], "declinedonanotherdevice": ["declined"], "busyonanotherdevice": ["busy"]}, (), None),
    (CM + "DataMode", [(J + "CallManager.java", "DataMode"), (S + "CallManager.swift", "DataMode"), (T + "Service.ts", "DataMode")], {}, ("Custom",), None),
    ("ringrtc::lite::http::Method", [(J + "CallManager.java", "HttpMethod"), (S + "HTTP.swift", "HTTPMethod"), (T + "Service.ts", "HttpMethod")], {}, (), None),
    (CG + "RingUpdate", [(J + "CallManager.java", "RingUpdate"), (S + "CallManager.swift", "RingUpdate"), (T + "Service.ts", "RingUpdate")], {"expiredrequest": ["expiredring"]}, (), None),
    (CG + "RingCancelReason", [(J + "CallManager.java", "RingCancelReason"), (S + "CallManager.swift", "RingCancelReason"), (T + "Service.ts", "RingCancelReason")], {}, (), None),
    (CG + "SignalingMessageUrgency", [(J + "CallManager.java", "CallMessageUrgency"), (S + "CallManager.swift", "CallMessageUrgency"), (T + "Service.ts", "CallMessageUrgency")], {}, (), None),
    (CG + "ConnectionState", [(J + "GroupCall.java", "ConnectionState"), (S + "GroupCall.swift", "ConnectionState"), (T + "Service.ts", "ConnectionState")], {}, (), CG + "ConnectionState::ordinal"),
    (CG + "JoinState", [(J + "GroupCall.java", "JoinState"), (S + "GroupCall.swift", "JoinState"), (T + "Service.ts", "JoinState")], {}, (), CG + "JoinState::ordinal"),
    (CG + "SpeechEvent", [(J + "GroupCall.java", "SpeechEvent"), (S + "GroupCall.swift", "SpeechEvent"), (T + "Service.ts", "SpeechEvent")], {}, (), CG + "SpeechEvent::ordinal"),
    (PC + "NetworkAdapterType", [(S + "CallManager.swift", "NetworkAdapterType"), (T + "Service.ts", "NetworkAdapterType")], {"default": ["anyaddress"]}, (), None),
    ("ringrtc::webrtc::media::VideoPixelFormat", [(T + "Service.ts", "VideoPixelFormatEnum")], {}, (), None),
    ("log::Level", [(S + "Logging.swift", "RingRTCLogLevel")], {}, (), None),
    ("log::LevelFilter", [(T + "Service.ts", "CallLogLevel")], {}, (), None),
    ("ringrtc::lite::call_links::CallLinkRestrictions", [(T + "CallLinks.ts", "CallLinkRestrictions")], {}, (), None),
]

# numbers fixed outside this repository: WebRTC's C++ side, IANA's SRTP suites, the RTP payload numbers
FIXED = {
    "ringrtc::webrtc::sdp_observer::SrtpCryptoSuite": {"Aes128CmSha1": 1, "AeadAes128Gcm": 7, "AeadAes256Gcm": 8},
    "ringrtc::webrtc::sdp_observer::RffiVideoCodecType": {"Vp8": 8, "Vp9": 9},
    "ringrtc::webrtc::ffi::logging::LogSeverity": {"Verbose": 0, "Info": 1, "Warn": 2, "Error": 3, "None": 4},
    PC + "NetworkAdapterType": {"Unknown": 0, "Ethernet": 1, "Wifi": 2, "Cellular": 4, "Vpn": 8, "Loopback": 16, "Default": 32, "Cellular2G": 64, "Cellular3G": 128, "Cellular4G": 256, "Cellular5G": 512},
    PC + "TransportProtocol": {"Udp": 0, "Tcp": 1, "Tls": 2, "Unknown": 3},
    PC + "IceConnectionState": {"New": 0, "Checking": 1, "Connected": 2, "Completed": 3, "Failed": 4, "Disconnected": 5, "Closed": 6},
    "ringrtc::protobuf::rtp_data::hangup::Type": {"HangupNormal": 0, "HangupAccepted": 1, "HangupDeclined": 2, "HangupBusy": 3, "HangupNeedPermission": 4},
    "ringrtc::lite::http::ResponseStatusType": {"Unknown": 0, "Informational": 100, "Success": 200, "Redirection": 300, "ClientError": 400, "ServerError": 500, "RequestError": 600, "ResponseError": 700},
}


def languages(c):
    c.rule("foreign", "a number has the same meaning in Rust and in the Java, Swift and TypeScript declarations: variants of the same name have the same number, and a number Rust can send is declared there")
    k = S09(c)
    for adt, decls, alias, only, ordinal in FOREIGN:
        rust = dict(vs(c.F, adt))
        if ordinal:
            rust = k.to_number(ordinal, adt)
        for path, name in decls:
            f = foreign(path, name)
            byname = {norm(n): v for n, v in f.items()}
            lang = path.rsplit(".", 1)[1]
            used = 0
            for n, v in rust.items():
                if n in only:
                    continue
                cand = [x for x in [norm(n)] + alias.get(norm(n), []) if x in byname]
                if cand:
                    used += 1
                    c.ob("foreign", "%s/%s/%s" % (short(adt), lang, n), byname[cand[0]] == v, "%s::%s is %d in Rust and %d in %s (%s)" % (short(adt), n, v, byname[cand[0]], path, name))
                else:
                    c.ob("foreign", "%s/%s/%s" % (short(adt), lang, n), v in f.values() or norm(n) == "off", "%s::%s is sent as %d, which %s (%s) does not declare" % (short(adt), n, v, path, name))
            need_ = len([n for n in rust if n not in only])
            if adt.startswith("log::"):
                need_ -= 1
            c.floor("foreign names %s %s" % (short(adt), lang), used, max(1, need_ - 2))
    c.rule("fixed", "numbers shared with WebRTC's C++ side, the protocol or a standard keep the value registered for that name")
    for adt, want in FIXED.items():
        rust = dict(vs(c.F, adt))
        hit = [n for n in want if n in rust]
        for n in hit:
            c.ob("fixed", "%s/%s" % (short(adt), n), rust[n] == want[n], "%s::%s is %d, registered as %d" % (short(adt), n, rust[n], want[n]))
        for n in rust:
            if n not in want:
                c.ob("fixed", "%s/%s" % (short(adt), n), rust[n] not in [want[x] for x in hit], "%s::%s takes the number %d of another variant" % (short(adt), n, rust[n]))
        c.ob("fixed", "%s/numbers" % short(adt), set(want.values()) - set(rust.values()) == set(), "%s lost the number(s) %s" % (short(adt), sorted(set(want.values()) - set(rust.values()))))
        c.floor("fixed names %s" % short(adt), len(hit), len(want) - 1)


# ---- bytes of an address
def abytes(v, n):
    """the n bytes of an address value as (source, index) in network order, or None"""
    if v.op == "k" and n == 1:
        return [("k", v.a[0])]
    if v.op == "call":
        nm = v.a[2].rsplit("::", 1)[1] if "::" in v.a[2] else v.a[2]
        args = v.a[3:] if not (len(v.a) > 3 and isinstance(v.a[3], tuple)) else v.a[3]
        if re.search(r"Ipv[46]Addr::octets$", v.a[2]):
            return [(desc(args[0]), i) for i in range(n)]
        if re.search(r"Ipv[46]Addr::new$", v.a[2]) and len(args) in (4, 8) and n == (4 if len(args) == 4 else 16):
            w = 1 if len(args) == 4 else 2
            out = []
            for x in args:
                b = abytes(x, w)
                if b is None:
                    return None
                out += b
            return out
        if re.search(r"Ipv[46]Addr(::|.*>::)from(_octets)?$", v.a[2]):
            return abytes(args[0], n)
        if re.search(r"::(try_into|into|clone|to_vec|to_owned|try_from|from)$", v.a[2]):
            return abytes(args[0], n)
    if v.op in ("pure",):
        m = v.a[0]
        if m.endswith("from_be_bytes"):
            return abytes(v.a[1][0], n)
        if m.endswith("to_be_bytes"):
            x = v.a[1][0]
            i = elem_index(x)
            if i is not None and i[0].op == "call" and i[0].a[2].endswith("segments") and n == 2:
                return [(desc(cargs(i[0])[0]), 2 * i[1]), (desc(cargs(i[0])[0]), 2 * i[1] + 1)]
            return None
        return None
    if v.op == "rep":
        return [("rep", i) for i in range(n)]
    if v.op == "upd":
        b = abytes(v.a[0], n)
        e = v.a[1]
        if b is None:
            return None
        if e[0] == "r":
            lo, hi = number(e[1]), number(e[2]) if e[2] is not None else n
            if lo is None or hi is None or not 0 <= lo <= hi <= n:
                return None
        elif e[0] == "i" and number(e[1]) is not None:
            lo, hi = number(e[1]), number(e[1]) + 1
        else:
            return None
        x = abytes(v.a[2], hi - lo)
        return None if x is None else b[:lo] + x + b[hi:]
    if v.op == "agg" and v.a[0] == "array":
        out = []
        k = len(v.a[5])
        if n % k:
            return None
        for x in v.a[5]:
            b = abytes(x, n // k)
            if b is None:
                return None
            out += b
        return out
    if v.op == "agg" and v.a[2] in ("V4", "V6", "Ok", "Some"):
        return abytes(v.a[5][0], n)
    i = elem_index(v)
    if i is not None and n == 1:
        b = abytes(i[0], 2) if i[0].op == "pure" else None
        if b is not None:
            return [b[i[1]]]
        if i[0].op == "call" and i[0].a[2].endswith("octets"):
            return [(desc(cargs(i[0])[0]), i[1])]
        if i[0].op == "call":
            return None
        return [(desc(i[0]), i[1])]
    if v.op == "f" or v.op == "arg":
        d = bare(v)
        return [(d, i) for i in range(n)]
    if v.op in ("gp", "*", "as"):
        return abytes(v.a[0], n)
    return None


def bare(v):
    """the description of a value without the conversions around it"""
    d = desc(v)
    while re.fullmatch(r"(\[?\w+(;\w+)?\]?::)?(try_into|into|try_from|from|clone|to_vec|to_owned)\([^,]*\)", d):
        d = d[d.index("(") + 1:-1]
    return d


def cargs(v):
    return v.a[3] if len(v.a) > 3 and isinstance(v.a[3], tuple) else v.a[3:]


def elem_index(v):
    """(array, index) for array[const]"""
    if v.op == "idx":
        n = number(v.a[1]) if isinstance(v.a[1], Val) else v.a[1]
        return (v.a[0], n) if n is not None else None
    if v.op == "f" and str(v.a[1]).startswith("[") and str(v.a[1]).endswith("]") and str(v.a[1])[1:-1].isdigit():
        return v.a[0], int(str(v.a[1])[1:-1])
    return None


def main_tables(c):
    k = S09(c)
    F = c.F
    sig = "ringrtc::core::signaling::"
    for fn, enum, fb, names in [
        (sig + "HangupType::from_i32", sig + "HangupType", None, None),
        (CM + "CallDirection::from_i32", CM + "CallDirection", None, None),
        (CM + "CallMediaType::from_i32", CM + "CallMediaType", None, None),
        (CM + "DataMode::from_i32", CM + "DataMode", "Normal", ("Custom",)),
        ("ringrtc::webrtc::media::VideoPixelFormat::from_i32", "ringrtc::webrtc::media::VideoPixelFormat", None, None),
        ("ringrtc::android::call_manager::jint_to_restrictions", "ringrtc::lite::call_links::CallLinkRestrictions", None, ("Unknown",)),
        ("ringrtc::lite::call_links::ios::from_i8_to_restrictions", "ringrtc::lite::call_links::CallLinkRestrictions", None, ("Unknown",)),
        ("<" + CG + "RingCancelReason as num_enum::TryFromPrimitive>::try_from_primitive", CG + "RingCancelReason", None, None),
    ]:
        k.from_number(fn, enum, fb, names)
    k.from_number("ringrtc::lite::http::ResponseStatusType::from_code", "ringrtc::lite::http::ResponseStatusType", "Unknown", None, 100)
    n = 9
    # every other number -> enum function of the crate is held to the same rule
    seen = set(k.tabs)
    ints = re.compile(r"^[iu](8|16|32|64|size)$")
    enums = {a for a, d in F.adts.items() if a.startswith("ringrtc::") and len(d["vs"]) >= 2 and all(not v[2] for v in d["vs"])}
    for fn, f in sorted(F.fns.items()):
        if fn in seen or f.derived or f.args != 1 or "{" in fn or "::sim::" in fn:
            continue
        ty = [F.tys[x]["s"] for x in f.l[:2]]
        m = re.fullmatch(r"(?:core::option::Option<|core::result::Result<)?([\w:]+)(?:,[^,]*)?>?", ty[0])
        if ints.match(ty[1]) and m and m.group(1) in enums and re.search(r"from", tail(fn)):
            n += 1
            k.from_number(fn, m.group(1))
    c.floor("number -> enum tables", n, 16)

    # B: pairs of enums
    n = 0
    n += k.pairs("<ringrtc::lite::call_links::CallLinkRestrictions as core::convert::From<ringrtc::protobuf::group_call::sfu_to_device::peek_info::CallLinkRestrictions>>::from",
                 "ringrtc::protobuf::group_call::sfu_to_device::peek_info::CallLinkRestrictions", "ringrtc::lite::call_links::CallLinkRestrictions", lambda nm, d, got: got == nm, "CallLinkRestrictions")
    rv, pv = "ringrtc::webrtc::sdp_observer::RffiVideoCodecType", "ringrtc::protobuf::signaling::VideoCodecType"
    rx = re.compile(r"VideoCodec(Type)?\b")
    enc = dec = 0
    for fn, f in sorted(F.fns.items()):
        if not fn.startswith("ringrtc::webrtc::sdp_observer::") or f.derived or "promoted" in fn:
            continue
        ty = [F.tys[x]["s"] for x in f.l[:1 + f.args]]
        a, r = " ".join(ty[1:]), ty[0]
        if re.search(r"Rffi\w*VideoCodec", a) and "Iterator" not in a and re.search(r"signaling::VideoCodec", r) and "Vec" not in r and "slice" not in r:
            ds = dict(vs(F, pv))
            x = k.pairs(fn, rv, pv, lambda nm, d, got: got == d or got == nm, "codec to protobuf")
            enc += x
            n += x
        if re.search(r"signaling::VideoCodec", a) and re.search(r"Rffi\w*VideoCodec", r) and "Vec" not in r:
            for p in k.table(fn):
                if p.kind != "ret":
                    continue
                l = leaf(p.ret, {rv})
                if not l:
                    continue
                nums = [t for t in inputs(p).values() if isinstance(t, tuple) and t[0] == t[1]]
                c.ob("variant-map", "codec from protobuf/%s" % l[1], [x[0] for x in nums] == [dict(vs(F, rv))[l[1]]], "the codec numbers %s become %s" % ([x[0] for x in nums], l[1]))
                dec += 1
                n += 1
    c.floor("codec conversions", min(enc, 2) + min(dec, 2), 4)
    st, ct = "ringrtc::webrtc::stats_observer::StatsVideoCodecType", "ringrtc::protobuf::call_summary::VideoCodec"
    c.floor("variant pairs", n, 6)

    # C: hang-up types
    c.rule("inverse", "converting a value to its wire form and back gives the same value")
    names = dict(vs(F, sig + "Hangup"))
    fwd, back = {}, {}
    for p in k.table(sig + "Hangup::to_type_and_device_id"):
        d = [r for t, r in inputs(p).items() if t == "discr(arg0)"]
        r = p.ret
        ok = p.kind == "ret" and len(d) == 1 and len(d[0]) == 1 and r.op == "agg" and leaf(r.a[5][0], {sig + "HangupType"})
        if not c.ob("inverse", "Hangup/to/%s" % (min(d[0]) if d else "?"), ok, "a hang-up is not turned into one type"):
            continue
        second = r.a[5][1]
        fwd[next(iter(d[0]))] = (leaf(r.a[5][0], {sig + "HangupType"})[1], "none" if second.op == "agg" and second.a[2] == "None" else ("own" if re.fullmatch(r"arg0@\w+\.0", desc(second)) or (second.op == "agg" and second.a[2] == "Some" and re.fullmatch(r"arg0@\w+\.0", desc(second.a[5][0]))) else desc(second)))
    ht = {n_: d for n_, d in vs(F, sig + "HangupType")}
    for p in k.table(sig + "Hangup::from_type_and_device_id"):
        d = [r for t, r in inputs(p).items() if t == "discr(arg0)"]
        l = leaf(p.ret, {sig + "Hangup"}) if p.kind == "ret" else None
        if not c.ob("inverse", "Hangup/from/%s" % (min(d[0]) if d else "?"), len(d) == 1 and l, "a hang-up type is not turned into one hang-up"):
            continue
        pl = p.ret.a[5]
        for x in d[0]:
            back[x] = (l[1], "none" if not pl else ("own" if desc(pl[0]) == "arg1" or (pl[0].op == "agg" and pl[0].a[2] == "Some" and desc(pl[0].a[5][0]) == "arg1") else desc(pl[0])))
    for n_, d in names.items():
        t = fwd.get(d, (None, None))
        b = back.get(ht.get(t[0], -1), (None, None))
        c.ob("inverse", "Hangup/%s" % n_, b[0] == n_ and b[1] == t[1] and t[1] in ("own", "none"), "Hangup::%s becomes type %s with device id %s, which reads back as Hangup::%s with %s" % (n_, t[0], t[1], b[0], b[1]))
    c.floor("hang-up types", len(names), 5)
    # the hang-up type sent in-call is the protobuf enum of the same number
    pt, rt = dict(vs(F, "ringrtc::protobuf::rtp_data::hangup::Type")), ht
    alias = {"AcceptedOnAnotherDevice": "Accepted", "DeclinedOnAnotherDevice": "Declined", "BusyOnAnotherDevice": "Busy"}
    for n_, d in rt.items():
        o = "Hangup" + alias.get(n_, n_)
        c.ob("variant-map", "hangup/%s" % n_, pt.get(o, d) == d and d in pt.values(), "HangupType::%s is %d, protobuf %s is %s" % (n_, d, o, pt.get(o)))

    # D: addresses
    c.rule("address-bytes", "an address keeps its family, bytes in network order and port through every conversion")
    net = "ringrtc::webrtc::network::"
    ipfn = [(net + "RffiIp::ip", False)]
    for p in k.table(net + "RffiIp::ip"):
        v6 = [next(iter(r)) for t, r in inputs(p).items() if t == "arg0.v6" and isinstance(r, frozenset)]
        l = leaf(p.ret, {"core::net::ip_addr::IpAddr"}) if p.kind == "ret" else None
        if not c.ob("address-bytes", "RffiIp::ip/%s" % v6, len(v6) == 1 and l and l[1] == ("V6" if v6[0] else "V4"), "an address with v6=%s becomes %s" % (v6, l and l[1])):
            continue
        b = abytes(p.ret, 16 if v6[0] else 4)
        c.ob("address-bytes", "RffiIp::ip/%s/bytes" % l[1], b == [("arg0.address", i) for i in range(len(b or []))] and b, "the bytes of %s are %s" % (l[1], b))
    for p in k.table("<" + net + "RffiIp as core::convert::From<core::net::ip_addr::IpAddr>>::from"):
        d = [r for t, r in inputs(p).items() if t == "discr(arg0)"]
        is6 = d and d[0] == frozenset([1])
        x, a = agg_field(p.ret, "v6"), agg_field(p.ret, "address")
        src = "arg0@V%d.0" % (6 if is6 else 4)
        b = abytes(a, 16)
        want = [(src, i) for i in range(16 if is6 else 4)]
        c.ob("address-bytes", "RffiIp::from/V%d" % (6 if is6 else 4), number(x) == (1 if is6 else 0) and b is not None and b[:len(want)] == want, "a V%d address becomes v6=%s with bytes %s" % (6 if is6 else 4, desc(x), b))
    ps = [p for p in k.table("<" + net + "RffiIpPort as core::convert::From<core::net::socket_addr::SocketAddr>>::from")]
    for p in ps:
        c.ob("address-bytes", "RffiIpPort::from", re.search(r"SocketAddr::ip\(arg0\)", desc(agg_field(p.ret, "ip"))) and re.fullmatch(r"SocketAddr::port\(arg0\)", desc(agg_field(p.ret, "port"))), "an address and port become %s" % desc(p.ret))
    for fn in (net + "RffiIpPort::socket_addr", "<core::net::socket_addr::SocketAddr as core::convert::From<&%sRffiIpPort>>::from" % net):
        for p in k.table(fn):
            a = cargs(p.ret) if p.ret.op == "call" and p.ret.a[2].endswith("SocketAddr::new") else None
            ok = a is not None and desc(a[1]) == "arg0.port"
            l = leaf(a[0], {"core::net::ip_addr::IpAddr"}) if ok else None
            b = abytes(a[0], 16 if l and l[1] == "V6" else 4) if ok else None
            v6 = p.truth("arg0.ip.v6")
            c.ob("address-bytes", "%s/%s" % (tail(fn), v6), ok and l and (l[1] == "V6") == bool(v6) and b == [("arg0.ip.address", i) for i in range(16 if v6 else 4)], "%s gives %s" % (tail(fn), desc(p.ret)))
    ps = [fn for fn in F.fns if re.search(r"^<ringrtc::protobuf::signaling::SocketAddr as core::convert::From<core::net::socket_addr::SocketAddr>>::from$", fn)]
    for p in k.table(ps[0]) if ps else []:
        d = [r for t, r in inputs(p).items() if t.startswith("discr(")]
        is6 = bool(d) and d[0] == frozenset([1])
        ip, port = agg_field(p.ret, "ip"), agg_field(p.ret, "port")
        src = "(SocketAddr::ip(arg0)@V%d.0|arg0@V%d.0.ip)" % ((6 if is6 else 4,) * 2)
        b = abytes(ip.a[5][0] if ip.op == "agg" and ip.a[2] == "Some" else ip, 16 if is6 else 4)
        c.ob("address-bytes", "protobuf SocketAddr/V%d" % (6 if is6 else 4), b and [i for _, i in b] == list(range(16 if is6 else 4)) and all(s == b[0][0] and "V%d" % (6 if is6 else 4) in s for s, _ in b) and re.search(r"port\(arg0\)$", desc(payload(port) if port.op == "agg" else port)), "a V%d address becomes %s" % (6 if is6 else 4, desc(p.ret)))
    c.ob("address-bytes", "protobuf SocketAddr/conversion", len(ps) == 1, "the conversion to the protobuf address is gone")
    n = 0
    for p in k.table("ringrtc::protobuf::signaling::SocketAddr::to_std"):
        if p.kind != "ret" or none_like(p.ret):
            continue
        ln = inputs(p).get("len(arg0.ip)")
        v = payload(p.ret) if p.ret.op == "agg" and p.ret.a[2] == "Some" else p.ret
        a = cargs(v) if v.op == "call" and v.a[2].endswith("SocketAddr::new") else None
        l = leaf(v, {"core::net::ip_addr::IpAddr"})
        pr = inputs(p).get("arg0.port")
        n += 1
        ok = a is not None and l and ln is not None and ln[0] == ln[1] == (16 if l[1] == "V6" else 4)
        c.ob("address-bytes", "protobuf SocketAddr/to_std/%s" % (l and l[1]), ok and bare(a[1]) == "arg0.port", "an address of %s bytes becomes %s" % (ln and ln[:2], desc(p.ret)))
        b = abytes(a[0], 16 if l[1] == "V6" else 4) if ok else None
        c.ob("address-bytes", "protobuf SocketAddr/to_std/%s/bytes" % (l and l[1]), b == [("arg0.ip", i) for i in range(16 if l and l[1] == "V6" else 4)], "the bytes come out as %s" % (b,))
        lossy = pr is not None and pr[0] >= 0 and pr[1] <= 65535
        tr = any(re.search(r"try_(from|into)", desc(x)) for x in [a[1]]) if a else False
        c.ob("address-bytes", "protobuf SocketAddr/to_std/port", lossy or tr, "a port above 65535 is cut to 16 bits instead of refused")
    c.floor("protobuf addresses", n, 2)

    # E: SRTP suites
    c.rule("srtp-sizes", "each SRTP suite has the key and salt length its name promises")
    ss = "ringrtc::webrtc::sdp_observer::SrtpCryptoSuite"
    byn = dict(vs(F, ss))
    for fn, want in (("key_size", {"Aes128CmSha1": 16, "AeadAes128Gcm": 16, "AeadAes256Gcm": 32}), ("salt_size", {"Aes128CmSha1": 14, "AeadAes128Gcm": 12, "AeadAes256Gcm": 12})):
        m = k.mapping(ss + "::" + fn)
        for n_, w in want.items():
            c.ob("srtp-sizes", "%s/%s" % (fn, n_), m.get(byn.get(n_)) == {w}, "%s of %s is %s, must be %d" % (fn, n_, m.get(byn.get(n_)), w))

    # F: log levels
    c.rule("levels", "log levels keep their meaning between the log crate, WebRTC and the applications")
    lf = dict(vs(F, "log::LevelFilter"))
    sev = "ringrtc::webrtc::ffi::logging::LogSeverity"
    m = k.mapping("ringrtc::webrtc::logging::set_logger", lambda p: next((l[1] for e in p.ev if e[0] == "call" and e[1].endswith("Rust_setLogger") for l in [leaf(e[2][1], {sev})] if l), None))
    for n_, w in {"Off": "None", "Error": "Error", "Warn": "Warn", "Info": "Info", "Debug": "Verbose", "Trace": "Verbose"}.items():
        c.ob("levels", "set_logger/%s" % n_, m.get(lf[n_]) == {w}, "WebRTC's severity for %s is %s, must be %s" % (n_, m.get(lf[n_]), w))
    lv = {d: n_ for n_, d in vs(F, "log::Level")}
    g = c.graph("^ringrtc::webrtc::logging::log_sink_OnLogMessage$", bytes=True, log_off=False)
    got = {}
    for p in paths(g):
        d = [r for t, r in inputs(p).items() if t == "discr(arg0)"]
        if p.kind != "ret" or len(d) != 1:
            continue
        lvl = [x.a[2] for e in p.ev if e[0] == "call" and re.search(r"private_api|log_impl|__log|loc::log|::log$", e[1]) for a in e[2] for x in subvals(a) if x.op == "agg" and x.a[1] == "log::Level"]
        for x in d[0]:
            got.setdefault(x, set()).update(lvl)
    sv = dict(vs(F, sev))
    for n_, w in {"Error": "Error", "Warn": "Warn", "Info": "Info", "Verbose": "Debug"}.items():
        c.ob("levels", "sink/%s" % n_, got.get(sv[n_]) == {w}, "a WebRTC message of severity %s is logged as %s" % (n_, sorted(got.get(sv[n_], []))))
    n = 0
    for p in k.table("ringrtc::lite::logging::ios::rtc_log_init"):
        r = inputs(p).get("arg1")
        for e in p.ev:
            if e[0] == "call" and e[1].endswith("set_max_level"):
                l = leaf(e[2][0], {"log::LevelFilter"})
                n += 1
                c.ob("levels", "rtc_log_init/%s" % (l and l[1]), r and l and ((r[0] == r[1] and lf[l[1]] == r[0]) or (l[1] == "Debug" and not any(r[0] <= x <= r[1] and x not in r[2] for x in lf.values()))), "the level number %s sets %s" % (r and r[:2], l and l[1]))
    c.floor("log levels of rtc_log_init", n, 7)

    # audio device module failure codes
    for fn in sorted(F.fns):
        m = re.match(r"^<(i16|i32|bool) as core::convert::From<ringrtc::webrtc::ffi::audio_device_module::InternalFailure>>::from$", fn)
        if m:
            c.rule("adm-failure", "a failure of the audio device module is reported to WebRTC as -1 or false")
            for p in k.table(fn):
                c.ob("adm-failure", m.group(1), p.kind == "ret" and number(p.ret) == (0 if m.group(1) == "bool" else -1), "a failure is reported as %s" % (p.ret is not None and desc(p.ret)))


# ---- protocol registry
def proto_registry():
    """{message: {field: (number, type, label)}} and {enum: {name: number}} of every .proto of the protocol"""
    out = {}
    for f in sorted(glob.glob(os.path.join(REPO, "protobuf/protobuf/*.proto"))):
        with open(f) as h:
            s = strip_comments(h.read())
        base = os.path.basename(f)[:-6]
        stack = [base]
        for m in re.finditer(r"\b(message|enum|oneof)\s+(\w+)\s*\{|(?:\b(optional|required|repeated)\s+)?([\w.]+)\s+(\w+)\s*=\s*(\d+)\s*(?:\[[^\]]*\])?\s*;|\b(\w+)\s*=\s*(-?\d+)\s*(?:\[[^\]]*\])?\s*;|(\})|(\{)", s):
            if m.group(1):
                stack.append(stack[-1] if m.group(1) == "oneof" else stack[-1] + "." + m.group(2))
            elif m.group(9):
                if len(stack) > 1:
                    stack.pop()
            elif m.group(10):
                stack.append(stack[-1])
            elif m.group(5):
                if m.group(4) in ("option", "syntax", "package"):
                    continue
                out.setdefault(stack[-1], {})[m.group(5)] = [int(m.group(6)), m.group(4).rsplit(".", 1)[-1], "repeated" if m.group(3) == "repeated" else "single"]
            elif m.group(7):
                out.setdefault(stack[-1], {})[m.group(7)] = [int(m.group(8)), "enum", "value"]
    return out


def registry(c):
    c.rule("registry", "a field or enum value of the protocol keeps the number and type it was deployed with")
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "wire.json")) as f:
        want = json.load(f)
    have = proto_registry()
    n = 0
    for msg, fields in sorted(want.items()):
        cur = have.get(msg)
        if cur is None:
            continue
        bynum = {v[0]: v for v in cur.values()}
        for nm, v in sorted(fields.items()):
            x = cur.get(nm) or bynum.get(v[0])
            if x is None:
                continue
            n += 1
            c.ob("registry", "%s.%s" % (msg, nm), x == v, "%s.%s is %s, deployed as %s" % (msg, nm, x, v))
    c.floor("registry", n, int(0.9 * sum(len(x) for x in want.values())))


def check(c):
    main_tables(c)
    languages(c)
    registry(c)
    return "other", "every conversion between numbers and meanings is tabulated from the compiled code and compared, number by number, with the enum's discriminants, with the inverse conversion, with the declarations of the three application languages and with the deployed protocol registry"


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--registry":
        json.dump(proto_registry(), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "wire.json"), "w"), indent=0, sort_keys=True)
