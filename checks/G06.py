"""G06: what participants send each other through the SFU is encrypted, what they receive is used only once decrypted"""
from cm_lib import *
from G10 import within, known_v, before

TECHNIQUE = "taint of device-to-device plaintext along every path to the transport, path tables of the media callbacks and their implementations (success implies en/decryption), who-decodes rule (MIR)"
GC = r"core::group_call::Client::"
IO = r"(Writer|Reader)(<.*>)?::\w+$"
CTX = r"core::crypto::Context::\w+$"
OBS = r"PeerConnectionObserverTrait"


def gsteps(c, f, extra=(), **kw):
    kw.setdefault("cap", 900)
    return steps(c, f, extra=(IO, CTX, r"PeerConnection::send_rtp$", r"Observer::\w+$") + extra, inline=(GC + r"\w+$",), **kw)


def carries(v, part, depth=0):
    """does a value contain another otherwise than by its length"""
    if depth > 60:
        return True
    if v == part:
        return True
    if v.op == "len" or v.op in ("discr",):
        return False

    def parts(a):
        for x in a:
            if isinstance(x, Val):
                yield x
            elif isinstance(x, (tuple, list)):
                yield from parts(x)
    return any(carries(x, part, depth + 1) for x in parts(v.a))


def plain(v):
    return d(v).replace("~", "")


def encryption(c, f, p, i, what):
    """the event i of path p lets out what was encrypted: returns (buffer, plaintext) of the one encryption before it that succeeded"""
    q = before(p, i)
    en = [e for e in q.ev if e[0] == "call" and e[1].endswith("crypto::Context::encrypt")]
    if len(en) != 1 or not known_v(q, en[0][3], 0):
        return None
    for e in q.ev:
        if e[0] == "call" and tail(e[1]).endswith("Writer::write_slice") and core(e[3], True) == core(en[0][2][1], True) and known_v(q, e[3], 0):
            w = [x for x in q.ev if x[0] == "call" and tail(x[1]).endswith("Writer::new") and plain(x[3]) == plain(e[2][0])]
            if len(w) == 1:
                src = e[2][1]
                ws = [x for x in q.ev if x[0] == "call" and re.search(r"Writer::write_\w+$", tail(x[1])) and carries(x[2][1], src) and not any(y.op == "call" and str(y.a[2]).endswith("Context::encrypt") for y in subvals(x[2][1]))]
                if len(ws) == 1:
                    return w[0][2][0], src, en[0]
    return None


def sent(c):
    F = c.F
    # functions that give something to the transport, and those that call them
    leaf = {fn for fn, bi, ref, t in call_sites(F, r"PeerConnection::send_rtp$") if "core::group_call::" in fn}
    c.floor("functions that give to the transport", len(leaf), 1)
    up = set(leaf)
    for l in {x.split("::{closure")[0] for x in leaf}:
        up |= {fn for fn, bi, ref, t in call_sites(F, "^" + re.escape(l) + "$") if "core::group_call::" in fn}
    n = k = 0
    for f in sorted(up):
        for p in gsteps(c, f):
            for i, e in enumerate(p.ev):
                if e[0] != "call" or not e[1].endswith("PeerConnection::send_rtp"):
                    continue
                h = core(e[2][1], True)
                ssrc = agg_field(h, "ssrc") if h.op == "agg" else None
                if ssrc is None:
                    c.ob("sent", short(f) + ": header", False, "the header of what is sent is not made up where it is sent")
                    continue
                s = d(ssrc)
                if s == "1":
                    k += 1
                    continue
                if re.fullmatch(r"arg\d+(\.\d+)*", s) and f in leaf:
                    continue
                n += 1
                x = encryption(c, f, p, i, "data")
                c.ob("sent", short(f) + ": encrypted", x is not None, "data for other participants (ssrc %s) is given to the transport on a path where it was not encrypted" % s[:60])
                if x:
                    c.ob("sent", short(f) + ": what is given out", plain(e[2][2]) == plain(x[0]) and not carries(e[2][2], x[1]), "what is given to the transport is not the buffer that was encrypted: " + d(e[2][2])[:80])
                    c.ob("sent", short(f) + ": the key", d(x[2][2][0]).replace("~", "").endswith(".frame_crypto_context"), "data is encrypted with another context than the call's")
    c.floor("sends to other participants", n, 1)
    c.floor("sends to the SFU", k, 1)
    # encoded device-to-device messages reach nothing but the encryption
    m = 0
    fs = set()
    for fn, bi, ref, t in call_sites(F, r"prost::message::Message::encode\w*$"):
        ga = [F.ts(x) for x in (ref.get("rga") or ref.get("ga") or [])]
        if ga and ga[0].endswith("group_call::DeviceToDevice") and "core::" in fn:
            fs.add(fn)
    for f in sorted(fs):
        for p in gsteps(c, f):
            src = [(i, e) for i, e in enumerate(p.ev) if e[0] == "call" and re.search(r"Message>?::encode_to_vec$|Message::encode_to_vec$", e[1])]
            for i, e in src:
                m += 1
                bad = None
                for x in p.ev[i + 1:]:
                    if x[0] != "call" or not any(isinstance(a, Val) and carries(a, e[3]) for a in x[2]):
                        continue
                    if re.search(r"Writer::\w+$|Context::encrypt$|vec::from_elem$|::(deref|as_slice|as_ref|index|len|borrow|fmt|new_debug|new_display|new|default|into|expect|unwrap|branch|from_residual)$", tail(x[1])):
                        continue
                    bad = x[1]
                c.ob("sent", short(f) + ": the encoding", bad is None, "an encoded message to other participants is handed, unencrypted, to %s" % tail(str(bad)))
    c.floor("encodings of messages to participants", m, 2)


def media(c):
    F = c.F
    n = k = 0
    for f in sorted(x for x in F.fns if re.search(r"PeerConnectionObserverTrait(>)?::(encrypt|decrypt)_media$", x)):
        enc = f.endswith("encrypt_media")
        for p in gsteps(c, f):
            if p.kind != "ret" or d(p.ret).startswith("Result::Err{"):
                continue
            r = core(p.ret, False)
            n += 1
            if enc:
                x = encryption(c, f, p, len(p.ev), "media")
                c.ob("media", short_impl(f) + ": encrypted", x is not None, "encrypting a frame succeeds on a path that did not encrypt it")
                if x:
                    c.ob("media", short_impl(f) + ": in and out", plain(x[0]) == "arg2" and plain(x[1]) == "arg1", "what is encrypted is not the whole frame, or not where the engine looks for it: %s, %s" % (d(x[0])[:40], d(x[1])[:40]))
                    c.ob("media", short_impl(f) + ": the key", d(x[2][2][0]).replace("~", "").endswith(".frame_crypto_context"), "frames are encrypted with another context than the call's")
            else:
                de = [e for e in p.ev if e[0] == "call" and e[1].endswith("crypto::Context::decrypt")]
                ok = len(de) == 1 and known_v(p, de[0][3], 0)
                c.ob("media", short_impl(f) + ": decrypted", ok, "decrypting a frame succeeds on a path that did not decrypt it")
                if ok:
                    decrypted(c, short_impl(f), p, de[0], "arg1", "arg2", "arg3", "media")
    c.floor("ways a frame callback succeeds", n, 2)
    # the callbacks of the engine
    for cb, m in (("pc_observer_EncryptMedia", "encrypt_media"), ("pc_observer_DecryptMedia", "decrypt_media")):
        f = F.one("::" + cb + "$")
        for p in steps(c, f, extra=(OBS + r"::\w+$",)):
            if p.kind != "ret":
                continue
            r = d(p.ret)
            if r in ("0", "False"):
                continue
            k += 1
            call = [e for e in p.ev if e[0] == "call" and e[1].endswith("::" + m)]
            ok = len(call) == 1 and known_v(p, call[0][3], 0)
            c.ob("callback", cb + ": success", ok, "the engine is told of success on a path where the frame was not %sed" % m[:7])
            if not ok:
                continue
            st = [e for e in p.ev if e[0] == "store" and within(e[3], call[0][3])]
            c.ob("callback", cb + ": size", len(st) == 1, "the size told to the engine is not that of the result")
            ins = [d(x) for x in call[0][2]]
            c.ob("callback", cb + ": in", any(re.search(r"from_raw_parts\(arg(\d)(\.0)?,arg\d(\.0)?\)", x) for x in ins) and any(re.search(r"from_raw_parts_mut\(arg(\d)(\.0)?,arg\d(\.0)?\)", x) for x in ins), "the callback is not given the engine's buffers")
    c.floor("ways a callback reports success", k, 2)


def short_impl(f):
    m = re.search(r"<.*::(\w+) as", f)
    return (m.group(1) + "::" if m else "default ") + f.split("::")[-1]


def decrypted(c, nm, p, de, demux, cipher, out, rule):
    did, rc, fc, data, mac = de[2][1:6]
    c.ob(rule, nm + ": whose key", plain(did) == demux, "a frame is decrypted with the key of %s, not of the participant it came from" % d(did)[:60])
    w = [e for e in p.ev if e[0] == "call" and re.search(r"Writer::write_slice\w*$", tail(e[1])) and core(e[3], True) == core(data, True)]
    src = [x for e in w for x in [plain(e[2][1])]]
    c.ob(rule, nm + ": what is decrypted", len(w) == 1 and "Reader" in src[0] and cipher in src[0] and (out is None or re.search(r"Writer::new\(%s\)" % out, plain(w[0][2][0]))), "what is decrypted is not the frame that came in, in the place where it is read afterwards")
    c.ob(rule, nm + ": authenticated", "Reader" in plain(mac) and cipher in plain(mac), "the code a frame is authenticated with is not the one that came with it: " + d(mac)[:60])


def enabled(c):
    F = c.F
    n = 0
    f = F.one(r"PeerConnectionObserver(<.*>)?::new$")
    flag = None
    for p in steps(c, f, extra=(r"Rust_createPeerConnectionObserver$",)):
        for e in p.ev:
            if e[0] == "call" and e[1].endswith("Rust_createPeerConnectionObserver"):
                a = [d(x) for x in e[2]]
                # (observer, callbacks, frame encryption, video frame events, video frame contents)
                ok = len(a) == 5 and re.fullmatch(r"arg\d+", a[2]) and len(set(a[2:])) == 3
                c.ob("enabled", "passed on", bool(ok), "the engine's observer is not given the flag asked for: %s" % a)
                flag = a[2] if ok else None
    c.ob("enabled", "the flag", flag is not None, "frame encryption is not passed on to the engine")
    if flag is None:
        return
    idx = int(flag[3:])
    for fn, bi, ref, t in call_sites(F, r"PeerConnectionObserver(<.*>)?::new$"):
        ga = [F.ts(x) for x in (ref.get("rga") or ref.get("ga") or [])]
        if not any("group_call" in x for x in ga):
            continue
        n += 1
        g = fn.split("::{closure")[0]
        seen = False
        for p in steps(c, g, extra=(r"PeerConnectionObserver(<.*>)?::new$",)):
            for e in p.ev:
                if e[0] == "call" and re.search(r"peer_connection_observer::PeerConnectionObserver(<.*>)?::new$", e[1]):
                    seen = True
                    c.ob("enabled", short(g), d(e[2][idx]) in ("1", "True"), "a group call's peer connection is made without frame encryption")
        c.ob("enabled", short(g) + ": seen", seen, "the making of a group call's observer was not found")
    c.floor("group calls' observers", n, 1)


def received(c):
    F = c.F
    n = k = 0
    fs = set()
    for fn, bi, ref, t in call_sites(F, r"prost::message::Message::(decode|merge)\w*$"):
        ga = [F.ts(x) for x in (ref.get("rga") or ref.get("ga") or [])]
        if ga and re.search(r"group_call::(DeviceToDevice|SfuToDevice)$", ga[0]) and "core::" in fn:
            fs.add((fn, bi, ga[0].split("::")[-1]))
    d2d = {f.split("::{closure")[0] for f, b, t in fs if t == "DeviceToDevice"}
    c.floor("functions that decode messages of participants", len(d2d), 1)
    for f in sorted(d2d):
        for p in gsteps(c, f, extra=(GC + r"handle_\w+$", r"Message>?::decode$"), ):
            for i, e in enumerate(p.ev):
                if e[0] != "call" or not re.search(r"Message>?::decode$", e[1]):
                    continue
                q = before(p, i)
                a = d(e[2][0])
                de = [x for x in q.ev if x[0] == "call" and x[1].endswith("crypto::Context::decrypt")]
                ssrc1 = any(x[2][0] == "r" and x[2][1] == x[2][2] == 1 and d(x[1]).endswith(".ssrc") for x in q.ass)
                if ssrc1 and not de:
                    k += 1
                    continue
                n += 1
                ok = len(de) == 1 and known_v(q, de[0][3], 0)
                c.ob("received", short(f) + ": decrypted", ok, "what came from another participant is decoded on a path where it was not decrypted")
                if not ok:
                    continue
                w = [x for x in q.ev if x[0] == "call" and tail(x[1]).endswith("Writer::new")]
                c.ob("received", short(f) + ": what is decoded", len(w) == 1 and plain(w[0][2][0]) in plain(e[2][0]), "what is decoded is not what was decrypted: " + a[:80])
                decrypted(c, short(f), q, de[0], "saturating_sub(arg1.ssrc,13)", "arg2", None, "received")
    c.floor("decodings of participants' messages", n, 1)
    c.floor("decodings of the SFU's messages", k, 1)
    c.ob("received", "who decodes", all(x.startswith("ringrtc::core::group_call::Client::") for x in d2d), "messages of participants are decoded elsewhere: %s" % sorted(d2d))


def check(c):
    c.rule("sent", "whatever a group call gives to the transport outside the stream to the SFU is a buffer of its own that was encrypted, whole, by the call's context just before, with success; an encoded device-to-device message reaches nothing but that encryption")
    c.rule("media", "encrypting or decrypting a frame succeeds only on paths where the call's context did so, with success, on exactly the engine's frame, for decryption with the key of the participant it came from; without a call it fails")
    c.rule("callback", "the engine is told of success only if the frame was encrypted or decrypted, with its size")
    c.rule("enabled", "every group call's peer connection is made with frame encryption")
    c.rule("received", "messages of participants are decoded only from what was decrypted, with success, with the key of the participant named by the packet's ssrc")
    sent(c)
    media(c)
    enabled(c)
    received(c)
    c.cov["functions"] = sorted(x for x in c.F.fns if re.search(r"(en|de)crypt_(media|data)$|send_rtp$|through_sfu$|handle_rtp_received$", x))
    return "strong", "every path from device-to-device data and media frames to the transport and back"
