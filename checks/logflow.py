"""what the log statements can print: backward data flow from every formatted value to where its text or
bytes come from (fields, parameters of entry points, constants, native code), over the whole program"""
import re
from facts import tail

NUM = {"bool", "char", "()", "!", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"}
ADDR = {"core::net::ip_addr::IpAddr", "core::net::ip_addr::Ipv4Addr", "core::net::ip_addr::Ipv6Addr", "core::net::socket_addr::SocketAddr",
        "core::net::socket_addr::SocketAddrV4", "core::net::socket_addr::SocketAddrV6"}
TEXT = {"alloc::string::String", "std::ffi::os_str::OsString", "std::ffi::os_str::OsStr", "core::ffi::c_str::CStr", "alloc::ffi::c_str::CString",
        "jni::strings::ffi_str::JNIStr", "std::path::PathBuf", "std::path::Path"}
LEVELS = {"Error", "Warn", "Info"}


def succ(t):
    out = [t[k] for k in ("t", "u", "o") if isinstance(t.get(k), int)]
    return out + [x for _, x in t.get("ts", ())]


class Flow:
    def __init__(self, F, redactors):
        self.F = F
        self.redactors = redactors
        self.memo = {}
        self.before = {}   # results of the previous round: what a recursive use sees while the result is being computed
        self.idx = {}
        self.impl = {}
        self.opaque = set()
        self.visited = set()
        for n, f in F.fns.items():
            m = re.match(r"<(.*) as core::fmt::(Debug|Display|LowerHex|UpperHex)>::fmt$", n)
            if m:
                self.impl[(re.sub(r"<.*", "", m.group(1)), m.group(2))] = n
        self.clo = {}     # closure body -> (fn, operands)
        for n, f in F.fns.items():
            for b in f.b:
                for pl, rv, ln in b["s"]:
                    if rv["r"] == "agg" and rv["ak"] == "closure":
                        self.clo.setdefault(rv["d"], []).append((n, rv["os"]))
        self.sites = {}
        for n, f in F.fns.items():
            for bi, b in enumerate(f.b):
                t = b["t"]
                if t["k"] == "call" and t["f"]["k"] == "fn":
                    for m in self.targets(t["f"]["f"]):
                        self.sites.setdefault(m, []).append((n, t))

    def targets(self, r):
        """bodies a call may run; the standard traits called on a type not known here stay opaque"""
        if (r.get("dyn") or r.get("unres")) and r.get("tr", "").startswith(("core::", "std::", "alloc::")):
            return []
        return self.F.targets(r)

    # ---- per function: what is assigned to each local
    def defs(self, n):
        d = self.idx.get(n)
        if d is None:
            f = self.F.fns[n]
            d, refs = {}, {}
            for b in f.b:
                for pl, rv, ln in b["s"]:
                    if rv["r"] == "dead":
                        continue
                    d.setdefault(pl[0], []).append((pl[1:], rv))
                    if rv["r"] == "ref" and rv.get("m") and len(pl) == 1:
                        refs.setdefault(pl[0], set()).add(rv["p"][0])
            for b in f.b:
                t = b["t"]
                if t["k"] == "call":
                    d.setdefault(t["d"][0], []).append((t["d"][1:], t))
                    for i, a in enumerate(t["a"]):
                        if a["k"] in "mp" and a["p"][0] in refs:
                            w, seen = [a["p"][0]], set()
                            while w:
                                x = w.pop()
                                for y in refs.get(x, ()):
                                    if y not in seen:
                                        seen.add(y)
                                        w.append(y)
                            for y in seen:
                                d.setdefault(y, []).append((None, t, i))
            self.idx[n] = d
        return d

    def strip(self, ty):
        """the type behind references, boxes, guards and the like"""
        F = self.F
        while True:
            t = F.tys[ty]
            if t["k"] in ("ref", "ptr") and t["a"]:
                ty = t["a"][0]
            elif t["k"] == "adt" and t.get("d") in ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc", "std::sync::poison::mutex::MutexGuard", "alloc::borrow::Cow",
                                                    "core::mem::manually_drop::ManuallyDrop", "std::sync::poison::rwlock::RwLockReadGuard", "std::sync::poison::rwlock::RwLockWriteGuard") and t["a"]:
                ty = t["a"][0]
            else:
                return ty

    def kind(self, ty):
        """text | bytes | addr | num | other"""
        F = self.F
        ty = self.strip(ty)
        t = F.tys[ty]
        s = t["s"]
        if s == "str" or t.get("d") in TEXT:
            return "text"
        if t["k"] in ("slice", "array") and t["a"] and F.tys[t["a"][0]]["s"] == "u8":
            return "bytes"
        if t.get("d") in ("alloc::vec::Vec", "core::slice::iter::Iter", "alloc::vec::into_iter::IntoIter") and t["a"] and F.tys[t["a"][0]]["s"] == "u8":
            return "bytes"
        if t.get("d") in ADDR:
            return "addr"
        if s in NUM:
            return "num"
        return "other"

    # ---- printing
    def printed(self, n, op, ty, trait, ctx=()):
        """sources of everything that printing the operand shows: set of (kind, source)"""
        F = self.F
        ty0, ty = ty, self.strip(ty)
        k = self.kind(ty)
        if k == "num":
            return set()
        if k in ("text", "bytes", "addr"):
            return {(k if s[0] != "bytes!" else "bytes", s if s[0] != "bytes!" else s[1]) for s in self.src_op(n, op, ctx)}
        t = F.tys[ty]
        d = t.get("d")
        if d == "core::fmt::Arguments":
            return self.args_of(n, op, ctx)
        if t["k"] == "adt" and d in F.adts and self.local(d):
            return self.shown(ty, trait)
        if t["k"] in ("adt", "tuple", "slice", "array") and t["a"]:
            out = set()
            only = self.variants(n, op) if d in ("core::result::Result", "core::option::Option") else None
            for i, a in enumerate(t["a"]):
                if F.tys[a]["k"] in ("region", "const"):
                    continue
                if only is not None and (i if d.endswith("Result") else 1) not in only:
                    continue
                out |= self.printed(n, op, a, trait, ctx)
            return out
        if t["k"] in ("param", "dyn", "alias", "opaque") or (t["k"] == "adt" and not self.local(d)):
            self.opaque.add(t["s"][:80])
        return set()

    def variants(self, n, op):
        """the variants the printed Result or Option can have there, from the matches the statement lies under"""
        if op["k"] not in "mp" or len(op["p"]) > 2:
            return None
        f = self.F.fns[n]
        w, root = [op["p"][0]], set()
        while w:
            x = w.pop()
            if x in root:
                continue
            root.add(x)
            for df in self.defs(n).get(x, ()):
                if df[0] is None or df[0] or "r" not in df[1]:
                    continue
                rv = df[1]
                p = rv["p"] if rv["r"] == "ref" else rv["o"]["p"] if rv["r"] == "use" and rv["o"]["k"] in "mp" else None
                if p is not None and all(q == "*" for q in p[1:]):
                    w.append(p[0])
                elif p is not None and len(p) == 2 and isinstance(p[1], list) and p[1][0] == "f":
                    # the operands of format_args! are gathered in a tuple
                    for dg in self.defs(n).get(p[0], ()):
                        if dg[0] == [] and dg[1].get("r") == "agg" and p[1][1] < len(dg[1]["os"]) and dg[1]["os"][p[1][1]]["k"] in "mp":
                            o = dg[1]["os"][p[1][1]]["p"]
                            if all(q == "*" for q in o[1:]):
                                w.append(o[0])
        uses = {bi for bi, b in enumerate(f.b) for pl, rv, ln in b["s"]
                if rv["r"] == "ref" and rv["p"][0] in root and all(q == "*" for q in rv["p"][1:]) and pl[0] in root}
        if not uses:
            return None
        last = max(uses)
        out = None
        for bi, b in enumerate(f.b):
            if b["t"]["k"] != "switch" or b["t"]["d"]["k"] not in "mp":
                continue
            dl = b["t"]["d"]["p"][0]
            if not any(rv["r"] == "discr" and pl == [dl] and rv["p"][0] in root and all(q == "*" for q in rv["p"][1:]) for pl, rv, ln in b["s"]):
                continue
            got = set()
            edges = [(v, x) for v, x in b["t"]["ts"]]
            if b["t"].get("o") is not None:
                edges.append((None, b["t"]["o"]))
            given = {v for v, _ in edges if v is not None}
            for v, x in edges:
                seen, w = {bi}, [x]
                while w:
                    y = w.pop()
                    if y in seen:
                        continue
                    seen.add(y)
                    w += succ(f.b[y]["t"])
                if last in seen:
                    got |= {v} if v is not None else {0, 1} - given
            if got:
                out = got if out is None else out & got
        return out

    def local(self, d):
        return d.startswith(("ringrtc::", "mrp::", "protobuf::")) or "::protobuf::" in d

    def shown(self, ty, trait, stack=None):
        """what a value of one of our own types shows when printed"""
        F = self.F
        d = F.tys[ty]["d"]
        key = ("shown", d, trait, tuple(F.tys[ty]["a"]))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = self.before.get(key, set())
        impl = self.impl.get((d, trait))
        if impl is None and trait in ("Debug", "Display") and "protobuf" not in d:
            self.opaque.add("%s as %s" % (d, trait))
        out = set()
        if impl is None and "protobuf" not in d:
            pass
        elif impl is None or F.fns[impl].derived or "protobuf" in d:
            for v in F.adts[d]["vs"]:
                for fname, fty, _ in v[2]:
                    out |= self.field_shown(d, v[0], fname, fty, "Debug")
        else:
            out |= self.impl_shows(impl)
        self.memo[key] = out
        return out

    def field_shown(self, d, variant, fname, fty, trait):
        F = self.F
        out = set()
        ty = self.strip(fty)
        k = self.kind(ty)
        t = F.tys[ty]
        if k in ("text", "bytes", "addr"):
            out.add((k, ("field", d, fname if not fname.isdigit() or len(F.adts[d]["vs"]) == 1 else "%s.%s" % (variant, fname))))
        elif t["k"] == "adt" and t.get("d") in F.adts and self.local(t["d"]):
            out |= self.shown(ty, trait)
        elif t["k"] in ("adt", "tuple", "slice", "array"):
            for a in t["a"]:
                out |= self.field_shown(d, variant, fname, a, trait)
        return out

    def impl_shows(self, impl):
        return self.sites_in(impl, lambda t: True)

    def sites_in(self, n, want):
        """everything given to the formatter in a fmt function"""
        F, out = self.F, set()
        fs = [n] + [m for m in F.fns if m.startswith(n + "::{closure")]
        for m in fs:
            for b in F.fns[m].b:
                t = b["t"]
                if t["k"] != "call" or t["f"]["k"] != "fn":
                    continue
                r = t["f"]["f"]
                nm = r["fn"]
                tn = nm.split("::")[-1]
                if nm.startswith("core::fmt::rt::Argument::new_"):
                    out |= self.printed(m, t["a"][0], r["ga"][-1], self.trait_of(tn))
                elif nm.startswith("core::fmt::builders::") or nm in ("core::fmt::Formatter::write_str", "core::fmt::Formatter::pad") or tn.startswith("debug_"):
                    for i, a in enumerate(t["a"][1:]):
                        ty = self.op_ty(m, a)
                        if ty is not None:
                            ty = self.undyn(m, a, ty)
                            out |= self.printed(m, a, ty, "Debug")
                elif r.get("tr") in ("core::fmt::Display", "core::fmt::Debug") and r["ga"]:
                    out |= self.printed(m, t["a"][0], r["ga"][0], r["tr"].split("::")[-1])
                elif any(self.is_formatter(m, a) for a in t["a"]) and nm in F.fns and nm != n:
                    out |= self.sites_in(nm, want)
        return out

    def is_formatter(self, n, a):
        ty = self.op_ty(n, a)
        return ty is not None and self.F.tys[self.strip(ty)].get("d") == "core::fmt::Formatter"

    def undyn(self, n, a, ty):
        """the concrete type behind a coercion to dyn Debug"""
        if self.F.tys[self.strip(ty)]["k"] != "dyn" or a["k"] not in "mp":
            return ty
        w, seen = [a["p"][0]], set()
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            for df in self.defs(n).get(x, ()):
                rv = df[1]
                if df[0] is None or "r" not in rv:
                    continue
                o = rv.get("o") or ({"k": "p", "p": rv["p"]} if rv["r"] == "ref" else None)
                if o and o["k"] in "mp":
                    t2 = self.op_ty(n, o)
                    if t2 is not None and self.F.tys[self.strip(t2)]["k"] != "dyn":
                        return t2
                    w.append(o["p"][0])
        return ty

    def trait_of(self, tn):
        return {"new_display": "Display", "new_debug": "Debug", "new_lower_hex": "LowerHex", "new_upper_hex": "UpperHex"}.get(tn, "Debug")

    def op_ty(self, n, a):
        F, f = self.F, self.F.fns[n]
        if a["k"] not in "mp":
            return a.get("ty")
        p = a["p"]
        for q in reversed(p[1:]):
            if isinstance(q, list) and q[0] == "f":
                i = p.index(q)
                rest = p[i + 1:]
                return q[4] if not rest else self.deref(q[4], rest)
        return self.deref(f.l[p[0]], p[1:])

    def deref(self, ty, rest):
        for q in rest:
            t = self.F.tys[ty]
            if q == "*" and t["a"]:
                ty = t["a"][0]
        return ty

    # ---- sources
    def src_op(self, n, op, ctx=()):
        if op["k"] not in "mp":
            return {("const", op.get("str", "")[:40])}
        return self.src(n, op["p"], ctx)

    def src(self, n, place, ctx=(), depth=0):
        key = ("src", n, str(place), ctx[-3:])
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = self.before.get(key, set())
        out = self._src(n, place, ctx)
        self.memo[key] = out
        return out

    def field_of(self, place):
        """the last field of one of our own structures on the way"""
        for q in reversed(place[1:]):
            if isinstance(q, list) and q[0] == "f" and q[3] and self.local(q[3]) and "{closure" not in q[3]:
                return q
        return None

    def _src(self, n, place, ctx):
        F, f = self.F, self.F.fns[n]
        q = self.field_of(place)
        if q is not None:
            name = q[2]
            if name.isdigit():
                i = place.index(q)
                v = [x for x in place[:i] if isinstance(x, list) and x[0] == "v"]
                if v and len(F.adts.get(q[3], {"vs": ()})["vs"]) > 1:
                    name = "%s.%s" % (v[-1][2], name)
            o = ("field", q[3], name)
            return {("bytes!", o) if self.kind(q[4]) == "bytes" else o}
        L = place[0]
        out = set()
        # a capture of a closure
        if "{closure" in n and L == 1:
            for q in place[1:]:
                if isinstance(q, list) and q[0] == "f":
                    for pn, os in self.clo.get(n, ()):
                        if q[1] < len(os):
                            out |= self.src_op(pn, os[q[1]])
                    return out
        want = next((q[1] for q in place[1:] if isinstance(q, list) and q[0] == "f"), None)
        if 0 < L <= f.args:
            out |= self.param(n, L - 1, ctx)
        for df in self.defs(n).get(L, ()):
            if df[0] is None:
                _, t, i = df
                if t["f"]["k"] == "fn" and self.targets(t["f"]["f"]):
                    continue
                for j, a in enumerate(t["a"]):
                    if j != i:
                        out |= self.arg(n, a, ctx)
                continue
            pj, rv = df
            if "r" not in rv:
                out |= self.result(n, rv, ctx)
                continue
            r = rv["r"]
            if pj and want is not None:
                k = next((q[1] for q in pj if isinstance(q, list) and q[0] == "f"), None)
                if k is not None and k != want:
                    continue
            if r in ("use", "cast"):
                out |= self.arg(n, rv["o"], ctx, place[1:] if not pj else ())
            elif r == "ref":
                out |= self.src(n, rv["p"] + [q for q in place[1:] if isinstance(q, list)], ctx)
            elif r == "agg":
                os = rv["os"]
                if want is not None and rv["ak"] in ("tuple",) and want < len(os):
                    os = [os[want]]
                for o in os:
                    out |= self.arg(n, o, ctx)
        return out

    def arg(self, n, op, ctx, proj=()):
        """sources of the text or bytes in an operand"""
        F = self.F
        if op["k"] not in "mp":
            return {("const", op.get("str", "")[:40])} if "str" in op else set()
        ty = self.op_ty(n, op)
        if ty is not None:
            k = self.kind(ty)
            if k == "num":
                return set()
            t = F.tys[self.strip(ty)]
            if t.get("d") == "core::fmt::Arguments":
                return {(("bytes!", s) if k2 == "bytes" else s) for k2, s in self.args_of(n, op, ctx)}
            if t["k"] == "adt" and t.get("d") in F.adts and self.local(t["d"]) and not any(isinstance(q, list) for q in proj):
                return {("value", t["d"])}
            if t["k"] == "adt" and not t["a"] and k == "other":
                return set()
            if t["k"] in ("fndef", "closure", "fnptr"):
                return set()
        return self.src(n, op["p"] + [q for q in proj if isinstance(q, list)], ctx)

    def result(self, n, t, ctx):
        F = self.F
        if t["f"]["k"] != "fn":
            return set()
        r = t["f"]["f"]
        nm = r.get("r") or r["fn"]
        if any(re.search(p, nm) for p in self.redactors):
            return {("redacted", nm)}
        tg = self.targets(r)
        if tg and not (nm.startswith(("core::", "alloc::", "std::")) and any(self.callee_of(n, a) for a in t["a"])):
            out = set()
            for m in tg:
                if any(c[0] == m for c in ctx) or len(ctx) > 6:
                    continue
                self.visited.add(m)
                out |= self.src(m, [0], ctx + ((m, n, id(t)),))
                self.keep = getattr(self, "keep", {})
                self.keep[id(t)] = t
            return out
        if r.get("ffi"):
            return {("native", nm)}
        if r["fn"] == "alloc::string::ToString::to_string" and r["ga"]:
            return {(("bytes!", s) if k == "bytes" else s) for k, s in self.printed(n, t["a"][0], r["ga"][0], "Display", ctx)}
        out, through, plain = set(), [], []
        for a in t["a"]:
            m = self.callee_of(n, a)
            (through if m else plain).append(m or a)
        mapped = r["fn"].split("::")[-1] in ("map", "and_then", "map_or", "map_or_else", "flat_map", "filter_map", "then", "fold")
        data = set()
        for a in plain:
            data |= self.arg(n, a, ctx)
        if not (through and mapped):
            out |= data
        for m in through:
            if any(re.search(p, m) for p in self.redactors):
                out.add(("redacted", m))
            elif m in F.fns and not any(c[0] == m for c in ctx) and len(ctx) <= 6:
                self.visited.add(m)
                for s in self.src(m, [0], ctx + ((m, None, 0),)):
                    if s[0] == "closure" and s[1] == m:
                        out |= data
                    else:
                        out.add(s)
            elif m not in F.fns:
                out |= data
        if re.search(r"CStr::from_ptr$", r["fn"]):
            out.add(("native", "C string"))
        if re.search(r"fs::read|env::|Read::read|io::", r["fn"]):
            out.add(("external", r["fn"]))
        if not out and not r["fn"].startswith(("core::", "alloc::", "std::", "log::")):
            ty = F.fns[n].l[t["d"][0]] if len(t["d"]) == 1 else None
            if ty is not None and self.texty(ty):
                out.add(("external", r["fn"]))
        return out

    def texty(self, ty):
        k = self.kind(ty)
        if k != "other":
            return k != "num"
        t = self.F.tys[self.strip(ty)]
        return t["k"] in ("adt", "tuple", "slice", "array") and any(self.F.tys[a]["k"] not in ("region", "const") and self.texty(a) for a in t["a"])

    def callee_of(self, n, a):
        """the function or closure in an operand"""
        F = self.F
        if a["k"] == "fn":
            return a["f"].get("r") or a["f"]["fn"]
        ty = self.op_ty(n, a)
        if ty is None:
            return None
        t = F.tys[self.strip(ty)]
        if t["k"] == "fndef":
            return t.get("d")
        if t["k"] == "closure":
            return t.get("d")
        return None

    def param(self, n, i, ctx):
        F = self.F
        if ctx and ctx[-1][0] == n:
            _, cn, tid = ctx[-1]
            if cn is None:
                return {("closure", n, i)}
            t = self.keep_term(tid)
            if t is not None and i < len(t["a"]):
                return self.arg(cn, t["a"][i], ctx[:-1])
        if "{closure" in n:
            return {("closure", n, i)}
        cs = self.sites.get(n, ())
        if not cs:
            ty = F.fns[n].l[i + 1]
            return {("entry", n, i, F.ts(ty)[:60])}
        out = set()
        key = ("param", n, i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = self.before.get(key, set())
        for cn, t in cs:
            if i < len(t["a"]):
                out |= self.arg(cn, t["a"][i], ())
        self.memo[key] = out
        return out

    def keep_term(self, tid):
        if not hasattr(self, "terms"):
            self.terms = {id(b["t"]): b["t"] for f in self.F.fns.values() for b in f.b}
        return self.terms.get(tid)

    # ---- fmt::Arguments
    def args_of(self, n, op, ctx=()):
        """everything the format arguments print"""
        out = set()
        if op["k"] not in "mp":
            return out
        w, seen = [op["p"]], set()
        F = self.F
        while w:
            p = w.pop()
            L = p[0]
            if L in seen:
                continue
            seen.add(L)
            if "{closure" in n and L == 1:
                for q in p[1:]:
                    if isinstance(q, list) and q[0] == "f":
                        for pn, os in self.clo.get(n, ()):
                            if q[1] < len(os):
                                out |= self.args_of(pn, os[q[1]])
                continue
            if 0 < L <= F.fns[n].args and F.tys[self.strip(F.fns[n].l[L])].get("d") == "core::fmt::Arguments":
                for cn, t in self.sites.get(n, ()):
                    out |= self.args_of(cn, t["a"][L - 1])
                continue
            for df in self.defs(n).get(L, ()):
                if df[0] is None:
                    continue
                rv = df[1]
                if "r" not in rv:
                    if rv["f"]["k"] != "fn":
                        continue
                    r = rv["f"]["f"]
                    nm = r["fn"]
                    if nm.startswith("core::fmt::rt::Argument::new_"):
                        out |= self.printed(n, rv["a"][0], r["ga"][-1], self.trait_of(nm.split("::")[-1]), ctx)
                    else:
                        for a in rv["a"]:
                            if a["k"] in "mp":
                                w.append(a["p"])
                elif rv["r"] in ("use", "cast"):
                    if rv["o"]["k"] in "mp":
                        w.append(rv["o"]["p"])
                elif rv["r"] == "ref":
                    w.append(rv["p"])
                elif rv["r"] == "agg":
                    for o in rv["os"]:
                        if o["k"] in "mp":
                            w.append(o["p"])
        return out

    def level(self, n, op):
        if op["k"] not in "mp":
            return None
        w, seen, out = [op["p"][0]], set(), set()
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            for df in self.defs(n).get(x, ()):
                if df[0] is None:
                    continue
                rv = df[1]
                if rv.get("r") == "agg" and rv.get("d") == "log::Level":
                    out.add(rv["vn"])
                elif rv.get("r") == "use" and rv["o"]["k"] in "mp":
                    w.append(rv["o"]["p"][0])
                elif rv.get("r") == "ref":
                    w.append(rv["p"][0])
                else:
                    out.add(None)
        return out

    def statements(self):
        """-> (function, what kind of statement, line, {(kind, source)}); repeated until the sources of recursive flows are complete"""
        for _ in range(8):
            out = list(self.round())
            if self.memo == self.before:
                return out
            self.before, self.memo = self.memo, {}
        raise RuntimeError("the sources of the log messages do not settle")

    def round(self):
        F = self.F
        for impl in self.impl.values():
            # written by hand: made to be printed
            if not F.fns[impl].derived and impl.startswith(("<ringrtc::core::", "<ringrtc::webrtc::", "<ringrtc::lite::")):
                yield impl, "impl", 0, self.impl_shows(impl)
        for n, f in F.fns.items():
            for bi, b in enumerate(f.b):
                t = b["t"]
                if t["k"] != "call" or t["f"]["k"] != "fn":
                    continue
                r = t["f"]["f"]
                nm = r["fn"]
                if nm == "log::__private_api::log":
                    lv = self.level(n, t["a"][2])
                    if lv and lv <= {"Debug", "Trace"}:
                        yield n, "off", t["line"], set()
                    else:
                        yield n, "log", t["line"], self.args_of(n, t["a"][1])
                elif nm in ("core::panicking::panic_fmt", "anyhow::__private::format_err", "std::io::stdio::_print", "std::io::stdio::_eprint"):
                    yield n, nm.split("::")[-1], t["line"], self.args_of(n, t["a"][0])
