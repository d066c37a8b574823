"""S08: model assets are used only after their content was verified"""
from rules import *

TECHNIQUE = "dataflow with access-path terms over the MIR of asset registration (what is compared, cut, stored) and of the lookups"
A = "ringrtc::core::assets::"
GROUP, SIZE, HASH, DIS = ".metadata.asset_group", ".metadata.size_bytes", ".metadata.sha512_hash", ".disabled"


def is_insert(e):
    return e[0] == "call" and re.search(r"(BTreeSet|BTreeMap|HashSet)::(insert|replace|append|extend|get_or_insert_with)$|btree::.*::insert$", e[1]) is not None and e[2] and len(e[2]) > 1


def entry_of(s):
    """the manifest entry a size/hash/disabled/metadata term belongs to"""
    m = re.search(r"^(.*)\.metadata(\.\w+)?$|^(.*)\.disabled$", s)
    return (m.group(1) or m.group(3)) if m else None


def norm(s):
    return s.replace("~", "")


STORED = ("or_insert", "or_default", "get(arg0.registry", "get_mut(arg0.registry", "index(arg0.registry", "iter(")


def closure_rets(filters, args):
    out = set()
    for cl in args:
        if cl.op == "agg":
            out |= filters.get(cl.a[1], set())
    return out


def same_version(r):
    m = re.match(r"^\((elem\(.*\)\.version) Eq (.*)\)$", r) or re.match(r"^\((.*) Eq (elem\(.*\)\.version)\)$", r)
    return m is not None and "metadata.version" in r and " Eq " not in m.group(1) + m.group(2)


def check(c):
    F = c.F
    c.rule("verified", "an asset is put in the registry only for a manifest entry of the given group, not disabled, whose digest equals the SHA-512 of the content cut to the entry's size, after checking that there is that much content")
    c.rule("what", "what is stored is that content cut to that size, with that entry's metadata and its version, under the given group")
    c.rule("once", "a version of a group is stored only if it is known not to be there yet")
    c.rule("refuse", "a refusal is an error and stores nothing; success stores the asset")
    c.rule("writers", "nothing else writes the registry or builds assets for it")
    c.rule("lookup", "a lookup returns an asset of the given group and version only")

    add = F.one("^" + A + "AssetManager::add_asset_for_feature$")
    g = c.graph("^" + re.escape(add) + "$", bytes=True, interest=lambda x: x.startswith(A) or re.search("BTreeSet::|CallRwLock", x) is not None)
    # predicates of filters over the manifest
    filters = {}
    for e in evs(g):
        if e[0] == "exit" and "::{closure" in e[1] and e[1].startswith(A):
            filters.setdefault(e[1], set()).add(full(e[2]))
    n = [0]

    def step(q, e):
        facts, state = q
        if e[0] == "call" and "::next" in e[1] and "arg0.manifest" in desc(e[2][0]):
            facts = frozenset(f for f in facts if f[0] in ("fill", "absent"))
        if e[0] == "assume":
            d, f = e[1], e[2]
            if d.op in ("eq", "cmp") and f[0] == "e" and len(f[1]) == 1:
                a, b = [norm(full(x)) for x in d.a[-2:]]
                t = next(iter(f[1]))
                facts |= {("eq", a, b, t), ("eq", b, a, t)}
            elif f[0] == "e" and len(f[1]) == 1 and full(d).endswith(DIS):
                facts |= {("dis", norm(entry_of(full(d))), next(iter(f[1])))}
            elif f[0] == "r":
                cst, ts = lin(d)
                if len(ts) == 2:
                    for x, k in ts.items():
                        if x.op == "len" and full(x).startswith("len("):
                            o = [y for y in ts if y is not x][0]
                            # len - size >= 0
                            lo, hi = (f[1] - cst, f[2] - cst) if k == 1 else (-(f[2] - cst), -(f[1] - cst))
                            if lo >= 0:
                                facts |= {("len", norm(full(x)[4:-1]), norm(full(o)))}
            o = optfact(e)
            if d.op == "call" and re.search(r"Iterator::any$", d.a[2]) and f[0] == "e" and f[1] == frozenset((0,)) and full(d.a[3][0]).startswith(STORED):
                rets = closure_rets(filters, d.a[3][1:])
                if rets and all(same_version(r) for r in rets):
                    facts |= {("absent", norm(full(d)))}
            elif o and o[1] == 0 and d.op == "discr" and d.a[0].op == "call" and re.search(r"Iterator::(find|position)$", d.a[0].a[2]) and full(d.a[0].a[3][0]).startswith(STORED):
                rets = closure_rets(filters, d.a[0].a[3][1:])
                if rets and all(same_version(r) for r in rets):
                    facts |= {("absent", o[0])}
            elif o and o[1] == 0 and "::next(" in o[0] and "arg0.registry" in o[0]:
                facts |= {("absent", o[0])}
        if e[0] == "call" and e[1].endswith("Vec::push") and full(e[2][1]).startswith("next("):
            # a list filled by hand: remember whether only entries of the group went in
            el = norm(full(e[2][1]))
            good = ("eq", el + GROUP, "arg1", 1) in facts and "arg0.manifest" in el
            facts |= {("fill", good)}
        if e[0] == "slice" and "arg2" in full(e[1]):
            hi = norm(full(e[3])) if isinstance(e[3], Val) else str(e[3])
            if not any(f[0] == "len" and f[2] == hi for f in facts) and not hi.startswith("min(") and hi not in ("None", "len"):
                return Bad("the content is cut at %s without checking that it is that long" % hi[-60:])
        if is_insert(e) and "arg0.registry" in full(e[2][0]):
            n[0] += 1
            m = judge(c, facts, e, filters)
            if m:
                return Bad(m)
            return (frozenset(), "stored")
        if e[0] == "ret":
            ok = ok_ret(e[1])
            if state == "stored" and ok is False:
                return Bad("an error is returned although the asset was stored")
            if state != "stored" and ok is not False:
                return Bad("success is reported although nothing was stored")
        return (facts, state)
    c.auto("verified", "registration", g, (frozenset(), None), step)
    c.floor("verified", n[0], 1)

    # --- writers
    regadd = set()
    for fn, bi, ref, t in call_sites(F, r"btree::(set|map)::\w+::(insert|remove|append|clear|retain|replace|extend|pop_\w+|split_off|take)$|CallRwLock::write$"):
        if not fn.startswith(A) and not fn.startswith("<" + A):
            continue
        b = fn.split("::{")[0]
        if not any("Asset" in F.tys[x]["s"] for x in (ref.get("rga") or ref["ga"])):
            continue
        regadd.add(b)
    # the chain of private functions between the manager's entry and the write
    for b in sorted(regadd):
        c.ob("writers", tail(b), b == add or only_called_from(F, b, {add}), "%s writes the registry outside verified registration" % b)
    c.floor("writers", len(regadd), 1)

    # --- lookups
    n = 0
    for x in F.find("^" + A + r"AssetRegistry::get_asset$"):
        g = c.graph("^" + re.escape(x) + "$", bytes=True)
        sel = {}
        for e in evs(g):
            if e[0] == "exit" and "::{closure" in e[1]:
                sel.setdefault(e[1], set()).add(full(e[2]))

        def look(q, e):
            if e[0] == "assume" and e[1].op in ("eq", "cmp") and e[2][0] == "e" and e[2][1] == frozenset((1,)):
                s = {norm(full(y)) for y in e[1].a[-2:]}
                if "arg2" in s and any(y.endswith(".version") for y in s):
                    return "version"
            if e[0] == "call" and e[1].endswith("::next"):
                return None
            if e[0] == "ret" and ok_ret(e[1]) is not False:
                d = full(e[1])
                if not re.search(r"get\(arg0\.assets,arg1\)|index\(arg0\.assets,arg1\)", d) and "arg0.assets,arg1" not in d:
                    return Bad("a lookup returns %s, which is not from the given group" % d[:100])
                if q != "version":
                    return Bad("a lookup returns an asset that is not known to have the given version")
            return q
        c.auto("lookup", tail(x), g, None, look)
        n += 1
    for x in F.find("^" + A + r"AssetRegistry::get_options_for$"):
        g = c.graph("^" + re.escape(x) + "$", bytes=True)
        for p in paths(g):
            if p.kind == "ret" and ok_ret(p.ret) is not False:
                d = full(p.ret)
                c.ob("lookup", "versions of the group", "arg0.assets,arg1" in d, "the versions of another group can be returned: %s" % d[:100])
        n += 1
    c.floor("lookup", n, 2)
    return "other", "every path from the application's asset to the registry insertion, with the compared, cut and stored values as terms"


def judge(c, facts, e, filters):
    v = e[2][-1]
    md, ver, con = agg_field(v, "metadata"), agg_field(v, "version"), agg_field(v, "content")
    if md is None or con is None:
        return "what is stored is not an asset built here: %s" % full(v)[:120]
    mds = norm(full(md))
    ent = entry_of(mds + ".x") if not mds.endswith(".metadata") else mds[:-len(".metadata")]
    # a list filled by hand holds what was pushed (nothing on the path that pushed nothing)
    filled = re.match(r"^next\((push!\()*(Vec::)?(new|with_capacity)\(", ent) is not None and ("fill", False) not in facts
    if not mds.endswith(".metadata") or ("arg0.manifest" not in mds and not filled):
        return "the stored metadata is %s, not a manifest entry's" % mds[-80:]
    size = ent + SIZE
    cs = norm(full(con))
    m = re.match(r"^(truncate|to_vec|to_owned|from|into|resize)!?\((.*)\)$", cs)
    src = None
    if cs.startswith("truncate!(") and cs.endswith("," + size + ")"):
        src = cs[len("truncate!("):-len("," + size + ")")]
    elif re.search(re.escape("[0.." + size + "]") + r"\)?$", cs):
        src = re.sub(re.escape("[0.." + size + "]") + r"\)*$", "", cs)
        src = re.sub(r"^(to_vec|to_owned|from|into|collect)\(", "", src)
    if src is None:
        return "the stored content is not cut to the matching entry's size: %s" % cs[:100]
    want = src + "[0.." + size + "]"
    want2 = "get(%s,RangeTo{%s})" % (src, size)
    ok = False
    for f in facts:
        if f[0] == "eq" and f[3] == 1 and f[1] == ent + HASH and re.search(r"(digest|finalize)", f[2]) and (want in f[2] or want2 in f[2]):
            ok = True
    # truncated before it was hashed
    if not ok:
        for f in facts:
            if f[0] == "eq" and f[3] == 1 and f[1] == ent + HASH and re.search(r"(digest|finalize)", f[2]) and cs in f[2] and "[" not in f[2].split(cs)[-1]:
                ok = True
    if not ok:
        return "the content is stored although the digest of exactly what is stored was not found equal to its entry's digest"
    if ("dis", ent, 0) not in facts:
        return "the content is stored although its entry may be disabled"
    # group: by comparison or by the filter the entry came through
    g_ok = filled or any(f[0] == "eq" and f[3] == 1 and f[1] == ent + GROUP and f[2] == "arg1" for f in facts)
    if not g_ok:
        for v2 in subvals(md):
            if v2.op == "call" and re.search(r"Iterator::filter$", v2.a[2]) and "arg0.manifest" in full(v2.a[3][0]):
                for cl in v2.a[3][1:]:
                    rets = filters.get(cl.a[1], ()) if cl.op == "agg" else ()
                    if rets and all(re.match(r"^\(\S+ Eq \S+\)$", r) and GROUP in r and re.search(r"\barg1\b", r) for r in rets):
                        g_ok = True
    if not g_ok:
        return "the content is stored although its entry is not known to be of the given group"
    if ver is not None and ent + ".metadata.version" not in norm(full(ver)):
        return "the stored version is %s, not the entry's" % norm(full(ver))[:80]
    if not re.search(r"(entry|get_mut|index_mut|insert)\(arg0\.registry\.assets~?,arg1\)", full(e[2][0])):
        return "the asset is stored under %s, not under the given group" % full(e[2][0])[:100]
    if not any(f[0] == "absent" for f in facts):
        return "the asset is stored although its version may be registered already"
    return None
