"""reads the serialized sparse DFAs that regex_aot::regex! leaves in the program, to decide what they match"""
import struct


class Dfa:
    def __init__(self, b):
        p = b.index(b"rust-regex-automata-dfa-sparse\0")
        p += (len(b"rust-regex-automata-dfa-sparse\0") + 3) // 4 * 4

        def u32():
            nonlocal p
            v, = struct.unpack_from("<I", b, p)
            p += 4
            return v
        if u32() != 0xfeff or u32() != 2:
            raise ValueError("not a little-endian sparse DFA of version 2")
        u32()
        self.flags = u32()
        self.states, self.pats = u32(), u32()
        self.classes = list(b[p:p + 256])
        p += 256
        n = u32()
        sparse = b[p:p + n]
        p += n
        self.kind = u32()
        self.startmap = list(b[p:p + 256])
        p += 256
        stride, pl = u32(), u32()
        self.univ, self.univ_anch = u32(), u32()
        ns = stride * (2 + (0 if pl == 0xffffffff else pl))
        self.starts = [u32() for _ in range(ns)]
        self.stride = stride
        self.special = [u32() for _ in range(8)]
        self.st = {}
        o = 0
        while o < n:
            q = o
            nt, = struct.unpack_from("<H", sparse, q)
            q += 2
            m, nt = bool(nt & 0x8000), nt & 0x7fff
            rng = sparse[q:q + 2 * nt]
            q += 2 * nt
            nxt = struct.unpack_from("<%dI" % nt, sparse, q)
            q += 4 * nt
            if m:
                k, = struct.unpack_from("<I", sparse, q)
                q += 4 + 4 * k
            q += 1 + sparse[q]
            # the last transition is the one on the end of the input
            self.st[o] = (m, [(rng[2 * i], rng[2 * i + 1], nxt[i]) for i in range(nt - 1)], nxt[-1])
            o = q
        if len(self.st) != self.states:
            raise ValueError("the state table does not parse")
        # start states must not depend on what is before (no look-around)
        self.un = set(self.starts[:stride])
        self.an = set(self.starts[stride:2 * stride])
        self.memo = {}

    def step(self, s, byte):
        r = self.memo.get((s, byte))
        if r is None:
            c = self.classes[byte]
            r = 0
            for lo, hi, t in self.st[s][1]:
                if lo <= c <= hi:
                    r = t
                    break
            self.memo[(s, byte)] = r
        return r

    def eoi(self, s):
        return self.st[s][2]

    def match(self, s):
        return self.st[s][0]


def find(fwd, rev, text, at):
    """the leftmost-first match at or after `at`: (start, end) or None"""
    s, = fwd.un
    end = None
    for i in range(at, len(text)):
        s = fwd.step(s, text[i])
        if fwd.match(s):
            end = i
        if s == 0:
            break
    else:
        s = fwd.eoi(s)
        if fwd.match(s):
            end = len(text)
    if end is None:
        return None
    s, = rev.an
    start = None
    for i in range(end - 1, at - 1, -1):
        s = rev.step(s, text[i])
        if rev.match(s):
            start = i + 1
        if s == 0:
            break
    else:
        s = rev.eoi(s)
        if rev.match(s):
            start = at
    return start, end


# ---- which texts a grammar describes, as a nondeterministic automaton ----
class Nfa:
    """built from nested tuples: ("c", set of bytes) | ("s", a, b, ..) | ("|", a, b, ..) | ("r", a, lo, hi)"""

    def __init__(self, g):
        self.eps, self.tr = [], []
        s, e = self.build(g)
        self.start, self.end = self.close({s}), e

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, g):
        s = self.new()
        if g[0] == "c":
            e = self.new()
            self.tr[s].append((frozenset(g[1]), e))
        elif g[0] == "s":
            e = s
            for x in g[1:]:
                a, b = self.build(x)
                self.eps[e].append(a)
                e = b
        elif g[0] == "|":
            e = self.new()
            for x in g[1:]:
                a, b = self.build(x)
                self.eps[s].append(a)
                self.eps[b].append(e)
        else:
            e, out = s, self.new()
            for i in range(g[3]):
                if i >= g[2]:
                    self.eps[e].append(out)
                a, b = self.build(g[1])
                self.eps[e].append(a)
                e = b
            self.eps[e].append(out)
            e = out
        return s, e

    def close(self, ss):
        ss, w = set(ss), list(ss)
        while w:
            for t in self.eps[w.pop()]:
                if t not in ss:
                    ss.add(t)
                    w.append(t)
        return frozenset(ss)

    def step(self, ss, byte):
        return self.close({t for s in ss for cs, t in self.tr[s] if byte in cs})

    def accepts(self, ss):
        return self.end in ss


def rev(g):
    if g[0] == "s":
        return ("s",) + tuple(rev(x) for x in reversed(g[1:]))
    if g[0] == "|":
        return ("|",) + tuple(rev(x) for x in g[1:])
    if g[0] == "r":
        return ("r", rev(g[1]), g[2], g[3])
    return g


def reps(sets):
    """one byte per group of bytes that no set and no class tells apart"""
    out = {}
    for b in range(256):
        out.setdefault(tuple(s[b] if isinstance(s, list) else b in s for s in sets), b)
    return sorted(out.values())


def sets_of(g, out):
    if g[0] == "c":
        out.add(frozenset(g[1]))
    for x in g[1:]:
        if isinstance(x, tuple):
            sets_of(x, out)
    return out


def uncovered(d, g, start, after):
    """a shortest text of the grammar, between delimiters, that the automaton started in `start` does not
    match up to its end exactly; None if there is none. -> (text or None, pairs visited)"""
    n = Nfa(g)
    alpha = reps([d.classes] + sorted(sets_of(g, set()), key=sorted))
    seen = {(start, n.start)}
    w = [(start, n.start, b"")]
    i = 0
    while i < len(w):
        s, ns, txt = w[i]
        i += 1
        if n.accepts(ns):
            for a in after:
                t = d.eoi(s) if a is None else d.step(s, a)
                if not d.match(t):
                    return txt, len(seen)
        for b in alpha:
            m = n.step(ns, b)
            if m:
                k = (d.step(s, b), m)
                if k not in seen:
                    seen.add(k)
                    w.append((k[0], m, txt + bytes([b])))
    return None, len(seen)
