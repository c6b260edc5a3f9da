"""Memory model: segmented region contents, reads, writes and copies with symbolic offsets."""
from lin import *
from state import *
import bits as B


class GiveUp(Exception):
    pass


class OutOfTime(GiveUp):
    """the analysis cannot represent this construct (undecided, neither proof nor violation)"""


def is_lit(G):
    return G[0] == 'lit'


def seg_end(s):
    return s[1] + s[0] if s[0].t or s[1].t else C(s[0].c + s[1].c)


class Mem:
    # ------------------------------------------------------------------ byte symbols
    def byte_of(self, s, G, off):
        """value (Lin 0..255) of byte off of ghost sequence G in state s"""
        off = s.red(off)
        if G[0] == 'lit':
            if off.isconst():
                d = G[1]
                return C(d[off.c]) if 0 <= off.c < len(d) else ZERO
        if G[0] == 'fill':
            return C(G[1])
        if G[0] == 'valb' and off.isconst():
            return B.byte_of_value(s, G[1], G[2], off.c)
        key = ('b', G, off)
        offs = self.boffs.setdefault(G, [])
        # equal offsets may be known under several expressions
        same = []
        for o in offs:
            if o == off or (o.t and s.st.red(o) == off):
                same.append(Lin({IDS[('b', G, o)]: 1}, 0))
        if same:
            b = same[0]
            new = set()
            for x in same[1:]:
                if s.st.red(x) != s.st.red(b):
                    s.st.add_eq(x - b)
                    new |= set(x.t) | set(b.t)
            if new and not s.st.dead:
                B.resync(s, new)
        else:
            b = S(key, 0, 255)
            offs.append(off)
        self.byte_facts(s, G, off, b)
        return b

    def byte_facts(self, s, G, off, b):
        if G[0] == 'str':
            t = s.red(self.str_t(G))
            if t.isconst() and t.c == 1:
                s.st.add_ge(b - 1)
            elif t.isconst() and t.c == 2:
                # no aligned zero unit inside the string
                ev = self.parity(s, off)
                if ev == 0:
                    o2 = off + 1
                    k = ('b', G, o2)
                    b2 = S(k, 0, 255)
                    if o2 not in self.boffs.setdefault(G, []):
                        self.boffs[G].append(o2)
                    if s.st.ent(self.str_len(G) - off - 2):
                        s.st.add_ng([b, b2])
                elif ev == 1:
                    o2 = off - 1
                    k = ('b', G, o2)
                    b2 = S(k, 0, 255)
                    if o2 not in self.boffs.setdefault(G, []):
                        self.boffs[G].append(o2)
                    if s.st.ent(self.str_len(G) - off - 1):
                        s.st.add_ng([b, b2])
        elif G[0] == 'nz':      # sequence of non zero bytes
            s.st.add_ge(b - 1)

    def parity(self, s, e):
        """0/1 if the parity of e is known, else None"""
        e = s.red(e)
        p = e.c & 1
        for k, a in e.t.items():
            if a & 1:
                key = KEYS[k]
                if key[0] == 'len' and s.red(self.str_t(key[1])) == C(2):
                    continue
                return None
        return p

    # ------------------------------------------------------------------ strings
    def str_len(self, G):
        return S(('len', G), 0, 2 ** 30 if G[1] == 'raw' else self.MAXSTR)

    def str_t(self, G):
        return S(('t', G), 1, 2)

    def str_kind_split(self, s, G):
        """-> list of states in which the kind (ISO t=1 / UTF-16 t=2) of string G is decided"""
        t = self.str_t(G)
        if s.red(t).isconst():
            return [s]
        out = []
        a = s.copy()
        b = s
        b0, b1 = S(('b', G, ZERO), 0, 255), S(('b', G, ONE), 0, 255)
        for o in (ZERO, ONE):
            if o not in self.boffs.setdefault(G, []):
                self.boffs[G].append(o)
        L = self.str_len(G)
        if a.st.add_eq(t - 1):
            ok = a.st.add_ng([b0 - 255, b1 - 254]) and a.st.add_ng([b0 - 254, b1 - 255])
            if ok:
                self.str_raw_facts(a, G)
            if ok and not a.st.dead:
                out.append(a)
        if b.st.add_eq(t - 2) and b.st.add_ge(L - 2):
            h = S(('half', G), 0, 2 ** 30)
            ok = b.st.add_eq(L - h * 2) and b.st.add_eq(b0 + b1 - 509) and b.st.add_ge(b0 - 254) and b.st.add_ge(b1 - 254)
            if ok:
                self.str_raw_facts(b, G)
            if ok and not b.st.dead:
                out.append(b)
        return out

    def str_raw_facts(self, s, G):
        """strings found in raw bytes: tie the first bytes to the raw bytes they are copies of"""
        info = self.strinfo.get(G)
        if not info:
            return
        F, off, avail = info
        for k in (0, 1):
            if s.st.ent(avail - k - 1) and s.st.ent(self.str_len(G) - k - 1):
                rb = self.byte_of(s, F, off + k)
                s.st.add_eq(S(('b', G, C(k)), 0, 255) - rb)

    # ------------------------------------------------------------------ segments
    def cutc(self, s, c, seglen, k):
        """split content c (of length seglen) after k bytes"""
        t = c[0]
        if t in ('zero', 'uninit', 'unk'):
            return c, c
        if t == 'bytes':
            return c, ('bytes', c[1], c[2] + k)
        if t == 'val':
            G = ('valb', c[1], c[2])
            return ('bytes', G, ZERO), ('bytes', G, k)
        if t == 'wide':
            kk = s.red(k)
            if all(a % 2 == 0 for a in kk.t.values()) and kk.c % 2 == 0:
                return c, ('wide', c[1], c[2] + Lin({x: a // 2 for x, a in kk.t.items()}, kk.c // 2))
            return ('unk', ('w', c)), ('unk', ('w', c))
        raise GiveUp('cut ' + str(c))

    def cut(self, s, segs, pos):
        """split a segment list at pos: -> list of (state, left, right)"""
        out = []
        pos = s.red(pos)
        work = [(s, 0)]
        while work:
            s, i = work.pop()
            done = False
            while i < len(segs):
                o, l, c = segs[i]
                d = s.red(pos - o)
                if d.isconst():
                    ge0, le0 = d.c >= 0, d.c <= 0
                else:
                    le0 = s.st.ent(-d)
                    ge0 = None
                if le0:
                    out.append((s, segs[:i], segs[i:]))
                    done = True
                    break
                d2 = s.red(o + l - pos)
                if s.st.ent(-d2):      # pos >= end
                    i += 1
                    continue
                inside_lo = ge0 if ge0 is not None else s.st.ent(d)
                inside_hi = s.st.ent(d2)
                if inside_lo and inside_hi:
                    a, b = self.cutc(s, c, l, d)
                    out.append((s, segs[:i] + ((o, d, a),), ((pos, d2, b),) + segs[i + 1:]))
                    done = True
                    break
                # undecided: split
                if not inside_lo:
                    a, b = s.split(('ge', -d))
                    if a is not None:
                        out.append((a, segs[:i], segs[i:]))
                    s = b
                    if s is None:
                        done = True
                        break
                if not inside_hi:
                    a, b = s.split(('ge', -d2))
                    if a is not None:
                        work.append((a, i + 1))
                    s = b
                    if s is None:
                        done = True
                        break
                a, b = self.cutc(s, c, l, d)
                out.append((s, segs[:i] + ((o, d, a),), ((pos, d2, b),) + segs[i + 1:]))
                done = True
                break
            if not done:
                out.append((s, segs, ()))
        return out

    def norm_segs(self, s, segs):
        """drop empty segments and merge adjacent ones"""
        out = []
        for o, l, c in segs:
            l = s.red(l)
            if l.isconst() and l.c == 0:
                continue
            if l.t and c[0] != 'uninit' and s.st.ent_eq(l):
                continue
            if c[0] == 'bytes' and l.isconst() and l.c <= 8 and c[1][0] == 'valb' and c[2] == ZERO and c[1][2] == l.c:
                c = ('val', c[1][1], l.c)
            if out:
                po, pl, pc = out[-1]
                if pc[0] == c[0]:
                    m = None
                    if c[0] in ('zero', 'uninit') or (c[0] == 'unk' and pc == c):
                        m = pc
                    elif c[0] == 'bytes' and pc[1] == c[1] and (s.red(pc[2] + pl - c[2]) == ZERO):
                        m = pc
                    elif c[0] == 'bytes' and pc[1][0] == 'lit' == c[1][0] and all(x.isconst() for x in (pl, l, pc[2], c[2])) \
                            and pc[2].c + pl.c <= len(pc[1][1]) and c[2].c + l.c <= len(c[1][1]):
                        m = ('bytes', ('lit', pc[1][1][pc[2].c:pc[2].c + pl.c] + c[1][1][c[2].c:c[2].c + l.c]), ZERO)
                    elif c[0] == 'wide' and pc[1] == c[1] and s.red(pc[2] * 2 + pl - c[2] * 2) == ZERO:
                        m = pc
                    if m is not None:
                        out[-1] = (po, pl + l, m)
                        continue
                # a byte of G stored as a value next to a piece of G
                if c[0] == 'val' and c[2] == 1 and isinstance(c[1], Lin):
                    g = self.as_byte_ref(s, c[1])
                    if g is not None:
                        if pc[0] == 'bytes' and pc[1] == g[0] and s.red(pc[2] + pl - g[1]) == ZERO:
                            out[-1] = (po, pl + l, pc)
                            continue
            out.append((o, l, c))
        return tuple(out)

    def as_byte_ref(self, s, v):
        """Lin that is exactly one byte symbol -> (G, off)"""
        if len(v.t) == 1 and v.c == 0:
            (k, a), = v.t.items()
            key = KEYS[k]
            if a == 1 and key[0] == 'b':
                return key[1], key[2]
        return None

    def bytes_canon(self, s, segs):
        """canonicalise single byte values into byte references"""
        out = []
        for o, l, c in segs:
            if c[0] == 'val' and c[2] == 1 and isinstance(c[1], Lin):
                g = self.as_byte_ref(s, c[1])
                if g is not None:
                    c = ('bytes', g[0], g[1])
                elif s.red(c[1]).isconst():
                    k = s.red(c[1]).c & 255
                    c = ('bytes', ('lit', bytes([k])), ZERO) if k else ZEROC
            elif c[0] == 'bytes' and c[1][0] == 'lit' and s.red(l).isconst() and s.red(c[2]).isconst():
                d = c[1][1][s.red(c[2]).c:s.red(c[2]).c + s.red(l).c]
                d = d + bytes(s.red(l).c - len(d))
                # split zero runs at the end / make canonical literal
                if d.count(0) == len(d):
                    c = ZEROC
                else:
                    z = len(d.rstrip(b'\0'))
                    if z < len(d):
                        out.append((o, C(z), ('bytes', ('lit', d[:z]), ZERO)))
                        out.append((o + z, C(len(d) - z), ZEROC))
                        continue
                    c = ('bytes', ('lit', d), ZERO)
            elif c[0] == 'val' and isinstance(c[1], Lin) and s.red(c[1]) == ZERO:
                c = ZEROC
            out.append((o, l, c))
        return self.norm_segs(s, tuple(out))

    # ------------------------------------------------------------------ element access
    def read_range(self, s, reg, off, ln):
        """-> list of (state, segs with offsets relative to 0)"""
        segs = reg.segs
        # fast path: exactly one segment
        for o, l, c in segs:
            if o == off and l == ln:
                return [(s, ((ZERO, ln, c),))]
        out = []
        for s1, a, b in self.cut(s, segs, off):
            for s2, m, r in self.cut(s1, b, off + ln):
                out.append((s2, self.norm_segs(s2, tuple((o - off, l, c) for o, l, c in m))))
        return out

    def write_range(self, s, reg, off, ln, newsegs):
        """newsegs relative to 0; -> list of (state, Region)"""
        segs = reg.segs
        for i, (o, l, c) in enumerate(segs):
            if o == off and l == ln and len(newsegs) == 1:
                return [(s, reg.with_segs(segs[:i] + ((o, l, newsegs[0][2]),) + segs[i + 1:]))]
        out = []
        for s1, a, b in self.cut(s, segs, off):
            for s2, m, r in self.cut(s1, b, off + ln):
                new = a + tuple((o + off, l, c) for o, l, c in newsegs) + r
                out.append((s2, reg.with_segs(self.norm_segs(s2, new))))
        return out

    def load_scalar(self, s, reg, off, width, want, ins):
        """-> list of (state, value)"""
        for o, l, c in reg.segs:
            if o == off and l.isconst() and l.c == width and c[0] == 'val' and c[2] == width:
                return [(s, self.coerce(s, c[1], width, want))]
        if reg.site == 'path':
            s.flags = s.flags | {'pathbytes'}
        out = []
        if len(reg.segs) > 0 and want != 'ptr':
            # undecided string kinds have to be settled before looking at single bytes
            Gs = {c[1] for o, l, c in reg.segs if c[0] == 'bytes' and c[1][0] == 'str'}
            if Gs and width <= 2:
                sts = [s]
                for G in Gs:
                    sts = [y for x in sts for y in self.str_kind_split(x, G)]
            else:
                sts = [s]
        else:
            sts = [s]
        for s in sts:
            for s1, segs in self.read_range(s, reg, off, C(width)):
                for s2, sg in self.const_lens(s1, segs, width):
                    out.append((s2, self.segs_value(s2, sg, width, want, ins)))
        return out

    def const_lens(self, s, segs, width):
        """case split until every segment has a constant length"""
        for o, l, c in segs:
            l = s.red(l)
            if not l.isconst():
                out = []
                for k in range(width + 1):
                    if s is None:
                        break
                    a, s = s.split(('eq', l - k))
                    if a is not None and not a.red(l).isconst():
                        a = a.copy()
                        if not a.st.add_eq(l - k):
                            a = None
                    if a is not None:
                        out += self.const_lens(a, self.norm_segs(a, segs), width)
                return out
        return [(s, self.norm_segs(s, segs))]

    def segs_value(self, s, segs, width, want, ins):
        if len(segs) == 1:
            o, l, c = segs[0]
            if c[0] == 'val' and c[2] == width:
                return self.coerce(s, c[1], width, want)
            if c[0] == 'zero':
                return NULL if want == 'ptr' else ZERO
            if c[0] == 'uninit':
                self.viol('uninit', ins, 'reads uninitialised memory', s)
                return Ptr(('opaque', 'uninit')) if want == 'ptr' else s.fresh('uninit', *B.RANGE[width * 8])
        if want == 'ptr':
            for o, l, c in segs:
                if c[0] == 'uninit':
                    self.viol('uninit', ins, 'reads an uninitialised pointer', s)
                    break
            return Ptr(('opaque', 'bytes'))
        vals = []
        bad = False
        for o, l, c in segs:
            l = s.red(l)
            if not l.isconst():
                bad = True
                break
            for k in range(l.c):
                if c[0] == 'bytes':
                    vals.append(self.byte_of(s, c[1], c[2] + k))
                elif c[0] == 'zero':
                    vals.append(ZERO)
                elif c[0] == 'val':
                    vals.append(B.byte_of_value(s, c[1], c[2], k))
                elif c[0] == 'wide':
                    vals.append(self.byte_of(s, c[1], c[2] + k // 2) if k % 2 == 0 else ZERO)
                elif c[0] == 'uninit':
                    self.viol('uninit', ins, 'reads uninitialised memory', s)
                    vals.append(s.fresh('uninit', 0, 255))
                else:
                    vals.append(s.fresh('unkb', 0, 255))
        if bad or len(vals) != width:
            return s.fresh('unkv', *B.RANGE[width * 8])
        if width == 1:
            return vals[0]
        return B.from_bytes_le(s, vals)

    def coerce(self, s, v, width, want):
        if want == 'ptr' and isinstance(v, Lin):
            if s.red(v) == ZERO:
                return NULL
            return Ptr(('opaque', 'int'))
        if want == 'int' and isinstance(v, Ptr):
            return s.fresh('ptrint')
        return v
