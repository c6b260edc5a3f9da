"""What reading has to yield: recognition, header fields, the walk over the frames, and their contents."""
from spec import *
from state import *
import bits as B
DBG = None


def bigval(s, bs, width, reps=('or',)):
    """unsigned value of big-endian bytes, `width` significant bits per byte, as the expressions code may compute"""
    n = len(bs)
    bits = [B.ZB] * 32
    masked = [B.ZB] * 32
    lin = ZERO
    for i, b in enumerate(bs):
        sh = width * (n - 1 - i)
        bb = B.to_bits(s, b, 8)
        for j in range(8):
            if sh + j < 32:
                bits[sh + j] = bits[sh + j] | bb[j]
                if j < width:
                    masked[sh + j] = masked[sh + j] | bb[j]
        lin = lin + b * (1 << sh)
    return B.from_bits(s, tuple(bits)), B.from_bits(s, tuple(masked)), lin


def synchsafe(eng, s, bs):
    """value of a synchsafe number in a state where its bytes are below 0x80; None if they cannot be"""
    a, m, l = bigval(s, bs, 7)
    for b in bs:
        if not s.st.add_ge(C(127) - b):
            return None
    for x in (m, l) + bigval(s, bs, 7):
        if not s.st.add_eq(x - a):
            return None
    return a


def plain(eng, s, bs):
    """signed 32-bit view of a plain big-endian number"""
    a, m, l = bigval(s, bs, 8)
    if s.st.ent(C(127) - bs[0]):
        s.st.add_eq(l - a)
    return a


class Src:
    """the bytes that are read: ghost F, length N"""
    def __init__(self, F, N):
        self.F, self.N = F, N


def recognised(eng, s, src):
    """-> list of (state, version or None)"""
    F = src.F
    out = []
    for s1, b in split_eq(s, ('ge', src.N - 10)):
        if not b:
            out.append((s1, None))
            continue
        by = [eng.byte_of(s1, F, C(i)) for i in range(4)]
        for s2, b2 in split_eq(s1, ('all', frozenset(Store.canon_eq(x - c) for x, c in zip(by, b'ID3')))):
            if not b2:
                out.append((s2, None))
                continue
            for s3, v3 in split_eq(s2, ('eq', by[3] - 3)):
                if v3:
                    out.append((s3, 3))
                    continue
                for s4, v4 in split_eq(s3, ('eq', by[3] - 4)):
                    out.append((s4, 4 if v4 else None))
    return out


def ext_size(eng, s, src, ver, ts):
    """declared size of the extended header (bytes to skip): list of (state, Lin)"""
    fl = eng.byte_of(s, src.F, C(5))
    b6 = B.from_bits(s, B.b_and(B.to_bits(s, fl, 8), B.to_bits(s, C(64), 8)), False)
    out = []
    for s1, z in split_eq(s, ('eq', b6)):
        if z:
            out.append((s1, ZERO, False))
            continue
        for s2, have in split_eq(s1, ('ge', src.N - 14)):
            if not have:
                out.append((s2, ZERO, True))
                continue
            ins = split_eq(s2, ('ge', ts - 4))
            for s3, b in ins:
                if not b:
                    out.append((s3, None, True))        # no extended header inside the tag
                else:
                    s2 = s3
            if not any(b for _, b in ins):
                continue
            bs = [eng.byte_of(s2, src.F, C(10 + i)) for i in range(4)]
            if ver == 4:
                v = synchsafe(eng, s2, bs)
                if v is not None:
                    out.append((s2, v, True))
            else:
                v = plain(eng, s2, bs)
                # sizes that do not fit an int are no use to anybody: only required to be harmless
                for s3, ok in split_eq(s2, ('ge', v)):
                    if ok:
                        for s4, ok2 in split_eq(s3, ('ge', C(2 ** 31 - 5) - v)):
                            if ok2:
                                out.append((s4, v + 4, True))
    return out


def check_header(eng, s, h, src, ver, ext, tsize=None, used=None, ehsize=True):
    """fields of the header object"""
    if used is not None:
        eng.own(s, h, 'the tag header', used)
    T = 'ID3v2_TagHeader'
    for x, c in zip(eng.farray(s, h, T, 'identifier'), b'ID3'):
        if not s.st.ent_eq(x - c):
            raise SpecFail('C18', 'the identifier of the header is not ID3', s)
    for f, i in (('major_version', 3), ('minor_version', 4), ('flags', 5)):
        x = eng.get(s, h, T, f)
        if not eng.byte_eq(s, x, eng.byte_of(s, src.F, C(i))):
            raise SpecFail('C18', f'{f} is not the one found in the header', s)
    if tsize is not None:
        x = eng.get(s, h, T, 'tag_size')
        if not eng.num_eq(s, x, tsize):
            raise SpecFail('C15+C18', 'the tag size is not the synchsafe size found in the header', s)
    if ehsize:
        x = eng.get(s, h, T, 'extended_header_size')
        if not eng.num_eq(s, x, ext):
            raise SpecFail('C18', 'the extended header size is not the one found in the tag', s)


def tag_size(eng, s, src):
    return synchsafe(eng, s, [eng.byte_of(s, src.F, C(6 + i)) for i in range(4)])


def c_header(src_of):
    """ID3v2_read_tag_header*(): header or NULL"""
    def check(eng, s, v, ctx):
        eng.exit_ownership(s, ctx.roots + [v])
        src = src_of(eng, s, ctx)
        if src is None:
            if not isn(v):
                raise SpecFail('C05+C18', 'a header is returned although the file cannot be opened', s)
            return
        if 'ioerr' in s.flags:
            return
        for s1, ver in recognised(eng, s.copy(), src):
            if ver is None:
                if not isn(v):
                    raise SpecFail('C18', 'a header is returned although there is no supported tag', s1)
                continue
            if isn(v):
                raise SpecFail('C18', 'no header is returned although there is a supported tag', s1)
            ts = tag_size(eng, s1, src)
            if ts is None:
                continue
            # header-only reads see just the ten bytes of the tag header: the extended header is not required of them
            check_header(eng, s1, v, src, ver, None, ts, used=set(), ehsize=False)
    return check


def stop_here(eng, s, src, p, limit, ver):
    """states in which there is another complete frame at p: list of (state, id bytes, flags, size)"""
    out = []
    for s1, b in split_eq(s, ('ge', limit - p - 10)):
        if not b:
            continue
        idb = [eng.byte_of(s1, src.F, p + i) for i in range(4)]
        if not s1.st.add_ng(idb):
            continue
        sb = [eng.byte_of(s1, src.F, p + 4 + i) for i in range(4)]
        if ver == 4:
            z = synchsafe(eng, s1, sb)
            if z is None:
                continue
        else:
            z = plain(eng, s1, sb)
        if not s1.st.add_ge(z) or not s1.st.add_ge(limit - p - 10 - z):
            continue
        out.append((s1, idb, [eng.byte_of(s1, src.F, p + 8 + i) for i in range(2)], z))
    return out


def rawstr(eng, s, src, off, avail, q, what):
    """the string in the payload at off with avail bytes left, as held by the block q: -> list of (state, segs, L, t)"""
    for s1, b in split_eq(s, ('ge', avail - 1)):
        if not b:
            yield s1, ((ZERO, ONE, ZEROC),), ZERO, ONE
            continue
        r = eng.reg(s1, q, what)
        seg = eng.norm_segs(s1, r.segs)
        G = None
        if seg and seg[0][2][0] == 'bytes' and seg[0][2][1][0] == 'str':
            G = seg[0][2][1]
            if not (G[1] == 'raw' and G[2] == src.F and s1.st.ent_eq(G[3] - off) and s1.st.ent_eq(G[4] - avail)):
                G = None
        if G is None:
            for g in eng.strinfo:
                if g[2] == src.F and s1.st.ent_eq(eng.str_len(g)) and s1.st.ent_eq(g[3] - off) and s1.st.ent_eq(g[4] - avail):
                    G = g
        if G is None:
            # an empty string
            if s1.st.ent_eq(eng.byte_of(s1, src.F, off)):
                yield s1, ((ZERO, ONE, ZEROC),), ZERO, ONE
                continue
            if DBG: DBG(eng, s1, src, off, avail, q)
            raise SpecFail('C14', f'{what} is not the string at its place in the payload', s1)
        for s2 in eng.str_kind_split(s1, G):
            yield s2, eng.str_segs(G), eng.str_len(G), s2.red(eng.str_t(G))


def avail_bytes(eng, s, F, off, n, got):
    """the bytes at off as far as the n bytes there reach; nothing is required of the others"""
    work = [(s, [])]
    for i in range(len(got)):
        work = [(s1, l + [eng.byte_of(s1, F, off + i) if b else None])
                for x, l in work for s1, b in split_eq(x, ('ge', n - i - 1))]
    return work


def after(eng, s, pos, z):
    """min(pos, z): list of (state, value)"""
    return [(s1, pos if b else z) for s1, b in split_eq(s, ('ge', z - pos))]


def frame_exp(eng, s, src, d, idb, flags, p, z):
    """expected frame at p with payload size z; d: data pointer found. -> list of (state, expectation)"""
    F = src.F
    q = p + 10
    base = dict(name='the frame', new=True, id=idb, flags=flags)
    for s1, kind in eng.kind_cases(s.copy(), idb):
        if kind == 'raw':
            yield s1, dict(base, size=z, data=('raw', dict(segs=((ZERO, z, ('bytes', F, q)),))))
        elif kind == 'text':
            tp = eng.get(s1, d, 'ID3v2_TextFrameData', 'text')
            for s2, segs, L, t in rawstr(eng, s1, src, q + 1, z - 1, tp, 'the text'):
                yield s2, dict(base, size=L + t + 1, data=('text', dict(text=segs, enc=t - 1, size=L + t)))
        elif kind == 'comm':
            st = 'ID3v2_CommentFrameData'
            dp, cp = eng.get(s1, d, st, 'short_description'), eng.get(s1, d, st, 'comment')
            got = eng.farray(s1, d, st, 'language')
            for s2, segs, L, t in rawstr(eng, s1, src, q + 4, z - 4, dp, 'the description'):
                for s3, c in after(eng, s2, C(4) + L + t, z):
                    for s4, segs2, L2, t2 in rawstr(eng, s3, src, q + c, z - c, cp, 'the comment'):
                        for s5, lang in avail_bytes(eng, s4, F, q + 1, z - 1, got):
                            yield s5, dict(base, size=L + t + L2 + t2 + 4, data=('comm', dict(
                                comment=segs2, desc=segs, enc=t2 - 1, size=L2 + t2, lang=lang)))
        else:
            st = 'ID3v2_ApicFrameData'
            mp, dp = eng.get(s1, d, st, 'mime_type'), eng.get(s1, d, st, 'description')
            pt = eng.get(s1, d, st, 'picture_type')
            for s2, segs, L, t in rawstr(eng, s1, src, q + 1, z - 1, mp, 'the mime type'):
                for s3, c in after(eng, s2, C(1) + L + t, z):
                    for s4, c2 in after(eng, s3, c + 1, z):
                        for s5, segs2, L2, t2 in rawstr(eng, s4, src, q + c2, z - c2, dp, 'the description'):
                            for s6, c3 in after(eng, s5, c2 + L2 + t2, z):
                                n = s6.red(z - c3)
                                if s6.st.ent(n) or True:
                                    for s7, neg in split_eq(s6, ('ge', -n)):
                                        n7 = ZERO if neg else n
                                        yield s7, dict(base, size=L + t + L2 + t2 + n7 + 2, data=('apic', dict(
                                            mime=segs, desc=segs2, enc=t2 - 1, picsize=n7,
                                            ptype=eng.byte_of(s7, F, q + c) if s7.st.ent(z - c - 1) else pt,
                                            pic=((ZERO, n7, ('bytes', F, q + c3)),))))


PARSE = {'*': 'C14', 'size': 'C03', 'dsize': 'C03+C14', 'enc': 'C17', 'id': 'C14', 'flags': 'C14', 'data': 'C14', 'data-short': 'C14+C17+C01'}


def check_read(eng, s, tag, src, used=None, cb=None):
    """the tag object agrees with the bytes it was read from"""
    for s1, ver in recognised(eng, s.copy(), src):
        if ver is None:
            if not isn(tag):
                raise SpecFail('C18', 'a tag is returned although there is no supported tag', s1)
            continue
        if isn(tag):
            raise SpecFail('C18', 'no tag is returned although there is a supported tag', s1)
        u = set() if used is None else used
        h = eng.get(s1, tag, 'ID3v2_Tag', 'header')
        eng.own(s1, tag, 'the tag', u)
        eng.own(s1, h, 'the tag header', u)
        fr = eng.frames_of(s1, eng.get(s1, tag, 'ID3v2_Tag', 'frames'), own=u)
        pad = eng.get(s1, tag, 'ID3v2_Tag', 'padding_size')
        tot = pad
        if not s1.st.ent(pad):
            eng.viol('C03', None, 'the recorded padding can be negative', s1)
        for f in fr:
            fh = eng.get(s1, f, 'ID3v2_Frame', 'header')
            tot = tot + eng.get(s1, fh, 'ID3v2_FrameHeader', 'size') + 10
        if not s1.st.ent_eq(eng.get(s1, h, 'ID3v2_TagHeader', 'tag_size') - tot):
            eng.viol('C03', None, 'the size of the tag is not the size of its frames and the padding', s1)
        ts = tag_size(eng, s1, src)
        if ts is None:
            continue
        for s2, ext, has in ext_size(eng, s1, src, ver, ts):
            try:
                check_header(eng, s2, h, src, ver, ext, ehsize=ext is not None)
            except SpecFail as x:
                eng.viol(x.cat, None, x.what, x.state or s2)
            ext = ZERO if ext is None else ext
            for s3, ok in split_eq(s2, ('ge', src.N - ts - 10)):
                limit = ts + 10 if ok else src.N
                for s4, inb in split_eq(s3, ('ge', limit - 10 - ext)):
                    walk(eng, s4, src, fr, ext + 10 if inb else limit, limit, ver, u, (), cb)


def walk(eng, s, src, fr, p, limit, ver, used, acc=(), cb=None):
    if not fr:
        for s1, idb, fl, z in stop_here(eng, s.copy(), src, p, limit, ver):
            raise SpecFail('C14', 'parsing stops before a frame that lies completely inside the tag', s1)
        if cb is not None:
            cb(s, acc)
        return
    f = fr[0]
    # there must be a frame at p (or one whose size is not a valid number: not constrained)
    for s1, b in split_eq(s, ('ge', limit - p - 10)):
        if not b:
            raise SpecFail('C14', 'a frame is returned although there is no room for one', s1)
        idb = [eng.byte_of(s1, src.F, p + i) for i in range(4)]
        t = s1.copy()
        if all(t.st.add_eq(x) for x in idb):
            raise SpecFail('C14', 'padding is returned as a frame', t)
        sb = [eng.byte_of(s1, src.F, p + 4 + i) for i in range(4)]
        z = synchsafe(eng, s1, sb) if ver == 4 else plain(eng, s1, sb)
        if z is None or s1.st.dead:
            continue
        for c in (('ge', z), ('ge', limit - p - 10 - z)):
            t = s1.copy()
            if s1.holds(c) is not True:
                t.assume(cneg(c))
                if not t.st.dead:
                    raise SpecFail('C14', 'a frame that does not fit into the tag is returned', t)
        fl = [eng.byte_of(s1, src.F, p + 8 + i) for i in range(2)]
        d = eng.get(s1, f, 'ID3v2_Frame', 'data')
        for s2, exp in frame_exp(eng, s1, src, d, idb, fl, p, z):
            eng.check_frame(s2, f, exp, set(used), PARSE)
            walk(eng, s2, src, fr[1:], p + 10 + z, limit, ver, used, acc + (exp,), cb)


# ---------------------------------------------------------------------- classes of inputs
def restrict(eng, s, src, arg):
    """one class of inputs; the classes together cover every input with at most three frames (see DESIGN.md)"""
    F = src.F
    ver = eng.byte_of(s, F, C(3))
    if arg == 'other':
        s.st.add_ne(ver - 3)
        s.st.add_ne(ver - 4)
        return
    v, shape = arg
    s.st.add_eq(ver - v)
    fl = eng.byte_of(s, F, C(5))
    lo = {'ext': 64, 'unsync': 128, 'unsync-ext': 192}.get(shape, 0)
    s.st.add_ge(fl - lo)
    s.st.add_ge(C(lo + 63) - fl)
    if shape in ('ext', 'unsync-ext'):
        eng.prune = lambda s: beyond_ext(eng, s, src, v, ('raw',))
    else:
        kinds = ('raw',) if shape == 'unsync' else shape.split('-')
        eng.prune = lambda s: beyond_at(eng, s, src, v, C(10), kinds)


def beyond_at(eng, s, src, ver, p, kinds):
    F = src.F
    for kd in list(kinds) + [None]:
        if not s.st.ent(src.N - p - 10):
            return False
        idb = [eng.byte_of(s, F, p + i) for i in range(4)]
        if kd in ('raw', 'rawx') and s.holds(('eq', idb[0] - ord('X'))) is not True:
            if s.st.ent_ne(idb[0] - ord('X')):
                return True
        sb = [eng.byte_of(s, F, p + 4 + i) for i in range(4)]
        z = bigval(s, sb, 7 if ver == 4 else 8)[0]
        if not (s.st.ent(z) and s.st.ent(src.N - p - 10 - z)):
            return False
        t = s.copy()
        if all(t.st.add_eq(x) for x in idb):
            return False        # may be padding
        if kd is None:
            return True
        if kd == 'raw' and not s.st.ent_eq(idb[0] - ord('X')):
            if not s.st.add_eq(idb[0] - ord('X')):
                return True
        p = s.red(p + 10 + z)
    return False


def beyond_ext(eng, s, src, ver, kinds):
    F = src.F
    if not s.st.ent(src.N - 14):
        return False
    sb = [eng.byte_of(s, F, C(10 + i)) for i in range(4)]
    z = bigval(s, sb, 7 if ver == 4 else 8)[0]
    if not s.st.ent(z + 4):
        return False
    return beyond_at(eng, s, src, ver, z + (10 if ver == 4 else 14), kinds)
