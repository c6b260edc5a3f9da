"""What writing and deleting have to leave in the file, and when the file may be touched at all."""
from spec import *
from state import *
import bits as B
import readspec as R

PATH = 'path'
FLEN = S(('flen', PATH), 0, 2 ** 30)
F = ('file', PATH)


def byte_of_size(eng, s, v, k, width):
    """k-th byte (most significant first) of a four-byte size with `width` bits per byte"""
    bits = B.to_bits(s, v, 32)
    sh = width * (3 - k)
    bb = tuple(bits[sh + j] if sh + j < 32 and j < width else B.ZB for j in range(8))
    return B.from_bits(s, bb, False)


def val(v):
    return ('val', v, 1)


def frame_segs(eng, s, e, ver):
    """encoded frame of an expectation (see Spec.orig): list of (len, content, category)"""
    out = []
    for b in e['id']:
        out.append((ONE, val(b), 'C13'))
    for k in range(4):
        out.append((ONE, val(byte_of_size(eng, s, e['size'], k, 7 if ver == 4 else 8)), 'C13+C15'))
    for b in e['flags']:
        out.append((ONE, val(b), 'C13'))
    kind, v = e['data']
    seq = lambda segs: [(l, c, 'C13') for _, l, c in segs]
    if kind == 'raw':
        out += seq(v['segs'])
    elif kind == 'text':
        out += [(ONE, val(v['enc']), 'C13')] + seq(v['text'])
    elif kind == 'comm':
        out += [(ONE, val(v['enc']), 'C13')] + [(ONE, val(b), 'C13') for b in v['lang']] + seq(v['desc']) + seq(v['comment'])
    else:
        out += [(ONE, val(v['enc']), 'C13')] + seq(v['mime']) + [(ONE, val(v['ptype']), 'C13')] + seq(v['desc']) + seq(v['pic'])
    return out


def tag_segs(eng, s, n, pad, ver, pre=''):
    """encoded tag"""
    tot = pad
    exps = [eng.orig(s, k, pre) for k in range(n)]
    for e in exps:
        tot = tot + e['size'] + 10
    fl = S(('tflags', pre), 0, 255)
    fb = B.to_bits(s, fl, 8)
    keep = tuple(B.ZB if i in (4, 6) else b for i, b in enumerate(fb))
    out = [(ONE, val(C(x)), 'C13') for x in b'ID3']
    out += [(ONE, val(S(('ver', pre), 3, 4)), 'C13'), (ONE, val(S(('rev', pre), 0, 255)), 'C13'), (ONE, val(B.from_bits(s, keep, False)), 'C13')]
    for k in range(4):
        out.append((ONE, val(byte_of_size(eng, s, tot, k, 7)), 'C13+C15'))
    for e in exps:
        out += frame_segs(eng, s, e, ver)
    out.append((pad, ZEROC, 'C13'))
    return out, tot


def small(eng, s, n, pre=''):
    """only tags whose size can be expressed (28 bits) are judged, with room for the default padding"""
    tot = S(('pad', pre), 0, BIGSZ) + 4096
    for k in range(n):
        tot = tot + S(('sz', pre, k), 0, BIGSZ) + 10
    s.st.add_ge(C(2 ** 28 - 1) - tot)


def old_file(eng, s, what):
    """class of files the write starts from"""
    if what == 'none':
        # nothing that could be taken for a tag
        s.st.add_eq(eng.byte_of(s, F, ZERO) - 255)
    elif what == 'some':
        s.st.add_ge(FLEN - 10)
        for i, x in enumerate(b'ID3\x03'):
            s.st.add_eq(eng.byte_of(s, F, C(i)) - x)
    elif what == 'footer':
        s.st.add_ge(FLEN - 10)
        for i, x in enumerate(b'ID3\x04\x00\x10'):
            s.st.add_eq(eng.byte_of(s, F, C(i)) - x)


def check_written_tag(eng, s, ctx, pad, pre=''):
    """writing changes nothing of the tag but its padding"""
    import entries
    used = set()
    h, fr, _ = entries.tag_parts(eng, s, ctx.tag, used)
    if [f.b for f in fr] != [('r', (pre + 'frame', k)) for k in range(ctx.n)]:
        raise SpecFail('C06', 'writing changes the frames of the tag', s)
    tot = pad
    for k in range(ctx.n):
        tot = tot + 10 + eng.check_frame(s, fr[k], eng.orig(s, k, pre), used, {'*': 'C06'})
    if not s.st.ent_eq(eng.get(s, h, 'ID3v2_TagHeader', 'tag_size') - tot):
        raise SpecFail('C03', 'the tag size is not the size of the frames plus the padding', s)
    for f, want in (('major_version', S(('ver', pre), 3, 4)), ('minor_version', S(('rev', pre), 0, 255)), ('flags', S(('tflags', pre), 0, 255))):
        if not s.st.ent_eq(eng.get(s, h, 'ID3v2_TagHeader', f) - want):
            raise SpecFail('C06', f'writing modifies the header of the tag ({f})', s)


def place(segs):
    pos = ZERO
    out = []
    for x in segs:
        out.append((pos, x[0], x[1]))
        pos = pos + x[0]
    return tuple(out), pos


def old_end(eng, s, src):
    """where the audio begins: list of (state, offset or None if the header size is no synchsafe number, recognised)"""
    out = []
    for s1, ver in R.recognised(eng, s, src):
        if ver is None:
            out.append((s1, ZERO, False))
            continue
        ts = R.tag_size(eng, s1, src)
        if ts is None:
            continue
        ends = [(s1, ts + 10)]
        if ver == 4:
            fl = eng.byte_of(s1, src.F, C(5))
            b4 = B.from_bits(s1, B.b_and(B.to_bits(s1, fl, 8), B.to_bits(s1, C(16), 8)), False)
            ends = [(s2, ts + 10 if z else ts + 20) for s2, z in split_eq(s1, ('eq', b4))]
        for s2, e in ends:
            for s3, inside in split_eq(s2, ('ge', src.N - e)):
                out.append((s3, e if inside else src.N, True))
    return out


def failed(s):
    """something went wrong on this path"""
    return 'ioerr' in s.flags or any(isinstance(f, tuple) and f[0] == 'openfail' for f in s.flags)


def is_original(eng, s):
    f = s.files.get(PATH)
    return f is None or (s.st.ent_eq(f.size - FLEN) and eng.seq_eq(s, f.segs, ((ZERO, FLEN, ('bytes', F, ZERO)),)))


def touched(s):
    return any(e[0] in ('trunc', 'mod') and e[2] == PATH for e in s.ev)


# ---------------------------------------------------------------------- C08: staged before the target is touched
def arm(eng, ctx):
    """install the hooks that judge the moment at which the target is modified"""
    def staged(s, sid, st, ins):
        if st.file != PATH or 'imprecise' in s.flags:
            return
        src = R.Src(F, FLEN)
        for s1, o, rec in old_end(eng, s.copy(), src):
            offs = [o]
            if failed(s1) or not rec:
                offs.append(ZERO)       # the old header could not be read: everything counts as audio
            if not any(holds_audio(eng, s1, x) for x in offs):
                eng.viol('C08', ins, 'the file is modified although its old contents are not completely staged (and checked) elsewhere', s1,
                         loc=site(st))
                return

    def truncating(s, sid, st):
        staged(s, sid, st, None)

    def writing(s, sid, st, ins):
        if st.file == PATH and st.mode[:1] != 'w' and not touched(s):
            s.ev = s.ev + (('mod', sid, PATH),)
            staged(s, sid, st, ins)
    eng.truncating = truncating
    eng.writing = writing

    def site(st):
        f, l = st.site.rsplit(':', 1)
        return (f, int(l), eng.entry_fn)


def holds_audio(eng, s, o):
    """some other live object holds the bytes from o to the end of the old file"""
    n = FLEN - o
    if s.st.ent(-n):
        return True
    for fk, f in s.files.items():
        if fk == PATH:
            continue
        if has_bytes(eng, s, f.segs, o, n):
            # written without errors, and flushed
            for st in s.streams.values():
                if st.file == fk and not st.lost and s.st.ent_eq(st.werr) and s.st.ent_eq(st.perr):
                    return True
    for r in s.heap.values():
        if has_bytes(eng, s, r.segs, o, n):
            return True
    return False


def has_bytes(eng, s, segs, o, n):
    segs = eng.bytes_canon(s, segs)
    for p, l, c in segs:
        if c[0] == 'bytes' and c[1] == F and s.st.ent(o - c[2]) and s.st.ent(c[2] + l - o - n):
            return True
    end = s.red(segs[-1][0] + segs[-1][1]) if segs else ZERO
    if segs and s.st.ent(end - n):
        for t, m in eng.read_range(s.copy(), Region('tmp', end, segs, ''), end - n, n):
            if not eng.seq_eq(t, m, ((ZERO, n, ('bytes', F, o)),)):
                return False
        return True
    return False


# ---------------------------------------------------------------------- exit checks
def part(eng, s, f, *a):
    """one part of a check: reported on its own"""
    try:
        f(*a)
    except SpecFail as x:
        eng.viol(x.cat, None, x.what, x.state or s)


def check_file(eng, s, want_head, cat, whole_msg):
    """the target consists of want_head followed by the audio"""
    f = s.files.get(PATH)
    src = R.Src(F, FLEN)
    if f is None:
        raise SpecFail(cat, 'the file is not written', s)
    for s1, o, rec in old_end(eng, s.copy(), src):
        f = s1.files[PATH]
        head, hl = place(want_head(s1))
        tail = ((ZERO, FLEN - o, ('bytes', F, o)),)
        for s2, left, right in eng.cut(s1, f.segs, s1.red(hl)):
            part(eng, s2, check_head, eng, s2, left, want_head(s2))
            if not s2.st.ent_eq(f.size - hl - FLEN + o):
                eng.viol(cat, None, 'the file does not have the length of the new tag and the old audio', s2)
            elif not eng.seq_eq(s2, tuple((x[0] - hl, x[1], x[2]) for x in right), tail):
                eng.viol(cat, None, whole_msg, s2)


def check_head(eng, s, segs, want):
    """byte for byte, so that the report can say what is wrong"""
    pos = ZERO
    rest = tuple(segs)
    exp, n = place(want)
    if eng.seq_eq(s, segs, exp):
        return
    # find the first difference
    for l, c, cat in want:
        hit = False
        if s.st.ent_eq(l):
            continue
        for s1, a, b in eng.cut(s, rest, s.red(pos + l)):
            if s1 is not s:
                break
            if not eng.seq_eq(s, tuple((x[0] - pos, x[1], x[2]) for x in a), ((ZERO, l, c),)):
                raise SpecFail(cat, f'the encoded tag differs from the layout at offset {pos!r}', s)
            rest, pos, hit = b, pos + l, True
            break
        if not hit:
            break
    raise SpecFail('C13', 'the encoded tag differs from the ID3v2 layout', s)


def c_write(eng, s, v, ctx):
    eng.exit_ownership(s, ctx.roots)
    if ctx.tag is None or ctx.tag == NULL:
        if touched(s):
            raise SpecFail('C06+C08', 'writing no tag modifies the file', s)
        return
    pad = eng.get(s, ctx.tag, 'ID3v2_Tag', 'padding_size')
    if not s.st.ent(pad):
        raise SpecFail('C03', 'the recorded padding can be negative', s)
    part(eng, s, ctx.check_tag, eng, s, pad)
    if failed(s):
        if not touched(s):
            return
        # touched after a failure that the staging rule accepted (the header could not be read)
        if copy_failed(s):
            return
    elif not touched(s):
        raise SpecFail('C06', 'the tag is not written although nothing failed', s)
    if 'ioerr' in s.flags or failed(s):
        return
    for s1, ver in [(a, 3 if b else 4) for s0 in settle(eng, s, ctx.n) for a, b in split_eq(s0, ('eq', S(('ver', ''), 3, 4) - 3))]:
        check_file(eng, s1, lambda x: tag_segs(eng, x, ctx.n, pad, ver)[0], 'C06',
                   'what follows the new tag is not exactly the old audio')


def settle(eng, s, n, pre=''):
    """frames whose contents were never looked at: decide what they are"""
    work = [s]
    for k in range(n):
        nx = []
        for x in work:
            if (pre, k) in x.mat:
                nx.append(x)
                continue
            for y, p in eng.materialise(x.copy(), pre, k):
                y.map_values(lambda v: Ptr(p.b, p.o + v.o) if isinstance(v, Ptr) and v.b == ('lazy', (pre, k)) else v)
                nx.append(y)
        work = nx
    return work


def copy_failed(s):
    return True


def c_delete_file(eng, s, v, ctx):
    eng.exit_ownership(s, ctx.roots)
    src = R.Src(F, FLEN)
    if failed(s):
        return
    for s1, o, rec in old_end(eng, s.copy(), src):
        if not rec:
            if touched(s1):
                raise SpecFail('C07', 'a file without a supported tag is rewritten', s1)
            continue
        if not touched(s1):
            raise SpecFail('C07', 'the tag is not removed although nothing failed', s1)
        check_file(eng, s1, lambda x: [], 'C07', 'the file is not exactly what followed the tag')
