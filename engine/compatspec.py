"""Entry states and exit specification of the compatibility API."""
from spec import *
from state import *
import readspec as R
import writespec as W


def mk_ctag(eng, s, n, raw):
    """any compatibility tag of n frames that mirrors its underlying tag"""
    tag = eng.mk_tag(s, n)
    if raw:
        N = S(('rawlen',), 0, 2 ** 30)
        rp = eng.blob(s, ('craw',), N, [(N, ('bytes', ('data', 'raw'), ZERO))], 'owned')
    else:
        rp = NULL
    tot = S(('pad', ''), 0, BIGSZ)
    for k in range(n):
        tot = tot + S(('sz', '', k), 0, BIGSZ) + 10
    hp = eng.obj(s, ('cheader',), 'ID3v2_header', dict(
        tag=('bytes', ('lit', b'ID3'), ZERO), major_version=S(('ver', ''), 3, 4), minor_version=S(('rev', ''), 0, 255),
        flags=S(('tflags', ''), 0, 255), tag_size=S(('ctsz',), -2 ** 31, 2 ** 31 - 1),
        extended_header_size=S(('ehs', ''), -2 ** 31, 2 ** 31 - 1)))
    head = Ptr(('r', ('cnode', 0)))
    for k in range(max(n, 1)):
        eng.obj(s, ('cnode', k), 'ID3v2_frame_list', dict(
            frame=Ptr(('r', ('cframe', k))) if n else NULL, start=head if n else NULL,
            last=(Ptr(('r', ('cnode', n - 1))) if k == 0 else NULL) if n else NULL,
            next=Ptr(('r', ('cnode', k + 1))) if k + 1 < n else NULL))
    for k in range(n):
        z = S(('sz', '', k), 0, BIGSZ)
        eng.obj(s, ('cframe', k), 'ID3v2_frame', dict(
            frame_id=('bytes', ('fid', '', k), ZERO), size=z, flags=('bytes', ('ffl', '', k), ZERO),
            data=eng.blob(s, ('cdata', k), z, [(z, ('bytes', ('data', 'cpay', k), ZERO))], 'owned'),
            frame=Ptr(('r', ('frame', k)))))
    return eng.obj(s, ('ctag',), 'ID3v2_tag', dict(raw=rp, tag_header=hp, frames=head, tag=tag))


def cframes(eng, s, ct, used):
    """compatibility frames in order; the list is well formed"""
    p = eng.get(s, ct, 'ID3v2_tag', 'frames')
    fr = eng.frames_of(s, p, 'ID3v2_frame_list', own=used)
    if fr:
        nodes = eng.list_nodes(s, p, 'ID3v2_frame_list')
        last = eng.get(s, nodes[0], 'ID3v2_frame_list', 'last')
        if not (isinstance(last, Ptr) and last.b == nodes[-1].b):
            raise SpecFail('C19', 'the list of presented frames does not refer to its last node', s)
    return fr


def payload(eng, s, e):
    return [x[:2] for x in W.frame_segs(eng, s, e, 3)[10:]]


def check_cframe(eng, s, cf, uf, e, used, unchanged=None):
    """the presented frame cf shows the underlying frame uf, whose contents are e"""
    st = 'ID3v2_frame'
    eng.own(s, cf, 'a presented frame', used)
    for f, want in (('frame_id', e['id']), ('flags', e['flags'])):
        for x, y in zip(eng.farray(s, cf, st, f), want):
            if not s.st.ent_eq(x - y):
                raise SpecFail('C19', f'the presented frame does not have the {f} of the underlying frame', s)
    usize = eng.get(s, eng.get(s, uf, 'ID3v2_Frame', 'header'), 'ID3v2_FrameHeader', 'size')
    if not s.st.ent_eq(eng.get(s, cf, st, 'size') - usize):
        raise SpecFail('C19', 'the presented frame does not have the size of the underlying frame', s)
    q = eng.get(s, cf, st, 'frame')
    if not (isinstance(q, Ptr) and q.b == uf.b and s.st.ent_eq(q.o)):
        raise SpecFail('C19', 'the presented frame does not refer to the underlying frame it shows', s)
    if not s.st.ent_eq(usize - e['size']):
        return          # the underlying frame is not as expected, which is reported on its own
    d = eng.get(s, cf, st, 'data')
    if isn(d) and s.st.ent_eq(e['size']):
        return
    r = eng.own(s, d, 'the data of a presented frame', used)
    if unchanged is not None:
        want = ((ZERO, e['size'], ('bytes', ('data', 'cpay', unchanged), ZERO)),)
    else:
        want, n = W.place([(l, c) for l, c in payload(eng, s, e)])
        if not s.st.ent_eq(n - e['size']):
            raise SpecFail('C19', 'the size of the presented frame is not that of its payload', s)
    cat = lambda c: 'C19'
    eng.prefix(s, r, want, cat, 'data', 'the payload presented')


def check_cheader(eng, s, ct, h):
    """the presented header is that of the tag"""
    ch = eng.get(s, ct, 'ID3v2_tag', 'tag_header')
    for x, y in zip(eng.farray(s, ch, 'ID3v2_header', 'tag'), b'ID3'):
        if not s.st.ent_eq(x - y):
            eng.differs('C19', 'the presented header does not have the identifier', s)
    for f in ('major_version', 'minor_version', 'flags', 'tag_size', 'extended_header_size'):
        a, b = eng.get(s, ch, 'ID3v2_header', f), eng.get(s, h, 'ID3v2_TagHeader', f)
        if not eng.num_eq(s, a, b):
            eng.differs('C19', f'the presented header does not have the {f} of the tag', s)


def check_ctag(eng, s, ctx, expect):
    """expect: list of (expectation, index of the original presented frame or None if new)"""
    ct = ctx.ctag
    used = set()
    eng.own(s, ct, 'the tag', used)
    eng.own(s, eng.get(s, ct, 'ID3v2_tag', 'tag_header'), 'the presented header', used)
    t = eng.get(s, ct, 'ID3v2_tag', 'tag')
    if not (isinstance(t, Ptr) and t.b == ('r', ('tag',))):
        raise SpecFail('C19', 'the underlying tag was replaced', s)
    cf = cframes(eng, s, ct, used)
    uf = eng.frames_of(s, eng.get(s, t, 'ID3v2_Tag', 'frames'))
    if len(cf) != len(expect) or len(uf) != len(expect):
        raise SpecFail('C19', f'{len(cf)} frames are presented and {len(uf)} are in the underlying tag where {len(expect)} are expected', s)
    for c, u, (e, k) in zip(cf, uf, expect):
        check_cframe(eng, s, c, u, e, used, k)


# ---------------------------------------------------------------------- loading
def check_load(eng, s, ct, src):
    if isn(ct):
        return R.check_read(eng, s, NULL, src)
    used = set()
    eng.own(s, ct, 'the tag', used)
    ch = eng.get(s, ct, 'ID3v2_tag', 'tag_header')
    eng.own(s, ch, 'the presented header', used)
    raw = eng.get(s, ct, 'ID3v2_tag', 'raw')
    if not isn(raw):
        eng.own(s, raw, 'the raw copy', used)
    cf = cframes(eng, s, ct, used)
    t = eng.get(s, ct, 'ID3v2_tag', 'tag')
    if isn(t):
        raise SpecFail('C19', 'there is no underlying tag', s)
    uf = eng.frames_of(s, eng.get(s, t, 'ID3v2_Tag', 'frames'))

    def mirror(s1, exps):
        check_cheader(eng, s1, ct, eng.get(s1, t, 'ID3v2_Tag', 'header'))
        if len(cf) != len(exps):
            raise SpecFail('C19', f'{len(cf)} frames are presented where the tag has {len(exps)}', s1)
        for c, u, e in zip(cf, uf, exps):
            got = eng.frame_as_read(s1, u, e)
            check_cframe(eng, s1, c, u, got, set(used))
    R.check_read(eng, s, t, src, set(used), mirror)
