"""The entries: which public functions are analysed, in which states, and what has to hold when they return."""
import time
from spec import *
from state import *

ENTRIES = {}


class Entry:
    def __init__(self, name, fn, group, scen, kmax=3, cost=1):
        self.name, self.fn, self.group, self.scen, self.kmax, self.cost = name, fn, group, scen, kmax, cost


def entry(name, fn, group, scen, **kw):
    ENTRIES[name] = Entry(name, fn, group, scen, **kw)


def run_entry(m, name, only=None, budget=300.0, trace=False):
    """-> engine after analysing every scenario of the entry"""
    e = ENTRIES[name]
    if e.fn not in m.funcs:
        raise interp._ir.AnalysisBroken(f'public function {e.fn} is gone')
    eng = Spec(m, name, kmax=e.kmax, budget=budget)
    eng.entry_fn = e.fn
    eng.exits = 0
    eng.scen = 0
    for sc in e.scen:
        run_scenario(eng, e, sc, trace)
    return eng


def run_scenario(eng, e, sc, trace=False):
    build, check, arg = sc
    eng.lazy = {}
    eng.prune, eng.kmax = None, e.kmax
    for hook in ('truncating', 'writing', 'closed', 'open_write'):
        eng.__dict__.pop(hook, None)
    eng.contracts = {'ID3v2_strlen', 'ID3v2_strlent'}
    s = State()
    ctx = Ctx()
    ctx.entry = e
    args = build(eng, s, ctx, arg)
    eng.scen += 1
    # the input is part of the tag: reading it after its owner was freed also breaks "the result holds the input"
    eng.uaf_rule = 'uaf+C11' if ('set_' in e.name or 'add_' in e.name) and isinstance(arg, tuple) and type(arg[-1]) is int else 'uaf'
    if s.st.dead:
        return
    try:
        outs = eng.run_function(s, e.fn, args)
    except GiveUp as x:
        eng.undec(str(x))
        return
    if trace:
        print(e.name, arg, len(outs), 'exits', round(time.time() - eng.t0, 2), eng.stats)
    for s1, v in outs:
        eng.exits += 1
        if 'imprecise' in s1.flags:
            eng.undec('imprecise at exit')
            continue
        if s1.oom:
            eng.exit_ownership(s1, ctx.roots + [v])
            continue
        verify(eng, s1, v, ctx, check)


def verify(eng, s, v, ctx, check):
    try:
        check(eng, s, v, ctx)
    except SpecFail as x:
        eng.viol(x.cat, None, x.what, x.state or s)
    except GiveUp as x:
        eng.undec('exit: ' + str(x))


class Ctx:
    def __init__(self):
        self.roots = []


def cases(eng, s, ctx, want, n, pre=''):
    """all combinations of which frames carry the wanted id: list of (state, [bool])"""
    work = [(s, [])]
    for k in range(n):
        nx = []
        for x, l in work:
            for y, b in split_eq(x, eng.id_eq(pre, k, want)):
                nx.append((y, l + [b]))
        work = nx
    return work


def same_tag(eng, s, ctx, cat, what):
    """nothing of the tag changed: every object that existed at entry still has its contents"""
    for rid, segs in ctx.snap.items():
        r = s.heap.get(rid)
        if r is None:
            raise SpecFail(cat, f'{what}: {rid[0]} was freed', s)
        if r.segs is not segs and not same_segs(eng, s, relazy(eng, s, segs), r.segs):
            raise SpecFail(cat, f'{what}: {rid[0]} was modified', s)
    for (pre, k), kind in s.mat.items():
        used = set()
        eng.check_frame(s, Ptr(('r', (pre + 'frame', k))), eng.orig(s, k, pre), used, {'*': cat})


def same_segs(eng, s, a, b):
    """the same contents, however they are cut into pieces"""
    return a is b or s.csegs(a) == s.csegs(b) or s.csegs(eng.bytes_canon(s, a)) == s.csegs(eng.bytes_canon(s, b))


def relazy(eng, s, segs):
    out = []
    for o, l, c in segs:
        if c[0] == 'val' and isinstance(c[1], Ptr) and c[1].b is not None and c[1].b[0] == 'lazy' and c[1].b[1] in s.mat:
            pre, k = c[1].b[1]
            c = ('val', Ptr(('r', (pre + 'data', k))), c[2])
        out.append((o, l, c))
    return tuple(out)


def snap(ctx, s):
    ctx.snap = {rid: r.segs for rid, r in s.heap.items()}


def mk_id(eng, s, lit=None, rid=('id',)):
    if lit is not None:
        return None, [C(x) for x in lit]
    G = ('nz', 'id')
    p = eng.blob(s, rid, C(5), [(C(4), ('bytes', G, ZERO)), (ONE, ZEROC)])
    return p, [eng.byte_of(s, G, C(i)) for i in range(4)]


# ---------------------------------------------------------------------- lookups
def b_get(lit, nullable=True):
    def build(eng, s, ctx, n):
        ctx.n = n
        idp, ctx.want = mk_id(eng, s, lit)
        if n is None:
            tag = NULL
        else:
            tag = eng.mk_tag(s, n)
            ctx.roots.append(tag)
        if idp is not None:
            ctx.roots.append(idp)
        snap(ctx, s)
        return [tag] + ([idp] if idp is not None else [])
    return build


def c_get(named):
    cat = 'C10' if not named else 'C09+C10'

    def check(eng, s, v, ctx):
        eng.exit_ownership(s, ctx.roots + [v])
        if ctx.n is None:
            if not isn(v):
                raise SpecFail(cat, 'a lookup in no tag returns something', s)
            return
        same_tag(eng, s, ctx, 'C10', 'lookup')
        for s1, m in cases(eng, s, ctx, ctx.want, ctx.n):
            first = m.index(True) if True in m else None
            if first is None:
                if not isn(v):
                    raise SpecFail(cat, 'the lookup returns a frame although none has the requested id', s1)
            elif not (isinstance(v, Ptr) and v.b == ('r', ('frame', first)) and s1.red(v.o) == ZERO):
                raise SpecFail(cat, 'the lookup does not return the first frame with the requested id', s1)
    return check


def c_get_all(named):
    cat = 'C10' if not named else 'C09+C10'

    def check(eng, s, v, ctx):
        eng.exit_ownership(s, ctx.roots + [v])
        if ctx.n is None:
            if not isn(v):
                raise SpecFail(cat, 'a lookup in no tag returns something', s)
            return
        same_tag(eng, s, ctx, 'C10', 'lookup')
        for s1, m in cases(eng, s, ctx, ctx.want, ctx.n):
            if isn(v):
                raise SpecFail(cat, 'the lookup of all frames returns no list', s1)
            used = set()
            fr = eng.frames_of(s1, v, own=used)
            exp = [('r', ('frame', k)) for k in range(ctx.n) if m[k]]
            if [f.b for f in fr] != exp:
                raise SpecFail(cat, 'the list is not exactly the frames with the requested id in tag order', s1)
    return check


NS = (None, 0, 1, 2, 3)


def scens(build, check, args):
    return [(build, check, a) for a in args]


entry('get_frame', 'ID3v2_Tag_get_frame', 'edit', scens(b_get(None), c_get(False), NS), kmax=4)
entry('get_frames', 'ID3v2_Tag_get_frames', 'edit', scens(b_get(None), c_get_all(False), NS), kmax=4)
for _n, _i in list(NAMED.items()) + [('comment', 'COMM'), ('album_cover', 'APIC')]:
    entry('get_' + _n, f'ID3v2_Tag_get_{_n}_frame', 'edit', scens(b_get(_i.encode()), c_get(True), NS), kmax=4)
entry('get_comments', 'ID3v2_Tag_get_comment_frames', 'edit', scens(b_get(COMM), c_get_all(True), NS), kmax=4)
entry('get_apics', 'ID3v2_Tag_get_apic_frames', 'edit', scens(b_get(APIC), c_get_all(True), NS), kmax=4)



# ---------------------------------------------------------------------- the tag after an edit
def tag_parts(eng, s, tag, used):
    """header, frame pointers and padding of a well formed tag"""
    eng.own(s, tag, 'the tag', used)
    h = eng.get(s, tag, 'ID3v2_Tag', 'header')
    eng.own(s, h, 'the tag header', used)
    fr = eng.frames_of(s, eng.get(s, tag, 'ID3v2_Tag', 'frames'), own=used)
    return h, fr, eng.get(s, tag, 'ID3v2_Tag', 'padding_size')


def check_tag(eng, s, ctx, tag, expect, cats, header_same=True):
    """the tag consists of exactly the expected frames, and its sizes agree"""
    used = set()
    h, fr, pad = tag_parts(eng, s, tag, used)
    if len(fr) != len(expect):
        eng.differs(cats['count'], f'the tag has {len(fr)} frames where {len(expect)} are expected', s)
        tot = pad
        for p in fr:
            tot = tot + eng.get(s, eng.get(s, p, 'ID3v2_Frame', 'header'), 'ID3v2_FrameHeader', 'size') + 10
        if not s.st.ent_eq(eng.get(s, h, 'ID3v2_TagHeader', 'tag_size') - tot):
            eng.differs('C03', 'the tag size is not the size of the frames plus the padding', s)
        return
    tot = pad
    for p, e in zip(fr, expect):
        sz = eng.check_frame(s, p, e, used, cats if e.get('new') else {'*': cats['others']})
        tot = tot + sz + 10
    ts = eng.get(s, h, 'ID3v2_TagHeader', 'tag_size')
    if not s.st.ent_eq(ts - tot):
        eng.differs('C03', 'the tag size is not the size of the frames plus the padding', s)
    if header_same:
        for f, want in (('major_version', S(('ver', ''), 3, 4)), ('minor_version', S(('rev', ''), 0, 255)), ('flags', S(('tflags', ''), 0, 255))):
            if not s.st.ent_eq(eng.get(s, h, 'ID3v2_TagHeader', f) - want):
                eng.differs(cats['others'], f'the tag header was modified ({f})', s)
        if not s.st.ent_eq(pad - S(('pad', ''), 0, BIGSZ)):
            eng.differs('C03', 'the padding changed', s)


SET = {'*': 'C11', 'id': 'C09+C11', 'size': 'C03', 'dsize': 'C03+C17', 'enc': 'C17', 'data': 'C11+C17', 'data-short': 'C17+C11+C02',
       'count': 'C11', 'others': 'C11'}
DEL = {'*': 'C12', 'count': 'C09+C12', 'others': 'C12'}


def edit_roots(ctx, tag, *more):
    ctx.roots += [tag] + list(more)


def text_exp(eng, want, flags, G, size=None):
    return dict(name='the new frame', new=True, id=want, flags=flags, size=eng.enc_len(G) + 1,
                data=('text', dict(text=eng.str_segs(G), enc=eng.str_t(G) - 1, size=eng.enc_len(G))))


def flags_in(eng, s, rid=('flags',)):
    G = ('flg', 'in')
    return eng.blob(s, rid, C(2), [(C(2), ('bytes', G, ZERO))]), eng.bytes4(G, 2)


def text_arg(eng, s, ctx, alias):
    """the text passed in: the caller's own string, or the text of one of the tag's frames"""
    if alias is None:
        G = ('str', 'arg', 'text')
        ctx.G = G
        p = eng.string(s, ('arg-text',), G)
        ctx.roots.append(p)
        return p
    k = alias
    b0 = eng.bytes4(('fid', '', k))[0]
    if not s.st.add_eq(b0 - ord('T')):
        return NULL
    s.mat[('', k)] = 'text'
    d = eng.mk_data(s, '', k, 'text')
    fix_lazy(s, ('', k), d)
    ctx.G = eng.G('text', '', k)
    return Ptr(('r', ('text', k)))


def fix_lazy(s, key, tgt):
    s.map_values(lambda v: Ptr(tgt.b, tgt.o + v.o) if isinstance(v, Ptr) and v.b == ('lazy', key) else v)


def b_set_text(lit):
    """ID3v2_Tag_set_text_frame(tag, input) or a named setter (tag, text)"""
    def build(eng, s, ctx, arg):
        n, alias = arg
        ctx.n = n
        tag = eng.mk_tag(s, n)
        ctx.tag = tag
        txt = text_arg(eng, s, ctx, alias)
        ctx.roots.append(tag)
        if lit is not None:
            ctx.want, ctx.flags = [C(x) for x in lit], [ZERO, ZERO]
            return [tag, txt]
        idp, ctx.want = mk_id(eng, s)
        s.st.add_eq(ctx.want[0] - ord('T'))
        fp, ctx.flags = flags_in(eng, s)
        inp = eng.obj(s, ('input',), 'ID3v2_TextFrameInput', dict(id=idp, flags=fp, text=txt), kind='input')
        if alias is None:
            ctx.roots.append(inp)
        return [tag, inp]
    return build


def c_set(exp):
    def check(eng, s, v, ctx):
        eng.exit_ownership(s, ctx.roots)
        for s1, m in cases(eng, s, ctx, ctx.want, ctx.n):
            new = exp(eng, s1, ctx)
            ex = [eng.orig(s1, k) for k in range(ctx.n)]
            if True in m and not ctx.__dict__.get('add'):
                ex[m.index(True)] = new
            else:
                ex.append(new)
            check_tag(eng, s1, ctx, ctx.tag, ex, SET)
    return check


def e_text(eng, s, ctx):
    return text_exp(eng, ctx.want, ctx.flags, ctx.G)


TXT = [(0, None), (1, None), (2, None), (3, None), (1, 0), (2, 0), (2, 1)]
entry('set_text', 'ID3v2_Tag_set_text_frame', 'edit', scens(b_set_text(None), c_set(e_text), TXT), kmax=4)
for _n, _i in NAMED.items():
    entry('set_' + _n, f'ID3v2_Tag_set_{_n}', 'edit', scens(b_set_text(_i.encode()), c_set(e_text), [(0, None), (1, None), (2, None), (1, 0)]), kmax=4)


# comments
def b_comment(short, add):
    def build(eng, s, ctx, arg):
        n, alias = arg
        ctx.n, ctx.add = n, add
        tag = eng.mk_tag(s, n)
        ctx.tag = tag
        ctx.roots.append(tag)
        ctx.want = [C(x) for x in COMM]
        LG = ('lang', 'arg')
        ctx.lang = eng.bytes4(LG, 3)
        if alias is None:
            ctx.T, ctx.D = ('str', 'arg', 'comment'), ('str', 'arg', 'desc')
            cp, dp = eng.string(s, ('arg-comment',), ctx.T), eng.string(s, ('arg-desc',), ctx.D)
            lp = eng.blob(s, ('arg-lang',), C(3), [(C(3), ('bytes', LG, ZERO))])
            ctx.roots += [cp, dp, lp]
        else:
            k = alias
            for b, c in zip(eng.bytes4(('fid', '', k)), COMM):
                s.st.add_eq(b - c)
            s.mat[('', k)] = 'comm'
            fix_lazy(s, ('', k), eng.mk_data(s, '', k, 'comm'))
            ctx.T, ctx.D = eng.G('comment', '', k), eng.G('desc', '', k)
            cp, dp = Ptr(('r', ('comment', k))), Ptr(('r', ('desc', k)))
            ctx.lang = eng.bytes4(('lang', '', k), 3)
            lp = Ptr(('r', ('data', k)), C(eng.fo('ID3v2_CommentFrameData', 'language')[0]))
        if short:
            ctx.flags, ctx.D = [ZERO, ZERO], None
            return [tag, lp, cp]
        fp, ctx.flags = flags_in(eng, s)
        inp = eng.obj(s, ('input',), 'ID3v2_CommentFrameInput', dict(flags=fp, language=lp, short_description=dp, comment=cp), kind='input')
        if alias is None:
            ctx.roots.append(inp)
        return [tag, inp]
    return build


def e_comment(eng, s, ctx):
    T, D = ctx.T, ctx.D
    if D is not None:
        dseg, dlen = eng.str_segs(D), eng.enc_len(D)
    else:
        # the short setter: an empty description in the encoding of the comment
        t = s.red(eng.str_t(T))
        if not t.isconst():
            raise GiveUp('encoding of the comment undecided')
        d = b'\0' if t.c == 1 else b'\xff\xfe\0\0'
        dseg, dlen = ((ZERO, C(len(d)), ('bytes', ('lit', d), ZERO)),), C(len(d))
    return dict(name='the new frame', new=True, id=ctx.want, flags=ctx.flags, size=eng.enc_len(T) + dlen + 4,
                data=('comm', dict(comment=eng.str_segs(T), desc=dseg, enc=eng.str_t(T) - 1, size=eng.enc_len(T), lang=ctx.lang)))


NA = [(0, None), (1, None), (2, None)]
entry('set_comment_frame', 'ID3v2_Tag_set_comment_frame', 'edit', scens(b_comment(False, False), c_set(e_comment), NA + [(3, None), (1, 0), (2, 1)]), kmax=4)
entry('add_comment_frame', 'ID3v2_Tag_add_comment_frame', 'edit', scens(b_comment(False, True), c_set(e_comment), NA + [(1, 0)]), kmax=4)
entry('set_comment', 'ID3v2_Tag_set_comment', 'edit', scens(b_comment(True, False), c_set(e_comment), NA + [(1, 0)]), kmax=4)


# pictures
def b_apic(short, add):
    def build(eng, s, ctx, arg):
        n, alias = arg
        ctx.n, ctx.add = n, add
        tag = eng.mk_tag(s, n)
        ctx.tag = tag
        ctx.roots.append(tag)
        ctx.want = [C(x) for x in APIC]
        ctx.ptype = S(('ptype', 'arg'), 0, 255)
        ctx.picsz = S(('picsz', 'arg'), 0, BIGSZ)
        ctx.PG = ('data', 'pic', 'arg')
        if alias is None:
            ctx.M, ctx.D = ('str', 'arg', 'mime'), ('str', 'arg', 'desc')
            mp, dp = eng.string(s, ('arg-mime',), ctx.M), eng.string(s, ('arg-desc',), ctx.D)
            pp = eng.blob(s, ('arg-pic',), ctx.picsz, [(ctx.picsz, ('bytes', ctx.PG, ZERO))])
            ctx.roots += [mp, dp, pp]
        else:
            k = alias
            for b, c in zip(eng.bytes4(('fid', '', k)), APIC):
                s.st.add_eq(b - c)
            s.mat[('', k)] = 'apic'
            fix_lazy(s, ('', k), eng.mk_data(s, '', k, 'apic'))
            ctx.M, ctx.D = eng.G('mime', '', k), eng.G('pdesc', '', k)
            mp, dp, pp = Ptr(('r', ('mime', k))), Ptr(('r', ('pdesc', k))), Ptr(('r', ('pic', k)))
            ctx.PG, ctx.picsz = ('data', 'pic', '', k), S(('picsz', '', k), 0, BIGSZ)
        if short:
            ctx.flags, ctx.D, ctx.ptype = [ZERO, ZERO], None, C(3)
            return [tag, mp, ctx.picsz, pp]
        fp, ctx.flags = flags_in(eng, s)
        inp = eng.obj(s, ('input',), 'ID3v2_ApicFrameInput', dict(flags=fp, mime_type=mp, description=dp, picture_type=ctx.ptype,
                                                                picture_size=ctx.picsz, data=pp), kind='input')
        if alias is None:
            ctx.roots.append(inp)
        return [tag, inp]
    return build


def e_apic(eng, s, ctx):
    M, D, n = ctx.M, ctx.D, ctx.picsz
    if D is not None:
        dseg, dlen, enc = eng.str_segs(D), eng.enc_len(D), eng.str_t(D) - 1
    else:
        # "one encoding for its (empty) description consistent with that mark": either form of the empty string, but consistently
        enc = ctx.enc_seen = short_apic_enc(eng, s, ctx)
        d = b'\0' if enc.c == 0 else b'\xff\xfe\0\0'
        dseg, dlen = ((ZERO, C(len(d)), ('bytes', ('lit', d), ZERO)),), C(len(d))
    return dict(name='the new frame', new=True, id=ctx.want, flags=ctx.flags, size=eng.enc_len(M) + dlen + n + 2,
                data=('apic', dict(mime=eng.str_segs(M), desc=dseg, enc=enc, ptype=ctx.ptype, picsize=n,
                                   pic=((ZERO, n, ('bytes', ctx.PG, ZERO)),))))


def short_apic_enc(eng, s, ctx):
    """the encoding byte the new frame has (0 or 1)"""
    try:
        fr = eng.frames_of(s, eng.get(s, ctx.tag, 'ID3v2_Tag', 'frames'))
        for p in fr:
            if p.b[1][0] != 'frame':
                e = s.red(eng.get(s, eng.get(s, p, 'ID3v2_Frame', 'data'), 'ID3v2_ApicFrameData', 'encoding'))
                if e.isconst() and e.c in (0, 1):
                    return e
    except (SpecFail, GiveUp):
        pass
    return ONE


entry('set_apic_frame', 'ID3v2_Tag_set_apic_frame', 'edit', scens(b_apic(False, False), c_set(e_apic), NA + [(3, None), (1, 0), (2, 1)]), kmax=4)
entry('add_apic_frame', 'ID3v2_Tag_add_apic_frame', 'edit', scens(b_apic(False, True), c_set(e_apic), NA + [(1, 0)]), kmax=4)
entry('set_album_cover', 'ID3v2_Tag_set_album_cover', 'edit', scens(b_apic(True, False), c_set(e_apic), NA + [(1, 0)]), kmax=4)


# ---------------------------------------------------------------------- deleters
def b_delete(lit):
    def build(eng, s, ctx, n):
        ctx.n = n
        tag = eng.mk_tag(s, n)
        ctx.tag = tag
        ctx.roots.append(tag)
        idp, ctx.want = mk_id(eng, s, lit)
        if idp is not None:
            ctx.roots.append(idp)
            return [tag, idp]
        return [tag]
    return build


def c_delete(eng, s, v, ctx):
    eng.exit_ownership(s, ctx.roots)
    for s1, m in cases(eng, s, ctx, ctx.want, ctx.n):
        ex = [eng.orig(s1, k) for k in range(ctx.n)]
        if True in m:
            gone = m.index(True)
            ex.pop(gone)
        check_tag(eng, s1, ctx, ctx.tag, ex, DEL)


def b_delete_idx(lit):
    def build(eng, s, ctx, n):
        ctx.n = n
        tag = eng.mk_tag(s, n)
        ctx.tag = tag
        ctx.roots.append(tag)
        ctx.want = [C(x) for x in lit]
        ctx.idx = S(('index',), -2 ** 31, 2 ** 31 - 1)
        return [tag, ctx.idx]
    return build


def c_delete_idx(eng, s, v, ctx):
    eng.exit_ownership(s, ctx.roots)
    for s1, m in cases(eng, s, ctx, ctx.want, ctx.n):
        pos = [k for k in range(ctx.n) if m[k]]
        work = [s1]
        for i, k in enumerate(pos):
            nx = []
            for x in work:
                for y, b in split_eq(x, ('eq', ctx.idx - i)):
                    if b:
                        check_tag(eng, y, ctx, ctx.tag, [eng.orig(y, j) for j in range(ctx.n) if j != k], DEL)
                    else:
                        nx.append(y)
            work = nx
        for x in work:
            check_tag(eng, x, ctx, ctx.tag, [eng.orig(x, j) for j in range(ctx.n)], DEL)


NN = (0, 1, 2, 3)
entry('delete_frame', 'ID3v2_Tag_delete_frame', 'edit', scens(b_delete(None), c_delete, NN), kmax=4)
for _n, _i in list(NAMED.items()) + [('comment', 'COMM'), ('album_cover', 'APIC')]:
    entry('delete_' + _n, f'ID3v2_Tag_delete_{_n}', 'edit', scens(b_delete(_i.encode()), c_delete, NN), kmax=4)
entry('delete_comment_frame', 'ID3v2_Tag_delete_comment_frame', 'edit', scens(b_delete_idx(COMM), c_delete_idx, NN), kmax=4)
entry('delete_apic_frame', 'ID3v2_Tag_delete_apic_frame', 'edit', scens(b_delete_idx(APIC), c_delete_idx, NN), kmax=4)


# ---------------------------------------------------------------------- constructors and destructors
def b_new(eng, s, ctx, arg):
    ctx.given = arg
    if arg == 'empty':
        return []
    if arg is None:
        return [NULL, S(('padarg',), -2 ** 31, 2 ** 31 - 1)]
    h = eng.obj(s, ('tagheader',), 'ID3v2_TagHeader', dict(
        identifier=('bytes', ('lit', b'ID3'), ZERO), major_version=S(('ver', ''), 3, 4), minor_version=S(('rev', ''), 0, 255),
        flags=S(('tflags', ''), 0, 255), tag_size=ZERO, extended_header_size=ZERO))
    return [h, S(('padarg',), -2 ** 31, 2 ** 31 - 1)]


def c_new(eng, s, v, ctx):
    eng.exit_ownership(s, [v])
    if isn(v):
        raise SpecFail('C11', 'no tag is returned', s)
    used = set()
    h, fr, pad = tag_parts(eng, s, v, used)
    if fr:
        raise SpecFail('C11', 'a new tag has frames', s)
    if not s.st.ent_eq(eng.get(s, h, 'ID3v2_TagHeader', 'tag_size') - pad):
        raise SpecFail('C03', 'the size of a new tag is not its padding', s)
    if ctx.given == 'header':
        if h.b != ('r', ('tagheader',)):
            raise SpecFail('C11', 'the new tag does not use the given header', s)
    else:
        idb = eng.farray(s, h, 'ID3v2_TagHeader', 'identifier')
        ver = eng.get(s, h, 'ID3v2_TagHeader', 'major_version')
        if not all(s.st.ent_eq(x - c) for x, c in zip(idb, b'ID3')) or not (s.st.ent_eq(ver - 3) or s.st.ent_eq(ver - 4)):
            raise SpecFail('C13', 'a new tag does not carry a supported ID3v2 header', s)
        for f in ('minor_version', 'flags', 'extended_header_size'):
            if not s.st.ent_eq(eng.get(s, h, 'ID3v2_TagHeader', f)):
                raise SpecFail('C13', f'{f} of a new tag is not zero', s)


entry('tag_new', 'ID3v2_Tag_new', 'edit', scens(b_new, c_new, (None, 'header')))
entry('tag_new_empty', 'ID3v2_Tag_new_empty', 'edit', scens(b_new, c_new, ('empty',)))


def b_free(what):
    def build(eng, s, ctx, n):
        tag = eng.mk_tag(s, n)
        ctx.what = what
        if what == 'tag':
            return [tag]
        if what == 'list':
            p = Ptr(('r', ('node', 0)))
            for rid in (('tag',), ('tagheader',)):
                del s.heap[rid]
            return [p]
        if what == 'unlink':
            # a result list: its nodes belong to the list, the frames to the tag
            ctx.roots.append(tag)
            snap(ctx, s)
            k0 = max(n, 1)
            for k in range(k0):
                eng.obj(s, ('rnode', k), 'ID3v2_FrameList', dict(
                    frame=Ptr(('r', ('frame', k))) if n else NULL, start=Ptr(('r', ('rnode', 0))) if n else NULL,
                    next=Ptr(('r', ('rnode', k + 1))) if k + 1 < k0 else NULL))
            return [Ptr(('r', ('rnode', 0)))]
        if what == 'header':
            for rid in list(s.heap):
                if rid != ('tagheader',):
                    del s.heap[rid]
            return [Ptr(('r', ('tagheader',)))]
        for rid in (('tag',), ('tagheader',), ('node', 0)):
            del s.heap[rid]
        return [Ptr(('r', ('frame', 0)))]
    return build


def c_free(eng, s, v, ctx):
    eng.exit_ownership(s, ctx.roots)
    for (pre, k) in eng.lazy:
        # data never looked at was not freed
        if (pre, k) not in s.mat and (pre + 'frame', k) not in s.heap:
            raise SpecFail('leak', f'the data of frame {k} is not freed', s)
    if ctx.what == 'unlink':
        same_tag(eng, s, ctx, 'C04', 'unlinking a result list')


entry('tag_free', 'ID3v2_Tag_free', 'edit', scens(b_free('tag'), c_free, NN), kmax=4)
entry('list_free', 'ID3v2_FrameList_free', 'edit', scens(b_free('list'), c_free, NN), kmax=4)
entry('list_unlink', 'ID3v2_FrameList_unlink', 'edit', scens(b_free('unlink'), c_free, NN), kmax=4)
entry('frame_free', 'ID3v2_Frame_free', 'edit', scens(b_free('frame'), c_free, (1,)))
entry('header_free', 'ID3v2_TagHeader_free', 'edit', scens(b_free('header'), c_free, (0,)))


# ---------------------------------------------------------------------- reading
import readspec as R


def b_buf_header(eng, s, ctx, arg):
    p = eng.blob(s, ('buf',), C(10), [(C(10), ('bytes', ('in', 'buf'), ZERO))])
    ctx.roots.append(p)
    ctx.src = R.Src(('in', 'buf'), C(10))
    return [p]


def b_buf(eng, s, ctx, arg):
    N = S(('N',), -2 ** 31, 2 ** 31 - 1)
    if arg == 'neg':
        s.st.add_ge(-N - 1)
        p = eng.blob(s, ('buf',), ZERO, [])
    else:
        s.st.add_ge(N)
        p = eng.blob(s, ('buf',), N, [(N, ('bytes', ('in', 'buf'), ZERO))])
        R.restrict(eng, s, R.Src(('in', 'buf'), N), arg)
    ctx.roots.append(p)
    ctx.src = R.Src(('in', 'buf'), N)
    return [p, N]


def path_arg(eng, s, ctx, name='path'):
    L = S(('len', name), 0, 4096)
    p = eng.blob(s, (name,), L + 1, [(L, ('bytes', ('nz', name), ZERO)), (ONE, ZEROC)], site=name)
    ctx.roots.append(p)
    return p


def read_only(eng):
    """reading operations never open a file for writing"""
    def ow(s, fk, mode, ins):
        eng.viol('C08', ins, f'a reading operation opens the file for writing (mode {mode.decode()})', s)
    eng.open_write = ow


def b_file(eng, s, ctx, arg):
    p = path_arg(eng, s, ctx)
    read_only(eng)
    if arg:
        R.restrict(eng, s, R.Src(('file', 'path'), S(('flen', 'path'), 0, 2 ** 30)), arg)
    return [p]


def file_src(eng, s, ctx):
    """what the file held at entry, or None if it cannot be opened"""
    if any(isinstance(f, tuple) and f[0] == 'openfail' for f in s.flags):
        return None
    return R.Src(('file', 'path'), S(('flen', 'path'), 0, 2 ** 30))


def c_read(src_of):
    def check(eng, s, v, ctx):
        eng.exit_ownership(s, ctx.roots + [v])
        src = src_of(eng, s, ctx)
        if src is None:
            if not isn(v):
                raise SpecFail('C05+C18', 'a tag is returned although the file cannot be opened', s)
            return
        if 'ioerr' in s.flags:
            return
        R.check_read(eng, s, v, src)
    return check


buf_src = lambda eng, s, ctx: ctx.src
entry('read_header_buffer', 'ID3v2_read_tag_header_from_buffer', 'read', scens(b_buf_header, R.c_header(buf_src), (0,)))
entry('read_header_file', 'ID3v2_read_tag_header', 'read', scens(b_file, R.c_header(file_src), (0,)))
READS = ['other'] + [(v, k) for v in (3, 4) for k in ('any', 'any-raw', 'raw-any', 'raw-raw-raw', 'ext', 'unsync', 'unsync-ext')]
for _a in ['neg'] + READS:
    _nm = _a if isinstance(_a, str) else f'v{_a[0]}-{_a[1]}'
    _c = 60 if 'raw-any' in _nm or 'any-raw' in _nm else 20 if 'any' in _nm else 5
    entry('read_buffer:' + _nm, 'ID3v2_read_tag_from_buffer', 'read', scens(b_buf, c_read(buf_src), (_a,)), kmax=4, cost=_c)
    if _a != 'neg' and _c < 60:
        entry('read_file:' + _nm, 'ID3v2_read_tag', 'read', scens(b_file, c_read(file_src), (_a,)), kmax=4, cost=_c + 1)


# ---------------------------------------------------------------------- writing and deleting
import writespec as W


def b_write(eng, s, ctx, arg):
    W.arm(eng, ctx)
    p = path_arg(eng, s, ctx)
    if arg is None:
        ctx.tag = NULL
        return [p, NULL]
    kinds, old = arg
    ctx.n = n = len(kinds)
    ctx.tag = tag = eng.mk_tag(s, n)
    ctx.roots.append(tag)
    W.small(eng, s, n)
    W.old_file(eng, s, old)
    ctx.kinds = kinds
    for k, kd in enumerate(kinds):
        b = eng.bytes4(('fid', '', k))
        if kd == 'raw':
            s.st.add_eq(b[0] - ord('X'))
        elif kd == 'text':
            s.st.add_eq(b[0] - ord('T'))
        elif kd in ('comm', 'apic'):
            for x, c in zip(b, COMM if kd == 'comm' else APIC):
                s.st.add_eq(x - c)
    ctx.check_tag = lambda eng, s, pad: W.check_written_tag(eng, s, ctx, pad)
    return [p, tag]


WR = {'null': None, 'empty': ((), 'any')}
WR.update({k: ((k,), 'none') for k in ('raw', 'text', 'comm', 'apic')})
WR.update({'raw-over': (('raw',), 'some'), 'two': (('raw', 'raw'), 'none'), 'text-raw': (('text', 'raw'), 'none'), 'raw-text': (('raw', 'text'), 'none'),
           'three': (('raw', 'raw', 'raw'), 'none'), 'comm-apic': (('comm', 'apic'), 'none'), 'apic-comm': (('apic', 'comm'), 'none'),
           'text-over': (('text',), 'footer')})
for _a, _v in WR.items():
    entry('write_tag:' + _a, 'ID3v2_write_tag', 'write', scens(b_write, W.c_write, (_v,)), kmax=4, cost=40)


def b_delete_file(eng, s, ctx, arg):
    W.arm(eng, ctx)
    return [path_arg(eng, s, ctx)]


entry('delete_tag', 'ID3v2_delete_tag', 'write', scens(b_delete_file, W.c_delete_file, (0,)), kmax=4, cost=20)


# ---------------------------------------------------------------------- compatibility API
import compatspec as K


def c_load(src_of):
    def check(eng, s, v, ctx):
        eng.exit_ownership(s, ctx.roots + [v])
        src = src_of(eng, s, ctx)
        if src is None:
            if not isn(v):
                raise SpecFail('C05+C18', 'a tag is returned although the file cannot be opened', s)
            return
        if 'ioerr' in s.flags:
            return
        K.check_load(eng, s, v, src)
    return check


for _a in ['neg', 'other', (3, 'any'), (4, 'any'), (3, 'raw-raw-raw'), (3, 'ext')]:
    _nm = _a if isinstance(_a, str) else f'v{_a[0]}-{_a[1]}'
    entry('load_buffer:' + _nm, 'load_tag_with_buffer', 'compat', scens(b_buf, c_load(buf_src), (_a,)), kmax=4, cost=21 if 'any' in _nm else 6)
for _a in ['other', (3, 'unsync'), (4, 'unsync')]:
    _nm = _a if isinstance(_a, str) else f'v{_a[0]}-{_a[1]}'
    entry('load_tag:' + _nm, 'load_tag', 'compat', scens(b_file, c_load(file_src), (_a,)), kmax=4, cost=6)


def c_new_tag(eng, s, v, ctx):
    eng.exit_ownership(s, [v])
    if isn(v):
        raise SpecFail('C19', 'no tag is returned', s)
    ctx.given = None
    t = eng.get(s, v, 'ID3v2_tag', 'tag')
    used = set()
    eng.own(s, v, 'the tag', used)
    eng.own(s, eng.get(s, v, 'ID3v2_tag', 'tag_header'), 'the presented header', used)
    if not isn(eng.get(s, v, 'ID3v2_tag', 'raw')):
        raise SpecFail('C19', 'a new tag has raw data', s)
    if K.cframes(eng, s, v, used):
        raise SpecFail('C19', 'a new tag presents frames', s)
    h, fr, pad = tag_parts(eng, s, t, used)
    if fr:
        raise SpecFail('C19', 'a new tag has frames', s)
    K.check_cheader(eng, s, v, h)
    if not s.st.ent_eq(eng.get(s, h, 'ID3v2_TagHeader', 'tag_size') - pad):
        raise SpecFail('C03', 'the size of a new tag is not its padding', s)


entry('c_new_tag', 'new_tag', 'compat', scens(lambda eng, s, ctx, a: [], c_new_tag, (0,)))


def b_cget(lit):
    def build(eng, s, ctx, n):
        ctx.n, ctx.want = n, [C(x) for x in lit]
        ctx.ctag = K.mk_ctag(eng, s, n, True)
        ctx.roots.append(ctx.ctag)
        snap(ctx, s)
        return [ctx.ctag]
    return build


def c_cget(eng, s, v, ctx):
    eng.exit_ownership(s, ctx.roots + [v])
    same_tag(eng, s, ctx, 'C10+C19', 'lookup')
    for s1, m in cases(eng, s, ctx, ctx.want, ctx.n):
        first = m.index(True) if True in m else None
        if first is None:
            if not isn(v):
                raise SpecFail('C09+C10', 'the lookup returns a frame although none has the requested id', s1)
        elif not (isinstance(v, Ptr) and v.b == ('r', ('cframe', first)) and s1.red(v.o) == ZERO):
            raise SpecFail('C09+C10', 'the lookup does not return the first frame with the requested id', s1)


for _n, _i in list(NAMED.items()) + [('comment', 'COMM'), ('album_cover', 'APIC')]:
    entry('c_get_' + _n, f'tag_get_{_n}', 'compat', scens(b_cget(_i.encode()), c_cget, NN), kmax=4)


def c_cset(exp):
    def check(eng, s, v, ctx):
        eng.exit_ownership(s, ctx.roots)
        if 'ioerr' in s.flags or ctx.__dict__.get('file') and file_src(eng, s, ctx) is None:
            if file_src(eng, s, ctx) is None:
                same_tag(eng, s, ctx, 'C05', 'a cover file that cannot be opened')
            return
        for s1, m in cases(eng, s, ctx, ctx.want, ctx.n):
            for s2 in ctx.refine(eng, s1) if 'refine' in ctx.__dict__ else [s1]:
                new = exp(eng, s2, ctx)
                ex = [eng.orig(s2, k) for k in range(ctx.n)]
                ix = list(range(ctx.n))
                if True in m:
                    i = m.index(True)
                    ex[i], ix[i] = new, None
                else:
                    ex.append(new)
                    ix.append(None)
                W.part(eng, s2, check_tag, eng, s2, ctx, ctx.tag, ex, dict(SET, **{'data': 'C19', 'data-short': 'C19'}) if exp is e_cover_file else SET)
                W.part(eng, s2, K.check_ctag, eng, s2, ctx, list(zip(ex, ix)))
    return check


def b_cset(lit, what):
    def build(eng, s, ctx, arg):
        n, raw, alias = arg
        ctx.n = n
        ctx.want, ctx.flags = [C(x) for x in lit], [ZERO, ZERO]
        ctx.ctag = K.mk_ctag(eng, s, n, raw)
        ctx.tag = Ptr(('r', ('tag',)))
        ctx.roots.append(ctx.ctag)
        enc = S(('encarg',), 0, 255)
        if what == 'text':
            return [text_arg(eng, s, ctx, alias), enc, ctx.ctag]
        if what == 'comment':
            ctx.T, ctx.D = ('str', 'arg', 'comment'), None
            ctx.lang = [C(x) for x in b'eng']
            cp = eng.string(s, ('arg-comment',), ctx.T)
            ctx.roots.append(cp)
            return [cp, enc, ctx.ctag]
        ctx.D, ctx.ptype = None, C(3)
        if what == 'bytes':
            ctx.M = ('str', 'arg', 'mime')
            ctx.picsz, ctx.PG = S(('picsz', 'arg'), 0, BIGSZ), ('data', 'pic', 'arg')
            mp = eng.string(s, ('arg-mime',), ctx.M)
            pp = eng.blob(s, ('arg-pic',), ctx.picsz, [(ctx.picsz, ('bytes', ctx.PG, ZERO))])
            ctx.roots += [mp, pp]
            return [pp, mp, ctx.picsz, ctx.ctag]
        ctx.file = True
        read_only(eng)
        p = path_arg(eng, s, ctx)
        ctx.picsz, ctx.PG = W.FLEN, W.F
        s.st.add_ge(C(BIGSZ) - W.FLEN)
        snap(ctx, s)
        ctx.refine = png_or_not
        return [p, ctx.ctag]
    return build


def png_or_not(eng, s):
    out = []
    for s1, none in split_eq(s, ('eq', S(('hasext', 'path'), 0, 1))):
        if none:
            out.append(s1)
        else:
            for x, b in split_eq(s1, ('ne', S(('ext', 'path', b'png'), 0, 1))):
                if not b or x.st.add_ge(S(('len', 'path'), 0, 4096) - 4):
                    out.append(x)
    return out


def e_cover_file(eng, s, ctx):
    if 'pathbytes' in s.flags:
        raise GiveUp('the file name is inspected byte by byte')
    png = s.red(S(('hasext', 'path'), 0, 1)) == ONE and s.red(S(('ext', 'path', b'png'), 0, 1)) == ONE
    mime = b'image/png\0' if png else b'image/jpeg\0'
    e = e_apic_m(eng, s, ctx, ((ZERO, C(len(mime)), ('bytes', ('lit', mime), ZERO)),), C(len(mime)))
    return e


def e_apic_m(eng, s, ctx, mseg, mlen):
    n = ctx.picsz
    enc = short_apic_enc(eng, s, ctx)
    d = b'\0' if enc.c == 0 else b'\xff\xfe\0\0'
    return dict(name='the new frame', new=True, id=ctx.want, flags=ctx.flags, size=mlen + len(d) + n + 2,
                data=('apic', dict(mime=mseg, desc=((ZERO, C(len(d)), ('bytes', ('lit', d), ZERO)),), enc=enc, ptype=ctx.ptype, picsize=n,
                                   pic=((ZERO, n, ('bytes', ctx.PG, ZERO)),))))


CS = [(0, False, None), (1, True, None), (2, True, None)]
for _n, _i in NAMED.items():
    entry('c_set_' + _n, f'tag_set_{_n}', 'compat', scens(b_cset(_i.encode(), 'text'), c_cset(e_text), CS), kmax=4, cost=4)
entry('c_set_comment', 'tag_set_comment', 'compat', scens(b_cset(COMM, 'comment'), c_cset(e_comment), CS), kmax=4, cost=4)
entry('c_set_album_cover_from_bytes', 'tag_set_album_cover_from_bytes', 'compat', scens(b_cset(APIC, 'bytes'), c_cset(e_apic), CS), kmax=4, cost=4)
entry('c_set_cover_file', 'tag_set_album_cover', 'compat', scens(b_cset(APIC, 'file'), c_cset(e_cover_file), CS), kmax=4, cost=4)


# content parsers
def b_parse(kind):
    def build(eng, s, ctx, n):
        if n == 0:
            ctx.n = 0
            return [NULL]
        ctx.n = 1
        ctx.ctag = K.mk_ctag(eng, s, 1, True)
        b = eng.bytes4(('fid', '', 0))
        if kind == 'text':
            s.st.add_eq(b[0] - ord('T'))
        else:
            for x, c in zip(b, COMM if kind == 'comm' else APIC):
                s.st.add_eq(x - c)
        ctx.roots.append(ctx.ctag)
        return [Ptr(('r', ('cframe', 0)))]
    return build


def c_parse(kind):
    def check(eng, s, v, ctx):
        eng.exit_ownership(s, ctx.roots + [v])
        if ctx.n == 0:
            if not isn(v):
                raise SpecFail('C19', 'contents of no frame', s)
            return
        if isn(v):
            raise SpecFail('C19', 'no contents are returned', s)
        for s1 in W.settle(eng, s, 1):
            e = eng.orig(s1, 0)
            d = e['data'][1]
            cat = lambda c: 'C19'

            def text(p, want, lbl):
                r = eng.reg(s1, p, lbl)
                if not s1.st.ent_eq(p.o):
                    lo = s1.red(p.o)
                    segs = eng.exact(s1, r, lo, s1.red(sum((l for _, l, _ in want), ZERO)))
                    if not eng.seq_eq(s1, segs, want):
                        raise SpecFail('C19', f'{lbl} is not that of the frame', s1)
                    return
                eng.prefix(s1, r, want, cat, 'data', lbl)

            def num(st, p, f, want):
                x = eng.get(s1, p, st, f)
                if not (isinstance(x, Lin) and s1.st.ent_eq(x - want)):
                    raise SpecFail('C19', f'{f} is not that of the frame', s1)
            if kind == 'apic':
                st = 'ID3v2_frame_apic_content'
                num(st, v, 'encoding', d['enc'])
                num(st, v, 'picture_type', d['ptype'])
                num(st, v, 'picture_size', d['picsize'])
                text(eng.get(s1, v, st, 'mime_type'), d['mime'], 'the mime type')
                text(eng.get(s1, v, st, 'description'), d['desc'], 'the description')
                if s1.st.ent(d['picsize'] - 1):
                    text(eng.get(s1, v, st, 'data'), d['pic'], 'the picture')
                continue
            tp = v
            if kind == 'comm':
                st = 'ID3v2_frame_comment_content'
                text(eng.get(s1, v, st, 'language'), ((ZERO, C(3), ('bytes', ('lang', '', 0), ZERO)),), 'the language')
                text(eng.get(s1, v, st, 'short_description'), d['desc'], 'the description')
                tp = eng.get(s1, v, st, 'text')
            st = 'ID3v2_frame_text_content'
            num(st, tp, 'encoding', d['enc'])
            num(st, tp, 'size', d['size'])
            text(eng.get(s1, tp, st, 'data'), d['text' if kind == 'text' else 'comment'], 'the text')
    return check


for _n, _k in (('text', 'text'), ('comment', 'comm'), ('apic', 'apic')):
    entry('c_parse_' + _n, f'parse_{_n}_frame_content', 'compat', scens(b_parse(_k), c_parse(_k), (0, 1)), kmax=4)


def b_cfree(what):
    def build(eng, s, ctx, arg):
        n, raw = arg
        ct = K.mk_ctag(eng, s, n, raw)
        ctx.what = what
        if what == 'frame':
            for rid in list(s.heap):
                if rid[0] in ('cframe', 'cdata'):
                    continue
                if rid[0] in ('frame', 'fheader'):
                    continue
                del s.heap[rid]
            ctx.roots.append(Ptr(('r', ('frame', 0))))
            return [Ptr(('r', ('cframe', 0)))]
        return [ct]
    return build


entry('c_free_tag', 'free_tag', 'compat', scens(b_cfree('tag'), c_free, [(0, False), (1, True), (2, True), (3, True)]), kmax=4)
entry('c_free_frame', 'free_frame', 'compat', scens(b_cfree('frame'), c_free, [(1, True)]), kmax=4)


# writing and removing
def b_cwrite(eng, s, ctx, arg):
    args = b_write(eng, s, ctx, arg)
    del s.heap[('tag',)]
    raw = ctx.n != 0
    t0 = dict(s.heap)
    ct = K.mk_ctag(eng, s, ctx.n, raw)
    ctx.ctag = ct
    ctx.roots = [args[0], ct]
    return [args[0], ct]


for _a in ('empty', 'raw', 'text', 'raw-over'):
    entry('c_set_tag:' + _a, 'set_tag', 'compat', scens(b_cwrite, W.c_write, (WR[_a],)), kmax=4, cost=40)
entry('c_remove_tag', 'remove_tag', 'compat', scens(b_delete_file, W.c_delete_file, (0,)), kmax=4, cost=20)


# ---------------------------------------------------------------------- string helpers
def b_util(eng, s, ctx, arg):
    eng.contracts = set()
    ctx.G = ('str', 'arg', 'text')
    p = eng.string(s, ('arg-text',), ctx.G)
    ctx.arg = p
    ctx.roots.append(p)
    snap(ctx, s)
    return [p]


def u_unchanged(eng, s, ctx):
    r = s.heap.get(('arg-text',))
    if r is None or not same_segs(eng, s, ctx.snap[('arg-text',)], r.segs):
        raise SpecFail('C16', 'the string passed in was modified', s)


def c_ulen(term):
    def check(eng, s, v, ctx):
        eng.exit_ownership(s, ctx.roots)
        for s1 in eng.str_kind_split(s.copy(), ctx.G):
            u_unchanged(eng, s1, ctx)
            want = eng.enc_len(ctx.G) if term else eng.str_len(ctx.G)
            if not eng.num_eq(s1, v, want):
                raise SpecFail('C16+CLEN', 'the length returned is not the number of bytes of the string'
                               + (' with its terminator' if term else ' before its terminator'), s1)
    return check


def c_uwide(eng, s, v, ctx):
    eng.exit_ownership(s, ctx.roots + [v])
    for s1 in eng.str_kind_split(s.copy(), ctx.G):
        u_unchanged(eng, s1, ctx)
        if not isinstance(v, Ptr) or v.b is None:
            raise SpecFail('C16', 'no string is returned', s1)
        if s1.red(eng.str_t(ctx.G)) == C(2):
            if v.b != ('r', ('arg-text',)) or not s1.st.ent_eq(v.o):
                raise SpecFail('C16', 'a string that already is UTF-16 is not returned as it is', s1)
            continue
        used = set()
        r = eng.own(s1, v, 'the converted string', used)
        L = eng.str_len(ctx.G)
        want = ((ZERO, ONE, ('val', C(255), 1)), (ONE, ONE, ('val', C(254), 1)), (C(2), L * 2, ('wide', ctx.G, ZERO)), (L * 2 + 2, C(2), ZEROC))
        eng.prefix(s1, r, want, lambda c: 'C16', 'data', 'the converted string')


entry('u_strlen', 'ID3v2_strlen', 'util', scens(b_util, c_ulen(False), (0,)), kmax=4)
entry('u_strlent', 'ID3v2_strlent', 'util', scens(b_util, c_ulen(True), (0,)), kmax=4)
entry('u_to_unicode', 'ID3v2_to_unicode', 'util', scens(b_util, c_uwide, (0,)), kmax=4)
