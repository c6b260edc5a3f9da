"""Entry states and exit specifications.

An entry is a public function together with the class of states it may be called in (any tag of up to n frames that
satisfies the library's own invariant, any strings, any files); its exit specification says what every state it can
return in has to satisfy."""
from lin import *
from state import *
from mem import GiveUp
import bits as B
import interp

BIGSZ = 2 ** 27
NAMED = dict(title='TIT2', artist='TPE1', album='TALB', album_artist='TPE2', genre='TCON', track='TRCK', year='TYER',
             disc_number='TPOS', composer='TCOM')
COMM, APIC = b'COMM', b'APIC'


class SpecFail(Exception):
    def __init__(self, cat, what, state=None):
        super().__init__(what)
        self.cat, self.what, self.state = cat, what, state


class Spec(interp.Engine):
    """engine plus helpers to build and inspect the library's data structures"""

    def lay(self, st):
        try:
            return self.m.layouts[st]
        except KeyError:
            raise interp._ir.AnalysisBroken('struct ' + st + ' is gone')

    def fo(self, st, f):
        try:
            return self.lay(st)['fields'][f]
        except KeyError:
            raise interp._ir.AnalysisBroken(f'field {st}.{f} is gone')

    # ------------------------------------------------------------------ building
    def obj(self, s, rid, st, vals, kind='owned', site=None):
        """a struct object; vals: field -> Lin / Ptr / content tuple"""
        L = self.lay(st)
        segs = []
        pos = 0
        for f, (o, w) in sorted(L['fields'].items(), key=lambda x: x[1]):
            if o > pos:
                segs.append((C(pos), C(o - pos), UNINIT))
            v = vals.get(f)
            if v is None:
                segs.append((C(o), C(w), UNINIT))
            elif isinstance(v, (Lin, Ptr)):
                segs.append((C(o), C(w), ('val', v, w)))
            else:
                segs.append((C(o), C(w), v))
            pos = o + w
        if pos < L['size']:
            segs.append((C(pos), C(L['size'] - pos), UNINIT))
        s.heap[rid] = Region(kind, C(L['size']), tuple(segs), site or '.'.join(str(x) for x in rid))
        return Ptr(('r', rid))

    def blob(self, s, rid, size, segs, kind='input', site=None):
        out = []
        pos = ZERO
        for l, c in segs:
            out.append((pos, l, c))
            pos = pos + l
        s.heap[rid] = Region(kind, size, tuple(out), site or '.'.join(str(x) for x in rid))
        return Ptr(('r', rid))

    def string(self, s, rid, G, kind='input', site=None):
        """a terminated string named G"""
        L, t = self.str_len(G), self.str_t(G)
        return self.blob(s, rid, L + t, [(L, ('bytes', G, ZERO)), (t, ZEROC)], kind, site)

    def bytes4(self, G, n=4):
        return [S(('b', G, C(i)), 0, 255) for i in range(n)]

    def mk_tag(self, s, n, pre=''):
        """any tag of n frames: everything its own operations may rely on (the invariant the exit checks re-establish)"""
        T = (pre + 'tag',)
        P = S(('pad', pre), 0, BIGSZ)
        sizes = [S(('sz', pre, k), 0, BIGSZ) for k in range(n)]
        tot = P
        for z in sizes:
            tot = tot + z + 10
        head = Ptr(('r', (pre + 'node', 0)))
        self.obj(s, (pre + 'tagheader',), 'ID3v2_TagHeader', dict(
            identifier=('bytes', ('lit', b'ID3'), ZERO), major_version=S(('ver', pre), 3, 4), minor_version=S(('rev', pre), 0, 255),
            flags=S(('tflags', pre), 0, 255), tag_size=tot, extended_header_size=S(('ehs', pre), -2 ** 31, 2 ** 31 - 1)))
        for k in range(max(n, 1)):
            self.obj(s, (pre + 'node', k), 'ID3v2_FrameList', dict(
                frame=Ptr(('r', (pre + 'frame', k))) if n else NULL, start=head if n else NULL,
                next=Ptr(('r', (pre + 'node', k + 1))) if k + 1 < n else NULL))
        for k in range(n):
            self.mk_frame(s, k, pre)
        return self.obj(s, T, 'ID3v2_Tag', dict(header=Ptr(('r', (pre + 'tagheader',))), frames=head, padding_size=P))

    def mk_frame(self, s, k, pre=''):
        self.obj(s, (pre + 'frame', k), 'ID3v2_Frame', dict(header=Ptr(('r', (pre + 'fheader', k))), data=Ptr(('lazy', (pre, k)))))
        self.obj(s, (pre + 'fheader', k), 'ID3v2_FrameHeader', dict(
            id=('bytes', ('fid', pre, k), ZERO), size=S(('sz', pre, k), 0, BIGSZ), flags=('bytes', ('ffl', pre, k), ZERO)))
        b = self.bytes4(('fid', pre, k))
        for i in range(4):
            self.boffs.setdefault(('fid', pre, k), [])
            if C(i) not in self.boffs[('fid', pre, k)]:
                self.boffs[('fid', pre, k)].append(C(i))
        s.st.add_ng(b)          # parsed frames never have the id 0000
        self.lazy[(pre, k)] = lambda s, pre=pre, k=k: self.materialise(s, pre, k)
        return Ptr(('r', (pre + 'frame', k)))

    def kind_cases(self, s, idb):
        """split on the id: list of (state, kind)"""
        out = []
        t, s = s.split(('eq', idb[0] - ord('T')))
        if t is not None:
            out.append((t, 'text'))
        for lit, kind in ((COMM, 'comm'), (APIC, 'apic')):
            if s is None:
                break
            t, s = s.split(('all', frozenset(Store.canon_eq(b - c) for b, c in zip(idb, lit))))
            if t is not None:
                out.append((t, kind))
        if s is not None:
            out.append((s, 'raw'))
        return out

    def materialise(self, s, pre, k):
        out = []
        for s1, kind in self.kind_cases(s, self.bytes4(('fid', pre, k))):
            s1.mat[(pre, k)] = kind
            s1.path = (s1.path, f'frame {k} is a {kind} frame')
            p = self.mk_data(s1, pre, k, kind)
            if p is not None and not s1.st.dead:
                out.append((s1, p))
        return out

    def G(self, what, pre, k):
        return ('str', what, pre, k)

    def enc_len(self, G):
        return self.str_len(G) + self.str_t(G)

    def mk_data(self, s, pre, k, kind):
        sz = S(('sz', pre, k), 0, BIGSZ)
        rid = (pre + 'data', k)
        if kind == 'text':
            G = self.G('text', pre, k)
            if not s.st.add_eq(sz - self.enc_len(G) - 1):
                return None
            return self.obj(s, rid, 'ID3v2_TextFrameData', dict(
                size=self.enc_len(G), encoding=self.str_t(G) - 1, text=self.string(s, (pre + 'text', k), G, 'owned')))
        if kind == 'comm':
            D, T = self.G('desc', pre, k), self.G('comment', pre, k)
            if not s.st.add_eq(sz - self.enc_len(D) - self.enc_len(T) - 4):
                return None
            return self.obj(s, rid, 'ID3v2_CommentFrameData', dict(
                size=self.enc_len(T), encoding=self.str_t(T) - 1, language=('bytes', ('lang', pre, k), ZERO),
                short_description=self.string(s, (pre + 'desc', k), D, 'owned'), comment=self.string(s, (pre + 'comment', k), T, 'owned')))
        if kind == 'apic':
            D, M = self.G('pdesc', pre, k), self.G('mime', pre, k)
            n = S(('picsz', pre, k), 0, BIGSZ)
            if not s.st.add_eq(sz - self.enc_len(D) - self.enc_len(M) - n - 2):
                return None
            return self.obj(s, rid, 'ID3v2_ApicFrameData', dict(
                encoding=self.str_t(D) - 1, mime_type=self.string(s, (pre + 'mime', k), M, 'owned'),
                picture_type=S(('ptype', pre, k), 0, 255), description=self.string(s, (pre + 'pdesc', k), D, 'owned'),
                data=self.blob(s, (pre + 'pic', k), n, [(n, ('bytes', ('data', 'pic', pre, k), ZERO))], 'owned'), picture_size=n))
        return self.blob(s, rid, sz, [(sz, ('bytes', ('data', 'pay', pre, k), ZERO))], 'owned')

    # ------------------------------------------------------------------ inspecting
    def reg(self, s, p, what, cat='C04'):
        """region a pointer found in the result points to"""
        if not isinstance(p, Ptr) or p.b is None:
            raise SpecFail('C02', f'{what} is null', s)
        b = p.b
        if b[0] == 'dead':
            raise SpecFail('dangling', f'{what} points to freed memory', s)
        if b[0] == 'lazy':
            raise GiveUp('lazy object inspected')
        if b[0] == 'g':
            return self.region(s, p)
        if b[0] != 'r':
            raise SpecFail('dangling', f'{what} is not a valid pointer', s)
        if b[1] not in s.heap:
            raise SpecFail('dangling', f'{what} points to freed memory', s)
        return s.heap[b[1]]

    def get(self, s, p, st, f):
        """value of field f (scalar or pointer)"""
        o, w = self.fo(st, f)
        r = self.reg(s, p, f'{st}.{f} object')
        seg = self.exact(s, r, p.o + o, C(w))
        ty = self.m_fieldtype(st, f)
        for off, l, c in seg:
            if c[0] == 'uninit':
                raise SpecFail('uninit-out', f'{st}.{f} is left uninitialised', s)
        if len(seg) == 1:
            c = seg[0][2]
            if c[0] == 'val' and c[2] == w:
                return c[1]
            if c[0] == 'zero':
                return NULL if w == 8 else ZERO
        if w == 8:
            raise SpecFail('dangling', f'{st}.{f} is not a pointer', s)
        return self.segs_value(s, seg, w, 'int', None)

    def m_fieldtype(self, st, f):
        return None

    def bytes_at(self, s, p, n):
        """n byte values at pointer p"""
        r = self.reg(s, p, 'array')
        out = []
        for i in range(n):
            seg = self.exact(s, r, p.o + i, ONE)
            if seg and seg[0][2][0] == 'uninit':
                raise SpecFail('uninit-out', f'byte {i} of {r.site} is left uninitialised', s)
            out.append(self.segs_value(s, seg, 1, 'int', None))
        return out

    def farray(self, s, p, st, f):
        o, w = self.fo(st, f)
        return self.bytes_at(s, Ptr(p.b, p.o + o), w)

    def exact(self, s, r, off, ln):
        res = self.read_range(s, r, off, ln)
        if len(res) != 1 or res[0][0] is not s:
            raise GiveUp('inspection of a region with undecided layout')
        return res[0][1]

    def whole(self, s, p, what):
        """(size, segs) of the block p points to (must be its start)"""
        r = self.reg(s, p, what)
        if not s.st.ent_eq(p.o):
            raise SpecFail('dangling', f'{what} does not point to the start of its block', s)
        return r.size, r.segs

    def own(self, s, p, what, used):
        """p must be a block owned by the structure, and by nothing else"""
        r = self.reg(s, p, what)
        if p.b[0] == 'g' or r.kind not in ('heap', 'owned'):
            raise SpecFail('alias', f'{what} is not a copy: it points to {self.rname(r)}', s)
        if not s.st.ent_eq(p.o):
            raise SpecFail('alias', f'{what} points into the middle of {self.rname(r)}', s)
        if p.b[1] in used:
            raise SpecFail('alias', f'{what} is shared with another part of the tag', s)
        used.add(p.b[1])
        return r

    # ------------------------------------------------------------------ comparing contents
    def seq_eq(self, s, a, b):
        """two segment lists hold the same bytes"""
        a = [x for x in self.bytes_canon(s, tuple(a))]
        b = [x for x in self.bytes_canon(s, tuple(b))]
        i = j = 0
        pa = pb = ZERO      # consumed part of the current segments
        while i < len(a) or j < len(b):
            if i >= len(a) or j >= len(b):
                rest = a[i:] or b[j:]
                off = pa if i < len(a) else pb
                for k, (o, l, c) in enumerate(rest):
                    if not s.st.ent_eq(l - off if k == 0 else l):
                        return False
                return True
            la, lb = s.red(a[i][1] - pa), s.red(b[j][1] - pb)
            ca, cb = self.adv(s, a[i][2], pa), self.adv(s, b[j][2], pb)
            if s.st.ent_eq(la):
                i, pa = i + 1, ZERO
                continue
            if s.st.ent_eq(lb):
                j, pb = j + 1, ZERO
                continue
            if s.st.ent(lb - la):
                n = la
            elif s.st.ent(la - lb):
                n = lb
            else:
                return False
            if not self.cont_eq(s, ca, cb, n):
                return False
            pa, pb = s.red(pa + n), s.red(pb + n)
            if s.st.ent_eq(a[i][1] - pa):
                i, pa = i + 1, ZERO
            if s.st.ent_eq(b[j][1] - pb):
                j, pb = j + 1, ZERO
        return True

    def adv(self, s, c, k):
        if k == ZERO:
            return c
        if c[0] == 'wide':      # ('wodd', G, off): the second half of unit off, then the units that follow
            k = s.red(k)
            if k.c % 2 and all(a % 2 == 0 for a in k.t.values()):
                return ('wodd',) + self.cutc(s, c, None, k - 1)[1][1:]
        return self.cutc(s, c, None, k)[1]

    def cont_eq(self, s, a, b, n):
        if a[0] == b[0]:
            if a[0] == 'zero':
                return True
            if a[0] == 'bytes' and a[1] == b[1] and s.st.ent_eq(a[2] - b[2]):
                return True
            if a[0] == 'wide' and a[1] == b[1] and s.st.ent_eq(a[2] - b[2]):
                return True
            if a[0] == 'val' and a[2] == b[2] and n == C(a[2]) and isinstance(a[1], Lin) and isinstance(b[1], Lin) and s.st.ent_eq(a[1] - b[1]):
                return True
            if a[0] in ('uninit', 'unk'):
                return False
        if 'uninit' in (a[0], b[0]) or 'unk' in (a[0], b[0]):
            return False
        n = s.red(n)
        if n.isconst() and n.c <= 16:
            for k in range(n.c):
                x, y = self.cbyte(s, a, k), self.cbyte(s, b, k)
                if x is None or y is None:
                    return False
                if not self.byte_eq(s, x, y):
                    return False
            return True
        return False

    def byte_eq(self, s, x, y):
        if s.st.ent_eq(x - y):
            return True
        return B.bits_same(s, x, y, 8)

    def num_eq(self, s, x, y, w=32):
        if s.st.ent_eq(x - y):
            return True
        return B.bits_same(s, x, y, w)

    def cbyte(self, s, c, k):
        if c[0] == 'zero':
            return ZERO
        if c[0] == 'bytes':
            return self.byte_of(s, c[1], c[2] + k)
        if c[0] == 'val' and isinstance(c[1], Lin):
            return B.byte_of_value(s, c[1], c[2], k)
        if c[0] == 'wide':
            return self.byte_of(s, c[1], c[2] + k // 2) if k % 2 == 0 else ZERO
        if c[0] == 'wodd':
            return self.byte_of(s, c[1], c[2] + (k + 1) // 2) if k % 2 == 1 else ZERO
        return None

    def str_segs(self, G):
        return ((ZERO, self.str_len(G), ('bytes', G, ZERO)), (self.str_len(G), self.str_t(G), ZEROC))

    # ------------------------------------------------------------------ frames
    def list_nodes(self, s, p, st='ID3v2_FrameList'):
        """nodes of a list that hold a frame; checks its shape"""
        nodes = []
        cur = p
        seen = set()
        while isinstance(cur, Ptr) and cur.b is not None and cur.b[0] != 'null':
            if cur.b in seen:
                raise SpecFail('shape', 'the list is circular', s)
            if len(seen) > 12:
                raise GiveUp('long list')
            seen.add(cur.b)
            r = self.reg(s, cur, 'list node')
            nodes.append(cur)
            cur = self.get(s, cur, st, 'next')
        return nodes

    def frames_of(self, s, p, st='ID3v2_FrameList', own=None, head_start=True):
        """frame pointers of a list in order; the list is well formed (empty head, or every node with a frame)"""
        nodes = self.list_nodes(s, p, st)
        if not nodes:
            raise SpecFail('shape', 'the list is null', s)
        fr = [self.get(s, q, st, 'frame') for q in nodes]
        if own is not None:
            for q in nodes:
                self.own(s, q, 'a list node', own)
        if isn(fr[0]):
            if len(nodes) > 1:
                raise SpecFail('shape', 'the list has an empty first node but more nodes after it', s)
            if not isn(self.get(s, nodes[0], st, 'start')):
                raise SpecFail('shape', 'an empty list is not marked as empty: the next frame added to it is lost', s)
            return []
        for q, f in zip(nodes, fr):
            if isn(f):
                raise SpecFail('shape', 'the list has a node without a frame', s)
            stp = self.get(s, q, st, 'start')
            if isn(stp) or not (isinstance(stp, Ptr) and stp.b == nodes[0].b):
                raise SpecFail('shape', 'a node does not refer to the start of its list', s)
        return fr

    def differs(self, cat, what, s):
        """one component is not as specified; the others are still judged"""
        self.viol(cat, None, what, s)

    def check_frame(self, s, p, exp, used, cats):
        """frame object at p agrees with the expected description; cats maps component -> category"""
        ff = 'ID3v2_Frame'
        self.own(s, p, 'a frame', used)
        h = self.get(s, p, ff, 'header')
        d = self.get(s, p, ff, 'data')
        self.own(s, h, 'a frame header', used)
        cat = lambda c: cats.get(c, cats['*'])
        wrong = []      # contents that differ: sizes are not judged against the expected ones then
        idb = self.farray(s, h, 'ID3v2_FrameHeader', 'id')
        for x, y in zip(idb, exp['id']):
            if not s.st.ent_eq(x - y):
                self.differs(cat('id'), f'{exp["name"]} does not have the expected id', s)
        for x, y in zip(self.farray(s, h, 'ID3v2_FrameHeader', 'flags'), exp['flags']):
            if not s.st.ent_eq(x - y):
                self.differs(cat('flags'), f'{exp["name"]} does not have the expected flags', s)
        size = self.get(s, h, 'ID3v2_FrameHeader', 'size')
        dat = exp['data']
        if dat[0] == 'lazy':
            if not (isinstance(d, Ptr) and d.b == ('lazy', dat[1])):
                self.differs(cat('data'), f'{exp["name"]} does not have its contents any more', s)
            if not s.st.ent_eq(size - exp['size']):
                self.differs(cat('size'), f'{exp["name"]} declares a wrong size', s)
            return size
        kind, v = dat
        if kind == 'raw':
            r = self.own(s, d, 'frame data', used)
            if not self.seq_eq(s, r.segs, v['segs']) or not s.st.ent(r.size - exp['size']):
                self.differs(cat('data'), f'{exp["name"]} does not hold the expected data', s)
                return size
        else:
            st = dict(text='ID3v2_TextFrameData', comm='ID3v2_CommentFrameData', apic='ID3v2_ApicFrameData')[kind]
            self.own(s, d, 'frame data', used)

            def scal(f, want, comp, lbl):
                x = self.get(s, d, st, f)
                if comp == 'dsize' and wrong:
                    return
                if not (isinstance(x, Lin) and s.st.ent_eq(x - want)):
                    self.differs(cat(comp), f'{exp["name"]}: {lbl} is not what it should be', s)

            def text(f, want, lbl, comp='data'):
                q = self.get(s, d, st, f)
                r = self.own(s, q, f'the {lbl} of {exp["name"]}', used)
                # the block may be larger than the string it holds
                try:
                    self.prefix(s, r, want, cat, comp, f'{exp["name"]}: {lbl}')
                except SpecFail as x:
                    wrong.append(lbl)
                    self.differs(x.cat, x.what, s)
            if kind == 'text':
                text('text', v['text'], 'text')
                scal('encoding', v['enc'], 'enc', 'the encoding')
                scal('size', v['size'], 'dsize', 'the text size')
            elif kind == 'comm':
                text('comment', v['comment'], 'comment')
                text('short_description', v['desc'], 'description')
                scal('encoding', v['enc'], 'enc', 'the encoding')
                scal('size', v['size'], 'dsize', 'the comment size')
                for x, y in zip(self.farray(s, d, st, 'language'), v['lang']):
                    if y is not None and not s.st.ent_eq(x - y):
                        self.differs(cat('data'), f'{exp["name"]}: the language is not what it should be', s)
            else:
                text('mime_type', v['mime'], 'mime type')
                text('description', v['desc'], 'description')
                scal('encoding', v['enc'], 'enc', 'the encoding')
                scal('picture_type', v['ptype'], 'data', 'the picture type')
                scal('picture_size', v['picsize'], 'dsize', 'the picture size')
                if s.st.ent(v['picsize'] - 1) or not isn(self.get(s, d, st, 'data')):
                    text('data', v['pic'], 'picture')
        if not wrong and not s.st.ent_eq(size - exp['size']):
            self.differs(cat('size'), f'{exp["name"]} declares a size that is not the size of its contents', s)
        return size

    def frame_as_read(self, s, p, e):
        """expectation e with the bytes the input does not determine (a truncated payload) taken from the frame itself"""
        kind, v = e['data']
        if kind == 'comm' and None in v['lang']:
            d = self.get(s, p, 'ID3v2_Frame', 'data')
            got = self.farray(s, d, 'ID3v2_CommentFrameData', 'language')
            v = dict(v, lang=[y if y is not None else x for x, y in zip(got, v['lang'])])
            e = dict(e, data=(kind, v))
        return e

    def prefix(self, s, r, want, cat, comp, lbl):
        n = ZERO
        for o, l, c in want:
            n = n + l
        if not s.st.ent(r.size - n):
            raise SpecFail(cat(comp + '-short'), f'{lbl}: the block is too short for the text and its terminator', s)
        got = self.exact(s, r, ZERO, s.red(n)) if not s.st.ent_eq(r.size - n) else r.segs
        if not self.seq_eq(s, got, want):
            raise SpecFail(cat(comp), f'{lbl} is not what it should be', s)

    def orig(self, s, k, pre=''):
        """expected description of original frame k"""
        e = dict(name=f'frame {k}', id=self.bytes4(('fid', pre, k)), flags=self.bytes4(('ffl', pre, k), 2), size=S(('sz', pre, k), 0, BIGSZ))
        kind = s.mat.get((pre, k))
        if kind is None:
            e['data'] = ('lazy', (pre, k))
            return e
        if kind == 'text':
            G = self.G('text', pre, k)
            v = dict(text=self.str_segs(G), enc=self.str_t(G) - 1, size=self.enc_len(G))
        elif kind == 'comm':
            D, T = self.G('desc', pre, k), self.G('comment', pre, k)
            v = dict(comment=self.str_segs(T), desc=self.str_segs(D), enc=self.str_t(T) - 1, size=self.enc_len(T),
                     lang=self.bytes4(('lang', pre, k), 3))
        elif kind == 'apic':
            D, M = self.G('pdesc', pre, k), self.G('mime', pre, k)
            n = S(('picsz', pre, k), 0, BIGSZ)
            v = dict(mime=self.str_segs(M), desc=self.str_segs(D), enc=self.str_t(D) - 1, ptype=S(('ptype', pre, k), 0, 255), picsize=n,
                     pic=((ZERO, n, ('bytes', ('data', 'pic', pre, k), ZERO)),))
        else:
            n = S(('sz', pre, k), 0, BIGSZ)
            v = dict(segs=((ZERO, n, ('bytes', ('data', 'pay', pre, k), ZERO)),))
        e['data'] = (kind, v)
        return e

    def id_eq(self, pre, k, want):
        return ('all', frozenset(Store.canon_eq(b - w) for b, w in zip(self.bytes4(('fid', pre, k)), want)))

    # ------------------------------------------------------------------ ownership at exit
    def reachable(self, s, roots):
        seen = set()
        work = [p for p in roots if isinstance(p, Ptr)]
        dang = None
        while work:
            p = work.pop()
            if p.b is None:
                continue
            if p.b[0] == 'dead' and p.b[1] != 'stream' and dang is None:
                dang = p
            if p.b[0] != 'r' or p.b[1] in seen or p.b[1] not in s.heap:
                continue
            seen.add(p.b[1])
            for o, l, c in s.heap[p.b[1]].segs:
                if c[0] == 'val' and isinstance(c[1], Ptr):
                    work.append(c[1])
        return seen, dang

    def exit_ownership(self, s, roots, strict=True):
        seen, dang = self.reachable(s, roots)
        if dang is not None and not s.oom:
            self.viol('dangling', None, f'a pointer to freed memory ({dang.b[1]}) is left behind', s)
        for rid, r in s.heap.items():
            if r.kind in ('heap', 'owned') and rid not in seen:
                if r.kind == 'heap':
                    self.viol('leak', None, f'memory allocated at {r.site} is leaked', s, self.site_loc(r))
                else:
                    self.viol('leak', None, f'{r.site} is neither part of the tag any more nor freed', s)
        for sid, st in s.streams.items():
            if s.red(st.nul) != ONE:
                self.viol('stream-leak', None, f'the stream opened at {st.site} is not closed', s)

    def site_loc(self, r):
        try:
            f, rest = r.site.split(':', 1)
            l, fn = rest.split(' in ', 1)
            return f, int(l), fn
        except ValueError:
            return None


def isn(p):
    return isinstance(p, Ptr) and (p.b is None or p.b[0] == 'null')


def lit(b):
    return [C(x) for x in b]


def split_eq(s, cond):
    """both cases of a condition of the specification"""
    h = s.holds(cond)
    if h is True:
        return [(s, True)]
    if h is False:
        return [(s, False)]
    a, b = s.copy(), s.copy()
    out = []
    if a.assume(cond):
        out.append((a, True))
    if b.assume(cneg(cond)):
        out.append((b, False))
    return out
