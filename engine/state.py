"""Abstract states: values, regions with segmented contents, streams."""
from lin import *


class Ptr:
    """base: None (null) | ('r',rid) | ('el',Q,part,idx:Lin) | ('g',name) | ('s',sid) stream | ('dead',what) | ('fn',name) | ('opaque',..)"""
    __slots__ = ('b', 'o')

    def __init__(self, b, o=ZERO):
        self.b, self.o = b, o

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.b == x.b and self.o == x.o

    def __hash__(self):
        return hash((self.b, self.o))

    def __repr__(self):
        return '&' + fmtbase(self.b) + ('' if self.o == ZERO else f'+{self.o!r}')


def fmtbase(b):
    if b is None:
        return 'NULL'
    if b[0] == 'el':
        return f'{b[1]}[{b[3]!r}].{b[2]}'
    return ':'.join(str(x) for x in b)


NULL = Ptr(None)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()

# conditions: True/False or ('ge',e) ('eq',e) ('ne',e) ('all',frozenset of e) ('nall',frozenset)


def cneg(c):
    if c is True:
        return False
    if c is False:
        return True
    k, e = c
    if k == 'ge':
        return ('ge', -e - 1)
    return ({'eq': 'ne', 'ne': 'eq', 'all': 'nall', 'nall': 'all'}[k], e)


class Region:
    __slots__ = ('kind', 'size', 'segs', 'site', 'nul')

    def __init__(self, kind, size, segs, site='', nul=None):
        self.kind, self.size, self.segs, self.site, self.nul = kind, size, segs, site, nul

    def with_segs(self, segs):
        return Region(self.kind, self.size, segs, self.site, self.nul)

    def with_nul(self, nul):
        return Region(self.kind, self.size, self.segs, self.site, nul)

    def key(self):
        return (self.kind, self.size, self.segs, self.nul)

    def __repr__(self):
        return f'<{self.kind} {self.size!r} {list(self.segs)}>'


# contents: ('val',v,width) ('bytes',G,off) ('zero',) ('uninit',) ('unk',id) ('enc',Q,lo,hi,ver) ('wide',G,off)
ZEROC = ('zero',)
UNINIT = ('uninit',)


class Stream:
    """one opened FILE; nul/rerr/werr/perr are 0/1 expressions (null, read error, write error, pending data lost);
    lost: a write error may have been forgotten by clearerr"""
    F = ('file', 'mode', 'pos', 'open', 'rerr', 'werr', 'perr', 'nul', 'eof', 'site', 'lost')
    __slots__ = F

    def __init__(self, **kw):
        for k in self.F:
            setattr(self, k, kw.get(k))

    def set(self, **kw):
        s = Stream(**{k: getattr(self, k) for k in self.F})
        for k, v in kw.items():
            setattr(s, k, v)
        return s


class State:
    __slots__ = ('stack', 'heap', 'st', 'mat', 'files', 'streams', 'ev', 'cnt', 'path', 'oom', 'flags')

    def __init__(self):
        self.stack = [{}]
        self.heap = {}
        self.st = Store()
        self.mat = {}       # lazy object -> description of how it was materialised
        self.files = {}
        self.streams = {}
        self.ev = ()
        self.cnt = {}
        self.path = None
        self.oom = False
        self.flags = frozenset()

    def copy(self):
        n = State.__new__(State)
        n.stack = self.stack[:-1] + [dict(self.stack[-1])] if self.stack else []
        n.heap = dict(self.heap)
        n.st = self.st.copy()
        n.mat = dict(self.mat)
        n.files = dict(self.files)
        n.streams = dict(self.streams)
        n.ev = self.ev
        n.cnt = dict(self.cnt)
        n.path = self.path
        n.oom = self.oom
        n.flags = self.flags
        return n

    @property
    def env(self):
        return self.stack[-1]

    def fresh(self, tag, lo=None, hi=None):
        k = self.cnt.get(tag, 0)
        self.cnt[tag] = k + 1
        return S(('f', tag, k), lo, hi)

    def red(self, e):
        return self.st.red(e)

    # ------------------------------------------------------------- conditions
    def assume(self, c):
        """in place; False if infeasible"""
        if c is True:
            return True
        if c is False:
            self.st.dead = True
            return False
        k, e = c
        if k == 'ge':
            return self.st.add_ge(e)
        if k == 'eq':
            return self.st.add_eq(e)
        if k == 'ne':
            return self.st.add_ne(e)
        if k == 'all':
            for x in e:
                if not self.st.add_eq(x):
                    return False
            return True
        if k == 'nall':
            return self.st.add_ng(e)
        raise Exception(c)

    def holds(self, c):
        """True / False / None"""
        if c is True or c is False:
            return c
        k, e = c
        st = self.st
        if k == 'ge':
            if st.ent(e):
                return True
            if st.ent(-e - 1):
                return False
            return None
        if k in ('eq', 'ne'):
            if st.ent_eq(e):
                return k == 'eq'
            if st.ent_ne(e):
                return k == 'ne'
            return None
        if k in ('all', 'nall'):
            if all(st.ent_eq(x) for x in e):
                return k == 'all'
            t = st.copy()
            for x in e:
                if not t.add_eq(x):
                    return k == 'nall'
            return None
        raise Exception(c)

    def split(self, c):
        """-> (state where c | None, state where not c | None)"""
        h = self.holds(c)
        if h is True:
            return self, None
        if h is False:
            return None, self
        a = self.copy()
        b = self
        ra = a.assume(c)
        rb = b.assume(cneg(c))
        return (a if ra else None), (b if rb else None)

    # ------------------------------------------------------------- regions
    def new_region(self, site, kind, size, content, nul=False):
        k = self.cnt.get(('r', site), 0)
        self.cnt[('r', site)] = k + 1
        rid = (site, k)
        segs = ((ZERO, size, content),) if size != ZERO else ()
        self.heap[rid] = Region(kind, size, segs, site, S(('nul', site, k), 0, 1) if nul else None)
        return rid

    def kill_region(self, rid, to=None):
        """remove a region and turn every pointer to it into a dangling one (or the given base)"""
        r = self.heap.pop(rid)
        dead = to if to is not None else ('dead', r.site, rid)

        def fix(v):
            if isinstance(v, Ptr) and v.b == ('r', rid):
                return Ptr(dead, v.o)
            return v
        self.map_values(fix)

    def map_values(self, fix):
        for i, env in enumerate(self.stack):
            ch = None
            for k, v in env.items():
                if isinstance(v, Ptr):
                    n = fix(v)
                    if n is not v:
                        if ch is None:
                            ch = dict(env)
                        ch[k] = n
            if ch is not None:
                self.stack[i] = ch
        for rid, r in list(self.heap.items()):
            n = self.map_region(r, fix)
            if n is not r:
                self.heap[rid] = n
    @staticmethod
    def map_region(r, fix):
        ch = False
        out = []
        for s in r.segs:
            c = s[2]
            if c[0] == 'val' and isinstance(c[1], Ptr):
                n = fix(c[1])
                if n is not c[1]:
                    s = (s[0], s[1], ('val', n, c[2]))
                    ch = True
            out.append(s)
        return r.with_segs(tuple(out)) if ch else r

    # ------------------------------------------------------------- signature
    def cv(self, v):
        if isinstance(v, Lin):
            return ('i', hashlin(self.st.red(v)))
        if isinstance(v, Ptr):
            return ('p', v.b, hashlin(self.st.red(v.o)))
        if isinstance(v, tuple) and v and v[0] in ('ge', 'eq', 'ne', 'all', 'nall'):
            return ('c', v[0], hashlin(self.st.red(v[1])) if isinstance(v[1], Lin) else frozenset(hashlin(self.st.red(x)) for x in v[1]))
        return ('k', str(v))

    def cc(self, c):
        if c[0] == 'val':
            return ('val', self.cv(c[1]), c[2])
        if c[0] in ('bytes', 'wide'):
            return (c[0], c[1], hashlin(self.st.red(c[2])))
        return c

    def csegs(self, segs):
        return tuple((hashlin(self.st.red(o)), hashlin(self.st.red(l)), self.cc(c)) for o, l, c in segs)

    def creg(self, r):
        return (r.kind, hashlin(self.st.red(r.size)), self.csegs(r.segs), r.nul)

    def canon(self, live=None):
        """structural signature of everything but the constraint store"""
        env = tuple(frozenset((k, self.cv(v)) for k, v in e.items() if i + 1 < len(self.stack) or live is None or k in live)
                    for i, e in enumerate(self.stack))
        return (env,
                frozenset((rid, self.creg(r)) for rid, r in self.heap.items()),
                frozenset((k, repr(v)) for k, v in self.mat.items()),
                frozenset((f, self.csegs(r.segs), hashlin(self.st.red(r.size))) for f, r in self.files.items()),
                frozenset((s, tuple(self.cv(getattr(x, k)) if isinstance(getattr(x, k), Lin) else str(getattr(x, k)) for k in x.F))
                          for s, x in self.streams.items()),
                self.ev, self.oom, self.flags)


def hashlin(e):
    return (tuple(sorted(e.t.items())), e.c)
