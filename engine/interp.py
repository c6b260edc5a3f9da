"""Abstract interpreter over the library's IR.

Domain: disjunctions of (heap of regions with segmented symbolic contents, streams and files) x linear constraints.
Loops whose exit is decided are followed; other loops are generalised over their iteration number and the
generalisation is checked to be inductive (a fixpoint); loops that build heap structure are followed up to a bound
(kmax) that is reported in the evidence."""
import time
from lin import *
from state import *
from mem import Mem, GiveUp, OutOfTime
import bits as B
import cfg as CFG
from libc import Libc
from loops import Loops

MAXSTR = 2 ** 27


class PathEnd(Exception):
    """the current path ends here (violation reported, or excluded by an assumption)"""


class Engine(Mem, Libc, Loops):
    MAXSTR = MAXSTR

    def __init__(self, m, entry, kmax=2, budget=150.0):
        self.m = m
        self.entry = entry
        self.findings = {}
        self.undecided = {}
        self.boffs = {}
        self.strinfo = {}
        self.cfgs = {}
        self.lazy = {}
        self.kmax = kmax
        self.contracts = {'ID3v2_strlen', 'ID3v2_strlent'}
        self.t0 = time.time()
        self.budget = budget
        self.soft = budget * 0.6     # loops stop exploring, what has left them is followed to the end
        self.nest = 0
        self.timecut = False
        self.calls = []
        self.stats = dict(steps=0, states=0, paths=0, accesses=0, loops=0, invariants=0, bounded=0, calls=0)
        self.bounded_at = set()
        self.funcs_seen = set()
        self.gl = {}
        self.prune = None

    # ------------------------------------------------------------------ reporting
    def viol(self, cat, ins, what, s, loc=None):
        if s is not None and s.oom and cat not in ('leak', 'stream-leak', 'double-free'):
            return
        if s is not None and 'imprecise' in s.flags:
            self.undec(f'{what} (after an imprecise loop summary)', ins)
            return
        if ins is not None:
            f, l = ins.loc
            fn = ins.fn
            if f == '?':
                f = self.m.funcs[fn].file
        else:
            f, l, fn = loc or (self.m.funcs[self.entry_fn].file, self.m.funcs[self.entry_fn].line, self.entry_fn)
        k = (cat, f, l, fn, what)
        if k not in self.findings:
            tr = []
            p = s.path if s is not None else None
            while p is not None and len(tr) < 60:
                tr.append(p[1] if isinstance(p[1], str) else fmtstep(*p[1]))
                p = p[0]
            self.findings[k] = dict(rule=cat, file=f, line=l, function=fn, what=what, entry=self.entry,
                                    trace=[f'entry {self.entry}'] + list(reversed(tr)))

    def undec(self, why, ins=None):
        k = (why, ins.loc if ins is not None else None)
        self.undecided[k] = self.undecided.get(k, 0) + 1

    # ------------------------------------------------------------------ helpers
    def cfg(self, f):
        c = self.cfgs.get(f.name)
        if c is None:
            c = self.cfgs[f.name] = CFG.Cfg(f)
        return c

    def gregion(self, name):
        r = self.gl.get(name)
        if r is None:
            g = self.m.globals.get(name)
            if g is None or g.init is None:
                raise GiveUp('external global ' + name)
            size = self.m.size(g.ty)
            segs = []
            self.init_segs(g.ty, g.init, 0, segs)
            r = Region('const' if g.const else 'static', C(size), tuple(segs), name)
            self.gl[name] = r
        return r

    def init_segs(self, ty, v, off, out):
        n = self.m.size(ty)
        if n == 0:
            return
        if v[0] == 'bytes':
            d = v[1]
            out.append((C(off), C(n), ('bytes', ('lit', d), ZERO)))
        elif v[0] in ('zero', 'undef'):
            out.append((C(off), C(n), ZEROC))
        elif v[0] == 'agg':
            st = self.m.structs[ty.n] if ty.k == 'named' else ty
            pos = off
            for i, (ety, ev) in enumerate(v[1]):
                if st.k == 'array':
                    o = off + i * self.m.size(st.el)
                else:
                    fo, _ = self.m.field(ty, i)
                    o = off + fo
                if o > pos:
                    out.append((C(pos), C(o - pos), ZEROC))
                self.init_segs(ety, ev, o, out)
                pos = o + self.m.size(ety)
            if off + n > pos:
                out.append((C(pos), C(off + n - pos), ZEROC))
        else:
            out.append((C(off), C(n), ('val', self.value(None, ty, v), n)))

    def value(self, s, ty, v):
        k = v[0]
        if k == 'loc':
            try:
                return s.env[v[1]]
            except KeyError:
                raise GiveUp('unset value ' + v[1])
        if k == 'int':
            n = v[1]
            if ty.n == 1:
                return bool(n & 1)
            if ty.n == 8:
                return C(n & 255)
            h = 1 << (ty.n - 1)
            n = (n + h) % (2 * h) - h
            return C(n)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return NULL if ty.k == 'ptr' else ZERO
        if k == 'glob':
            return Ptr(('fn', v[1])) if v[1] in self.m.funcs or v[1] in self.m.decls else Ptr(('g', v[1]))
        if k == 'cgep':
            p = self.value(s, None, v[2][0][1])
            off, _ = self.gep_off(s, v[1], [(t, self.value(s, t, x)) for t, x in v[2][1:]])
            return Ptr(p.b, p.o + off)
        raise GiveUp('constant ' + str(v)[:60])

    def gep_off(self, s, bt, idx):
        off = ZERO
        t = bt
        for i, (ity, v) in enumerate(idx):
            if i == 0:
                off = off + self.scale(s, v, self.m.size(t))
                continue
            if t.k == 'named':
                t = self.m.structs[t.n]
            if t.k == 'struct':
                v = s.red(v) if s else v
                fo, ft = self.m.field(t, v.c)
                off = off + fo
                t = ft
            elif t.k in ('array', 'vector'):
                off = off + self.scale(s, v, self.m.size(t.el))
                t = t.el
            else:
                raise GiveUp('gep')
        return off, t

    def scale(self, s, v, n):
        if not isinstance(v, Lin):
            raise GiveUp('index ' + repr(v))
        return v * n

    # ------------------------------------------------------------------ pointers
    def resolve(self, s, p, ins):
        """materialise lazily described objects: -> list of (state, ptr)"""
        if isinstance(p, Ptr) and p.b is not None and p.b[0] == 'lazy':
            out = []
            for s1, tgt in self.lazy[p.b[1]](s):
                lz = p.b
                s1.map_values(lambda v: Ptr(tgt.b, tgt.o + v.o) if isinstance(v, Ptr) and v.b == lz else v)
                out.append((s1, Ptr(tgt.b, tgt.o + p.o)))
            return out
        return [(s, p)]

    def region(self, s, p):
        if p.b[0] == 'r':
            return s.heap[p.b[1]]
        if p.b[0] == 'g':
            rid = ('g', p.b[1])
            if rid in s.heap:
                return s.heap[rid]
            return self.gregion(p.b[1])
        raise GiveUp('region of ' + repr(p))

    def set_region(self, s, p, r):
        if p.b[0] == 'r':
            s.heap[p.b[1]] = r
        else:
            s.heap[('g', p.b[1])] = r

    def access(self, s, p, n, ins, what, write=False):
        """check an access of n bytes; -> list of (state, ptr) on which it is fine"""
        out = []
        self.stats['accesses'] += 1
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.viol('uninit', ins, f'{what} through an uninitialised pointer', s)
                return []
            raise GiveUp('access through ' + repr(p))
        for s, p in self.resolve(s, p, ins):
            if not self.check_base(s, p, ins, what, write, n):
                continue
            r = self.region(s, p)
            if r.nul is not None:
                if not s.st.add_eq(r.nul):
                    continue
            lo = p.o
            hi = r.size - p.o - n
            if s.st.ent(lo) and s.st.ent(hi):
                out.append((s, p))
                continue
            nn = s.red(n)
            if not s.st.ent(nn):
                a, b = s.split(('ge', nn))
                if b is not None:
                    self.viol('bounds', ins, f'{what}: negative (huge) length', b)
                if a is None:
                    continue
                s = a
            ok = s
            for c in (('ge', lo), ('ge', hi)):
                a, b = ok.split(c)
                if b is not None and self.feasible(b):
                    side = 'before the start' if c[1] is lo else 'past the end'
                    self.viol('bounds', ins, f'{what} {side} of {self.rname(r)}', b)
                ok = a
                if ok is None:
                    break
            if ok is not None:
                out.append((ok, p))
        return out

    def feasible(self, s):
        """filter for states whose constraints contradict facts about bytes that the store does not track"""
        return not s.st.dead

    def rname(self, r):
        n = r.site
        return {'heap': 'a heap block allocated at ', 'stack': 'local variable ', 'input': 'input ', 'owned': 'object ',
                'const': 'constant ', 'static': 'static object '}.get(r.kind, '') + str(n)

    def check_base(self, s, p, ins, what, write, n):
        b = p.b
        if b is None:
            if isinstance(n, Lin) and s.red(n) == ZERO:
                return False if True else True
            self.viol('null', ins, f'{what} through a null pointer', s)
            return False
        k = b[0]
        if k == 'null':     # allocation failure, out of scope
            return False
        if k == 'dead':
            if b[1] == 'stack':
                self.viol('uaf', ins, f'{what} in a variable of a function that has returned', s)
            else:
                self.viol(getattr(self, 'uaf_rule', 'uaf'), ins, f'{what} in freed memory ({b[1]})', s)
            return False
        if k in ('r', 'g'):
            if write:
                kind = self.region(s, p).kind
                if kind in ('const',):
                    self.viol('bounds', ins, f'{what}: writes to constant data', s)
                    return False
                if kind == 'input':
                    self.viol('input-write', ins, f'{what}: modifies caller data {self.region(s, p).site}', s)
            return True
        if k == 's':
            self.viol('stream', ins, f'{what}: dereferences a FILE object', s)
            return False
        if k == 'opaque':
            if b[1] == 'uninit':
                return False
            self.viol('wild', ins, f'{what} through an invalid pointer', s)
            return False
        if k == 'user':
            raise GiveUp('user data')
        self.viol('wild', ins, f'{what} through an invalid pointer', s)
        return False

    # ------------------------------------------------------------------ function execution
    def run_function(self, s, fn, args, ins=None):
        """-> list of (state, return value)"""
        f = self.m.funcs[fn]
        if len(self.calls) > 40 or self.calls.count(fn) > 3:
            raise GiveUp('recursion at ' + fn)
        self.stats['calls'] += 1
        self.funcs_seen.add(fn)
        s.stack.append({p[0]: a for p, a in zip(f.params, args)})
        self.calls.append(fn)
        try:
            outs = self.exec_blocks(s, f, f.entry, None, None)
        finally:
            self.calls.pop()
        res = []
        for o in outs:
            assert o[0] == 'ret'
            s1, v = o[1], o[2]
            env = s1.stack.pop()
            s1.stack[-1] = dict(s1.stack[-1])   # shared with the states that split off inside the call
            for rid in env.get('#allocas', ()):
                if rid in s1.heap:
                    # pointers to it that survive dangle
                    s1.kill_region(rid, ('dead', 'stack', rid))
                    if isinstance(v, Ptr) and v.b == ('r', rid):
                        v = Ptr(('dead', 'stack', rid))
            res.append((s1, v))
        return self.dedupe(res)

    def dedupe(self, res):
        if len(res) < 2:
            return res
        seen = {}
        for s, v in res:
            k = (s.canon(), s.cv(v) if not isinstance(v, tuple) else repr(v))
            o = seen.setdefault(hash(k), [])
            for i, (k2, s2, v2) in enumerate(o):
                if k2 == k:
                    if self.covers(s2, s):
                        break
                    if self.covers(s, s2):
                        o[i] = (k, s, v)
                        break
            else:
                o.append((k, s, v))
        return [(s, v) for o in seen.values() for _, s, v in o]

    def covers(self, a, b):
        """every concrete state of b is one of a (same structure): the constraints of a hold in b"""
        for k, e in a.st.facts():
            if k == 'eq':
                if b.st.red(e) != ZERO and not b.st.ent_eq(e):
                    return False
            elif not b.st.ent(e):
                return False
        for n in a.st.ng:
            if n in b.st.ng:
                continue
            t = b.st.copy()
            bad = True
            for e in n:
                if not t.add_eq(e):
                    bad = False
                    break
            if bad:
                return False
        return True

    def exec_blocks(self, s, f, blk, prev, loop, start_phi_done=False):
        """outcomes: ('ret',s,v) ('back',s,prev) ('out',s,blk,prev)"""
        c = self.cfg(f)
        work = [(s, blk, prev, start_phi_done)]
        outs = []
        while work:
            s, blk, prev, done = work.pop()
            if time.time() - self.t0 > self.soft:
                if self.nest or time.time() - self.t0 > self.budget:
                    raise OutOfTime('time budget')
                self.undec('time budget')       # go on with what has been found so far
                self.more_time()
                if outs:
                    return outs
            if not done:
                if loop is not None:
                    if blk == loop.head:
                        outs.append(('back', s, prev))
                        continue
                    if blk not in loop.blocks:
                        outs.append(('out', s, blk, prev))
                        continue
                if blk in c.loops:
                    for o in self.exec_loop(s, f, c.loops[blk], prev):
                        if o[0] == 'ret':
                            outs.append(o)
                        else:
                            work.append((o[1], o[2], o[3], False))
                    continue
            try:
                if not done:
                    self.do_phis(s, c, blk, prev)
                for o in self.exec_block(s, f, blk):
                    if o[0] == 'ret':
                        outs.append(o)
                    else:
                        work.append((o[1], o[2], blk, False))
            except OutOfTime:
                if self.nest:
                    raise
                self.undec('time budget')
                self.more_time()
            except GiveUp as e:
                self.undec(str(e), f.blocks[blk][0] if f.blocks[blk] else None)
        return outs

    def more_time(self):
        self.soft = min(self.budget, time.time() - self.t0 + 0.04 * self.budget)

    def do_phis(self, s, c, blk, prev):
        ph = c.phis[blk]
        if ph:
            vals = []
            for i in ph:
                for v, p in i.a[1]:
                    if p == prev:
                        vals.append((i.dst, self.value(s, i.a[0], v)))
                        break
            s.env.update(vals)

    def exec_block(self, s, f, blk):
        """-> list of ('goto',s,blk) / ('ret',s,v)"""
        ins_list = f.blocks[blk]
        n = len(ins_list)
        i0 = 0
        while i0 < n and ins_list[i0].op == 'phi':
            i0 += 1
        out = []
        work = [(s, i0)]
        while work:
            s, i = work.pop()
            while True:
                ins = ins_list[i]
                self.stats['steps'] += 1
                op = ins.op
                if op == 'br':
                    a = ins.a
                    if len(a) == 1:
                        out.append(('goto', s, a[0]))
                        break
                    v = self.value(s, CFGI1, a[0])
                    if v is UNDEF:
                        self.viol('uninit', ins, 'branch on an uninitialised value', s)
                        break
                    t, e = self.split(s, v, ins)
                    if t is not None:
                        out.append(('goto', t, a[1]))
                    if e is not None:
                        out.append(('goto', e, a[2]))
                    break
                if op == 'ret':
                    out.append(('ret', s, self.value(s, ins.a[0], ins.a[1]) if len(ins.a) > 1 and ins.a[1] is not None else None))
                    break
                if op == 'unreachable':
                    break
                if op == 'switch':
                    ty, v, d, cases = ins.a
                    v = self.value(s, ty, v)
                    cur = s
                    for k, t in cases:
                        k = self.value(None, ty, ('int', k if isinstance(k, int) else k[1]))
                        a, b = self.split(cur, ('eq', v - k), ins)
                        if a is not None:
                            out.append(('goto', a, t))
                        cur = b
                        if cur is None:
                            break
                    if cur is not None:
                        out.append(('goto', cur, d))
                    break
                r = self.step(s, ins)
                if r is None:       # plain: same state continues
                    i += 1
                    continue
                i += 1
                if len(r) == 1:
                    s = r[0]
                    continue
                for x in r:
                    work.append((x, i))
                break
        return out

    def split(self, s, c, ins=None):
        if isinstance(c, Lin):
            c = ('ne', c)
        a, b = s.split(c)
        if a is not None and b is not None and ins is not None:
            a.path = (a.path, (ins.loc, c, True))
            b.path = (b.path, (ins.loc, c, False))
            self.stats['states'] += 1
        return a, b

    # ------------------------------------------------------------------ instructions
    def step(self, s, ins):
        return getattr(self, 'i_' + ins.op)(s, ins)

    def i_unsupported(self, s, ins):
        raise GiveUp('unsupported instruction ' + str(ins.a)[:80])

    def i_alloca(self, s, ins):
        ty = ins.a[0]
        n = self.m.size(ty)
        if len(ins.a) > 1 and ins.a[1] is not None:
            k = self.value(s, None, ins.a[1]) if ins.a[1][0] == 'loc' else C(ins.a[1][1])
            sz = k * n
        else:
            sz = C(n)
        rid = s.new_region(f'{ins.fn}:{ins.dst[1:]}', 'stack', sz, UNINIT)
        s.env['#allocas'] = s.env.get('#allocas', ()) + (rid,)
        s.env[ins.dst] = Ptr(('r', rid))
        return None

    def i_freeze(self, s, ins):
        s.env[ins.dst] = self.value(s, ins.a[0], ins.a[1])

    def i_load(self, s, ins):
        ty, p = ins.a
        p = self.value(s, PTRT, p)
        w = self.m.size(ty)
        out = []
        if ty.k not in ('int', 'ptr'):
            raise GiveUp('load of ' + repr(ty))
        for s1, p1 in self.access(s, p, C(w), ins, 'reads'):
            r = self.region(s1, p1)
            for s2, v in self.load_scalar(s1, r, p1.o, w, 'ptr' if ty.k == 'ptr' else 'int', ins):
                if ty.k == 'int' and ty.n == 1:
                    v = ('ne', v)
                s2.env[ins.dst] = v
                out.append(s2)
        return out

    def i_store(self, s, ins):
        ty, v, p = ins.a
        v = self.value(s, ty, v)
        p = self.value(s, PTRT, p)
        w = self.m.size(ty)
        out = []
        sts = [(s, v)]
        if ty.k == 'int' and ty.n == 1:
            sts = self.bool_int(s, v, ins)
        for s, v in sts:
            c = UNINIT if v is UNDEF else ('val', v, w)
            if v is NULL or (isinstance(v, Lin) and v == ZERO):
                c = ('val', v, w)
            for s1, p1 in self.access(s, p, C(w), ins, 'writes', write=True):
                r = self.region(s1, p1)
                for s2, r2 in self.write_range(s1, r, p1.o, C(w), ((ZERO, C(w), c),)):
                    self.set_region(s2, p1, r2)
                    out.append(s2)
        return out

    def i_getelementptr(self, s, ins):
        bt, p, idx = ins.a
        p = self.value(s, PTRT, p)
        if p is UNDEF:
            s.env[ins.dst] = UNDEF
            return None
        iv = []
        for t, x in idx:
            v = self.value(s, t, x)
            if isinstance(v, Lin) and t.n == 8:
                v = v
            iv.append((t, v))
        off, _ = self.gep_off(s, bt, iv)
        s.env[ins.dst] = Ptr(p.b, s.red(p.o + off))

    # integers ---------------------------------------------------------
    def wrap(self, s, v, w):
        """-> list of (state, value in the canonical range of width w)"""
        lo, hi = B.RANGE[w]
        v = s.red(v)
        if v.isconst():
            n = 1 << w
            return [(s, C((v.c - lo) % n + lo))]
        l, h = s.st.bounds(v)
        if (l is not None and l >= lo or s.st.ent(v - lo)) and (h is not None and h <= hi or s.st.ent(C(hi) - v)):
            return [(s, v)]
        out = []
        n = 1 << w
        a, b = s.split(('ge', v - lo))
        if b is not None:
            out += self.wrap1(b, v + n, w)
        if a is not None:
            a, b = a.split(('ge', C(hi) - v))
            if b is not None:
                out += self.wrap1(b, v - n, w)
            if a is not None:
                out.append((a, v))
        return out

    def wrap1(self, s, v, w):
        lo, hi = B.RANGE[w]
        if s.st.ent(v - lo) and s.st.ent(C(hi) - v):
            return [(s, v)]
        return [(s, s.fresh('wrap', lo, hi))]

    def bool_int(self, s, c, ins=None):
        if c is True:
            return [(s, ONE)]
        if c is False:
            return [(s, ZERO)]
        if c is UNDEF:
            return [(s, UNDEF)]
        # a 0/1 symbol compared with zero
        if c[0] == 'ne':
            e = s.red(c[1])
            l, h = s.st.bounds(e)
            if l == 0 and h == 1:
                return [(s, e)]
        a, b = self.split(s, c, ins)
        out = []
        if a is not None:
            out.append((a, ONE))
        if b is not None:
            out.append((b, ZERO))
        return out

    def i_bin(self, s, ins):
        op, ty, a, b, fl = ins.a
        a = self.value(s, ty, a)
        b = self.value(s, ty, b)
        w = ty.n
        if a is UNDEF or b is UNDEF:
            s.env[ins.dst] = UNDEF
            return None
        if w == 1:
            return self.bin1(s, op, a, b, ins)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                s.env[ins.dst] = a.o - b.o
                return None
            raise GiveUp('pointer arithmetic on integers')
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            raise GiveUp('operand')
        if w not in B.RANGE:
            raise GiveUp(f'i{w}')
        res = self.arith(s, op, w, a, b, ins)
        out = []
        for s1, v in res:
            s1.env[ins.dst] = v
            out.append(s1)
        return out

    def bin1(self, s, op, a, b, ins):
        if op == 'xor' and b is True:
            s.env[ins.dst] = cneg(a)
            return None
        if op == 'xor' and a is True:
            s.env[ins.dst] = cneg(b)
            return None
        out = []
        if op in ('and', 'or'):
            t, e = self.split(s, a, ins)
            if t is not None:
                t.env[ins.dst] = b if op == 'and' else True
                out.append(t)
            if e is not None:
                e.env[ins.dst] = False if op == 'and' else b
                out.append(e)
            return out
        if op == 'xor':
            t, e = self.split(s, a, ins)
            if t is not None:
                t.env[ins.dst] = cneg(b)
                out.append(t)
            if e is not None:
                e.env[ins.dst] = b
                out.append(e)
            return out
        raise GiveUp('i1 ' + op)

    def arith(self, s, op, w, a, b, ins):
        a, b = s.red(a), s.red(b)
        if op == 'add':
            if bitlike(a) and bitlike(b):
                # fields that do not overlap: the same as the disjunction
                ab, bb = B.to_bits(s, a, w), B.to_bits(s, b, w)
                if all(x == B.ZB or y == B.ZB for x, y in zip(ab, bb)):
                    return [(s, B.from_bits(s, B.b_or(ab, bb)))]
            return self.wrap(s, a + b, w)
        if op == 'sub':
            return self.wrap(s, a - b, w)
        if op == 'mul':
            if a.isconst():
                a, b = b, a
            if b.isconst():
                if b.c > 1 and b.c & (b.c - 1) == 0 and bitlike(a) and b.c.bit_length() <= w:
                    return self.arith(s, 'shl', w, a, C(b.c.bit_length() - 1), ins)
                return self.wrap(s, a * b.c, w)
            return [(self.impr(s), s.fresh('mul', *B.RANGE[w]))]
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if b.isconst() and b.c > 0:
                if a.isconst() and a.c >= 0:
                    return [(s, C(a.c // b.c if op[1:] == 'div' else a.c % b.c))]
                if s.st.ent(a):
                    q = S(('div', a, b.c), 0, 2 ** 62)
                    r = a - q * b.c
                    s.st.add_ge(r)
                    s.st.add_ge(C(b.c - 1) - r)
                    return [(s, q if op[1:] == 'div' else s.red(r))]
            elif s.red(b) == ZERO:
                self.viol('div', ins, 'division by zero', s)
                return []
            return [(self.impr(s), s.fresh('div', *B.RANGE[w]))]
        if op in ('shl', 'lshr', 'ashr'):
            if not b.isconst():
                return [(self.impr(s), s.fresh('sh', *B.RANGE[w]))]
            k = b.c
            if k < 0 or k >= w:
                self.viol('shift', ins, 'shift by at least the width of the type', s)
                return [(s, s.fresh('sh', *B.RANGE[w]))]
            if a.isconst():
                u = a.c & ((1 << w) - 1)
                v = (u << k) if op == 'shl' else (u >> k if op == 'lshr' else a.c >> k)
                return self.wrap(s, C(v), w)
            if op == 'shl' and not has_bits(a):
                lo, hi = B.RANGE[w]
                v = a * (1 << k)
                if s.st.ent(v - lo) and s.st.ent(C(hi) - v) and s.st.ent(a):
                    return [(s, v)]
            bb = B.to_bits(s, a, w)
            return [(s, B.from_bits(s, B.shift(bb, k if op == 'shl' else -k, w, op == 'ashr')))]
        if op in ('and', 'or', 'xor'):
            M = (1 << w) - 1
            if a.isconst() and b.isconst():
                x, y = a.c & M, b.c & M
                return self.wrap(s, C(x & y if op == 'and' else x | y if op == 'or' else x ^ y), w)
            if a.isconst():
                a, b = b, a
            if b.isconst():
                m = b.c & M
                if op == 'and' and (m & (m + 1)) == 0 and s.st.ent(a) and s.st.ent(C(m) - a):
                    return [(s, a)]
                if op in ('or', 'xor') and m == 0:
                    return [(s, a)]
                if op == 'xor' and m == M:
                    return self.wrap(s, -a - 1 if w > 8 else C(255) - a, w)
            ab, bb = B.to_bits(s, a, w), B.to_bits(s, b, w)
            v = B.b_and(ab, bb) if op == 'and' else B.b_or(ab, bb) if op == 'or' else B.b_xor(ab, bb)
            return [(s, B.from_bits(s, v))]
        raise GiveUp('op ' + op)

    def impr(self, s):
        s.flags = s.flags | {'imprecise'}
        return s

    def i_icmp(self, s, ins):
        pred, ty, a, b = ins.a
        a = self.value(s, ty, a)
        b = self.value(s, ty, b)
        out = []
        for s1, c in self.compare(s, pred, ty, a, b, ins):
            s1.env[ins.dst] = c
            out.append(s1)
        return out

    def compare(self, s, pred, ty, a, b, ins):
        if a is UNDEF or b is UNDEF:
            self.viol('uninit', ins, 'compares an uninitialised value', s)
            return []
        if ty.k == 'ptr':
            return self.cmp_ptr(s, pred, a, b, ins)
        if ty.n == 1:
            ra = []
            for s1, x in self.bool_int(s, a):
                for s2, y in self.bool_int(s1, b):
                    ra += self.cmp_int(s2, pred, 8, x, y, ins)
            return ra
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pred in ('eq', 'ne') and isinstance(a, Lin) or isinstance(b, Lin):
                p = a if isinstance(a, Ptr) else b
                n = b if isinstance(a, Ptr) else a
                if n == ZERO:
                    return self.cmp_ptr(s, pred, p, NULL, ins)
            raise GiveUp('pointer compared as an integer')
        return self.cmp_int(s, pred, ty.n, a, b, ins)

    def cmp_int(self, s, pred, w, a, b, ins):
        a, b = s.red(a), s.red(b)
        # result of memcmp/strcmp against zero
        for x, y in ((a, b), (b, a)):
            k = cmpkey(x)
            if k is not None and y == ZERO:
                if pred == 'eq':
                    return [(s, ('all', k))]
                if pred == 'ne':
                    return [(s, ('nall', k))]
                t, e = self.split(s, ('all', k), ins)
                out = []
                if t is not None:
                    t.st.add_eq(x)
                    out += self.cmp_int(t, pred, w, ZERO, ZERO, ins)
                if e is not None:
                    f = e.fresh('ord', -1, 1)
                    e.st.add_ne(f)
                    xx, yy = (f, ZERO) if x is a else (ZERO, f)
                    out += self.cmp_int(e, pred, w, xx, yy, ins)
                return out
        d = a - b
        if pred in ('eq', 'ne'):
            d = self.unsigned_eq(s, d)
            z = self.zero_parts(s, d)
            if z is not None:
                return [(s, pred == 'ne' if z is False else ('all' if pred == 'eq' else 'nall', z))]
            return [(s, simp(s, (pred, d)))]
        if pred[0] == 's' and w == 8:
            out = []
            a, b = self.sext8(s, a), self.sext8(s, b)
            d = a - b
        if pred[0] == 'u' and w > 8:
            out = []
            for s1, x in self.uns(s, a, w):
                for s2, y in self.uns(s1, b, w):
                    out.append((s2, simp(s2, rel(pred[1:], x - y))))
            return out
        return [(s, simp(s, rel(pred[1:], d)))]

    def unsigned_eq(self, s, d):
        """d == 0 for sign extended bytes, as an equality of the bytes themselves"""
        gs = [(k, a) for k, a in d.t.items() if KEYS[k][0] == 'sgn']
        if not gs or len(gs) > 2 or any(abs(a) != 256 for _, a in gs):
            return d
        r = d
        sign = []
        for k, a in gs:
            v = KEYS[k][1]
            if not isinstance(v, Lin) or len(v.t) != 1 or v.c:
                return d
            (b, one), = v.t.items()
            if one != 1 or d.t.get(b, 0) != (1 if a < 0 else -1):
                return d
            sign.append(1 if a < 0 else -1)
            r = r + Lin({k: -a}, 0)
        if len(gs) == 2:
            if len(r.t) == 2 and sign[0] != sign[1] and r.c == 0:
                return r
            return d
        if len(r.t) != 1:
            return d
        # sign * b + r.c == 0 where b stands for a signed value
        x = -r.c * sign[0]
        if -128 <= x <= 127:
            return Lin({next(iter(r.t)): 1}, -(x & 255))
        return d

    def zero_parts(self, s, d):
        """expressions that are all zero exactly when the or of them, d, is"""
        if len(d.t) != 1 or d.c:
            return None
        key = KEYS[next(iter(d.t))]
        if key[0] != 'bits':
            return None
        b = B.norm_bits(s, key[1])
        refs = {r for x in b for r in x}
        if ('one',) in refs:
            return False
        es = {r[0] for r in refs}
        if len(es) < 2 or not all(isinstance(e, Lin) for e in es):
            return None
        for e in es:
            if any(x and not x <= refs for x in B.to_bits(s, e, 64 if s.st.ent(e) else 32)):
                return None
        return frozenset(es)

    def uns(self, s, v, w):
        v = s.red(v)
        if s.st.ent(v):
            return [(s, v)]
        a, b = s.split(('ge', v))
        out = []
        if a is not None:
            out.append((a, v))
        if b is not None:
            out.append((b, v + (1 << w)))
        return out

    def sext8(self, s, v):
        v = s.red(v)
        if v.isconst():
            return C(v.c - 256 if v.c > 127 else v.c)
        if s.st.ent(C(127) - v):
            return v
        g = S(('sgn', v), 0, 1)
        s.st.add_ge(v - g * 128)
        s.st.add_ge(C(127) + g * 128 - v)
        return s.red(v - g * 256)

    def cmp_ptr(self, s, pred, a, b, ins):
        out = []
        for p in (a, b):
            if p.b is not None and p.b[0] == 'dead' and p.b[1] != 'stack' and False:
                pass
        if a.b == b.b and a.b is not None:
            d = a.o - b.o
            return [(s, simp(s, ('eq', d) if pred == 'eq' else ('ne', d) if pred == 'ne' else rel(pred[1:], d)))]
        if pred not in ('eq', 'ne'):
            raise GiveUp('pointer order')
        # one of them null?
        for x, y in ((a, b), (b, a)):
            if isnull(y):
                res = []
                for s1, c in self.is_null(s, x, ins):
                    res.append((s1, c if pred == 'eq' else cneg(c)))
                return res
        if a.b[0] == 'opaque' or b.b[0] == 'opaque':
            f = s.fresh('ptreq', 0, 1)
            return [(s, ('eq', f))]
        return [(s, pred != 'eq')]

    def is_null(self, s, p, ins):
        """-> list of (state, bool/cond)"""
        b = p.b
        if b is None:
            return [(s, simp(s, ('eq', p.o)))]
        if b[0] == 'null':
            return [(s, True)]
        if b[0] == 'lazy':
            nl = self.lazy_null(s, b[1])
            return [(s, nl)]
        if b[0] == 'r':
            r = s.heap[b[1]]
            if r.nul is None:
                return [(s, False)]
            out = []
            if not s.oom and not s.st.ent_eq(r.nul):
                t = s.copy()
                if t.st.add_eq(r.nul - 1):
                    t.oom = True
                    t.kill_region(b[1], ('null', 'oom'))
                    t.path = (t.path, f'{ins.loc[0]}:{ins.loc[1]} allocation failed')
                    out.append((t, True))
            if s.st.add_eq(r.nul):
                s.heap[b[1]] = r.with_nul(None)
                out.append((s, False))
            return out
        if b[0] == 's':
            st = s.streams[b[1]]
            nul = s.red(st.nul)
            if nul == ZERO:
                return [(s, False)]
            out = []
            t = s.copy()
            if t.st.add_eq(nul - 1):
                sid = b[1]
                del t.streams[sid]
                t.map_values(lambda v: Ptr(None) if isinstance(v, Ptr) and v.b == ('s', sid) else v)
                t.path = (t.path, f'{ins.loc[0]}:{ins.loc[1]} open failed ({st.site})')
                if st.file not in t.flags:
                    t.flags = t.flags | {('openfail', st.file, st.mode)}
                out.append((t, True))
            if s.st.add_eq(nul):
                self.opened(s, b[1])
                out.append((s, False))
            return out
        if b[0] == 'opaque':
            return [(s, ('eq', s.fresh('pnull', 0, 1)))]
        return [(s, False)]

    def lazy_null(self, s, name):
        return False

    def i_select(self, s, ins):
        ty, c, a, b = ins.a
        c = self.value(s, CFGI1, c)
        a = self.value(s, ty, a)
        b = self.value(s, ty, b)
        if c is UNDEF:
            self.viol('uninit', ins, 'selects on an uninitialised value', s)
            return []
        t, e = self.split(s, c, ins)
        out = []
        if t is not None:
            t.env[ins.dst] = a
            out.append(t)
        if e is not None:
            e.env[ins.dst] = b
            out.append(e)
        return out

    def i_cast(self, s, ins):
        op, ty, v, to = ins.a
        v = self.value(s, ty, v)
        out = []
        for s1, r in self.cast(s, op, ty, v, to, ins):
            s1.env[ins.dst] = r
            out.append(s1)
        return out

    def cast(self, s, op, ty, v, to, ins):
        if v is UNDEF:
            return [(s, UNDEF)]
        if op == 'bitcast':
            return [(s, v)]
        if op == 'ptrtoint':
            return [(s, v)]
        if op == 'inttoptr':
            if isinstance(v, Ptr):
                return [(s, v)]
            if s.red(v) == ZERO:
                return [(s, NULL)]
            return [(s, Ptr(('opaque', 'int')))]
        if isinstance(v, Ptr):
            raise GiveUp('cast of a pointer')
        if op in ('zext', 'sext') and ty.n == 1:
            r = self.bool_int(s, v, ins)
            if op == 'sext':
                r = [(a, -b) for a, b in r]
            return r
        if op == 'sext':
            return [(s, self.sext8(s, v) if ty.n == 8 else v)]
        if op == 'zext':
            if ty.n == 8:
                return [(s, v)]
            return self.uns(s, v, ty.n)
        if op == 'trunc':
            if to.n == 1:
                bb = B.to_bits(s, v, 1)
                return [(s, ('ne', B.from_bits(s, bb, False)))]
            if to.n == 8:
                return [(s, self.trunc8(s, v))]
            lo, hi = B.RANGE[to.n]
            v = s.red(v)
            if s.st.ent(v - lo) and s.st.ent(C(hi) - v):
                return [(s, v)]
            # drop multiples of 2^n
            n = 1 << to.n
            v2 = Lin({k: a for k, a in v.t.items() if a % n}, (v.c - lo) % n + lo)
            if s.st.ent(v2 - lo) and s.st.ent(C(hi) - v2):
                return [(s, v2)]
            return self.wrap(s, v, to.n)
        raise GiveUp('cast ' + op)

    def trunc8(self, s, v):
        v = s.red(v)
        if v.isconst():
            return C(v.c & 255)
        if s.st.ent(v) and s.st.ent(C(255) - v):
            return v
        v2 = Lin({k: a for k, a in v.t.items() if a % 256}, v.c % 256)
        if s.st.ent(v2) and s.st.ent(C(255) - v2):
            return v2
        return B.from_bits(s, B.to_bits(s, v, 32)[:8], False)

    # calls -------------------------------------------------------------
    def i_call(self, s, ins):
        rt, callee, args = ins.a
        if callee[0] != 'glob':
            c = self.value(s, PTRT, callee)
            if isinstance(c, Ptr) and c.b is not None and c.b[0] == 'fn':
                callee = ('glob', c.b[1])
            elif isinstance(c, Ptr) and isnull(c):
                self.viol('null', ins, 'calls a null function pointer', s)
                return []
            else:
                raise GiveUp('indirect call')
        n = callee[1]
        if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime'):
            return None
        av = [self.value(s, t, a) for t, a in args]
        tys = [t for t, _ in args]
        if n in self.contracts and n in self.m.funcs:
            res = self.contract(s, n, av, ins)
        elif n in self.m.funcs:
            self.stats['calls'] += 1
            res = self.run_function(s, n, av, ins)
        else:
            res = self.libcall(s, n, av, tys, ins)
        out = []
        for s1, v in res:
            if ins.dst:
                s1.env[ins.dst] = v
            out.append(s1)
        return out

    def used(self, ins):
        return ins.dst is not None and ins.dst in self.cfg(self.m.funcs[ins.fn]).used

    # string length contract ----------------------------------------------
    def contract(self, s, n, av, ins):
        out = []
        for s1, L, t in self.string_at(s, av[0], ins, 'reads a string'):
            out.append((s1, s1.red(L) if n == 'ID3v2_strlen' else s1.red(L + t)))
        return out

    def string_at(self, s, p, ins, what):
        """length and terminator size of the string at p (library semantics): list of (s, L, t)"""
        out = []
        if isinstance(p, Ptr) and isnull(p):
            # string_has_bom(NULL) is false, strlen(NULL) crashes
            if p.b is None:
                self.viol('null', ins, f'{what} through a null pointer', s)
            return []
        for s, p in self.access(s, p, ONE, ins, what):
            r = self.region(s, p)
            for s1, segs in self.read_range(s, r, p.o, s.red(r.size - p.o)):
                out += self.string_segs(s1, p, r, segs, ins, what)
        return out

    def string_segs(self, s, p, r, segs, ins, what):
        segs = self.bytes_canon(s, segs)
        if not segs:
            return []
        c = segs[0][2]
        if c[0] == 'bytes' and c[1][0] == 'str' and s.red(c[2]) == ZERO:
            G = c[1]
            L, t = self.str_len(G), self.str_t(G)
            if s.st.ent_eq(segs[0][1] - L):
                return self.need_zeros(s, segs[1:], t, r, ins, what, L, t)
        # empty string ghost dropped by normalisation, or a literal
        lit = self.lit_string(s, segs)
        if lit is not None:
            if lit == 'open':
                self.viol('bounds', ins, f'{what} past the end of {self.rname(r)}: no terminator', s)
                return []
            return [(s, C(lit[0]), C(lit[1]))]
        if c[0] == 'zero':
            if s.st.ent(segs[0][1] - 1):
                return [(s, ZERO, ONE)]
        if c[0] == 'bytes' and c[1][0] in ('in', 'file', 'raw', 'data', 'pay'):
            return self.freeze(s, p, r, segs, ins, what)
        if c[0] == 'bytes' and c[1][0] == 'nz' and len(segs) > 1 and segs[1][2][0] == 'zero':
            return [(s, segs[0][1], ONE)]
        if c[0] == 'uninit':
            self.viol('uninit', ins, f'{what} of uninitialised memory', s)
            return []
        # string followed by less than its terminator etc.: settle the kind and retry once
        if c[0] == 'bytes' and c[1][0] == 'str':
            G = c[1]
            if not s.red(self.str_t(G)).isconst():
                res = []
                for s1 in self.str_kind_split(s, G):
                    res += self.string_segs(s1, p, self.region(s1, p), segs, ins, what)
                return res
            off = s.red(c[2])
            if off.isconst() and off.c > 0 and s.red(self.str_t(G)) == ONE:
                # tail of an ISO string (may look like it starts with a BOM: not excluded, treated as ISO)
                L = self.str_len(G) - off
                if s.st.ent_eq(segs[0][1] - L):
                    return self.need_zeros(s, segs[1:], ONE, r, ins, what, L, ONE)
        raise GiveUp(f'string contents {[x[2] for x in segs][:3]}')

    def need_zeros(self, s, rest, t, r, ins, what, L, tt):
        z = ZERO
        for o, l, c in rest:
            if c[0] == 'zero':
                z = z + l
            else:
                break
        if s.st.ent(z - t):
            return [(s, L, tt)]
        a, b = s.split(('ge', z - t))
        if b is not None:
            self.viol('bounds', ins, f'{what}: terminator of the string missing or incomplete in {self.rname(r)}', b)
        return [(a, L, tt)] if a is not None else []

    def lit_string(self, s, segs):
        """constant prefix of the contents long enough to find the terminator"""
        d = b''
        closed = True
        for o, l, c in segs:
            l = s.red(l)
            if not l.isconst():
                if c[0] == 'zero' and s.st.ent(l - 2):
                    d += b'\0\0'
                elif c[0] == 'zero' and s.st.ent(l - 1):
                    d += b'\0'
                closed = False
                break
            if c[0] == 'zero':
                d += bytes(min(l.c, 64))
            elif c[0] == 'bytes' and c[1][0] == 'lit' and s.red(c[2]).isconst():
                k = s.red(c[2]).c
                x = c[1][1][k:k + l.c]
                d += x + bytes(l.c - len(x))
            else:
                closed = False
                break
        if not d:
            return None
        if d[:2] in (b'\xff\xfe', b'\xfe\xff'):
            i = 0
            while i + 1 < len(d):
                if d[i] == 0 and d[i + 1] == 0:
                    return (i, 2)
                i += 2
        else:
            i = d.find(b'\0')
            if i >= 0:
                if i == 0 or len(d) >= 2:
                    return (i, 1)
        return 'open' if closed else None

    def freeze(self, s, p, r, segs, ins, what):
        """raw bytes followed by zeros: name the string they hold"""
        (o, avail, c) = segs[0]
        F, off = c[1], s.red(c[2])
        avail = s.red(avail)
        z = ZERO
        tail = segs[1:]
        for k, (_, l, cc) in enumerate(tail):
            if cc[0] == 'zero':
                z = z + l
            else:
                break
        G = ('str', 'raw', F, off, avail)
        self.strinfo[G] = (F, off, avail)
        L, t = self.str_len(G), self.str_t(G)
        out = []
        b0 = self.byte_of(s, F, off)
        # a single byte cannot be a byte order mark followed by anything but the zeros
        for s1 in self.str_kinds(s, G):
            tk = s1.red(t)
            if tk == ONE:
                lim, need = avail, ONE
                ok = s1.st.ent(z - 1)
            else:
                lim, need = avail + 1, C(3)
                ok = s1.st.ent(z - 3)
                if not ok and s1.st.ent(z - 2) and self.parity(s1, avail) == 0:
                    ok = True
                    lim = avail
            if not ok:
                self.viol('bounds', ins, f'{what} past the end of {self.rname(r)}: raw bytes without a complete terminator', s1)
                continue
            if not s1.st.add_ge(lim - L):
                continue
            self.str_raw_facts(s1, G)
            if s1.st.dead:
                continue
            # contents: the string, its terminator, and a tail nobody may rely on
            r1 = self.region(s1, p)
            tot = s1.red(r1.size - p.o)
            new = ((ZERO, L, ('bytes', G, ZERO)), (L, tk, ZEROC), (L + tk, tot - L - tk, ('unk', ('tail', G))))
            pre = [(a, b, d) for a, b, d in r1.segs if s1.st.ent(p.o - a - b)]
            if r1.kind == 'heap' and (not pre or True):
                r2 = r1.with_segs(tuple(pre) + tuple((s1.red(a + p.o), s1.red(b), d) for a, b, d in new))
                self.set_region(s1, p, r2)
            out.append((s1, L, tk))
        return out

    def str_kinds(self, s, G):
        """kind split of a string found in raw bytes, decided by the raw bytes themselves"""
        F, off, avail = self.strinfo[G]
        t = self.str_t(G)
        b0, b1 = self.byte_of(s, F, off), self.byte_of(s, F, off + 1)
        L = self.str_len(G)
        g0, g1 = S(('b', G, ZERO), 0, 255), S(('b', G, ONE), 0, 255)
        for o in (ZERO, ONE):
            if o not in self.boffs.setdefault(G, []):
                self.boffs[G].append(o)
        out = []
        # utf-16
        u = s.copy()
        if u.st.add_ge(avail - 2) and u.st.add_eq(b0 + b1 - 509) and u.st.add_ge(b0 - 254) and u.st.add_ge(b1 - 254) \
                and u.st.add_eq(t - 2) and u.st.add_ge(L - 2):
            h = S(('half', G), 0, 2 ** 30)
            if u.st.add_eq(L - h * 2):
                out.append(u)
        for k in range(2):
            i = s.copy()
            if k == 0:
                ok = i.st.add_ge(avail - 2) and i.st.add_ng([b0 - 255, b1 - 254]) and i.st.add_ng([b0 - 254, b1 - 255])
            else:
                ok = i.st.add_ge(ONE - avail)
            # (bytes behind the end of the string are never looked up under its name)
            ok = ok and i.st.add_ng([g0 - 255, g1 - 254]) and i.st.add_ng([g0 - 254, g1 - 255])
            if ok and i.st.add_eq(t - 1):
                out.append(i)
        return out


class _T:
    pass


import ir as _ir
CFGI1 = _ir.ity(1)
PTRT = _ir.PTR


def fmtstep(loc, c, pos):
    d = repr(c)
    if len(d) > 120:
        d = d[:120] + '...'
    return f'{loc[0]}:{loc[1]} ' + ('' if pos else 'not ') + d


def isnull(p):
    return isinstance(p, Ptr) and ((p.b is None and p.o == ZERO) or (p.b is not None and p.b[0] == 'null'))


def cmpkey(v):
    if len(v.t) == 1 and v.c == 0:
        (k, a), = v.t.items()
        key = KEYS[k]
        if key[0] == 'cmp' and a == 1:
            return key[1]
    return None


def bitlike(v):
    return bool(v.t) and v.c == 0 and all(KEYS[k][0] in ('b', 'bits') for k in v.t)


def has_bits(v):
    return any(KEYS[k][0] == 'bits' for k in v.t)


def rel(p, d):
    """a-b=d"""
    if p == 'gt':
        return ('ge', d - 1)
    if p == 'ge':
        return ('ge', d)
    if p == 'lt':
        return ('ge', -d - 1)
    return ('ge', -d)


def simp(s, c):
    if c is True or c is False:
        return c
    e = s.red(c[1])
    if e.isconst():
        return {'ge': e.c >= 0, 'eq': e.c == 0, 'ne': e.c != 0}[c[0]]
    return (c[0], e)
