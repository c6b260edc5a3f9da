"""Loops: unrolling while it terminates quickly, otherwise generalisation over the iteration number checked to be inductive."""
from lin import *
from state import *
from mem import GiveUp, OutOfTime
import bits as B
from cfg import operands


class NoFit(Exception):
    pass


class Loops:
    DET = 400

    def exec_loop(self, s, f, loop, prev):
        """-> outcomes ('ret',s,v) / ('out',s,blk,prev)"""
        self.stats['loops'] += 1
        for what in ('copy', 'files', None, 'all'):
            t, defs = s, {}
            if what == 'files' and not (s.streams and self.loop_reads(f, loop)):
                continue
            if what == 'copy' and not self.loop_copies(f, loop):
                continue
            if what is not None:
                t, defs = self.hide(s, what)
                if not defs:
                    continue
                snapf = dict(self.findings), dict(self.undecided)
            else:
                plain_ok = self.hide(s, 'all')[1]
                snapf = dict(self.findings), dict(self.undecided)
            self.timecut = False
            self.nest += 1
            try:
                outs, bounded = self.run_loop(t if t is not s else s.copy(), f, loop, prev, what in ('copy', 'files'))
            except OutOfTime:
                raise
            except GiveUp as x:
                outs, bounded = None, x
            finally:
                self.nest -= 1
            if self.timecut and outs is not None and not self.nest:
                self.undec('time budget', f.blocks[loop.head][-1])
                self.more_time()
                outs = self.unhide(outs, defs)
                return self.finish(outs or [], f)
            if what is None and (outs is not None and not bounded or not plain_ok):
                res = outs, bounded
                break
            if what is None:
                first = outs, bounded, dict(self.findings), dict(self.undecided)
            elif outs is not None and not bounded and len(self.undecided) == len(snapf[1]):
                outs = self.unhide(outs, defs)
                if outs is not None:
                    if what == 'copy':
                        for o in outs:
                            if o[0] != 'ret':
                                self.tidy(o[1], s.st)
                    return self.finish(outs, f)
            self.findings, self.undecided = snapf
        else:
            *res, self.findings, self.undecided = first
        outs, bounded = res
        if outs is None:
            raise bounded
        if bounded:
            self.stats['bounded'] += 1
            self.bounded_at.add((f.name, self.headline(f, loop.head)))
        return self.finish(outs, f)

    READS = {'getc', 'fgetc', '_IO_getc', 'fread', 'fgets', 'getc_unlocked', 'fgetc_unlocked', 'fread_unlocked'}

    def loop_reads(self, f, loop):
        """the body of the loop can read a stream"""
        key = ('reads', f.name, loop.head)
        memo = self.__dict__.setdefault('_reads', {})
        if key not in memo:
            memo[key] = any(self.calls_read(i, set()) for b in loop.blocks for i in f.blocks[b])
        return memo[key]

    def loop_copies(self, f, loop):
        """the loop moves single bytes and does not decide anything by their values"""
        key = ('copies', f.name, loop.head)
        memo = self.__dict__.setdefault('_reads', {})
        if key not in memo:
            memo[key] = self.copies1(f, loop)
        return memo[key]

    def copies1(self, f, loop):
        body = [i for b in loop.blocks for i in f.blocks[b]]
        ld, st = [], False
        for i in body:
            if i.op == 'load' and i.a[0].k == 'int' and i.a[0].n == 8:
                ld.append(i.dst)
            elif i.op == 'store' and i.a[0].k == 'int' and i.a[0].n == 8:
                st = True
            elif i.op == 'call' and i.a[1][0] == 'glob' and i.a[1][1] in self.m.funcs:
                g = self.m.funcs[i.a[1][1]]
                for b in g.blocks.values():
                    for j in b:
                        if j.op == 'load' and j.a[0].k == 'int' and j.a[0].n == 8 and i.dst:
                            ld.append(i.dst)
                        elif j.op == 'store' and j.a[0].k == 'int' and j.a[0].n == 8:
                            st = True
        if not ld or not st:
            return False
        dep = set(ld)
        ch = True
        while ch:
            ch = False
            for i in body:
                if i.op == 'icmp' or i.op == 'switch':
                    if any(v[0] == 'loc' and v[1] in dep for v in operands(i)):
                        return False
                elif i.dst and i.dst not in dep and i.op in ('bin', 'cast', 'select', 'freeze') and any(v[0] == 'loc' and v[1] in dep for v in operands(i)):
                    dep.add(i.dst)
                    ch = True
        return True

    def calls_read(self, ins, seen):
        if ins.op != 'call':
            return False
        callee = ins.a[1]
        if callee[0] != 'glob':
            return True
        n = callee[1]
        if n in self.READS:
            return True
        if n not in self.m.funcs or n in seen:
            return False
        seen.add(n)
        return any(self.calls_read(i, seen) for b in self.m.funcs[n].blocks.values() for i in b)

    def hide(self, s, what):
        """copy of s in which composite byte sequences are opaque; the loop may move through them without looking at their structure"""
        defs = {}
        t = s
        def sub(r):
            self.nhide = getattr(self, 'nhide', 0) + 1
            G = ('alias', self.nhide)
            defs[G] = r.segs
            return r.with_segs(((ZERO, r.size, ('bytes', G, ZERO)),))
        for k, r in s.files.items():
            if r.segs and any(x.file == k and self.can_read(s, x) for x in s.streams.values()):
                t = s.copy() if t is s else t
                t.files[k] = sub(r)
        if what in ('all', 'copy'):
            for k, r in s.heap.items():
                if what == 'all' and r.kind == 'heap' and len(r.segs) > 3 and not any(c[0] == 'val' and (isinstance(c[1], Ptr) or c[2] > 4) for _, _, c in r.segs) \
                        or what == 'copy' and r.kind in ('heap', 'owned', 'input') and len(r.segs) > 1 and not any(c[0] == 'val' and (isinstance(c[1], Ptr) or c[2] > 1) for _, _, c in r.segs):
                    t = s.copy() if t is s else t
                    t.heap[k] = sub(r)
        return t, defs

    def unhide(self, outs, defs):
        """None if something is left that is known only in terms of the hidden contents"""
        res = []
        for o in outs:
            for s in self.unhide1(o[1], defs):
                if self.leaks(s, defs, o[2] if o[0] == 'ret' else None):
                    return None
                res.append((o[0], s) + tuple(o[2:]))
        return res

    def tidy(self, s, base):
        """forget iteration counts that are known in terms of other values, and constraints that follow from the others"""
        st = s.st
        old = base.syms()
        gone = {k for k in st.sub if k not in old and KEYS[k][0] == 'f' and KEYS[k][1] == 'iter'}
        new = base.copy()
        for k, e in st.facts():
            if k == 'eq' and not any(x in gone for x in e.t) and not new.ent_eq(e):
                new.add_eq(e)
        for k, e in st.facts():
            if k == 'ge' and not new.ent(e):
                new.add_ge(e)
        for n in st.ng:
            if n not in new.ng:
                new.add_ng(n)
        if new.dead:
            return
        red = st.red

        def val(v):
            if isinstance(v, Lin):
                return red(v)
            if isinstance(v, Ptr):
                return Ptr(v.b, red(v.o)) if v.o.t else v
            if isinstance(v, tuple) and len(v) > 1 and v[0] in ('ge', 'eq', 'ne', 'all', 'nall'):
                return (v[0], red(v[1]) if isinstance(v[1], Lin) else type(v[1])(red(x) for x in v[1])) + v[2:]
            return v

        def con(c):
            if c[0] == 'val':
                return ('val', val(c[1])) + c[2:]
            if c[0] in ('bytes', 'wide') and isinstance(c[2], Lin):
                return (c[0], c[1], red(c[2])) + c[3:]
            return c

        def reg(r):
            r = r.with_segs(tuple((red(o), red(l), con(c)) for o, l, c in r.segs))
            if r.size.t:
                r = Region(r.kind, red(r.size), r.segs, r.site, r.nul)
            return r
        s.stack = [{k: val(v) for k, v in e.items()} for e in s.stack]
        s.heap = {k: reg(r) for k, r in s.heap.items()}
        s.files = {k: reg(r) for k, r in s.files.items()}
        for k, x in s.streams.items():
            ch = {f: red(getattr(x, f)) for f in Stream.F if isinstance(getattr(x, f), Lin)}
            s.streams[k] = x.set(**ch)
        s.st = new

    def halved(self, l):
        if l.c % 2 or any(a % 2 for a in l.t.values()):
            return None
        return Lin({k: a // 2 for k, a in l.t.items()}, l.c // 2)

    def leaks(self, s, defs, rv):
        def lin(v):
            if isinstance(v, Ptr):
                return lin(v.o)
            if isinstance(v, Lin):
                for k in v.t:
                    key = KEYS[k]
                    if key[0] == 'b' and key[1] in defs or key[0] not in ('b', 'len', 't') and 'alias' in repr(key):
                        return True
                return False
            return isinstance(v, tuple) and len(v) > 1 and v[0] in ('ge', 'eq', 'ne', 'all', 'nall') and any(lin(x) for x in ([v[1]] if isinstance(v[1], Lin) else v[1]))
        if lin(rv) or any(lin(v) for e in s.stack for v in e.values()):
            return True
        for r in list(s.heap.values()) + list(s.files.values()):
            for o, l, c in r.segs:
                if c[0] == 'val' and lin(c[1]) or len(c) > 1 and c[1] in defs:
                    return True
        return False

    def unhide1(self, s, defs):
        work = [s]
        for tbl in ('files', 'heap'):
            for k in list(getattr(s, tbl)):
                nx = []
                for x in work:
                    r = getattr(x, tbl)[k]
                    if not any(c[0] in ('bytes', 'wide') and c[1] in defs or c[0] == 'val' and c[2] == 1 for _, _, c in r.segs):
                        nx.append(x)
                        continue
                    parts = [(x, ())]
                    for o, l, c in self.bytes_canon(x, r.segs):
                        if c[0] == 'wide' and c[1] in defs and self.halved(l) is not None:
                            np = []
                            for y, p in parts:
                                for z, m in self.read_range(y, Region('tmp', ZERO, defs[c[1]], ''), c[2], self.halved(l)):
                                    if all(q[2][0] in ('bytes', 'zero') for q in m):
                                        np.append((z, p + tuple((q[0] * 2 + o, q[1] * 2, ('wide',) + q[2][1:] if q[2][0] == 'bytes' else q[2]) for q in m)))
                                    else:
                                        np.append((z, p + ((o, l, c),)))
                            parts = np
                            continue
                        if not (c[0] == 'bytes' and c[1] in defs):
                            parts = [(y, p + ((o, l, c),)) for y, p in parts]
                            continue
                        np = []
                        for y, p in parts:
                            for z, m in self.read_range(y, Region('tmp', ZERO, defs[c[1]], ''), c[2], l):
                                np.append((z, p + tuple((q[0] + o, q[1], q[2]) for q in m)))
                        parts = np
                    for y, p in parts:
                        y = y if len(parts) == 1 else y.copy()
                        getattr(y, tbl)[k] = r.with_segs(self.norm_segs(y, p))
                        nx.append(y)
                work = nx
        return work

    def run_loop(self, s, f, loop, prev, copying=False):
        """-> (outcomes, followed only up to a bound)"""
        c = self.cfg(f)
        head = loop.head
        outs = []
        cur = [self.at_head(s, f, c, head, prev)]
        hist = [cur]
        it = 0
        nondet = 0
        tried = mixed = 0
        upto = 0
        short = False
        while cur:
            nxt = []
            both = False
            upto = len(outs)
            made = {}
            for h in cur:
                n0 = len(outs)
                try:
                    back, o = self.body(h.copy(), f, c, loop)
                except OutOfTime:
                    if self.nest > 1 or not outs:
                        raise
                    self.timecut = True
                    return outs, True
                outs += o
                made[id(h)] = n0, len(outs)
                if back and o:
                    both = True
                nxt += back
            it += 1
            if both:
                nondet += 1
            elif nxt and len(outs) > upto:
                mixed += 1
            nxt = self.merge(nxt, c.live[head], set(hist[0][0].heap))
            self.progress(f, loop, cur, nxt)
            hist.append(nxt)
            if len(cur) <= 3 and 1 <= len(nxt) <= 3 and (nondet >= 2 - copying or mixed in (2, 3) and not both or it in (40, 41)) and tried < 4 and not short and len(hist) >= 3 and len(hist[-3]) <= 3:
                tried += 1
                g = None
                self.short = False
                for a in hist[-2]:
                    for b in nxt:
                        g = self.generalise(f, c, loop, a, b, copying)
                        if g is not None or self.short:
                            break
                    if g is not None or self.short:
                        break
                short = self.short
                self.short = False
                if g is not None:
                    rest = [x for x in nxt if x is not b]
                    side = self.drain(rest, f, c, loop)
                    if side is not None:
                        self.stats['invariants'] += 1
                        if id(a) in made:
                            n0, n1 = made[id(a)]
                            outs = outs[:n0] + outs[n1:]      # what leaves from there on is an instance of the invariant
                        return outs + g + side, False
            cur = nxt
            if nondet > (max(self.kmax, 12) if short else self.kmax) and cur:
                return outs, True
            if it > self.DET:
                raise GiveUp(f'loop at {f.name}:{head} not bounded')
        return outs, False

    def drain(self, states, f, c, loop, n=3):
        """outcomes of states that leave the loop within n iterations, else None"""
        outs = []
        cur = states
        for _ in range(n):
            nxt = []
            for h in cur:
                back, o = self.body(h.copy(), f, c, loop)
                outs += o
                nxt += back
            cur = nxt
            if not cur:
                return outs
        return None if cur else outs

    def finish(self, outs, f):
        res = []
        groups = {}
        for o in outs:
            if o[0] == 'ret':
                res.append(o)
            else:
                groups.setdefault((o[2], o[3]), []).append(o[1])
        for (b, p), l in groups.items():
            l = [s for s, _ in self.dedupe([(x, None) for x in l])]
            if 1 < len(l) <= 6:
                l = self.join(l, f, b, p)
            for s in l:
                res.append(('out', s, b, p))
        return res

    def join(self, l, f, b, p):
        """states that leave a loop for different reasons become one where that loses nothing"""
        c = self.cfg(f)
        live = set(c.livein[b]) | {v[1] for i in c.phis[b] for v, q in i.a[1] if q == p and v[0] == 'loc'}
        res = []
        for s in sorted(l, key=lambda x: len(x.st.sub)):
            k = s.canon(live)
            for i, (k2, o) in enumerate(res):
                r = self.union(o, s) if k == k2 else None
                if r is not None:
                    res[i] = k2, r
                    break
            else:
                res.append((k, s))
        return [s for _, s in res]

    def union(self, a, b):
        """one state for both, None if that is not possible without loss"""
        r = self.hull(a, b)
        for x, y in ((a, b), (b, a)):
            p = [('ng', n) for n in x.st.ng if not self.has_ng(r.st, n)]
            p += [(k, e) for k, e in x.st.facts() if not (r.st.ent_eq(e) if k == 'eq' else r.st.ent(e))]
            if len(p) > 1:
                continue
            if not p:
                return r
            t = r.copy()
            k, e = p[0]
            if k == 'ng':
                ok = all(t.st.add_eq(i) for i in e)
            elif k == 'eq':
                ok = t.st.add_ng(frozenset([e]))
            else:
                ok = t.st.add_ge(-e - 1)
            if ok is False or t.st.dead or self.covers(y, t):
                return r
        return None

    def headline(self, f, head):
        return next((i.loc[1] for i in f.blocks[head] if i.loc[1]), 0)

    def at_head(self, s, f, c, head, prev):
        self.do_phis(s, c, head, prev)
        live = c.live[head]
        s.stack[-1] = {k: v for k, v in s.env.items() if k in live or k == '#allocas'}
        return s

    def body(self, s, f, c, loop):
        """one iteration from just after the phis of the head"""
        back, out = [], []
        for o in self.exec_blocks(s, f, loop.head, None, loop, True):
            if o[0] == 'back':
                back.append(self.at_head(o[1], f, c, loop.head, o[2]))
            else:
                out.append(o)
        return back, out

    # ------------------------------------------------------------------ merging
    def merge(self, states, live=None, base=None):
        if len(states) < 2:
            return states
        if base is not None and any(len(s.heap) != len(base) or set(s.heap) != base for s in states):
            # the loop builds structure: only drop states that others cover
            return [s for s, _ in self.dedupe([(s, None) for s in states])]
        groups = {}
        for s in states:
            groups.setdefault((s.canon(live), self.known_ids(s) if len(states) <= 8 else None), []).append(s)
        res = []
        for g in groups.values():
            g.sort(key=lambda x: len(x.st.sub))
            a = g[0]
            for b in g[1:]:
                a = self.hull(a, b)
            res.append(a)
        return res

    def known_ids(self, s):
        """the frame identifiers that are known: which frames were selected must not be forgotten"""
        return frozenset(k for k, e in s.st.sub.items() if not e.t and KEYS[k][0] == 'b' and KEYS[k][1][0] == 'fid')

    def hull(self, a, b):
        """constraints common to both (same structure)"""
        r = a.copy()
        st = Store()
        for x, y in ((a, b), (b, a)):
            for k, e in x.st.facts():
                if k == 'eq':
                    if y.st.ent_eq(e):
                        st.add_eq(e)
                    else:
                        if y.st.ent(e):
                            st.add_ge(e)
                        elif y.st.ent(-e):
                            st.add_ge(-e)
                elif y.st.ent(e):
                    st.add_ge(e)
        for n in list(a.st.ng) + list(b.st.ng):
            if not self.has_ng(st, n) and self.has_ng(a.st, n) and self.has_ng(b.st, n):
                st.add_ng(n)
        for k in (set(a.st.syms()) | set(b.st.syms())):
            if KEYS[k][0] == 'sgn' and isinstance(KEYS[k][1], Lin):      # holds by definition
                v, g = KEYS[k][1], Lin({k: 1}, 0)
                st.add_ge(v - g * 128)
                st.add_ge(C(127) + g * 128 - v)
        self.join_ng(a.st, b.st, st)
        r.st = st
        r.flags = a.flags | b.flags
        return r

    def join_ng(self, a, b, st):
        """what is excluded for different reasons on both sides: not all of n on one, not all of m on the other -> not all of n and m"""
        def excluded(x, y):
            r = [n for n in x.ng if n not in y.ng and all(y.ent_eq(e) for e in n)]
            for k, e in y.facts():
                if k == 'eq' and len(r) < 12 and len(e.t) <= 4:
                    e = x.red(e)
                    if e.t and (x.ent(e - 1) or x.ent(-e - 1)):
                        r.append(frozenset([e]))
            return r
        done = 0
        for x, y in ((a, b), (b, a)):
            ms = list(y.ng)
            for k, e in y.facts():
                if k == 'ge' and e.c == -1 and len(e.t) == 1 and KEYS[next(iter(e.t))][0] == 'b' and next(iter(e.t.values())) == 1:
                    ms.append(frozenset([e + 1]))
            for n in excluded(x, y):
                for m in ms:
                    if len(n) + len(m) <= 12 and done < 24 and not self.has_ng(x, m) and not self.has_ng(st, n | m):
                        done += 1
                        st.add_ng(n | m)

    def has_ng(self, st, n):
        if n in st.ng:
            return True
        t = st.copy()
        for e in n:
            if not t.add_eq(e):
                return True
        return n in st.ng

    # ------------------------------------------------------------------ progress (termination)
    def progress(self, f, loop, cur, nxt):
        """every iteration of a loop that is not settled by its structure must change the state"""
        live = self.cfg(f).live[loop.head]
        for a in nxt:
            ca = None
            for b in cur:
                if a.path is None and b.path is None:
                    pass
                if ca is None:
                    ca = a.canon(live)
                if ca == b.canon(live) and not any(k[0] == 'eof-unknown' for k in ()):
                    if self.covers(b, a) or self.covers(a, b):
                        ins = f.blocks[loop.head][-1]
                        self.viol('hang', ins, 'the loop makes no progress: an iteration can leave everything it depends on unchanged', a)
                        a.st.dead = True
                        break
        nxt[:] = [a for a in nxt if not a.st.dead]

    # ------------------------------------------------------------------ generalisation
    def generalise(self, f, c, loop, s1, s2, coarse):
        """s1, s2: consecutive head states. -> outcomes of all later iterations, or None"""
        for fold in (False, True):
            try:
                g = self._generalise(f, c, loop, s1, s2, fold, coarse)
                if g is not None or self.short:
                    return g
            except NoFit:
                pass
        return None

    def prep(self, s, fold):
        s = s.copy()
        for rid, r in list(s.heap.items()):
            if r.kind in ('heap', 'stack', 'owned') and len(r.segs) > 1:
                segs = self.bytes_canon(s, r.segs)
                if fold:
                    segs = self.fold_wide(s, segs)
                s.heap[rid] = r.with_segs(segs)
        for k, r in list(s.files.items()):
            s.files[k] = r.with_segs(self.bytes_canon(s, r.segs))
        return s

    def fold_wide(self, s, segs):
        out = []
        i = 0
        segs = list(segs)
        while i < len(segs):
            o, l, c = segs[i]
            if c[0] == 'bytes' and s.red(l) == ONE and c[1][0] != 'lit' and i + 1 < len(segs) and segs[i + 1][2][0] == 'zero' \
                    and s.st.ent(segs[i + 1][1] - 1):
                out.append((o, C(2), ('wide', c[1], c[2])))
                o2, l2, c2 = segs[i + 1]
                if s.red(l2) == ONE:
                    i += 2
                else:
                    segs[i + 1] = (o2 + 1, l2 - 1, c2)
                    i += 1
                continue
            out.append(segs[i])
            i += 1
        return self.norm_segs(s, tuple(out))

    def _generalise(self, f, c, loop, s1, s2, fold, coarse=False):
        s1, s2 = self.prep(s1, fold), self.prep(s2, fold)
        w = s1.fresh('iter', 0, 2 ** 40)
        wk0 = next(iter(w.t))
        g = s1.copy()
        U = Unify(self, s1, s2, w)
        # structure
        if len(s1.stack) != len(s2.stack) or set(s1.heap) != set(s2.heap) or s1.streams.keys() != s2.streams.keys() \
                or s1.files.keys() != s2.files.keys() or s1.ev != s2.ev or s1.mat != s2.mat:
            raise NoFit
        for i, (e1, e2) in enumerate(zip(s1.stack, s2.stack)):
            if e1.keys() != e2.keys():
                raise NoFit
            g.stack[i] = {k: U.val(v, e2[k]) for k, v in e1.items()}
        for rid, r1 in s1.heap.items():
            g.heap[rid] = U.region(r1, s2.heap[rid])
        for k, r1 in s1.files.items():
            g.files[k] = U.region(r1, s2.files[k])
        for k, x in s1.streams.items():
            y = s2.streams[k]
            n = x
            for fld in Stream.F:
                a, b = getattr(x, fld), getattr(y, fld)
                if isinstance(a, Lin):
                    n = n.set(**{fld: U.lin(a, b)})
                elif a != b:
                    raise NoFit
            g.streams[k] = n
        if not U.varies:
            raise NoFit
        # candidate constraints
        cands = []
        f1, f2 = s1.st, s2.st
        eqs = []
        for k, e in f1.facts():
            if k == 'eq':
                if f2.ent_eq(e):
                    eqs.append(e)
                else:
                    for x in (e, -e):
                        if f2.ent(x):
                            cands.append(x)
            elif f2.ent(e):
                cands.append(e)
        for k, e in f2.facts():
            if k == 'eq':
                if f1.ent_eq(e):
                    eqs.append(e)
            elif f1.ent(e):
                cands.append(e)
        for k, e1 in f1.facts():
            if k != 'ge':
                continue
            for k2, e2 in f2.facts():
                if k2 == 'ge' and e1.t == e2.t and e1.c != e2.c:
                    cands.append(e1 + w * (e2.c - e1.c))
        # facts that were written in terms of constants of iteration 1
        for e in U.lens:
            cands.append(e)
        for k, e2 in f2.facts():
            if k == 'ge' and U.strides:
                for d in U.strides:
                    x = e2 + (w - 1) * d
                    cands.append(x)
                    cands.append(e2 - (w - 1) * d)
        for k, e1 in f1.facts():
            if k == 'ge' and len(e1.t) <= 4:
                keeps = f2.ent(e1)
                for d in U.strides:
                    cands.append(e1 - w * d if keeps else e1 + w * d)
        for k, x in g.streams.items():
            if x.file in g.files and wk0 in x.pos.t:
                cands.append(g.files[x.file].size - x.pos)
        ngs = [n for n in f1.ng if n in f2.ng]
        wk = next(iter(w.t))

        def sub(e, v):
            return subst(e, {wk: v})
        cands = [e for e in dict.fromkeys(cands) if f1.ent(sub(e, ZERO)) and f2.ent(sub(e, ONE))]
        cfgl = c.live[loop.head]
        for rnd in range(8):
            G = g.copy()
            G.st = Store()
            ok = True
            for e in eqs:
                ok = ok and G.st.add_eq(e)
            for e in cands:
                ok = ok and G.st.add_ge(e)
            for n in ngs:
                ok = ok and G.st.add_ng(n)
            if not ok:
                raise NoFit
            G.st.add_ge(w)
            snapf = dict(self.findings), dict(self.undecided)
            back, out = self.body(G.copy(), f, c, loop)
            bad = set()
            side = []
            for b0 in back:
                b = self.prep(b0, fold)
                if not self.matches(b, g, wk, w):
                    side.append(b0)
                    continue
                for e in cands:
                    if not b.st.ent(sub(e, w + 1)):
                        bad.add(e)
                for e in eqs:
                    if not b.st.ent_eq(e):
                        self.findings, self.undecided = snapf
                        raise NoFit
                for n in ngs:
                    if n not in b.st.ng and not self.has_ng(b.st, n):
                        self.findings, self.undecided = snapf
                        raise NoFit
            if len(side) == len(back) or len(side) > 3:
                self.findings, self.undecided = snapf
                raise NoFit
            if not bad:
                if not coarse and (G.st.ent(C(7) - w) or all(b.st.ent(C(7) - w) for b in back)):
                    self.findings, self.undecided = snapf
                    self.short = True       # few iterations: follow each of them
                    return None
                if side:
                    more = self.drain(side, f, c, loop)
                    if more is None:
                        self.findings, self.undecided = snapf
                        raise NoFit
                    out = out + more
                if not any(G.st.ent(C(2 ** 34) - w) for _ in (0,)):
                    # nothing bounds the number of iterations
                    exitable = bool(out)
                    self.unbounded_loop(f, loop, G, back, out, w)
                return out
            self.findings, self.undecided = snapf
            cands = [e for e in cands if e not in bad]
        raise NoFit

    def unbounded_loop(self, f, loop, G, back, out, w):
        ins = f.blocks[loop.head][-1]
        self.viol('hang', ins, 'nothing bounds the number of iterations of this loop', G)

    def matches(self, b, g, wk, w):
        """state b has the structure of g with w+1 for w"""
        def up(e):
            for k in e.t:
                p = KEYS[k]
                if p[0] == 'b' and isinstance(p[2], Lin) and wk in p[2].t:
                    e = subst(e, {k: self.byte_of(b, p[1], subst(p[2], {wk: w + 1}))})
            return subst(e, {wk: w + 1})

        def eqv(x, y):
            if isinstance(x, Lin) and isinstance(y, Lin):
                return b.st.ent_eq(x - up(y))
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                return x.b == y.b and b.st.ent_eq(x.o - up(y.o))
            return x == y or (x is UNDEF and y is UNDEF)

        def eqr(x, y):
            if len(x.segs) != len(y.segs) or x.kind != y.kind or not b.st.ent_eq(x.size - up(y.size)):
                return False
            for (o, l, c), (o2, l2, c2) in zip(x.segs, y.segs):
                if not (b.st.ent_eq(o - up(o2)) and b.st.ent_eq(l - up(l2))) or c[0] != c2[0]:
                    return False
                if c[0] in ('bytes', 'wide'):
                    if c[1] != c2[1] or not b.st.ent_eq(c[2] - up(c2[2])):
                        return False
                elif c[0] == 'val':
                    if c[2] != c2[2] or not eqv(c[1], c2[1]):
                        return False
                elif c != c2:
                    return False
            return True
        if len(b.stack) != len(g.stack) or set(b.heap) != set(g.heap) or b.streams.keys() != g.streams.keys():
            return False
        for e, e2 in zip(b.stack, g.stack):
            if e.keys() != e2.keys() or not all(eqv(v, e2[k]) for k, v in e.items()):
                return False
        if not all(eqr(r, g.heap[rid]) for rid, r in b.heap.items()):
            return False
        if not all(eqr(r, g.files[k]) for k, r in b.files.items()):
            return False
        for k, x in b.streams.items():
            y = g.streams[k]
            for fld in Stream.F:
                p, q = getattr(x, fld), getattr(y, fld)
                if isinstance(p, Lin):
                    if not eqv(p, q):
                        return False
                elif p != q:
                    return False
        return b.ev == g.ev and b.mat == g.mat


def bytesym(e):
    if e.c == 0 and len(e.t) == 1:
        (k, n), = e.t.items()
        if n == 1 and KEYS[k][0] == 'b' and isinstance(KEYS[k][2], Lin):
            return KEYS[k]


class Unify:
    def __init__(self, eng, s1, s2, w):
        self.eng, self.s1, self.s2, self.w = eng, s1, s2, w
        self.varies = False
        self.lens = []
        self.strides = set()

    def lin(self, a, b):
        a1, b1 = self.s1.red(a), self.s2.red(b)
        d = b1 - a1
        if not d.isconst():
            d = self.s2.red(b1 - a1)
            if not d.isconst():
                # equal in the second state?
                if self.s2.st.ent_eq(d):
                    return a1
                p, q = bytesym(a1), bytesym(b1)
                if p and q and p[1] == q[1]:        # a byte that moves along a sequence
                    return self.eng.byte_of(self.s1, p[1], self.lin(p[2], q[2]))
                raise NoFit
        if d.c == 0:
            return a1
        self.varies = True
        self.strides.add(abs(d.c))
        return a1 + self.w * d.c

    def val(self, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.lin(a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.b != b.b:
                raise NoFit
            return Ptr(a.b, self.lin(a.o, b.o))
        if a == b or (a is UNDEF and b is UNDEF):
            return a
        raise NoFit

    def region(self, r1, r2):
        if r1 is r2:
            return r1
        if r1.kind != r2.kind or len(r1.segs) != len(r2.segs):
            raise NoFit
        size = self.lin(r1.size, r2.size)
        segs = []
        for (o, l, c), (o2, l2, c2) in zip(r1.segs, r2.segs):
            no, nl = self.lin(o, o2), self.lin(l, l2)
            if nl.t:
                self.lens.append(nl)
            if c[0] != c2[0]:
                raise NoFit
            if c[0] in ('bytes', 'wide'):
                if c[1] != c2[1]:
                    raise NoFit
                nc = (c[0], c[1], self.lin(c[2], c2[2]))
            elif c[0] == 'val':
                if c[2] != c2[2]:
                    raise NoFit
                nc = ('val', self.val(c[1], c2[1]), c[2])
            elif c == c2:
                nc = c
            else:
                raise NoFit
            segs.append((no, nl, nc))
        return Region(r1.kind, size, tuple(segs), r1.site, r1.nul)
