"""Models of the C library functions the code uses (and of the ones a change is likely to introduce)."""
from lin import *
from state import *
from mem import GiveUp
import bits as B


class Libc:
    BIG = 2 ** 31

    def libcall(self, s, n, av, tys, ins):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove', '__memcpy_chk'):
            return [(x, av[0]) for x in self.memcpy(s, av[0], av[1], av[2], ins)]
        if n.startswith('llvm.memset') or n == 'memset':
            return [(x, av[0]) for x in self.memset(s, av[0], av[1], av[2], ins)]
        if n.startswith('llvm.stack') or n.startswith('llvm.assume') or n.startswith('llvm.expect'):
            return [(s, av[0] if av else None)]
        m = getattr(self, 'c_' + n, None)
        if m is None:
            raise GiveUp('external function ' + n)
        return m(s, av, ins)

    # ------------------------------------------------------------------ allocation
    def alloc(self, s, size, content, ins):
        out = []
        if self.prune is not None and self.prune(s):
            return []
        size = s.red(size)
        a, b = (s, None) if s.st.ent(size) else s.split(('ge', size))
        if b is not None:       # negative, i.e. larger than any object: the allocation fails
            out.append((b, NULL))
        if a is not None:
            rid = a.new_region(f'{ins.loc[0]}:{ins.loc[1]} in {ins.fn}', 'heap', size, content, nul=True)
            out.append((a, Ptr(('r', rid))))
        return out

    def c_malloc(self, s, av, ins):
        return self.alloc(s, av[0], UNINIT, ins)

    def c_calloc(self, s, av, ins):
        a, b = s.red(av[0]), s.red(av[1])
        if a.isconst():
            a, b = b, a
        if not b.isconst():
            raise GiveUp('calloc')
        return self.alloc(s, a * b.c, ZEROC, ins)

    def c_realloc(self, s, av, ins):
        p, n = av
        from interp import isnull
        if isnull(p):
            return self.alloc(s, n, UNINIT, ins)
        out = []
        for s, p in self.resolve(s, p, ins):
            if p.b[0] == 'dead':
                self.viol('uaf', ins, 'realloc of freed memory', s)
                continue
            if p.b[0] != 'r' or s.red(p.o) != ZERO or s.heap[p.b[1]].kind not in ('heap', 'owned'):
                self.viol('badfree', ins, 'realloc of memory that was not allocated', s)
                continue
            old = s.heap[p.b[1]]
            for s1, q in self.alloc(s, n, UNINIT, ins):
                if isnull(q):
                    out.append((s1, q))
                    continue
                # copy min(old, new)
                g, l = s1.split(('ge', n - old.size))
                for s2, k in ((g, old.size), (l, n)):
                    if s2 is None:
                        continue
                    if s2.st.add_eq(s2.heap[q.b[1]].nul):
                        for s3 in self.memcpy(s2, q, p, k, ins):
                            s3.kill_region(p.b[1])
                            out.append((s3, q))
        return out

    def c_free(self, s, av, ins):
        p = av[0]
        out = []
        if p is UNDEF:
            self.viol('uninit', ins, 'frees an uninitialised pointer', s)
            return []
        for s, p in self.resolve(s, p, ins):
            b = p.b
            if b is None or b[0] == 'null':
                if b is None and s.red(p.o) != ZERO:
                    self.viol('badfree', ins, 'frees an invalid pointer', s)
                    continue
                out.append((s, None))
            elif b[0] == 'dead':
                if b[1] == 'stack':
                    self.viol('badfree', ins, 'frees a local variable', s)
                else:
                    self.viol('double-free', ins, f'frees memory that was already freed ({b[1]})', s)
            elif b[0] == 'r':
                r = s.heap[b[1]]
                if r.kind not in ('heap', 'owned'):
                    self.viol('badfree', ins, f'frees {self.rname(r)}, which it does not own', s)
                elif not s.st.ent_eq(p.o):
                    self.viol('badfree', ins, f'frees a pointer into the middle of {self.rname(r)}', s)
                else:
                    s.kill_region(b[1])
                    out.append((s, None))
            elif b[0] == 'opaque' and b[1] == 'uninit':
                pass
            else:
                self.viol('badfree', ins, f'frees {p!r}, which is not heap memory', s)
        return out

    # ------------------------------------------------------------------ memory
    def memcpy(self, s, d, p, n, ins):
        out = []
        n = s.red(n)
        if n == ZERO:
            return [s]
        if not s.st.ent(n):
            a, b = s.split(('ge', n))
            if b is not None:
                self.viol('bounds', ins, 'copies a negative (huge) number of bytes', b)
            if a is None:
                return []
            s = a
        if not s.st.ent(n - 1):
            # a copy of nothing is fine wherever it points
            a, b = s.split(('eq', n))
            if b is not None:
                out += self.memcpy(b, d, p, n, ins)
            if a is not None:
                out.append(a)
            return out
        for s1, p1 in self.access(s, p, n, ins, 'copies from'):
            for s2, d2 in self.access(s1, d, n, ins, 'copies to', write=True):
                r = self.region(s2, p1)
                for s3, segs in self.read_range(s2, r, p1.o, n):
                    t = self.region(s3, d2)
                    for s4, r2 in self.write_range(s3, t, d2.o, n, segs):
                        self.set_region(s4, d2, r2)
                        out.append(s4)
        return out

    def memset(self, s, d, c, n, ins):
        n = s.red(n)
        out = []
        if n == ZERO:
            return [s]
        c = s.red(c)
        if c.isconst():
            c = C(c.c & 255)
        elif not (s.st.ent(c) and s.st.ent(C(255) - c)):
            c = self.trunc8(s, c)
        if not s.st.ent(n - 1):
            a, b = s.split(('ge', n - 1))
            if b is not None:
                x, y = b.split(('eq', n))
                if y is not None:
                    self.viol('bounds', ins, 'fills a negative (huge) number of bytes', y)
                if x is not None:
                    out.append(x)
            if a is None:
                return out
            s = a
        cont = ZEROC if c == ZERO else (('bytes', ('fill', c.c), ZERO) if c.isconst() else ('unk', ('memset',)))
        for s2, d2 in self.access(s, d, n, ins, 'fills', write=True):
            for s4, r2 in self.write_range(s2, self.region(s2, d2), d2.o, n, ((ZERO, n, cont),)):
                self.set_region(s4, d2, r2)
                out.append(s4)
        return out

    def rbytes(self, s, p, n, ins, what):
        """n (constant) bytes at p: list of (s, [Lin])"""
        out = []
        for s1, p1 in self.access(s, p, C(n), ins, what):
            acc = [(s1, [])]
            for k in range(n):
                nx = []
                for x, l in acc:
                    r = self.region(x, p1)
                    for y, v in self.load_scalar(x, r, s.red(p1.o + k), 1, 'int', ins):
                        nx.append((y, l + [v]))
                acc = nx
            out += acc
        return out

    def c_memcmp(self, s, av, ins):
        n = s.red(av[2])
        if not n.isconst() or n.c > 16:
            raise GiveUp('memcmp of symbolic length')
        for p, q in ((av[0], av[1]), (av[1], av[0])):
            lit = self.const_str(s, q)
            x = self.path_tail(s, p, lit) if lit is not None and n.c in (len(lit), len(lit) + 1) else None
            if x is not None:
                return [(s, x)]
        out = []
        for s1, a in self.rbytes(s, av[0], n.c, ins, 'compares'):
            for s2, b in self.rbytes(s1, av[1], n.c, ins, 'compares'):
                out.append((s2, self.cmpval(s2, a, b)))
        return out

    c_bcmp = c_memcmp

    def cmpval(self, s, a, b):
        eqs = []
        for x, y in zip(a, b):
            d = s.red(x - y)
            if d.isconst():
                if d.c:
                    return C(1 if d.c > 0 else -1)
                continue
            if s.st.ent_ne(d) if False else (s.st.ent(d - 1) or s.st.ent(-d - 1)):
                return C(1 if s.st.ent(d - 1) else -1)
            eqs.append(Store.canon_eq(d))
        if not eqs:
            return ZERO
        return S(('cmp', frozenset(eqs)), -1, 1)

    def str_bytes(self, s, p, n, ins):
        """bytes of a string up to a terminator or n: list of (s, [Lin], terminated)"""
        out = []
        work = [(s, p, [])]
        while work:
            s, p, l = work.pop()
            if len(l) == n:
                out.append((s, l, False))
                continue
            for s1, p1 in self.access(s, p, ONE, ins, 'compares'):
                for s2, v in self.load_scalar(s1, self.region(s1, p1), p1.o, 1, 'int', ins):
                    a, b = s2.split(('eq', v))
                    if a is not None:
                        out.append((a, l + [ZERO], True))
                    if b is not None:
                        work.append((b, Ptr(p1.b, p1.o + 1), l + [v]))
        return out

    def c_strncmp(self, s, av, ins):
        n = s.red(av[2])
        if not n.isconst() or n.c > 16:
            raise GiveUp('strncmp of symbolic length')
        for p, q in ((av[0], av[1]), (av[1], av[0])):
            lit = self.const_str(s, q)
            x = self.path_tail(s, p, lit) if lit is not None and n.c >= len(lit) else None
            if x is not None:
                return [(s, x)]
        return self.strcmp_n(s, av[0], av[1], n.c, ins)

    def strcmp_n(self, s, p, q, n, ins):
        # the side whose bytes are known to be non zero (or terminated) bounds the comparison
        lit = self.const_str(s, q) or self.const_str(s, p)
        out = []
        if lit is not None:
            k = min(n, len(lit) + 1)
            for s1, a in self.rbytes_z(s, p, k, ins):
                for s2, b in self.rbytes_z(s1, q, k, ins):
                    out.append((s2, self.cmpval(s2, a, b)))
            return out
        for s1, b in self.rbytes_z(s, q, n, ins):
            for s2, a in self.rbytes_z(s1, p, n, ins):
                nz = all(s2.st.ent(x - 1) for x in a[:-1]) or all(s2.st.ent(x - 1) for x in b[:-1])
                if not nz and len(a) == len(b):
                    # equality of all bytes implies strncmp()==0; the converse fails only behind a common zero
                    x0 = a[0]
                m = min(len(a), len(b))
                out.append((s2, self.cmpval(s2, a[:m], b[:m])))
        return out

    def rbytes_z(self, s, p, n, ins):
        """at most n bytes, stopping at a byte known to be zero"""
        out = []
        work = [(s, p, [])]
        while work:
            s, p, l = work.pop()
            if len(l) == n:
                out.append((s, l))
                continue
            for s1, p1 in self.access(s, p, ONE, ins, 'compares'):
                for s2, v in self.load_scalar(s1, self.region(s1, p1), p1.o, 1, 'int', ins):
                    v = s2.red(v)
                    if v == ZERO:
                        out.append((s2, l + [v]))
                    else:
                        work.append((s2, Ptr(p1.b, p1.o + 1), l + [v]))
        return out

    def const_str(self, s, p):
        if isinstance(p, Ptr) and p.b is not None and p.b[0] == 'g' and s.red(p.o).isconst():
            try:
                r = self.gregion(p.b[1])
            except GiveUp:
                return None
            if len(r.segs) == 1 and r.segs[0][2][0] == 'bytes' and r.segs[0][2][1][0] == 'lit':
                d = r.segs[0][2][1][1][s.red(p.o).c:]
                i = d.find(b'\0')
                return d[:i] if i >= 0 else d
        return None

    def path_tail(self, s, p, lit):
        """comparison of the last bytes of a file name with .xyz: decided by its extension"""
        if lit is None or not isinstance(p, Ptr) or p.b is None or p.b[0] != 'r' or not str(s.heap[p.b[1]].site).startswith('path'):
            return None
        r = s.heap[p.b[1]]
        if lit[:1] != b'.' or b'.' in lit[1:] or b'\0' in lit or not s.st.ent_eq(r.size - 1 - p.o - len(lit)):
            raise GiveUp('the file name is inspected')
        return S(('cmp', frozenset([S(('hasext', r.site), 0, 1) - 1, S(('ext', r.site, lit[1:]), 0, 1) - 1])), -1, 1)

    def c_strcmp(self, s, av, ins):
        a, b = self.const_str(s, av[0]), self.const_str(s, av[1])
        if a is not None and b is not None:
            return [(s, C((a > b) - (a < b)))]
        p, lit = (av[0], b) if b is not None else (av[1], a)
        if lit is None:
            raise GiveUp('strcmp of two symbolic strings')
        x = self.path_tail(s, p, lit)
        if x is not None:
            return [(s, x)]
        if isinstance(p, Ptr) and p.b is not None and p.b[0] in ('ext', 'ext1'):
            # extension of the file name, an uninterpreted string; the pointer is at the dot
            o = s.red(p.o)
            if not o.isconst() or o.c not in (0, 1):
                raise GiveUp('extension')
            if o.c == 0:
                if lit[:1] != b'.':
                    return [(s, ONE)]
                lit = lit[1:]
            return [(s, S(('cmp', frozenset([S((p.b[0], p.b[1], lit), 0, 1) - 1])), -1, 1))]
        return self.strcmp_n(s, av[0], av[1], len(lit) + 1, ins)

    def c_strcasecmp(self, s, av, ins):
        raise GiveUp('strcasecmp')

    def c_strlen(self, s, av, ins):
        out = []
        for s1, L, t in self.string_at(s, av[0], ins, 'reads a string'):
            t = s1.red(t)
            if not t.isconst():
                # settle the kind
                p = av[0]
                G = next((KEYS[k][1] for k in s1.red(L).t if KEYS[k][0] == 'len'), None)
                if G is None:
                    raise GiveUp('strlen')
                for s2 in self.str_kind_split(s1, G):
                    out += self.strlen1(s2, av[0], s2.red(self.str_len(G)), s2.red(self.str_t(G)))
            else:
                out += self.strlen1(s1, av[0], L, t)
        return out

    def strlen1(self, s, p, L, t):
        if t == ONE:
            return [(s, L)]
        L = s.red(L)
        if L.isconst():
            return [(s, L)] if L.c <= 2 else [(s, s.fresh('strlen16', 2, L.c))]
        # utf-16: the first zero byte is somewhere before the terminator
        v = S(('strlen16', L), 2, self.MAXSTR)
        s.st.add_ge(L - v)
        return [(s, v)]

    def c_strnlen(self, s, av, ins):
        out = []
        for s1, L in self.c_strlen(s, av, ins):
            a, b = s1.split(('ge', av[1] - L))
            if a is not None:
                out.append((a, L))
            if b is not None:
                out.append((b, av[1]))
        return out

    def c_strcpy(self, s, av, ins):
        out = []
        for s1, L in self.c_strlen(s, [av[1]], ins):
            for s2 in self.memcpy(s1, av[0], av[1], L + 1, ins):
                out.append((s2, av[0]))
        return out

    def c_strdup(self, s, av, ins):
        out = []
        for s1, L in self.c_strlen(s, [av[0]], ins):
            for s2, q in self.alloc(s1, L + 1, UNINIT, ins):
                s2.st.add_eq(s2.heap[q.b[1]].nul)
                for s3 in self.memcpy(s2, q, av[0], L + 1, ins):
                    out.append((s3, q))
        return out

    def c_strncpy(self, s, av, ins):
        out = []
        n = s.red(av[2])
        if n.isconst() and n.c <= 8:
            # bytewise up to a terminator, then zeros
            for s1, l, term in self.str_bytes(s, av[1], n.c, ins):
                cur = [s1]
                for k in range(n.c):
                    v = l[k] if k < len(l) else ZERO
                    nx = []
                    for x in cur:
                        for y, d in self.access(x, Ptr(av[0].b, av[0].o + k), ONE, ins, 'copies to', write=True):
                            for z, r in self.write_range(y, self.region(y, d), d.o, ONE, ((ZERO, ONE, ('val', v, 1)),)):
                                self.set_region(z, d, r)
                                nx.append(z)
                    cur = nx
                out += [(x, av[0]) for x in cur]
            return out
        for s1, L in self.c_strlen(s, [av[1]], ins):
            a, b = s1.split(('ge', L - n))
            if a is not None:
                out += [(x, av[0]) for x in self.memcpy(a, av[0], av[1], n, ins)]
            if b is not None:
                for x in self.memcpy(b, av[0], av[1], L, ins):
                    out += [(y, av[0]) for y in self.memset(x, Ptr(av[0].b, av[0].o + L), ZERO, n - L, ins)]
        return out

    def c_strchr(self, s, av, ins):
        return self.c_strrchr(s, av, ins, 'ext1')

    def c_strrchr(self, s, av, ins, kind='ext'):
        p = av[0]
        if isinstance(p, Ptr) and p.b is not None and p.b[0] == 'r' and s.heap[p.b[1]].site.startswith('path'):
            name = s.heap[p.b[1]].site
            e = S(('hasext', name), 0, 1)
            a, b = s.split(('eq', e))
            out = []
            if a is not None:
                out.append((a, NULL))
            if b is not None:
                out.append((b, Ptr((kind, name))))
            return out
        raise GiveUp('strrchr')

    def c_abs(self, s, av, ins):
        a, b = s.split(('ge', av[0]))
        return [(x, v) for x, v in ((a, av[0]), (b, -av[0])) if x is not None]

    def c_perror(self, s, av, ins):
        return [(s, None)]

    def c___errno_location(self, s, av, ins):
        # any value, a different one at every read
        s.heap[('errno',)] = Region('static', C(4), ((ZERO, C(4), ('unk', ('errno',))),), 'errno')
        return [(s, Ptr(('r', ('errno',))))]

    # ------------------------------------------------------------------ files
    def file_key(self, s, p):
        if not isinstance(p, Ptr) or p.b is None:
            return None
        if p.b[0] == 'r':
            return s.heap[p.b[1]].site
        if p.b[0] == 'g':
            return ('const', p.b[1])
        return repr(p.b)

    def c_fopen(self, s, av, ins):
        mode = self.const_str(s, av[1])
        if mode is None:
            raise GiveUp('fopen with computed mode')
        from interp import isnull
        if isnull(av[0]):
            self.viol('null', ins, 'opens a null file name', s)
            return []
        out = []
        for s, p in self.access(s, av[0], ONE, ins, 'opens') if av[0].b[0] in ('r', 'lazy', 'dead') else [(s, av[0])]:
            fk = self.file_key(s, p)
            if not str(fk).startswith('path'):
                raise GiveUp('opens a file under a computed name')
            if fk not in s.files:
                N = S(('flen', fk), 0, 2 ** 30)
                s.files[fk] = Region('file', N, ((ZERO, N, ('bytes', ('file', fk), ZERO)),), fk)
            if mode.replace(b'b', b'') != b'r':
                self.open_write(s, fk, mode, ins)
            out.append((s, self.new_stream(s, fk, mode, ins)))
        return out

    def new_stream(self, s, fk, mode, ins):
        k = s.cnt.get('stream', 0)
        s.cnt['stream'] = k + 1
        sid = ('st', k)
        tr = mode[:1] == b'w'
        s.streams[sid] = Stream(file=fk, mode=mode.decode(), pos=ZERO if mode[:1] != b'a' else s.files[fk].size, open=True,
                                rerr=S(('rerr', sid, ins.uid), 0, 1),
                                werr=ZERO, perr=ZERO, nul=S(('fnul', sid, ins.uid), 0, 1), eof=False,
                                site=f'{ins.loc[0]}:{ins.loc[1]}')
        return Ptr(('s', sid))

    def opened(self, s, sid):
        """called when a stream is known to be open"""
        st = s.streams[sid]
        if st.mode[:1] == 'w' and not any(e[0] == 'trunc' and e[1] == sid for e in s.ev):
            s.ev = s.ev + (('trunc', sid, st.file),)
            self.truncating(s, sid, st)
            f = s.files[st.file]
            s.files[st.file] = Region('file', ZERO, (), f.site)

    def open_write(self, s, fk, mode, ins):
        pass

    def truncating(self, s, sid, st):
        pass

    def writing(self, s, sid, st, ins):
        pass

    def c_tmpfile(self, s, av, ins):
        k = s.cnt.get('tmp', 0)
        s.cnt['tmp'] = k + 1
        fk = f'tmp{k}'
        s.files[fk] = Region('file', ZERO, (), fk)
        return [(s, self.new_stream(s, fk, b'w+', ins))]

    def stream(self, s, p, ins, what):
        """-> (s, sid) or None"""
        from interp import isnull
        if not isinstance(p, Ptr):
            self.viol('stream', ins, f'{what} on an uninitialised stream', s)
            return None
        if p.b is None:
            self.viol('stream', ins, f'{what} on a null stream', s)
            return None
        if p.b[0] == 'dead' and p.b[1] == 'stream':
            self.viol('stream', ins, f'{what} on a stream that was already closed', s)
            return None
        if p.b[0] != 's':
            if p.b[0] == 'opaque' and p.b[1] == 'uninit':
                return None
            self.viol('stream', ins, f'{what} on something that is not a stream', s)
            return None
        sid = p.b[1]
        st = s.streams[sid]
        if s.red(st.nul) != ZERO:
            t = s.copy()
            if t.st.add_eq(st.nul - 1):
                self.viol('stream', ins, f'{what} on a stream that may have failed to open ({st.site})', t)
            if not s.st.add_eq(st.nul):
                return None
            self.opened(s, sid)
        return sid

    def c_fclose(self, s, av, ins):
        sid = self.stream(s, av[0], ins, 'fclose')
        if sid is None:
            return []
        st = s.streams.pop(sid)
        s.map_values(lambda v: Ptr(('dead', 'stream')) if isinstance(v, Ptr) and v.b == ('s', sid) else v)
        s.ev = s.ev + (('close', sid, st.file),)
        self.closed(s, sid, st)
        if self.used(ins):
            t = s.copy()
            out = [(s, ZERO)]
            s.st.add_eq(st.perr)
            if t.st.add_eq(st.perr - 1):
                out.append((t, C(-1)))
            return out
        return [(s, ZERO)]

    def closed(self, s, sid, st):
        pass

    def c_ferror(self, s, av, ins):
        sid = self.stream(s, av[0], ins, 'ferror')
        if sid is None:
            return []
        st = s.streams[sid]
        out = []
        t = s.copy()
        if s.st.add_eq(st.rerr) and s.st.add_eq(st.werr):
            out.append((s, ZERO))
        if t.st.add_ng([st.rerr, st.werr]):
            t.flags = t.flags | {'ioerr'}
            out.append((t, ONE))
        return out

    def c_feof(self, s, av, ins):
        sid = self.stream(s, av[0], ins, 'feof')
        if sid is None:
            return []
        return [(s, ONE if s.streams[sid].eof else ZERO)]

    def c_clearerr(self, s, av, ins):
        sid = self.stream(s, av[0], ins, 'clearerr')
        if sid is None:
            return []
        self.clear_error(s, sid, ins)
        return [(s, None)]

    def clear_error(self, s, sid, ins):
        """the error indicator forgets; what was lost stays lost"""
        st = s.streams[sid]
        kw = {}
        if s.red(st.rerr) != ZERO:
            kw['rerr'] = S(('rerr', sid, ins.uid), 0, 1)
            if st.rerr == kw['rerr']:
                kw['rerr'] = S(('rerr', sid, ins.uid, 2), 0, 1)
        if s.red(st.werr) != ZERO:
            kw['werr'] = S(('werr', sid, ins.uid), 0, 1)
            if not s.st.ent_eq(st.werr):
                kw['lost'] = True
        s.streams[sid] = st.set(eof=False, **kw)

    def c_fflush(self, s, av, ins):
        from interp import isnull
        if isnull(av[0]):
            return [(s, ZERO)]
        sid = self.stream(s, av[0], ins, 'fflush')
        if sid is None:
            return []
        st = s.streams[sid]
        if not self.used(ins):
            return [(s, ZERO)]
        out = []
        t = s.copy()
        if s.st.add_eq(st.perr):
            out.append((s, ZERO))
        if t.st.add_eq(st.perr - 1):
            t.flags = t.flags | {'ioerr'}
            out.append((t, C(-1)))
        return out

    def c_fseek(self, s, av, ins):
        sid = self.stream(s, av[0], ins, 'fseek')
        if sid is None:
            return []
        wh = s.red(av[2])
        if not wh.isconst():
            raise GiveUp('fseek whence')
        st = s.streams[sid]
        base = ZERO if wh.c == 0 else st.pos if wh.c == 1 else s.files[st.file].size
        off = s.red(base + av[1])
        out = []
        a, b = (s, None) if s.st.ent(off) else s.split(('ge', off))
        if a is not None:
            a.streams[sid] = st.set(pos=off, eof=False)
            out.append((a, ZERO))
        if b is not None:
            out.append((b, C(-1)))
        return out

    c_fseeko = c_fseek

    def c_rewind(self, s, av, ins):
        out = []
        for x, _ in self.c_fseek(s, [av[0], ZERO, ZERO], ins):
            for sid, st in list(x.streams.items()):
                if isinstance(av[0], Ptr) and av[0].b == ('s', sid):
                    self.clear_error(x, sid, ins)
            out.append((x, None))
        return out

    def c_ftell(self, s, av, ins):
        sid = self.stream(s, av[0], ins, 'ftell')
        if sid is None:
            return []
        return [(s, s.red(s.streams[sid].pos))]

    c_ftello = c_ftell

    def can_read(self, s, st):
        return st.mode[:1] == 'r' or '+' in st.mode

    def readable(self, s, sid, ins):
        """note a read error: only files of the caller can fail to be read"""
        return not s.streams[sid].file.startswith('tmp')

    def c_getc(self, s, av, ins):
        sid = self.stream(s, av[0], ins, 'reads')
        if sid is None:
            return []
        st = s.streams[sid]
        f = s.files[st.file]
        out = []
        if not self.can_read(s, st):
            self.viol('stream', ins, 'reads a stream opened for writing only', s)
            return [(s, C(-1))]
        # error
        if self.readable(s, sid, ins) and s.red(st.rerr) != ZERO:
            if s.red(st.rerr) == ONE:
                return [(s, C(-1))]         # an error lasts
            t = s.copy()
            if t.st.add_eq(st.rerr - 1):
                t.path = (t.path, f'{ins.loc[0]}:{ins.loc[1]} read error')
                t.flags = t.flags | {'ioerr'}
                out.append((t, C(-1)))
        avail = s.red(f.size - st.pos)
        a, b = s.split(('ge', avail - 1))
        if a is not None:
            for s1, segs in self.read_range(a, f, st.pos, ONE):
                v = self.segs_value(s1, segs, 1, 'int', ins)
                s1.streams[sid] = st.set(pos=s1.red(st.pos + 1))
                out.append((s1, v))
        if b is not None:
            b.streams[sid] = st.set(eof=True)
            # an end of file is no error: rerr stays undecided only if a read can have failed before
            b.st.add_eq(st.rerr)
            out.append((b, C(-1)))
        return out

    c_fgetc = c_getc
    c__IO_getc = c_getc

    def mark_write(self, s, sid, ins):
        st = s.streams[sid]
        if st.mode[:1] == 'r' and '+' not in st.mode:
            self.viol('stream', ins, 'writes to a stream opened for reading only', s)
        if st.werr == ZERO:
            st = st.set(werr=S(('werr', sid), 0, 1), perr=S(('perr', sid), 0, 1))
            s.streams[sid] = st
        self.writing(s, sid, st, ins)
        return s.streams[sid]

    def file_write(self, s, sid, segs, n, ins):
        """-> states"""
        st = self.mark_write(s, sid, ins)
        f = s.files[st.file]
        pos = st.pos
        out = []
        # position relative to the end
        a, b = s.split(('ge', f.size - pos))
        if b is not None:
            raise GiveUp('writes behind the end of the file')
        s = a
        if s.st.ent_eq(f.size - pos):
            nf = Region('file', s.red(f.size + n), self.norm_segs(s, f.segs + tuple((s.red(o + pos), l, c) for o, l, c in segs)), f.site)
            s.files[st.file] = nf
            s.streams[sid] = s.streams[sid].set(pos=s.red(pos + n))
            return [s]
        a, b = s.split(('ge', f.size - pos - n))
        if a is not None:
            for s1, r in self.write_range(a, f, pos, n, segs):
                s1.files[st.file] = r
                s1.streams[sid] = s1.streams[sid].set(pos=s1.red(pos + n))
                out.append(s1)
        if b is not None:
            for s1, left, right in self.cut(b, f.segs, pos):
                s1.files[st.file] = Region('file', s1.red(pos + n), self.norm_segs(s1, left + tuple((s1.red(o + pos), l, c) for o, l, c in segs)), f.site)
                s1.streams[sid] = s1.streams[sid].set(pos=s1.red(pos + n))
                out.append(s1)
        return out

    def c_putc(self, s, av, ins):
        sid = self.stream(s, av[1], ins, 'writes')
        if sid is None:
            return []
        v = self.trunc8(s, av[0])
        out = []
        if self.used(ins):
            t = s.copy()
            st = self.mark_write(t, sid, ins)
            if t.st.add_eq(st.werr - 1):
                t.flags = t.flags | {'ioerr'}
                out.append((t, C(-1)))
        for s1 in self.file_write(s, sid, ((ZERO, ONE, ('val', v, 1)),), ONE, ins):
            out.append((s1, v))
        return out

    c_fputc = c_putc
    c__IO_putc = c_putc

    def c_fwrite(self, s, av, ins):
        p, sz, cnt, fp = av
        sid = self.stream(s, fp, ins, 'writes')
        if sid is None:
            return []
        sz, cnt = s.red(sz), s.red(cnt)
        if sz.isconst():
            n = cnt * sz.c
        elif cnt.isconst():
            n = sz * cnt.c
        else:
            raise GiveUp('fwrite size')
        out = []
        if not s.st.ent(n):
            a, b = s.split(('ge', n))
            if b is not None:
                self.viol('bounds', ins, 'writes a negative (huge) number of bytes', b)
            if a is None:
                return []
            s = a
        if self.used(ins):
            t = s.copy()
            st = self.mark_write(t, sid, ins)
            if t.st.add_eq(st.werr - 1) and t.st.add_ge(cnt - 1):
                t.flags = t.flags | {'ioerr'}
                g = t.fresh('fwrote', 0, 2 ** 31)
                t.st.add_ge(cnt - g - 1)
                out.append((t, g))
        if s.st.ent_eq(n):
            return out + [(s, cnt)]
        if not s.st.ent(n - 1):
            a, b = s.split(('eq', n))
            if a is not None:
                out.append((a, cnt))
            s = b
            if s is None:
                return out
        for s1, p1 in self.access(s, p, n, ins, 'writes to a file from'):
            for s2, segs in self.read_range(s1, self.region(s1, p1), p1.o, n):
                for s3 in self.file_write(s2, sid, segs, n, ins):
                    out.append((s3, cnt))
        return out

    def c_fread(self, s, av, ins):
        p, sz, cnt, fp = av
        sid = self.stream(s, fp, ins, 'reads')
        if sid is None:
            return []
        sz, cnt = s.red(sz), s.red(cnt)
        one = False
        if sz == ONE:
            n = cnt
        elif cnt == ONE:
            n, one = sz, True
        elif sz.isconst():
            n, one = cnt * sz.c, True
        else:
            raise GiveUp('fread size')
        st = s.streams[sid]
        f = s.files[st.file]
        out = []
        if not s.st.ent(n):
            a, b = s.split(('ge', n))
            if b is not None:
                self.viol('bounds', ins, 'reads a negative (huge) number of bytes', b)
            if a is None:
                return []
            s = a

        def put(s, k, ret, err=False):
            """k bytes arrive"""
            if s.st.ent_eq(k):
                s.streams[sid] = s.streams[sid].set(eof=not err)
                return [(s, ret)]
            res = []
            if not s.st.ent(k - 1):
                a, b = s.split(('eq', k))
                if a is not None:
                    res.append((a, ret))
                s = b
                if s is None:
                    return res
            for s1, p1 in self.access(s, p, n, ins, 'reads a file into', write=True):
                for s2, segs in self.read_range(s1, f, st.pos, k):
                    for s3, r in self.write_range(s2, self.region(s2, p1), p1.o, k, segs):
                        self.set_region(s3, p1, r)
                        s3.streams[sid] = s3.streams[sid].set(pos=s3.red(st.pos + k))
                        res.append((s3, ret))
            return res
        if s.st.ent_eq(n):
            return [(s, ZERO)]
        if self.readable(s, sid, ins) and s.red(st.rerr) == ONE:
            return put(s, ZERO, ZERO, True)         # an error lasts
        if self.readable(s, sid, ins) and s.red(st.rerr) != ZERO:
            t = s.copy()
            if t.st.add_eq(st.rerr - 1):
                k = S(('short', sid, ins.uid), 0, 2 ** 31)
                if t.st.add_ge(n - k - 1) and t.st.add_ge(f.size - st.pos - k):
                    t.path = (t.path, f'{ins.loc[0]}:{ins.loc[1]} read error')
                    t.flags = t.flags | {'ioerr'}
                    if one:
                        ret = ZERO if cnt == ONE else t.fresh('fr', 0, 2 ** 31)
                        out += put(t, k, ret, True)
                    else:
                        out += put(t, k, k, True)
        avail = s.red(f.size - st.pos)
        a, b = s.split(('ge', avail - n))
        if a is not None:
            out += put(a, n, cnt)
        if b is not None:
            x, y = b.split(('ge', avail))
            if x is not None:
                x.st.add_eq(st.rerr)
                out += put(x, avail, ZERO if one and cnt == ONE else avail)
            if y is not None:
                y.st.add_eq(st.rerr)
                out += put(y, ZERO, ZERO)
        return out
