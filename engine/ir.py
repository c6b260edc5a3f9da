"""LLVM IR front end: builds /repo's current sources to IR (never executed) and parses the textual IR.

Pipeline: clang -O0 -g (per translation unit) -> llvm-link -> opt mem2reg -> this parser.
"""
import os, re, subprocess, shutil, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """the tree cannot be analysed (does not compile, anchor vanished...): an error exit, not a verdict"""


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'n', 'el')

    def __init__(self, k, n=0, el=None):
        self.k, self.n, self.el = k, n, el

    def __repr__(self):
        return {'int': f'i{self.n}', 'ptr': 'ptr', 'void': 'void'}.get(self.k, f'{self.k}<{self.n},{self.el}>')


INT = {}
PTR = Ty('ptr')
VOID = Ty('void')


def ity(n):
    if n not in INT:
        INT[n] = Ty('int', n)
    return INT[n]


class Tok:
    rx = re.compile(r'''\s*(?:
        (?P<str>c"(?:[^"\\]|\\.)*") |
        (?P<qid>[%@]"[^"]*") |
        (?P<id>[%@][-a-zA-Z$._0-9]+) |
        (?P<meta>![-a-zA-Z$._0-9]*) |
        (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?) |
        (?P<hex>0x[0-9A-Fa-fKLMHR]+) |
        (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*) |
        (?P<dots>\.\.\.) |
        (?P<attr>\#\d+) |
        (?P<q>"(?:[^"\\]|\\.)*") |
        (?P<p>[][(){}<>,=*:|]) )''', re.X)

    def __init__(self, s):
        self.t = []
        i = 0
        s = s.rstrip()
        while i < len(s):
            if s[i] == ';':
                break
            m = self.rx.match(s, i)
            if not m:
                if s[i:].strip() == '':
                    break
                raise AnalysisBroken('IR token: ' + s[i:i + 40] + ' in ' + s)
            self.t.append((m.lastgroup, m.group(m.lastgroup)))
            i = m.end()
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() != v:
            raise AnalysisBroken(f'IR parse: expected {v} got {self.peek()} in {self.t}')
        self.i += 1

    def opt(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def end(self):
        return self.i >= len(self.t)


ATTRS = {'noundef', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'nonnull', 'immarg',
         'returned', 'readnone', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'internal', 'private',
         'allocptr', 'inreg', 'noreturn', 'nounwind', 'hidden', 'external', 'linkonce_odr', 'weak', 'static',
         'dso_preemptable', 'constant', 'common', 'noinline', 'nofree', 'nest', 'swiftself'}


class Module:
    def __init__(self):
        self.structs = {}      # name -> Ty struct (el = list of Ty)
        self.globals = {}      # name -> Global
        self.funcs = {}        # name -> Func
        self.decls = set()
        self.md = {}           # id -> raw string
        self.layouts = {}      # C struct name -> {'size':bytes,'fields':{name:(off,size)}}

    # sizes
    def size(self, t):
        if t.k == 'int':
            b = (t.n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return p
        if t.k == 'ptr':
            return 8
        if t.k == 'array':
            return t.n * self.size(t.el)
        if t.k == 'float':
            return t.n // 8
        if t.k == 'named':
            return self.size(self.structs[t.n])
        if t.k == 'struct':
            off = 0
            al = 1
            for e in t.el:
                a = 1 if t.n == 'packed' else self.align(e)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.size(e)
            return (off + al - 1) // al * al
        raise AnalysisBroken('size of ' + repr(t))

    def align(self, t):
        if t.k == 'array':
            return self.align(t.el)
        if t.k == 'named':
            return self.align(self.structs[t.n])
        if t.k == 'struct':
            return 1 if t.n == 'packed' else max([1] + [self.align(e) for e in t.el])
        return self.size(t)

    def field(self, t, i):
        """offset and type of field i"""
        if t.k == 'named':
            t = self.structs[t.n]
        off = 0
        for k, e in enumerate(t.el):
            a = 1 if t.n == 'packed' else self.align(e)
            off = (off + a - 1) // a * a
            if k == i:
                return off, e
            off += self.size(e)
        raise AnalysisBroken('field')


class Global:
    def __init__(self, name, ty, init, const, line):
        self.name, self.ty, self.init, self.const, self.raw = name, ty, init, const, line
        self.thread_local = 'thread_local' in line.split('=')[1][:60]


class Func:
    def __init__(self, name, ret, params, internal):
        self.name, self.ret, self.params, self.internal = name, ret, params, internal
        self.blocks = {}
        self.order = []
        self.entry = None
        self.file = '?'
        self.line = 0
        self.vararg = False


class Instr:
    __slots__ = ('op', 'dst', 'a', 'loc', 'uid', 'fn')

    def __init__(self, op, dst, a, loc):
        self.op, self.dst, self.a, self.loc = op, dst, a, loc

    def __repr__(self):
        return f'{self.dst or ""}={self.op} {self.a} @{self.loc}'


class Parser:
    def __init__(self, text):
        self.m = Module()
        self.text = text

    def ty(self, t):
        w = t.next()
        if w == 'void':
            r = VOID
        elif w == 'ptr':
            r = PTR
        elif w in ('float', 'double', 'x86_fp80', 'half'):
            r = Ty('float', {'float': 32, 'double': 64, 'x86_fp80': 128, 'half': 16}[w])
        elif w == 'metadata' or w == 'label' or w == 'token':
            r = Ty('meta')
        elif re.fullmatch(r'i\d+', w):
            r = ity(int(w[1:]))
        elif w == '[':
            n = int(t.next())
            t.eat('x')
            e = self.ty(t)
            t.eat(']')
            r = Ty('array', n, e)
        elif w == '{' or w == '<':
            packed = w == '<'
            if packed:
                if t.peek() != '{':
                    n = int(t.next())
                    t.eat('x')
                    e = self.ty(t)
                    t.eat('>')
                    return Ty('vector', n, e)
                t.eat('{')
            els = []
            while not t.opt('}'):
                els.append(self.ty(t))
                t.opt(',')
            if packed:
                t.eat('>')
            r = Ty('struct', 'packed' if packed else '', els)
        elif w[0] == '%':
            r = Ty('named', w.strip('%').strip('"'))
        else:
            raise AnalysisBroken('IR type ' + w)
        while t.peek() == '(':   # function type
            d = 0
            while True:
                x = t.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
            r = Ty('func', 0, r)
        return r

    def skip_attrs(self, t):
        while True:
            p = t.peek()
            if p in ATTRS:
                t.next()
            elif p in ('align', 'addrspace'):
                t.next()
                if t.opt('('):
                    while t.next() != ')':
                        pass
                else:
                    t.next()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'captures', 'range', 'allocsize',
                       'memory', 'elementtype', 'initializes', 'inalloca', 'preallocated'):
                t.next()
                if t.peek() == '(':
                    d = 0
                    while True:
                        x = t.next()
                        d += (x == '(') - (x == ')')
                        if d == 0:
                            break
            else:
                return

    def const(self, t, ty):
        """operand of a given type"""
        w = t.peek()
        k = t.kind()
        if k in ('id', 'qid'):
            t.next()
            w = w[0] + w[1:].strip('"')
            return ('loc', w) if w[0] == '%' else ('glob', w[1:])
        if k == 'num':
            t.next()
            return ('int', int(w)) if re.fullmatch(r'-?\d+', w) else ('float', w)
        if k == 'hex':
            t.next()
            return ('float', w)
        if w == 'true':
            t.next()
            return ('int', 1)
        if w == 'false':
            t.next()
            return ('int', 0)
        if w == 'null':
            t.next()
            return ('null',)
        if w in ('undef', 'poison'):
            t.next()
            return ('undef',)
        if w == 'zeroinitializer':
            t.next()
            return ('zero',)
        if k == 'str':
            t.next()
            return ('bytes', unescape(w[2:-1]))
        if w in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[w]
            t.next()
            if w == '<' and t.peek() == '{':
                t.next()
                r = []
                while not t.opt('}'):
                    ety = self.ty(t)
                    r.append((ety, self.const(t, ety)))
                    t.opt(',')
                t.eat('>')
                return ('agg', r)
            r = []
            while not t.opt(close):
                ety = self.ty(t)
                r.append((ety, self.const(t, ety)))
                t.opt(',')
            return ('agg', r)
        if w == 'getelementptr':
            t.next()
            while t.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                t.next()
                if t.peek() == '(' and t.peek(1) in None.__class__.__name__:
                    pass
            t.eat('(')
            bt = self.ty(t)
            ops = []
            while t.opt(','):
                ety = self.ty(t)
                ops.append((ety, self.const(t, ety)))
            t.eat(')')
            return ('cgep', bt, ops)
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sext', 'zext'):
            t.next()
            t.eat('(')
            ety = self.ty(t)
            c = self.const(t, ety)
            t.eat('to')
            self.ty(t)
            t.eat(')')
            return ('ccast', w, c)
        raise AnalysisBroken('IR const ' + str(w))

    def tyconst(self, t):
        ty = self.ty(t)
        self.skip_attrs(t)
        if ty.k == 'meta':
            # skip metadata operand
            d = 0
            while not t.end():
                p = t.peek()
                if d == 0 and p in (',', ')'):
                    break
                d += (p in '([{') - (p in ')]}')
                t.next()
            return ty, ('meta',)
        return ty, self.const(t, ty)

    def parse(self):
        m = self.m
        lines = self.text.split('\n')
        i = 0
        # multi-line switch
        out = []
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            if s.startswith('switch ') and not s.rstrip().endswith(']') and '[' in s and ']' not in s.split('[', 1)[1]:
                while ']' not in lines[i + 1]:
                    i += 1
                    l += ' ' + lines[i].strip()
                i += 1
                l += ' ' + lines[i].strip()
            out.append(l)
            i += 1
        lines = out
        cur = None
        blk = None
        for l in lines:
            if not l.strip() or l.startswith((';', 'source_filename', 'target', 'attributes', '$', 'module asm')):
                if l.startswith('module asm'):
                    raise AnalysisBroken('module asm')
                continue
            if l.startswith('!'):
                k, _, v = l.partition(' = ')
                m.md[k] = v
                continue
            if cur is None:
                if l.startswith('%'):
                    n, _, b = l.partition(' = type ')
                    n = n.strip('%').strip('"')
                    if b.strip() == 'opaque':
                        m.structs[n] = Ty('opaque')
                    else:
                        m.structs[n] = self.ty(Tok(b))
                elif l.startswith('@'):
                    self.glob(l)
                elif l.startswith('declare'):
                    m.decls.add(re.search(r'@([-\w.$]+|"[^"]*")\(', l).group(1).strip('"'))
                elif l.startswith('define'):
                    cur = self.define(l)
                    blk = None
                continue
            if l.startswith('}'):
                m.funcs[cur.name] = cur
                cur = None
                continue
            mm = re.match(r'([-\w.$]+|"[^"]*"):', l)
            if mm:
                blk = mm.group(1).strip('"')
                cur.blocks[blk] = []
                cur.order.append(blk)
                if cur.entry is None:
                    cur.entry = blk
                continue
            if blk is None:
                blk = '%entry0'
                cur.blocks[blk] = []
                cur.order.append(blk)
                cur.entry = blk
            ins = self.instr(l.strip(), cur)
            if ins is not None:
                ins.fn = cur.name
                ins.uid = f'{cur.name}:{blk}:{len(cur.blocks[blk])}'
                cur.blocks[blk].append(ins)
        self.layouts()
        return m

    def glob(self, l):
        name, _, rest = l.partition(' = ')
        name = name[1:].strip('"')
        raw = l
        rest = re.split(r', align \d+|, !dbg|, comdat|, section', rest)[0]
        t = Tok(rest)
        const = False
        ext = False
        while True:
            p = t.peek()
            if p == 'constant':
                const = True
                t.next()
                break
            if p == 'global':
                t.next()
                break
            if p in ('external', 'extern_weak'):
                ext = True
            if p == 'alias' or p == 'ifunc':
                return
            t.next()
            if p == 'thread_local' and t.peek() == '(':
                while t.next() != ')':
                    pass
        ty = self.ty(t)
        init = None if ext else self.const(t, ty)
        self.m.globals[name] = Global(name, ty, init, const, raw)

    def define(self, l):
        m = re.match(r'define\s+(.*?)@("[^"]*"|[-\w.$]+)\((.*)\)', l)
        pre = m.group(1)
        name = m.group(2).strip('"')
        # parameters
        start = m.start(3)
        d = 1
        j = start
        while d:
            d += (l[j] == '(') - (l[j] == ')')
            j += 1
        ps = l[start:j - 1]
        t = Tok(pre)
        self.skip_attrs(t)
        ret = self.ty(t)
        f = Func(name, ret, [], 'internal' in pre.split())
        t = Tok(ps)
        while not t.end():
            if t.opt('...'):
                f.vararg = True
                break
            pt = self.ty(t)
            self.skip_attrs(t)
            f.params.append((t.next(), pt))
            t.opt(',')
        mm = re.search(r'!dbg (!\d+)', l)
        f.dbg = mm.group(1) if mm else None
        return f

    def instr(self, l, f):
        if l.startswith('#dbg'):
            return None
        loc = None
        mm = re.search(r', !dbg (!\d+)', l)
        if mm:
            loc = mm.group(1)
            l = l[:mm.start()]
        l = re.sub(r', !(srcloc|llvm\.loop|tbaa|range|nonnull|noundef|prof|heapallocsite|tbaa\.struct|unpredictable) !\d+', '', l)
        if '@llvm.dbg.' in l or '@llvm.lifetime' in l:
            return None
        t = Tok(l)
        dst = None
        if t.kind() in ('id', 'qid') and t.peek(1) == '=':
            dst = t.next()
            dst = dst[0] + dst[1:].strip('"')
            t.next()
        op = t.next()
        I = lambda a: Instr(op, dst, a, loc)
        while op in ('tail', 'musttail', 'notail'):
            op = t.next()
        if op == 'ret':
            ty = self.ty(t)
            if ty.k == 'void':
                return I((None, None))
            return I((ty, self.const(t, ty)))
        if op == 'br':
            if t.opt('label'):
                return I((lab(t.next()),))
            t.eat('i1')
            c = self.const(t, ity(1))
            t.eat(',')
            t.eat('label')
            a = lab(t.next())
            t.eat(',')
            t.eat('label')
            b = lab(t.next())
            return I((c, a, b))
        if op == 'switch':
            ty, v = self.tyconst(t)
            t.eat(',')
            t.eat('label')
            d = lab(t.next())
            t.eat('[')
            cases = []
            while not t.opt(']'):
                cty, c = self.tyconst(t)
                t.eat(',')
                t.eat('label')
                cases.append((c[1], lab(t.next())))
            return I((ty, v, d, cases))
        if op == 'unreachable':
            return I(())
        if op == 'alloca':
            ty = self.ty(t)
            cnt = None
            if t.opt(','):
                if t.peek() != 'align':
                    cnt = self.tyconst(t)
            return I((ty, cnt))
        if op == 'load':
            t.opt('volatile')
            ty = self.ty(t)
            t.eat(',')
            pty, p = self.tyconst(t)
            return I((ty, p))
        if op == 'store':
            t.opt('volatile')
            ty, v = self.tyconst(t)
            t.eat(',')
            pty, p = self.tyconst(t)
            return I((ty, v, p))
        if op == 'getelementptr':
            while t.peek() in ('inbounds', 'nuw', 'nusw'):
                t.next()
            bt = self.ty(t)
            t.eat(',')
            pty, p = self.tyconst(t)
            idx = []
            while t.opt(','):
                idx.append(self.tyconst(t))
            return I((bt, p, idx))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while t.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                fl.add(t.next())
            ty = self.ty(t)
            a = self.const(t, ty)
            t.eat(',')
            b = self.const(t, ty)
            return Instr('bin', dst, (op, ty, a, b, fl), loc)
        if op == 'icmp':
            pred = t.next()
            ty = self.ty(t)
            a = self.const(t, ty)
            t.eat(',')
            b = self.const(t, ty)
            return I((pred, ty, a, b))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while t.peek() in ('nneg', 'nsw', 'nuw'):
                t.next()
            ty, v = self.tyconst(t)
            t.eat('to')
            to = self.ty(t)
            return Instr('cast', dst, (op, ty, v, to), loc)
        if op == 'phi':
            ty = self.ty(t)
            inc = []
            while True:
                t.eat('[')
                v = self.const(t, ty)
                t.eat(',')
                b = lab(t.next())
                t.eat(']')
                inc.append((v, b))
                if not t.opt(','):
                    break
            return I((ty, inc))
        if op == 'select':
            cty, c = self.tyconst(t)
            t.eat(',')
            ty, a = self.tyconst(t)
            t.eat(',')
            ty2, b = self.tyconst(t)
            return I((ty, c, a, b))
        if op == 'freeze':
            ty, v = self.tyconst(t)
            return I((ty, v))
        if op == 'call':
            while t.peek() in ('fastcc', 'ccc'):
                t.next()
            self.skip_attrs(t)
            rt = self.ty(t)
            callee = self.const(t, PTR)
            t.eat('(')
            args = []
            while not t.opt(')'):
                args.append(self.tyconst(t))
                t.opt(',')
            return Instr('call', dst, (rt.el if rt.k == 'func' else rt, callee, args), loc)
        return Instr('unsupported', dst, (op, l), loc)

    # ------------------------------------------------------------ debug info
    def mdfield(self, s, k):
        m = re.search(r'[(, ]' + k + r': ("(?:[^"\\]|\\.)*"|[^,)]+)', s)
        return m.group(1).strip('"') if m else None

    def layouts(self):
        md = self.m.md
        td = {}
        for k, v in md.items():
            if 'DW_TAG_structure_type' in v and 'elements:' in v:
                name = self.mdfield(v, 'name')
                fields = {}
                els = md.get(self.mdfield(v, 'elements'), '')
                for e in re.findall(r'!\d+', els):
                    ev = md.get(e, '')
                    if 'DW_TAG_member' in ev:
                        fields[self.mdfield(ev, 'name')] = (int(self.mdfield(ev, 'offset') or 0) // 8,
                                                            int(self.mdfield(ev, 'size') or 0) // 8)
                lay = {'size': int(self.mdfield(v, 'size') or 0) // 8, 'fields': fields}
                if name:
                    self.m.layouts[name.lstrip('_')] = lay
                td[k] = lay
        for k, v in md.items():
            if 'DW_TAG_typedef' in v:
                bt = self.mdfield(v, 'baseType')
                n = self.mdfield(v, 'name')
                if bt in td and n and n not in self.m.layouts:
                    self.m.layouts[n] = td[bt]
        self.loccache = {}
        for f in self.m.funcs.values():
            if f.dbg:
                v = md.get(f.dbg, '')
                fl = md.get(self.mdfield(v, 'file') or '', '')
                f.file = self.mdfield(fl, 'filename') or '?'
                f.line = int(self.mdfield(v, 'line') or 0)
            for b in f.blocks.values():
                for ins in b:
                    ins.loc = self.locof(ins.loc)

    def locof(self, l):
        if l is None:
            return ('?', 0)
        if l in self.loccache:
            return self.loccache[l]
        md = self.m.md
        v = md.get(l, '')
        line = int(self.mdfield(v, 'line') or 0)
        sc = self.mdfield(v, 'scope')
        fn = '?'
        seen = 0
        while sc and seen < 30:
            s = md.get(sc, '')
            fl = self.mdfield(s, 'file')
            if fl and fl in md:
                fn = self.mdfield(md[fl], 'filename') or '?'
                break
            sc = self.mdfield(s, 'scope')
            seen += 1
        self.loccache[l] = (fn, line)
        return (fn, line)


def lab(s):
    return s[1:].strip('"')


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# ---------------------------------------------------------------------- build
def sources(repo=None):
    repo = repo or REPO
    r = []
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in fs:
            if f.endswith('.c'):
                r.append(os.path.relpath(os.path.join(d, f), repo))
    return sorted(r)


def build(repo=None, keep=None):
    """IR of the whole library, from the current working tree"""
    repo = repo or REPO
    srcs = sources(repo)
    if not srcs:
        raise AnalysisBroken('no sources under ' + repo)
    tmp = tempfile.mkdtemp(prefix='id3ir.')
    try:
        outs = []
        procs = []
        for k, s in enumerate(srcs):
            o = os.path.join(tmp, f'{k}.ll')
            outs.append(o)
            procs.append((s, subprocess.Popen(
                ['clang', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names',
                 '-I./include', '-I./src', '-std=c99', '-Wno-error', '-Wno-implicit-function-declaration', '-Wno-int-conversion', '-S', '-emit-llvm', '-o', o, s],
                cwd=repo, stderr=subprocess.PIPE)))
        for s, p in procs:
            _, err = p.communicate()
            if p.returncode:
                raise AnalysisBroken('does not compile: ' + s + '\n' + err.decode()[-2000:])
        allf = os.path.join(tmp, 'all.ll')
        r = subprocess.run(['llvm-link', '-S', '-o', allf] + outs, stderr=subprocess.PIPE)
        if r.returncode:
            raise AnalysisBroken('llvm-link: ' + r.stderr.decode()[-2000:])
        mf = os.path.join(tmp, 'm.ll')
        r = subprocess.run(['opt', '-S', '-passes=mem2reg', allf, '-o', mf], stderr=subprocess.PIPE)
        if r.returncode:
            raise AnalysisBroken('opt: ' + r.stderr.decode()[-2000:])
        text = open(mf).read()
        m = Parser(text).parse()
        m.sources = srcs
        return m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import time
    t0 = time.time()
    m = build()
    print(len(m.funcs), 'functions', sum(len(b) for f in m.funcs.values() for b in f.blocks.values()), 'instrs', time.time() - t0)
    ops = {}
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b:
                ops[i.op] = ops.get(i.op, 0) + 1
    print(ops)
    print({k: v for k, v in m.layouts.items()})
    print(sorted(m.decls))
    for b in m.funcs['syncint_encode'].blocks.items():
        print(b)
