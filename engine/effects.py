"""C20: effect analysis over the linked IR of the whole library.

Rules (each instance is one global, one call site or one use of a global's address):
 R1  no function stores to, hands to a writing callee, or hands out the address of, an object with static storage
     duration that is not constant (flow of addresses is followed through getelementptr/phi/select/casts, calls,
     returns and loads of initialised pointers);
 R2  no external call ends the process, writes to standard output, or changes process-wide settings, and none
     goes to a libc service that keeps hidden static state;
 R3  no file is opened for writing under a name that does not depend on the caller (a constant name is a
     resource shared between unrelated operations).
"""

TERMINATE = {'exit', '_exit', '_Exit', 'abort', 'quick_exit', 'raise', 'kill', '__assert_fail', 'longjmp', '_longjmp',
             'siglongjmp', 'err', 'errx', 'verr', 'verrx', 'pthread_exit', 'thrd_exit', 'execv', 'execve', 'execvp',
             'execl', 'execlp', 'system', 'fork', 'vfork', 'alarm', 'sleep', 'pause', 'llvm.trap', 'atexit', 'on_exit',
             'error', '__stack_chk_fail'}
STDOUT = {'printf', 'puts', 'putchar', 'vprintf', 'putchar_unlocked', 'putw_stdout', 'wprintf', 'putwchar', '__printf_chk',
          '__vprintf_chk'}
SETTINGS = {'setlocale', 'setenv', 'putenv', 'unsetenv', 'clearenv', 'chdir', 'fchdir', 'chroot', 'umask', 'signal',
            'sigaction', 'sigprocmask', 'setrlimit', 'setuid', 'setgid', 'seteuid', 'setegid', 'nice', 'freopen',
            'fcloseall', 'tzset', 'mallopt', 'srand', 'srandom', 'srand48', 'setpriority', 'close', 'dup2', 'sync'}
HIDDEN = {'strtok', 'rand', 'random', 'drand48', 'lrand48', 'mrand48', 'localtime', 'gmtime', 'ctime', 'asctime',
          'strerror', 'tmpnam', 'tempnam', 'mktemp', 'getpwnam', 'getpwuid', 'gethostbyname', 'readdir', 'basename',
          'dirname', 'ttyname', 'getlogin', 'strsignal', 'l64a', 'ecvt', 'fcvt', 'hcreate', 'hsearch', 'getopt',
          'mblen', 'mbtowc', 'wctomb', 'mbrtowc0', 'crypt', 'inet_ntoa', 'ptsname', 'utmpname'}
STDIN = {'getchar', 'gets', 'scanf', '__isoc99_scanf', 'vscanf'}

# external callees without process-wide effect: argument positions they may write through
PURE = {
    'calloc': (), 'malloc': (), 'realloc': (0,), 'free': (0,), 'reallocarray': (0,), 'aligned_alloc': (),
    'fclose': (), 'ferror': (), 'fflush': (), 'fopen': (), 'fopen64': (), 'fread': (0,), 'fseek': (), 'ftell': (),
    'fseeko': (), 'ftello': (), 'rewind': (), 'feof': (), 'clearerr': (), 'fwrite': (), 'getc': (), 'fgetc': (),
    '_IO_getc': (), '_IO_putc': (), 'putc': (), 'fputc': (), 'fputs': (), 'fgets': (0,), 'ungetc': (), 'setvbuf': (1,),
    'setbuf': (1,), 'fprintf': (), 'vfprintf': (), '__fprintf_chk': (), 'fileno': (), 'fdopen': (), 'ftruncate': (),
    'truncate': (), 'fsync': (), 'fdatasync': (), 'rename': (), 'remove': (), 'unlink': (), 'tmpfile': (), 'mkstemp': (0,),
    'access': (), 'stat': (1,), 'fstat': (1,), 'lstat': (1,), 'chmod': (), 'fchmod': (),
    'memcmp': (), 'memchr': (), 'memrchr': (), 'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'mempcpy': (0,),
    'strcmp': (), 'strlen': (), 'strnlen': (), 'strncmp': (), 'strrchr': (), 'strchr': (), 'strstr': (),
    'strcasecmp': (), 'strncasecmp': (), 'strspn': (), 'strcspn': (), 'strpbrk': (), 'strcoll': (),
    'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'strncat': (0,), 'stpcpy': (0,), 'strdup': (), 'strndup': (),
    'snprintf': (0,), 'sprintf': (0,), 'vsnprintf': (0,), '__snprintf_chk': (0,), '__sprintf_chk': (0,),
    'bcmp': (), 'bzero': (0,), 'strtok_r': (0, 2), 'strtol': (1,), 'strtoul': (1,), 'atoi': (), 'perror': (),
    '__errno_location': (), '__ctype_b_loc': (), '__ctype_tolower_loc': (), '__ctype_toupper_loc': (),
    'toupper': (), 'tolower': (), 'isalpha': (), 'isdigit': (), 'isalnum': (), 'isspace': (), 'isupper': (), 'islower': (),
    'abs': (), 'labs': (), 'qsort': (0,), 'bsearch': (), 'memmem': (), '__memcpy_chk': (0,), '__memset_chk': (0,),
    '__strcpy_chk': (0,), '__isoc99_sscanf': (2, 3, 4, 5), 'sscanf': (2, 3, 4, 5), 'swab': (1,), 'htonl': (), 'htons': (),
    'ntohl': (), 'ntohs': (), 'strerror_r': (1,),
}


def base(n):
    if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
        return 'memcpy'
    if n.startswith('llvm.memset'):
        return 'memset'
    return n


def refs(c, out):
    """globals mentioned in a constant"""
    if isinstance(c, tuple):
        if c and c[0] == 'glob':
            out.add(c[1])
            return out
        for x in c:
            refs(x, out)
    elif isinstance(c, list):
        for x in c:
            refs(x, out)
    return out


class Effects:
    def __init__(self, m):
        self.m = m
        self.findings = []
        self.samples = []
        self.counts = dict(functions=len(m.funcs), globals=0, mutable_globals=0, external_call_sites=0,
                           address_uses=0, opens_for_writing=0)

    def flag(self, rule, ins, fn, what):
        f = self.m.funcs[fn]
        loc = ins.loc if ins is not None else (f.file, f.line)
        self.findings.append(dict(rule=rule, file=loc[0], line=loc[1], function=fn, what=what))

    def run(self):
        m = self.m
        self.points()
        for g in m.globals.values():
            self.counts['globals'] += 1
            if not g.const:
                self.counts['mutable_globals'] += 1
        for fn, f in m.funcs.items():
            for b in f.order:
                for ins in f.blocks[b]:
                    self.instr(fn, ins)
        if self.counts['external_call_sites'] == 0:
            from ir import AnalysisBroken
            raise AnalysisBroken('no external call sites: nothing analysed')
        return self.findings

    # flow-insensitive address flow: value -> set of static objects (mutable) it may point into
    def points(self):
        m = self.m
        self.mut = {n for n, g in m.globals.items() if not g.const and not n.startswith('llvm.')
                    and g.init is not None}
        self.pt = {}
        self.cont = {n: refs(g.init, set()) & set(m.globals) for n, g in m.globals.items() if g.init is not None}
        self.ret = {}
        ch = True

        def add(k, s):
            nonlocal ch
            cur = self.pt.setdefault(k, set())
            if not s <= cur:
                cur |= s
                ch = True
        while ch:
            ch = False
            for fn, f in m.funcs.items():
                for b in f.order:
                    for ins in f.blocks[b]:
                        o = ins.op
                        if o in ('getelementptr', 'phi', 'select', 'cast', 'freeze'):
                            s = set()
                            for v in ops(ins):
                                s |= self.of(fn, v)
                            if s:
                                add((fn, ins.dst), s)
                        elif o == 'load':
                            s = set()
                            for g in self.of(fn, ins.a[1]):
                                s |= self.cont.get(g, set())
                            if s:
                                add((fn, ins.dst), s)
                        elif o == 'ret':
                            s = set()
                            for v in ops(ins):
                                s |= self.of(fn, v)
                            if s:
                                add((fn, 'ret'), s)
                        elif o == 'call':
                            c = ins.a[1]
                            if c[0] == 'glob' and c[1] in m.funcs:
                                g = m.funcs[c[1]]
                                for p, a in zip(g.params, ins.a[2]):
                                    s = self.of(fn, a[1])
                                    if s:
                                        add((c[1], p[0]), s)
                                s = self.pt.get((c[1], 'ret'), set())
                                if s and ins.dst:
                                    add((fn, ins.dst), s)
                            elif c[0] == 'glob' and ins.dst and base(c[1]) in (
                                    'strrchr', 'strchr', 'strstr', 'memchr', 'strcpy', 'strcat', 'strpbrk', 'memcpy'):
                                s = self.of(fn, ins.a[2][0][1]) if ins.a[2] else set()
                                if s:
                                    add((fn, ins.dst), s)

    def of(self, fn, v):
        if v[0] == 'loc':
            return self.pt.get((fn, v[1]), set())
        return {g for g in refs(v, set()) if g in self.m.globals}

    def mutable(self, fn, v):
        return sorted(g for g in self.of(fn, v) if g in self.mut)

    def instr(self, fn, ins):
        m = self.m
        if ins.op == 'store':
            ty, v, p = ins.a
            w = self.mutable(fn, p)
            if w:
                self.counts['address_uses'] += 1
                self.flag('R1', ins, fn, f'stores into static object {", ".join(w)}')
            e = self.mutable(fn, v)
            if e and ty.k == 'ptr':
                self.flag('R1', ins, fn, f'address of mutable static object {", ".join(e)} is stored in an object')
        elif ins.op == 'ret':
            for v in ops(ins):
                e = self.mutable(fn, v)
                if e and not m.funcs[fn].internal:
                    self.flag('R1', ins, fn, f'returns the address of mutable static object {", ".join(e)}')
        elif ins.op == 'unsupported' and 'asm' in str(ins.a):
            self.flag('R2', ins, fn, 'inline assembly')
        elif ins.op == 'call':
            c = ins.a[1]
            if c[0] != 'glob':
                return
            n = c[1]
            if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n.startswith('llvm.stack'):
                return
            if n in m.funcs:
                return
            n = base(n)
            self.counts['external_call_sites'] += 1
            if len(self.samples) < 12:
                self.samples.append(f'{ins.loc[0]}:{ins.loc[1]} {fn} -> {n}')
            args = [a[1] for a in ins.a[2]]
            if n in TERMINATE:
                self.flag('R2', ins, fn, f'{n}() can end or stop the host process')
            elif n in STDOUT:
                self.flag('R2', ins, fn, f'{n}() writes to standard output')
            elif n in STDIN:
                self.flag('R2', ins, fn, f'{n}() consumes the standard input of the process')
            elif n in SETTINGS:
                self.flag('R2', ins, fn, f'{n}() changes process-wide state')
            elif n in HIDDEN:
                self.flag('R2', ins, fn, f'{n}() keeps hidden static state')
            elif n in PURE:
                for i in PURE[n]:
                    if i < len(args):
                        w = self.mutable(fn, args[i])
                        if w:
                            self.flag('R1', ins, fn, f'{n}() writes into static object {", ".join(w)}')
                if n in ('fopen', 'fopen64'):
                    self.opens(fn, ins, args)
            elif n.startswith('llvm.'):
                pass
            else:
                from ir import AnalysisBroken
                raise AnalysisBroken(f'external function {n} (called at {ins.loc[0]}:{ins.loc[1]}) is not in the effect table')
        if ins.op != 'phi':
            for v in ops(ins):
                if 'stdout' in refs(v, set()):
                    self.flag('R2', ins, fn, 'uses the standard output stream')

    def cstr(self, v):
        g = refs(v, set())
        if v[0] in ('glob', 'cgep') and len(g) == 1:
            gl = self.m.globals.get(next(iter(g)))
            if gl is not None and gl.init is not None and gl.init[0] == 'bytes':
                return gl.init[1].rstrip(b'\0')
        return None

    def consts(self, fn, v, seen=None):
        """constant strings the value may be, or None in the set if it depends on the caller"""
        seen = seen if seen is not None else set()
        if (fn, v) in seen:
            return set()
        seen.add((fn, v))
        s = self.cstr(v)
        if s is not None:
            return {s}
        if v[0] != 'loc':
            return {None}
        f = self.m.funcs[fn]
        for i, p in enumerate(f.params):
            if (p[0]) == v[1]:
                r = set()
                callers = 0
                for gn, g in self.m.funcs.items():
                    for b in g.order:
                        for ins in g.blocks[b]:
                            if ins.op == 'call' and ins.a[1] == ('glob', fn):
                                callers += 1
                                r |= self.consts(gn, ins.a[2][i][1], seen)
                if not callers or not f.internal:
                    r.add(None)
                return r
        d = next((ins for b in f.order for ins in f.blocks[b] if ins.dst == v[1]), None)
        if d is not None and d.op in ('phi', 'select', 'cast'):
            r = set()
            for o in (ops(d) if d.op != 'select' else [d.a[2], d.a[3]]):
                r |= self.consts(fn, o, seen)
            return r
        return {None}

    def opens(self, fn, ins, args):
        modes = self.consts(fn, args[1])
        if all(x is not None and x[:1] == b'r' and b'+' not in x for x in modes):
            return
        self.counts['opens_for_writing'] += 1
        for x in self.consts(fn, args[0]) - {None}:
            self.flag('R3', ins, fn, f'opens the fixed path "{x.decode(errors="replace")}" for writing: '
                                     'shared by all operations of the process')


def ops(ins):
    """operand values"""
    a = ins.a
    o = ins.op
    if o == 'getelementptr':
        return [a[1]]
    if o == 'phi':
        return [v for v, _ in a[1]]
    if o == 'select':
        return [a[1], a[2], a[3]]
    if o == 'cast':
        return [a[2]]
    if o == 'freeze':
        return [a[1]]
    if o == 'load':
        return [a[1]]
    if o == 'store':
        return [a[1], a[2]]
    if o == 'ret':
        return [a[1]] if len(a) > 1 and a[1] is not None else []
    if o == 'call':
        return [x[1] for x in a[2]]
    return []
