#!/usr/bin/env python3
"""Development aid: automatic mutants of every line of the library; prints the ones no entry reports (survivors).
   automut.py [-j N] [-s SEED] [-n MAX] [FILE-RX]"""
import multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
a = sys.argv[1:]
def opt(k, d):
    if k in a:
        i = a.index(k); v = a[i + 1]; del a[i:i + 2]; return v
    return d
J, SEED, MAX, BUD = int(opt('-j', 8)), int(opt('-s', 1)), int(opt('-n', 400)), float(opt('-b', 200))
ENT = opt('-e', '')
RX = a[0] if a else ''
OPS = [(r'(?<![-<>=!+&|])<=(?!=)', '<'), (r'(?<![-<>=!])>=(?!=)', '>'), (r'(?<![-<>=!#])\s<\s', ' <= '), (r'(?<![-<>=!])\s>\s', ' >= '),
       (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+ [A-Za-z_0-9]+', ''),
       (r'\b1\b', '2'), (r'\b0\b', '1'), (r'\b4\b', '3'), (r'SEEK_CUR', 'SEEK_SET'), (r'\bif \((.*)\)$', r'if (!(\1))')]
def mutants():
    out = []
    fs = subprocess.run(['git', '-C', '/repo', 'ls-files', 'src/*.c'], capture_output=True, text=True).stdout.split()
    for f in fs:
        if not re.search(RX, f):
            continue
        lines = open('/repo/' + f).read().split('\n')
        depth = 0
        for n, l in enumerate(lines):
            s = l.strip()
            if depth > 0 and s and not s.startswith('//') and not s.startswith('*'):
                for rx, new in OPS:
                    for m in re.finditer(rx, l):
                        r = m.expand(new)
                        out.append((f, n, l, l[:m.start()] + r + l[m.end():]))
                if re.match(r'^[A-Za-z_>\-\.\[\]]*(\(.*\)| [-+]?= .*|\+\+| \+= .*);$', s) and not re.match(r'^(return|break|const|int|char|bool|unsigned)\b', s):
                    out.append((f, n, l, ';'))
                if s in ('break;', 'continue;', 'return;') or re.match(r'^return [^;]*;$', s) and 'if' in s:
                    pass
            depth += l.count('{') - l.count('}')
    return out
def one(mu):
    f, n, old, new = mu
    d = tempfile.mkdtemp(prefix='am')
    r = d + '/repo'
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        t = open(f'{r}/{f}').read().split('\n')
        t[n] = new
        open(f'{r}/{f}', 'w').write('\n'.join(t))
        c = subprocess.run(['clang', '-fsyntax-only', '-w', '-Iinclude', '-Isrc', f], cwd=r, capture_output=True)
        if c.returncode:
            return mu, 'nocompile', 0
        t0 = time.time()
        p = subprocess.run([sys.executable, '-c', RUN], env=dict(os.environ, VERIF_REPO=r, VERIF_LIMIT='1500'), capture_output=True, text=True)
        return mu, (p.stdout.strip() or 'SURVIVED? ' + p.stderr[-300:]), time.time() - t0
    finally:
        shutil.rmtree(d, ignore_errors=True)
RUN = '''
import sys, re, time
sys.path.insert(0, %r)
import props, entries, ir
sys.setrecursionlimit(20000)
skip = re.compile(r'load_buffer|read_file:v|load_tag:v|raw-any|any-raw|-(unsync-ext)|write_tag:(raw|text|comm|comm-apic|apic-comm|two|text-over|raw-over|raw-text)$|c_set_tag:(text|raw)|(set|get|delete)_(artist|composer|genre|year|disc_number|track|album|album_artist)$')
names = [n for n in entries.ENTRIES if not skip.search(n)]
if %r: names = [n for n in entries.ENTRIES if re.search(%r, n)]
names.sort(key=lambda n: entries.ENTRIES[n].cost)
props._M = ir.build()
t0 = time.time(); und = 0
props._END = t0 + %r
for n in names:
    left = %r - (time.time() - t0)
    if left < 5: print('SURVIVED(time, at %%s)' %% n); break
    r = props.work((n, min(left, 90.0)))
    if 'crash' in r: und += 1
    und += len(r['undecided'])
    if r['findings']:
        f = r['findings'][0]
        print('killed', n, f['rule'], f['file'], f['line'], f['what']); break
else: print('SURVIVED undecided', und)
''' % (V + '/engine', ENT, ENT, BUD, BUD)
if __name__ == '__main__':
    ms = mutants()
    random.Random(SEED).shuffle(ms)
    ms = ms[:MAX]
    print(len(ms), 'mutants', flush=True)
    k = 0
    with mp.Pool(J) as p:
        for (f, n, old, new), res, t in p.imap_unordered(one, ms):
            if res.startswith('killed') or res == 'nocompile':
                k += 1
                if '-v' in sys.argv: print('ok', f, n + 1, res, flush=True)
                continue
            print(f'{f}:{n + 1}: {res} {t:.0f}s\n   - {old.strip()}\n   + {new.strip()}', flush=True)
    print('killed', k)
