#!/usr/bin/env python3
"""Development aid: every entry (or those matching -e RX) on scratch copies of /repo with the edits of a CASES file.
   sweep.py FILE [-j N] [-e RX] [NAME...] ; prints findings, undecided parts and the slowest entries."""
import os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
rx, jobs = '', '8'
if '-e' in a:
    i = a.index('-e'); rx = a[i + 1]; del a[i:i + 2]
if '-j' in a:
    i = a.index('-j'); jobs = a[i + 1]; del a[i:i + 2]
RUN = '''
import sys, re, time
sys.path.insert(0, %r)
import props, entries
names = [n for n in entries.ENTRIES if re.search(%r, n) and not ('raw-any' in n or 'any-raw' in n)]
names.sort(key=lambda n: -entries.ENTRIES[n].cost)
t0 = time.time()
res = props.run_all(names, budget=300.0, jobs=%s)
seen = set()
for r in res:
    if 'broken' in r: print('  BROKEN', r['broken']); continue
    if 'crash' in r: print('  CRASH', r['name'], r['crash']); print(r['tb'][-600:])
    for f in r['findings']:
        k = (f['file'], f['line'], f['what'])
        if k not in seen:
            seen.add(k); print('  FINDING', r['name'], f['rule'], f['file'], f['line'], f['function'], f['what'])
    for w, n in r['undecided'][:3]:
        if ('u', w) not in seen:
            seen.add(('u', w)); print('  undecided', r['name'], *w)
slow = sorted(res, key=lambda r: -r.get('time', 0))[:3]
print('  ==', len([x for x in seen if x[0] != 'u']), 'findings', len([x for x in seen if x[0] == 'u']), 'undecided', '%%.0fs' %% (time.time() - t0), [(r['name'], round(r['time'])) for r in slow])
'''
ns = {}
exec(open(a[0]).read(), ns)
for name, edits, *pids in ns['CASES']:
    if a[1:] and name not in a[1:]:
        continue
    e = rx or (pids[0] if pids and pids[0] else '')
    d = tempfile.mkdtemp(prefix='sw')
    r = d + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    ok = True
    for f, old, new in edits:
        t = open(f'{r}/{f}').read()
        if old not in t:
            print(name, 'PATTERN NOT FOUND', f, repr(old[:60]))
            ok = False
        open(f'{r}/{f}', 'w').write(t.replace(old, new))
    print(name, flush=True)
    if ok:
        p = subprocess.run([sys.executable, '-c', RUN % (V + '/engine', e, jobs)], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
        print(p.stdout, p.stderr[-1500:], flush=True)
    shutil.rmtree(d)
