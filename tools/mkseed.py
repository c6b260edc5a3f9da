#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies of /repo and stores them under /verif/seeded/<id>/.
   usage: mkseed.py [ID...]   (definitions in seeds.py)"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
V = '/verif/seeded'
COMMON = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demo_common.h')).read()
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
gcc -w -g -std=gnu99 %s -I./include -I./src -I"$D" -o "$W/demo" $(find src -name '*.c') "$D/demo.c" %s || exit 98
cd "$W" && %s timeout 60 ./demo
'''


def sh(c, cwd):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)


def main():
    ids = sys.argv[1:]
    for sd in SEEDS:
        if ids and sd['id'] not in ids:
            continue
        w = '/tmp/seedwork'
        shutil.rmtree(w, ignore_errors=True)
        sh(f'git -C /repo worktree prune; git clone -q /repo {w}', '/')
        bad = False
        for f, a, b in sd['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(sd['id'], 'EDIT MATCHES', s.count(a), 'times in', f, repr(a[:60]))
                bad = True
                break
            open(p, 'w').write(s.replace(a, b))
        if bad:
            continue
        d = os.path.join(V, sd['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(sh('git diff', w).stdout)
        san = '-fsanitize=address,undefined -fno-sanitize-recover=all' if sd.get('asan', True) else ''
        open(d + '/demo.sh', 'w').write(DEMO % (san, sd.get('libs', ''), sd.get('env', '')))
        open(d + '/demo.c', 'w').write(sd['demo'])
        open(d + '/demo_common.h', 'w').write(COMMON)
        json.dump(dict(property=sd['property'], needs=sd['needs'], what_it_breaks=sd['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        b = sh('make clean && make -j4 build_static && make build_test', w)
        r1 = sh(f'bash {d}/demo.sh', w)
        # stable test on the changed tree
        t = sh('gcc -g -rdynamic /opt/vp/run_one.c $(find test -name "*.o" ! -name main_test.o) -L./lib -lid3v2 -ldl -o run_one && cd test && ../run_one get_test_empty', w)
        sh('git checkout -q -- . && git clean -fdxq', w)
        r0 = sh(f'bash {d}/demo.sh', w)
        ok = b.returncode == 0 and r1.returncode != 0 and r1.returncode not in (98, 99) and r0.returncode == 0 and 'RETURNED get_test_empty' in t.stdout
        print(sd['id'], 'OK' if ok else 'BAD', 'build', b.returncode, 'with', r1.returncode, 'without', r0.returncode, 'test', 'RETURNED' in t.stdout)
        if not ok:
            print(r1.stdout[-600:], r1.stderr[-600:], r0.stdout[-600:], r0.stderr[-800:], b.stderr[-500:], t.stderr[-300:])
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(w, ignore_errors=True)


main()
