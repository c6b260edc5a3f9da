"""Debugging aid: analyse single entries and print what was found."""
import time
import sys
import ir
from entries import *

m = ir.build()
names = sys.argv[1:] or list(ENTRIES)
for n in names:
    t0 = time.time()
    eng = run_entry(m, n, trace='-v' in sys.argv or len(names) == 1)
    print(f'{n}: exits {eng.exits} findings {len(eng.findings)} undecided {len(eng.undecided)} bounded {eng.bounded_at} {time.time()-t0:.2f}s')
    for k, f in list(eng.findings.items())[:8]:
        print('   ', f['file'], f['line'], f['function'], f['rule'], f['what'])
        if len(names) == 1:
            for t in f['trace'][-14:]:
                print('         ', t)
    for k, c in list(eng.undecided.items())[:8]:
        print('   ?', k, c)
