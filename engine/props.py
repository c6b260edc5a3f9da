"""Decides one property: analyses every entry that bears on it and reports the findings that concern it."""
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback
import ir

MEM = {'bounds', 'null', 'uninit', 'wild', 'div', 'shift'}
OWN = {'double-free', 'leak', 'badfree', 'dangling', 'alias'}

# property -> the entries that bear on it (regular expression over entry names), one line on how it is decided
PROPS = {
    'C01': (r'(read|load)_', 'every access made while reading lies inside a live, initialised object, for every byte of the input unknown'),
    'C02': (r'(?!(read|load)_)', 'every access made by an editing, writing or converting call lies inside a live, initialised object'),
    'C03': (r'(u_strlen|set|add|delete|read_buffer|read_file|write|load|tag_new|c_set)', 'tag size == sum of (10 + frame size) + padding, frame size == size of the contents, in every exit state'),
    'C04': (r'', 'every allocation is reachable from what the caller holds or freed exactly once, in every exit state'),
    'C05': (r'(read_file|read_header_file|load_tag:|write|delete_tag|c_set_tag|c_remove|c_set_album_cover_from_file|c_set_cover_file)', 'typestate of every stream along every path, every open succeeding or failing'),
    'C06': (r'(write_tag|c_set_tag)', 'contents of the file in every exit state of a write'),
    'C07': (r'(delete_tag|c_remove)', 'contents of the file in every exit state of a delete'),
    'C08': (r'(write_tag|delete_tag|c_set_tag|c_remove|read_file|read_header_file|load_tag:)', 'what is staged and checked in every state in which a target is opened for writing'),
    'C09': (r'(get|set|delete)_(title|artist|album|album_artist|genre|track|year|disc_number|composer|comment|album_cover|comments|apics|comment_frame|apic_frame)$|c_(get|set)_', 'id looked up, stored or removed by every named operation in every exit state'),
    'C10': (r'get_|c_get_', 'frame(s) returned by every lookup, compared with the list in every exit state'),
    'C11': (r'u_strlen|(set|add)_|tag_new|c_set_', 'frame list and contents after every setter, in every exit state'),
    'C12': (r'delete_(?!tag)', 'frame list after every deleter, in every exit state'),
    'C13': (r'(write_tag|c_set_tag|tag_new)', 'bytes handed to the file by a write, compared with the layout symbolically'),
    'C14': (r'(read_buffer|read_file|load_)', 'every field of every frame read, compared with the input bytes at its place symbolically'),
    'C15': (r'(read_|write_tag|size_|load_)', 'bit-level comparison of every decoded and encoded size with the bytes'),
    'C16': (r'u_', 'result of every helper on every class of strings'),
    'C17': (r'u_strlen|(set|add)_|read_buffer.*any|c_set_', 'encoding byte, terminator and size of every string of every frame built'),
    'C18': (r'(read_|load_)(?!.*raw)', 'header returned exactly in the states where the input has one, and its fields'),
    'C19': (r'(c_|load_)', 'mirror frames compared with the underlying tag in every exit state'),
    'C21': (r'(read_|load_|u_)', 'every loop is followed to its exit or has a strictly progressing bounded variant'),
}
READ = re.compile(r'(read|load)_')


def props_of(cat, entry):
    """properties a finding of this category in this entry contradicts"""
    rd = bool(READ.match(entry))
    mem = 'C01' if rd else 'C02'
    out = set()
    for c in cat.split('+'):
        if re.fullmatch(r'C\d\d', c):
            out.add(c)
        elif c in MEM:
            out.add(mem)
        elif c == 'uaf':
            out |= {mem, 'C04'}
        elif c in OWN:
            out.add('C04')
            if c == 'alias':
                out.add('C11')
            if c == 'dangling':
                out.add(mem)
        elif c in ('stream', 'stream-leak'):
            out.add('C05')
        elif c == 'hang':
            out.add('C21' if rd or entry.startswith('u_') else mem)
        elif c == 'CLEN':       # the string length contract every builder of frames relies on
            out |= {'C03', 'C11', 'C17'}
        elif c == 'shape':
            out |= {'C04', 'C12', 'C11', 'C14', 'C10'}
        elif c == 'input-write':
            out |= {'C02', 'C11'} if not rd else {'C01'}
        elif c == 'uninit-out':
            out |= {mem, 'C11', 'C14', 'C19'}
        else:
            out.add(c)
    return out


_M = None
_END = 0.0


def work(a):
    name, budget = a
    import entries
    t0 = time.time()
    budget = max(1.0, min(budget, _END - t0))
    try:
        eng = entries.run_entry(_M, name, budget=budget)
    except ir.AnalysisBroken as e:
        return dict(name=name, broken=str(e))
    except Exception as e:
        return dict(name=name, crash=f'{type(e).__name__}: {e}', tb=traceback.format_exc()[-1500:], findings=[], undecided=[], exits=0, stats={},
                    scen=0, bounded=[], funcs=[], time=time.time() - t0)
    return dict(name=name, fn=eng.entry_fn, findings=list(eng.findings.values()), undecided=[(w, n) for w, n in eng.undecided.items()],
                exits=eng.exits, scen=eng.scen, stats=eng.stats, bounded=sorted(map(str, eng.bounded_at)), funcs=sorted(eng.funcs_seen),
                time=time.time() - t0)


def select(pid):
    import entries
    rx = re.compile(PROPS[pid][0])
    names = [n for n in entries.ENTRIES if rx.match(n)]
    if pid not in ('C01', 'C14') and os.environ.get('VERIF_TIER') != 'thorough':
        names = [n for n in names if 'raw-any' not in n and 'any-raw' not in n]     # two frames of mixed kinds: same code paths, long
    names.sort(key=lambda n: -entries.ENTRIES[n].cost)
    return names[:6] + names[:5:-1]     # the six longest first, then the others from short to long


def run_all(names, budget=600.0, jobs=None, decided=lambda r: False):
    """analyses the entries; whatever is not finished when the time of a check is nearly over is reported as undecided.
    Once a result is decisive (a violation) the others get 20 s to finish."""
    global _M, _END
    limit = float(os.environ.get('VERIF_LIMIT', '780' if os.environ.get('VERIF_TIER') != 'thorough' else '3000'))
    _END = time.time() + limit
    _M = ir.build()
    jobs = jobs or min(8, os.cpu_count() or 1)
    sys.setrecursionlimit(20000)
    if jobs == 1 or len(names) == 1:
        return [work((n, budget)) for n in names]
    out = []
    pool = mp.get_context('fork').Pool(jobs)
    it = pool.imap_unordered(work, [(n, budget) for n in names], chunksize=1)
    end, why = _END + 40, 'out of time'
    try:
        for _ in names:
            out.append(it.next(timeout=max(0.1, end - time.time())))
            if why == 'out of time' and decided(out[-1]):
                end, why = time.time() + 20, 'not needed any more'
    except mp.TimeoutError:
        pass
    pool.terminate()
    pool.join()
    got = {r['name'] for r in out}
    for n in names:
        if n not in got:
            out.append(dict(name=n, crash=why, tb='', findings=[], undecided=[], exits=0, stats={}, scen=0, bounded=[], funcs=[], time=limit))
    return out


ASSUME = [
    'behaviour of the C library as modelled in engine/libc.py',
    'argument strings, blobs and frames are smaller than 2^27 bytes; files smaller than 2^30',
    'tags an editing call starts from have at most three frames and satisfy the invariant the exit checks re-establish',
    'inputs read hold at most three frames (see DESIGN.md for the classes)',
    'allocation failures are followed only where the code tests for them, and then only ownership is judged',
]


def run(pid, t0):
    import check
    if pid not in PROPS:
        raise ir.AnalysisBroken('unknown property ' + pid)
    names = select(pid)
    if not names:
        raise ir.AnalysisBroken('no entry bears on ' + pid)
    known = check.known()

    def is_known(f):
        return [x for x in known if x.startswith(f"property={pid} ") and f"{f['function']}: {f['what']}" in x]

    res = run_all(names, budget=float(os.environ.get('VERIF_BUDGET', '300' if os.environ.get('VERIF_TIER') != 'thorough' else '1200')),
                  decided=lambda r: any(pid in props_of(f['rule'], r['name']) and not is_known(f) for f in r.get('findings', [])))
    res.sort(key=lambda r: names.index(r['name']))
    for r in res:
        if 'broken' in r:
            raise ir.AnalysisBroken(r['broken'])
    fs, seen, nk = [], set(), 0
    undec = []
    for r in res:
        if 'crash' in r:
            undec.append(f"{r['name']}: {r['crash']}")
            if os.environ.get('VERIF_DEBUG'):
                print(r['tb'])
        for w, n in r['undecided']:
            undec.append(f"{r['name']}: {w[0]} {w[1] or ''}")
        for f in r['findings']:
            if pid not in props_of(f['rule'], r['name']):
                continue
            k = (f['file'], f['line'], f['what'])
            kn = is_known(f)
            if kn:
                if k not in seen:
                    print('KNOWN-FINDING:', kn[0])
                    nk += 1
                seen.add(k)
                continue
            if k in seen:
                continue
            seen.add(k)
            fs.append(f)
    n = check.report(pid, fs)
    tot = {}
    for r in res:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in res for f in r['funcs']})
    bounded = sorted({b for r in res for b in r['bounded']})
    cov = dict(
        explanation='abstract interpretation (path-partitioned heap shapes, symbolic byte segments and linear constraints) of the LLVM IR of '
                    'the current source, from every entry listed; obligation: ' + PROPS[pid][1],
        rule=PROPS[pid][1],
        entries=len(res), scenarios=sum(r['scen'] for r in res), exit_states_checked=sum(r['exits'] for r in res),
        instructions=tot.get('steps', 0), memory_accesses_checked=tot.get('accesses', 0), calls_followed=tot.get('calls', 0),
        loops=tot.get('loops', 0), inductive_invariants=tot.get('invariants', 0), functions_analysed=len(funcs), functions=funcs,
        loops_followed_up_to_a_bound=bounded, undecided=undec, known_findings=nk, units=_M.sources,
        samples=[dict(entry=r['name'], function=r.get('fn'), scenarios=r['scen'], exit_states=r['exits'], seconds=round(r['time'], 2)) for r in res][:80])
    check.write_evidence(pid, cov, t0, n, 'other', ASSUME)
    for u in undec[:10]:
        print('UNDECIDED', u)
    print(f"{pid}: {len(res)} entries, {cov['exit_states_checked']} exit states, {cov['memory_accesses_checked']} accesses, "
          f"{len(undec)} undecided, {time.time() - t0:.1f}s")
    return 1 if n else 0
