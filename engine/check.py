#!/usr/bin/env python3
"""python3 engine/check.py <property> : decides one property on /repo's current source (static analysis only).

exit 0 held on everything analysed / 1 violation (a VIOLATION line) / 2 the analysis itself is broken.
"""
import json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import ir  # noqa: E402


def known():
    """findings recorded as known (never suppresses anything else)"""
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                r.append(l[7:].strip())
    return r


def write_evidence(pid, cov, t0, nviol, level, assumptions):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
              seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 3), violations=nviol)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def report(pid, findings):
    """prints findings; returns number of violations"""
    if not findings:
        return 0
    rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    with open(rp, 'w') as f:
        for x in findings:
            line = f"{x['file']}:{x['line']}: {x['function']}: [{x['rule']}] {x['what']}"
            f.write(line + '\n')
            if x.get('trace'):
                for t in x['trace']:
                    f.write('    ' + t + '\n')
            print(line)
    print(f'VIOLATION property={pid} replay={rp}')
    return len(findings)


def c20(pid, t0):
    import effects
    m = ir.build()
    e = effects.Effects(m)
    fs = e.run()
    n = report(pid, fs)
    cov = dict(explanation='effect analysis of every function of the library: address flow of static objects, classification '
                           'of every external call site, dependence of every file name opened for writing',
               rule=effects.__doc__.strip(), units=m.sources, samples=e.samples, **e.counts)
    write_evidence(pid, cov, t0, n, 'other', ['the effect table of libc functions in engine/effects.py'])
    print(f'{pid}: {e.counts}')
    return 1 if n else 0


def main():
    pid = sys.argv[1]
    t0 = time.time()
    try:
        if pid == 'C20':
            return c20(pid, t0)
        import props
        return props.run(pid, t0)
    except ir.AnalysisBroken as e:
        print('ANALYSIS-BROKEN:', e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
