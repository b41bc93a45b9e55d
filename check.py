#!/usr/bin/env python3
"""check.py <PROPERTY> [--list]: decide one property on /repo's current source.

exit 0  held on everything analysed (listed findings are printed)
exit 1  VIOLATION line(s)
exit 3  the analysis itself could not be carried out
"""
import importlib
import json
import os
import sys
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.model import Program, AnalysisError     # noqa: E402
from sa.nim import Nimble                       # noqa: E402
from sa.report import Report, known_findings    # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    try:
        repo = os.environ.get('NIMBLE_REPO', '/repo')
        prog = Program(repo)
        nim = Nimble(prog)
        rep = Report(pid, tier, prog, nim)
        mod = importlib.import_module('sa.rules.' + pid.lower())
        mod.run(rep)
        if not rep.findings:
            rep.verify_floors()
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 3
    known = known_findings(HERE, pid)
    new, listed = [], []
    for f in rep.findings:
        (listed if f.key in known else new).append(f)
    for f in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[f.key]))
    path = os.path.join(evdir, '%s-report.txt' % pid)
    with open(path, 'w') as fh:
        for f in new + listed:
            fh.write(f.text(known.get(f.key)) + '\n\n')
        if not rep.findings:
            fh.write('no violations\n')
    cov = rep.coverage
    cov['explanation'] = ' '.join((mod.EXPLANATION or '').split())
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for f in new:
        print(f.text())
        print()
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s: held on %s' % (pid, ', '.join(
        '%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))))
    return 0


if __name__ == '__main__':
    sys.exit(main())
