"""debugging entry point: verify the functions of one translation unit"""
import sys
import os
import time
import importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vc import contract as C, ir, solver


def main():
    tu, mods = sys.argv[1], sys.argv[2].split(',')
    flt = sys.argv[3] if len(sys.argv) > 3 else ''
    for m in mods:
        importlib.import_module('contracts.' + m)
    prog = ir.Program(tu)
    bad = 0
    for q, cs in C.REGISTRY.items():
        if flt not in q:
            continue
        for fn in prog.by_q.get(q, []):
            for c in cs:
                if c.matches(prog, fn):
                    break
            else:
                continue
            if c.trusted:
                continue
            r = C.verify(prog, fn, c, C.REGISTRY)
            fails = [o for o in r.obls if not o.ok]
            tn = [prog.tname(p['t'])[:30] for p in fn['params']]
            print('%-8s %-50s %s obls=%d paths=%d %.1fs' % ('ERROR' if r.error else 'FAIL' if fails else 'ok', q, tn, len(r.obls), r.paths, r.time), flush=True)
            if r.error:
                print('    ', r.error)
            for o in fails[:12]:
                print('     FAILED', o.name, '|', o.detail[:int(os.environ.get("VC_W", "1500"))], '| line', o.loc)
            bad += bool(r.error or fails)
    for n, l in C.LEMMAS.items():
        if flt not in 'lemma:' + n:
            continue
        r = C.verify_lemma(prog, l, C.REGISTRY)
        fails = [o for o in r.obls if not o.ok]
        print('%-8s lemma:%s obls=%d paths=%d %.1fs' % ('ERROR' if r.error else 'FAIL' if fails else 'ok', n, len(r.obls), r.paths, r.time), flush=True)
        if r.error:
            print('    ', r.error)
        for o in fails[:12]:
            print('     FAILED', o.name, '|', o.detail[:int(os.environ.get("VC_W", "1500"))], '| line', o.loc)
        bad += bool(r.error or fails)
    print('bad', bad, solver.STATS)


if os.environ.get('VC_PROFILE'):
    import cProfile
    cProfile.run('main()', sort='cumtime')
else:
    main()
