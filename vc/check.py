"""Driver of one property's check: extract -> verify -> replay -> evidence."""
import fcntl
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
APPS = ('compress', 'decompress', 'diff', 'filter', 'info', 'merge', 'srs', 'tile', 'tool', 'transform')
LLVM = '/usr/lib/llvm-18'


def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def build_extractor():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ROOT, 'extract', 'extract.cpp')
    out = os.path.join(BUILD, 'extract-' + sha([src]))
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + '.tmp%d' % os.getpid()
            subprocess.check_call(['clang++-18', '-O0', '-std=c++17', '-fno-rtti', '-I%s/include' % LLVM, '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-w', src, '-o', tmp, LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM-18.so'])
            os.rename(tmp, out)
    return out


def extract(ex, tu, outdir, defs=()):
    out = os.path.join(outdir, tu + '.json')
    if tu in APPS:
        src, pre, inc = '%s/apps/%s/%s.cpp' % (REPO, tu, tu), REPO + '/', ['-I%s/apps/%s' % (REPO, tu)]
    else:
        src, pre, inc = os.path.join(ROOT, 'drivers', tu + '.cpp'), REPO + '/,' + ROOT + '/drivers', []
    p = subprocess.run([ex, out, src, pre, '--', '-std=c++20', '-fopenmp', '-I' + REPO] + inc + list(defs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return tu, None, p.stdout[-2000:]
    return tu, out, ''


# ------------------------------------------------------------------ verification
PROGS = {}


def _task(t):
    tu, key, ci, skip, cfg = t
    from vc import contract as C, solver
    from vc import streams  # noqa
    try:
        prog = PROGS[tu]
        for k in solver.STATS:
            solver.STATS[k] = 0
        if key.startswith('lemma:'):
            cf = dict(cfg)
            cf['nocontract'] = skip
            r = C.verify_lemma(prog, C.LEMMAS[key[6:]], C.REGISTRY, cf)
            fn = {'q': key, 'line': 0, 'file': ''}
        else:
            fn = prog.functions[key]
            c = C.REGISTRY[fn['q']][ci]
            cf = dict(cfg)
            cf['nocontract'] = skip
            r = C.verify(prog, fn, c, C.REGISTRY, cf)
        return dict(tu=tu, key=key, ci=ci, q=fn['q'], line=fn.get('line'), file=fn.get('file', ''),
                    error=r.error, paths=r.paths, time=r.time,
                    obls=[dict(name=o.name, kind=o.kind, ok=o.ok, loc=o.loc, detail=o.detail, vcs=o.smt or 0) for o in r.obls],
                    contracts=sorted(r.used_contracts), std=sorted(r.used_std), inlined=sorted(r.inlined), assumed=sorted(r.assumed),
                    stats=dict(solver.STATS), params=[prog.tname(p['t']) for p in fn.get('params', ())])
    except Exception as e:   # an engine crash is never an alarm
        return dict(tu=tu, key=key, ci=ci, q=key, line=0, file='', error='internal: %s %s' % (type(e).__name__, traceback.format_exc()[-600:]), paths=0, time=0, obls=[], contracts=[], std=[], inlined=[], assumed=[], stats=dict(solver.STATS), params=[])


def contract_index(prog, key):
    from vc import contract as C
    fn = prog.functions.get(key)
    if fn is None:
        return None
    for i, c in enumerate(C.REGISTRY.get(fn['q'], [])):
        if c.matches(prog, fn):
            return i
    return None


class Verifier:
    def __init__(self, cfg=()):
        self.cfg = tuple(cfg)
        self.results = {}
        self.missing = []
        self.pool = mp.get_context('fork').Pool(min(8, os.cpu_count() or 8), maxtasksperchild=40)

    def close(self):
        self.pool.terminate()

    def run(self, tasks, skip):
        """tasks: set of (tu, key, ci); runs them and everything they rely on"""
        pend = {}
        seen = set()

        def submit(t):
            if t in seen:
                return
            seen.add(t)
            if t in self.results and self.results[t].get('skip') == skip:
                schedule(self.results[t])
                return
            pend[t] = self.pool.apply_async(_task, ((t[0], t[1], t[2], skip, self.cfg),))

        def schedule(r):
            from vc import contract as C
            for cid, key in r['contracts']:
                ci = contract_index(PROGS[r['tu']], key)
                if ci is None or (cid, key) in skip:
                    continue
                if C.REGISTRY[PROGS[r['tu']].functions[key]['q']][ci].trusted:
                    continue
                submit((r['tu'], key, ci))
        for t in tasks:
            submit(t)
        while pend:
            done = [t for t, a in pend.items() if a.ready()]
            if not done:
                time.sleep(0.02)
                continue
            for t in done:
                r = pend.pop(t).get()
                r['skip'] = skip
                self.results[t] = r
                schedule(r)
        return seen

    def verify(self, roots):
        from vc import contract as C
        tasks = set()
        for tu, q in roots:
            if tu not in PROGS:
                self.missing.append('%s: not extracted' % q)
                continue
            prog = PROGS[tu]
            if q.startswith('lemma:'):
                tasks.add((tu, q, 0))
                continue
            n = 0
            for fn in prog.by_q.get(q, []):
                for i, c in enumerate(C.REGISTRY.get(q, [])):
                    if c.matches(prog, fn):
                        n += 1
                        if not c.trusted:
                            tasks.add((tu, fn['key'], i))
                        break
            if n == 0:
                self.missing.append('%s: no function with a matching contract in %s' % (q, tu))
        skip = frozenset()
        for rnd in range(5):
            live = self.run(tasks, skip)
            bad = [t for t in live if self.results[t]['error'] or any(not o['ok'] for o in self.results[t]['obls'])]
            helpers = [t for t in bad if t not in tasks]
            if not helpers:
                break
            more = set(skip)
            for t in helpers:
                c = C.REGISTRY[PROGS[t[0]].functions[t[1]]['q']][t[2]]
                more.add((c.id, t[1]))
            if more == skip:
                break
            skip = frozenset(more)
        self.skip = skip
        self.rootkeys = tasks
        return [self.results[t] for t in live]


# ------------------------------------------------------------------ concrete replay
def mine_literals():
    """integer literals of the code under verification: boundary values for the replay harness"""
    vals = set()
    for d, _, fs in os.walk(REPO):
        if '/_build' in d or '/.git' in d or '/tests' in d:
            continue
        for f in fs:
            if f.endswith(('.h', '.cpp')) and ('/spoc' in d or '/apps' in d):
                try:
                    s = open(os.path.join(d, f), errors='replace').read()
                except OSError:
                    continue
                s = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', s, flags=re.S)
                for m in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*)(?:[uUlL]*)(?![\w.])", s):
                    try:
                        v = int(m.replace("'", ''), 0) if not (m.startswith('0') and m.isdigit() and len(m) > 1) else int(m, 8)
                    except ValueError:
                        continue
                    if 2 < v < (1 << 64):
                        vals.add(v)
                for a, b in re.findall(r'\(?\s*1[uUlL]*\s*<<\s*(\d+)()', s):
                    if int(a) < 64:
                        vals.add(1 << int(a))
    return sorted(vals)


def run_harness(pid, src, tier, seed, wd):
    exe = os.path.join(wd, 'h_' + pid)
    cmd = ['g++', '-std=c++20', '-O1', '-g0', '-fopenmp', '-w', '-I' + REPO, '-I' + os.path.join(ROOT, 'harness'), os.path.join(ROOT, 'harness', src), '-o', exe, '-lgmp', '-lz']
    s = open(os.path.join(ROOT, 'harness', src)).read()
    m = re.search(r'^// FLAGS: (.*)$', s, re.M)
    if m:
        cmd[1:1] = m.group(1).replace('$REPO', REPO).split()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return dict(built=False, out=p.stdout[-3000:], cmd=cmd)
    env = dict(os.environ)
    scratch = os.path.join(wd, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    env.update(VP_SEED=str(seed), VP_TIER=tier, VP_DICT=','.join(map(str, mine_literals())), VP_SECONDS='10' if tier == 'quick' else '150', VP_SCRATCH=scratch, VP_REPO=REPO)
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, cwd=scratch, timeout=120 if tier == 'quick' else 500)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        # the harness bounds its own work and its children; running out of time is no answer
        return dict(built=True, rc='timeout', out=str(e.stdout)[-3000:], err='', cmd=cmd)
    return dict(built=True, rc=rc, out=out[-6000:], err=err[-3000:], cmd=cmd)


# ------------------------------------------------------------------ main
def main(argv):
    t0 = time.time()
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from vc.props import PROPS, MODULES
    P = PROPS[pid]
    wd = os.path.join(BUILD, 'run-%s-%d' % (pid, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    try:
        rc = check(pid, P, tier, seed, wd, MODULES, t0, '--no-harness' in argv, '--no-proof' in argv)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush()
    return rc


def check(pid, P, tier, seed, wd, MODULES, t0, noharness=False, noproof=False):
    notes = []
    results = []
    missing = []
    skip = ()
    extr_err = []
    rootkeys = set()
    if tier == 'thorough':
        os.environ.setdefault('VC_TIMEOUT_MS', '20000')
    from concurrent.futures import ThreadPoolExecutor
    hx = ThreadPoolExecutor(1)
    hfut = None
    if not noproof and P.get('roots'):
        ex = build_extractor()
        tus = sorted({tu for tu, _ in P['roots']})
        variants = [('', ())]
        if tier == 'thorough':
            variants.append(('-ndebug', ('-DNDEBUG',)))
        with ThreadPoolExecutor(8) as tp:
            jobs = []
            for suf, defs in variants:
                od = os.path.join(wd, 'x' + suf)
                os.makedirs(od)
                jobs += [(suf, tp.submit(extract, ex, tu, od, defs)) for tu in tus]
            outs = [(suf, j.result()) for suf, j in jobs]
        sys.path.insert(0, ROOT)
        for m in MODULES:
            importlib.import_module('contracts.' + m)
        from vc import ir
        for suf, (tu, path, err) in outs:
            if path is None:
                extr_err.append('%s%s: %s' % (tu, suf, err))
                continue
            try:
                PROGS[tu + suf] = ir.Program(path)
            except Exception as e:
                extr_err.append('%s%s: %s' % (tu, suf, e))
        v = Verifier()
        try:
            roots = [(tu + suf, q) for suf, _ in variants for tu, q in P['roots']]
            results = v.verify(roots)
            missing = v.missing
            skip = v.skip
            rootkeys = v.rootkeys
        finally:
            v.close()
    h = None
    if P.get('harness') and not noharness:
        h = run_harness(pid, P['harness'], tier, seed, wd)
    # ---- verdict
    failed, undecided = [], []
    for r in results:
        is_root = (r['tu'], r['key'], r['ci']) in rootkeys
        for o in r['obls']:
            if not o['ok']:
                failed.append((r, o))
        if r['error']:
            undecided.append((r['q'], r['error']))
    for m in missing:
        undecided.append((m, 'missing'))
    for e in extr_err:
        undecided.append(('extraction', e))
    nob = sum(len(r['obls']) for r in results)
    nok = sum(1 for r in results for o in r['obls'] if o['ok'])
    vcs = sum(o['vcs'] for r in results for o in r['obls'])
    if P.get('roots') and not noproof and nob == 0:
        undecided.append(('vacuity', 'no obligation was generated'))
    std, assumed, inl = set(), set(), set()
    st = {'queries': 0, 'time': 0.0, 'cached': 0, 'max': 0.0}
    cross = {}
    for r in results:
        std |= set(r['std'])
        assumed |= set(r['assumed'])
        inl |= set(r['inlined'])
        for k in ('queries', 'time', 'cached'):
            st[k] += r['stats'].get(k, 0)
        st['max'] = max(st['max'], r['stats'].get('max', 0))
        for k, n in r['stats'].items():
            if k.startswith('cross'):
                cross[k] = cross.get(k, 0) + n
    trusted = []
    if results:
        from vc import contract as C
        for r in results:
            for cid, key in r['contracts']:
                for c in C.BY_ID.get(cid, []):
                    if c.trusted and '%s: %s' % (c.id, c.trusted) not in trusted:
                        trusted.append('%s: %s' % (c.id, c.trusted))
    hfail = bool(h and h.get('built') and h.get('rc') not in (0, 'timeout'))
    hnotes = ''
    if h and not h.get('built'):
        notes.append('replay harness does not compile against this tree: ' + h['out'][-300:].replace('\n', ' '))
    violation = None
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    rp = os.path.join(BUILD, 'replay', pid + '.txt')
    if hfail:
        # a crash of the harness is caused by the code under test unless it died outside it
        violation = 'input'
    elif failed:
        violation = 'proof'
    if violation:
        with open(rp, 'w') as f:
            f.write('property %s: %s\n\n' % (pid, P['title']))
            if failed:
                f.write('failed obligations:\n')
                for r, o in failed[:20]:
                    f.write('  %s\n    function %s (%s:%s), source line %s\n    %s\n' % (o['name'], r['q'], r['file'], r['line'], o['loc'], o['detail']))
            else:
                f.write('no obligation failed; the violation was found by executing the code against the specification\n')
            for q, e in undecided[:20]:
                f.write('  undecided: %s: %s\n' % (q, e))
            if hfail:
                f.write('\nfailing input found by executing the real code (exit status %s):\n%s\n%s\n' % (h['rc'], h['out'], h['err']))
                f.write('\nto replay: %s   then run it with VP_SEED=%d VP_TIER=%s VP_DICT=%s\n' % (' '.join(h['cmd']), seed, tier, ','.join(map(str, mine_literals()))))
            else:
                f.write('\nno failing input found by the replay harness (%s)\n' % (h['out'][-500:] if h else 'none'))
    expl = None
    level = P.get('level', 'proof')
    fut = sorted({'%s(%s) [%s]' % (r['q'], ', '.join(r['params']), r['tu']) for r in results})
    hinfo = None
    if h and h.get('built'):
        m = re.findall(r'^COUNT (\S+) (\d+)', h['out'], re.M)
        hinfo = dict((a, int(b)) for a, b in m)
    cov = dict(
        obligations=nob, discharged=nok, verification_conditions=vcs,
        checker_cmd='python3-vt -m vc.check %s --%s  (VC generator in /verif/vc over clang 18 ASTs of /repo; back end Z3 %s, E-matching, no bound)' % (pid, tier, z3ver()),
        trusted_base=['clang 18 front end (AST of the code that is compiled)', 'VC generator /verif/vc', 'Z3']
        + ['assumed library contract: ' + s for s in sorted(std)] + ['assumed contract: ' + s for s in trusted],
        functions_under_contract=fut,
        functions_inlined=sorted(inl),
        helper_contracts_replaced_by_inlining=sorted('%s' % c for c, _ in skip),
        obligation_kinds=kinds(results),
        solver=dict(queries=st['queries'], answered_from_cache=st['cached'], seconds=round(st['time'], 2), slowest=round(st['max'], 2), **cross),
        undischarged=[o['name'] for _, o in failed],
        undecided=['%s: %s' % (a, b[:300]) for a, b in undecided],
        replay_harness=dict(source=P.get('harness'), result=None if not h else ('not built' if not h['built'] else h['rc']), counts=hinfo, label='bounded execution of the real code against the same specification; validates the assumed library contracts and finds failing inputs; never counted as proved'),
        bounded_parts=P.get('bounded', []),
    )
    if level != 'proof':
        cov['explanation'] = P.get('explanation', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=sorted(assumed) + GENERAL + P.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations (%d verification conditions) over %d functions; solver %.1fs; wall %.1fs' % (pid, tier, nok, nob, vcs, len(results), st['time'], time.time() - t0))
    for r, o in failed[:10]:
        print('FAILED-OBLIGATION %s (line %s)' % (o['name'], o['loc']))
    for q, e in undecided[:10]:
        print('UNDECIDED %s: %s' % (q, str(e)[:300]))
    for n in notes:
        print('NOTE', n)
    for c, _ in sorted(skip):
        print('NOTE contract of helper %s not established; its callers were verified with its body instead' % c)
    for line in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, line))
    if hinfo:
        print('replay harness:', hinfo)
    if violation == 'input':
        print(h['out'][-1500:])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if violation == 'proof':
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        return 1
    if undecided:
        print('DEGRADED: part of the proof could not be attempted on this tree; what stands in is bounded, not proved: the replay harness %s' % ('found no failing input' if h and h.get('rc') == 0 else 'gave no answer'))
    return 0


GENERAL = [
    'partial correctness: termination is proved only where a termination obligation is listed',
    'memory allocation succeeds (std::bad_alloc and std::length_error end a call without a result)',
    'reference parameters of one call do not alias each other unless the contract says so',
    'OpenMP loops are given their sequential semantics; that this is right is property C24',
]


def known(pid):
    try:
        for l in open(os.path.join(ROOT, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                yield m.group(2)
    except OSError:
        return


def kinds(results):
    k = {}
    for r in results:
        for o in r['obls']:
            n = o['kind'].split(':')[0]
            k[n] = k.get(n, 0) + 1
    return k


def z3ver():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    try:
        rc = main(sys.argv)
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        print('CHECK-ERROR', e)
        rc = 3
    sys.exit(rc)
