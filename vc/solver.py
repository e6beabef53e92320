"""Queries to Z3 (E-matching only) with fact selection, caching and statistics."""
import time
import os
import z3
from .values import FACTS, syms, _keep

z3.set_param('smt.mbqi', False)
z3.set_param('auto_config', False)

STATS = {'queries': 0, 'time': 0.0, 'cached': 0, 'max': 0.0}
_cache = {}
TIMEOUT = int(os.environ.get('VC_TIMEOUT_MS', '6000'))
LAST = {}
FAST = [0]     # >0 while only the shape of a loop is being discovered: give up quickly


def relevant_facts(names):
    done = set()
    todo = list(names)
    out = []
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        for f in FACTS.get(n, {}).values():
            out.append(f)
            for m in syms(f):
                if m not in done:
                    todo.append(m)
    return out


def build(hyps, goal, nl=False):
    s = z3.Solver()
    s.set('arith.nl', nl)
    s.set('auto_config', False)
    s.set('mbqi', False)
    names = set(syms(goal)) if goal is not None else set()
    for h in hyps:
        names |= syms(h)
    for f in relevant_facts(names):
        s.add(f)
    for h in hyps:
        s.add(h)
    if goal is not None:
        s.add(z3.Not(goal))
    return s


def budget(s, ms):
    """limit the work rather than the time, so that a busy machine does not change the outcome"""
    s.set('rlimit', ms * 6000)
    s.set('timeout', ms * 6)


def alpha_eq(a, b, memo):
    """the terms are equal up to the names of bound variables"""
    if a.eq(b):
        return True
    k = (a.get_id(), b.get_id())
    if k in memo:
        return memo[k]
    r = False
    if z3.is_quantifier(a) and z3.is_quantifier(b):
        r = (a.is_lambda() == b.is_lambda() and a.is_forall() == b.is_forall() and a.num_vars() == b.num_vars()
             and all(a.var_sort(i) == b.var_sort(i) for i in range(a.num_vars())) and alpha_eq(a.body(), b.body(), memo))
    elif z3.is_app(a) and z3.is_app(b) and a.num_args() > 0:
        r = a.decl().eq(b.decl()) and a.num_args() == b.num_args() and all(alpha_eq(a.arg(i), b.arg(i), memo) for i in range(a.num_args()))
    memo[k] = r
    return r


def valid(hyps, goal, timeout=None):
    """True iff hyps |= goal was proved"""
    if z3.is_true(goal):
        return True
    goal_s = z3.simplify(goal)
    if z3.is_true(goal_s):
        return True
    if z3.is_eq(goal) and alpha_eq(goal.arg(0), goal.arg(1), {}):
        return True
    key = (tuple(sorted(h.get_id() for h in hyps)), goal.get_id())
    r = _cache.get(key)
    if r is not None and (r[0] or r[3] >= (timeout or TIMEOUT)):
        STATS['cached'] += 1
        LAST['reason'] = r[4]
        return r[0]
    t0 = time.time()
    if FAST[0]:
        timeout = min(timeout or TIMEOUT, 100)
    s = build(hyps, goal)
    budget(s, timeout or TIMEOUT)
    res = s.check()
    if not FAST[0] and (timeout or TIMEOUT) > 1000 and res != z3.unsat and (nonlinear(goal) or any(nonlinear(h) for h in hyps)):
        s = build(hyps, goal, True)
        budget(s, min(timeout or TIMEOUT, 1500))
        res = s.check()
        STATS['nl'] = STATS.get('nl', 0) + 1
    dt = time.time() - t0
    STATS['queries'] += 1
    STATS['time'] += dt
    STATS['max'] = max(STATS['max'], dt)
    ok = res == z3.unsat
    if not ok and os.environ.get('VC_DUMP') and os.environ['VC_DUMP'] in str(goal):
        with open('/tmp/q.smt2', 'w') as f:
            f.write(build(hyps, goal).to_smt2())
    LAST['result'] = str(res)
    LAST['reason'] = s.reason_unknown() if res == z3.unknown else ''
    if dt > float(os.environ.get("VC_SLOW","2")) and os.environ.get('VC_DEBUG'):
        print('slow query %.1fs %s' % (dt, res), str(goal)[:300])
        if os.environ.get('VC_STACK'):
            import traceback
            print(''.join('%s:%d<' % (f.name, f.lineno) for f in traceback.extract_stack()[-14:]))
    if ok or not FAST[0]:
        _cache[key] = (ok, list(hyps), goal, timeout or TIMEOUT, LAST['reason'])
    return ok


_hasq = {}


def has_quantifier(f):
    r = _hasq.get(f.get_id())
    if r is None:
        seen, todo, found = set(), [f], False
        while todo and not found:
            t = todo.pop()
            if z3.is_quantifier(t):
                found = True
            elif t.get_id() not in seen:
                seen.add(t.get_id())
                todo += t.children()
        r = _hasq[f.get_id()] = (found, f)
    return r[0]


def feasible(hyps, extra, timeout=500, ground=False):
    """False only if hyps and extra are contradictory"""
    e = z3.simplify(extra)
    if z3.is_false(e):
        return False
    if ground:
        s = z3.Solver()
        s.set('rlimit', 2000000)
        s.add(*[h for h in hyps if not has_quantifier(h)])
        s.add(e)
        STATS['queries'] += 1
        return s.check() != z3.unsat
    return not valid(hyps, z3.Not(extra), timeout)


def nonlinear(t, depth=0):
    k = t.get_id()
    r = _nl.get(k)
    if r is None:
        r = False
        if z3.is_app(t):
            d = t.decl().kind()
            if d == z3.Z3_OP_MUL and sum(0 if z3.is_int_value(c) or z3.is_rational_value(c) else 1 for c in t.children()) > 1:
                r = True
            elif d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV, z3.Z3_OP_REM) and not z3.is_int_value(t.arg(1)):
                r = True
            else:
                r = any(nonlinear(c) for c in t.children())
        elif z3.is_quantifier(t):
            r = nonlinear(t.body())
        _nl[k] = r
        _keep.append(t)
    return r


_nl = {}


def smt2(hyps, goal):
    return build(hyps, goal).to_smt2()
