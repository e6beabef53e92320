"""Loop invariants.

A loop is reasoned about at an arbitrary iteration number K.  Every location the
body modifies gets a form V_L(k), its value at the head of iteration k:
  linear   V0 + c*k                     map      in-place element update
  count    V0 + #{j<k : P(j)}           append   one element per iteration
  last     value of iteration k-1       filter   element E(j) for the j with P(j)
  exists   flag raised by some j<k      flat     m(j) elements per iteration
  set/map  insertion / append per key   rec      an uninterpreted function of k
Forms are guessed from one generic iteration and then *checked*: V_L(0) equals
the value before the loop, and the body takes V_L(K) to V_L(K+1) on every path.
`rec` locations additionally get candidate invariants (equality with a
specification recursion, bounds, contract templates) that are kept only when
they are initially true and preserved (Houdini)."""
import os
import z3
from .values import *
from . import values as V
from .engine import *
from .specs import *
from . import solver

MAXUNROLL = 300
DEBUG = os.environ.get('VC_LOOPS')


class LoopExit(Exception):
    pass


class Form:
    def __init__(self, kind, at, specs=()):
        self.kind = kind
        self.at = at
        self.specs = list(specs)
        self.coef = None


class Inv:
    pass


def literal_true(node):
    c = node.get('c')
    if node['k'] == 'for' and c is None:
        return True
    while isinstance(c, dict) and c['k'] == 'cast':
        c = c['e']
    return isinstance(c, dict) and (c['k'] == 'bool' and c['v'] or c['k'] == 'int' and c['v'] != '0')


def loop(x, node, cond, body, inc):
    n = 0
    if not literal_true(node) and 'omp' not in node:
        # concrete iterations are simply executed
        while n < MAXUNROLL:
            snap = x.st.copy()
            logs = (len(x.wlog) if x.wlog is not None else 0, len(x.rlog) if x.rlog is not None else 0)
            try:
                c = cond_value(x, cond)
            except Unsupported:
                x.st = snap
                break
            d = x.decide(c) if c is not None else None
            if d is None:
                # undo the evaluation of the condition
                x.st = snap
                if x.wlog is not None:
                    del x.wlog[logs[0]:]
                if x.rlog is not None:
                    del x.rlog[logs[1]:]
                break
            if not d:
                return
            n += 1
            n0 = len(x.st.dec)

            def one():
                try:
                    body()
                except CppContinue:
                    pass
                inc()
            f0 = V.FACTOR[0]
            V.FACTOR[0] = True
            try:
                res = x.explore(one, ('unr', node.get('l'), n, x.trailkey(), x.bump('unr')))
                x.merge_results(res, n0)
            except CppBreak:
                return
            finally:
                V.FACTOR[0] = f0
        else:
            raise Unsupported('loop does not terminate within %d concrete iterations' % MAXUNROLL)
    if x.cfg.get('noloops'):
        raise Unsupported('symbolic loop')
    f0 = V.FACTOR[0]
    V.FACTOR[0] = False
    try:
        symbolic_loop(x, node, cond, body, inc)
    finally:
        V.FACTOR[0] = f0


def cond_value(x, cond):
    """evaluate a loop condition; None when it forks"""
    t = x.trail
    if t is None:
        return cond()
    p0 = t['pos']
    pos, taken, alts, prefix = t['pos'], len(t['taken']), len(t['alts']), t['prefix']
    if t['pos'] < len(t['prefix']):
        # replaying: a fork would consume decisions that belong to it
        c = cond()
        if t['pos'] != p0:
            t['pos'] = p0
            return None
        return c
    c = cond()
    if t['pos'] != p0:
        t['pos'] = p0
        del t['taken'][taken:]
        del t['alts'][alts:]
        return None
    return c


# ------------------------------------------------------------------ locations
def norm_path(path):
    out = []
    for p in path:
        if p[0] == 'i':
            break
        out.append(p)
    return tuple(out)


def peek(store, cell, path):
    v = store[cell]
    for p in path:
        v = v.at(p[1]) if p[0] == 'i' else v.f[p[1]] if isinstance(v, Struct) else v.d[p[1]]
    return v


def poke(x, cell, path, v):
    old = x.st.store[cell]
    x.st.store[cell] = _poke(old, path, v)


def _poke(old, path, v):
    if not path:
        return v
    k = path[0][1]
    if path[0][0] == 'i':
        new = _poke(old.at(k), path[1:], v)
        return Seq(old.n, lambda j: vite(simp_cond(j == k), new, old.at(j)), old.es)
    if isinstance(old, Struct):
        return old.set(k, _poke(old.f[k], path[1:], v))
    return old.set(**{k: _poke(old.d[k], path[1:], v)})


def leaves(store, cell, path):
    v = peek(store, cell, path)
    if isinstance(v, Struct):
        r = []
        for k in v.f:
            r += leaves(store, cell, path + (('f', k),))
        return r
    if isinstance(v, Opaque):
        r = []
        for k, y in v.d.items():
            if isinstance(y, (z3.ExprRef, Struct, Seq, SetV, MapV)) or hasattr(y, 'placeholder'):
                r += leaves(store, cell, path + (('f', k),))
        return r
    return [(cell, path)]


class Refuted(Exception):
    pass


def under(path, pre):
    """path starts with pre"""
    return len(path) >= len(pre) and all(a[0] == b[0] and (a[1] == b[1] if a[0] == 'f' else z3.simplify(a[1] - b[1]).eq(I(0))) for a, b in zip(path, pre))


def add_locs(M, store, wl, fine=()):
    """add newly written locations; True if the set grew.
    fine: locations inside one element of a sequence, the element being the same in every iteration"""
    grew = False
    for cell, path in wl:
        if cell not in store:
            continue
        if cell.startswith('g:') or cell.startswith('strlit'):
            continue
        p = norm_path(path)
        for fc, fp in fine:
            if fc == cell and under(path, fp):
                p = fp + norm_path(path[len(fp):])
                break
            if fc == cell and (under(path, fp[:-1]) or under(fp, norm_path(path))):
                raise Refuted()
        try:
            ls = leaves(store, cell, p)
        except (KeyError, AttributeError):
            ls = [(cell, ())]
        for l in ls:
            if l not in M:
                M[l] = None
                grew = True
    return grew


def locname(l):
    return l[0].split('#')[0] + ''.join('.' + p[1] if p[0] == 'f' else '[%s]' % p[1] for p in l[1])


def placeholder(x, v0, name, ctx, cell, shape=None):
    if hasattr(v0, 'placeholder'):
        return v0.placeholder(x, name, ctx)
    if isinstance(v0, z3.ExprRef):
        if z3.is_int(v0):
            s = shape if shape and shape[0] == 'int' else ('int', 64, True)
            if s[0] == 'int' and shape is None:
                return Fn(name, *([c.sort() for c in ctx] + [INT]))(*ctx)
            return fresh(s, name, ctx)
        if z3.is_bool(v0):
            return fresh(('bool',), name, ctx)
        if v0.sort() == D:
            return fresh(('D',), name, ctx)
    if isinstance(v0, Seq):
        if v0.es is None:
            raise Unsupported('sequence of unknown element type modified in a loop (%s)' % cell)
        return fresh(('seq', v0.es), name, ctx)
    if isinstance(v0, SetV):
        return fresh(('set', v0.ks), name, ctx)
    if isinstance(v0, MapV):
        return fresh(('map', v0.ks, v0.vs), name, ctx)
    if isinstance(v0, Ptr) and v0.idx is not None:
        return Ptr(v0.lv, Fn(name, *([c.sort() for c in ctx] + [INT]))(*ctx), v0.byte, v0.et)
    if isinstance(v0, (FnV, Closure)):
        raise Unsupported('function object modified in a loop')
    if isinstance(v0, Uninit):
        return v0
    raise Unsupported('modified location %s of type %r in a loop' % (cell, type(v0)))


def shape_of(st, l):
    s = st.sh.get(l[0])
    for p in l[1]:
        if p[0] == 'i':
            s = s[1] if s and s[0] == 'seq' else None
            continue
        if s is None or s[0] != 'struct':
            return None
        s = dict(s[2]).get(p[1])
    return s


# ------------------------------------------------------------------ one generic iteration
class Iter1:
    pass


def generic(x, base, M, forms, ph, K, extra, cond, body, inc, tag):
    """explore one iteration from the state at the head of iteration K"""
    x.st = base.copy()
    x.st.ctx = base.ctx + (K,)
    for l in M:
        f = forms.get(l)
        v = f.at(K) if f is not None else ph[l]
        poke(x, l[0], l[1], v)
    x.assume(K >= 0)
    for l in M:
        f = forms.get(l)
        if f is not None and getattr(f, 'coef', None) is not None:
            x.mulfacts(K, f.coef)
    for f in extra:
        x.assume(f)
    g = Iter1()
    g.npc = len(x.st.pc)
    g.ndec = len(x.st.dec)
    g.start = x.st.copy()
    g.cond = []
    saved_w = x.wlog
    g.wl = x.wlog = []

    def one():
        nd = len(x.st.dec)
        c = cond()
        pure = len(x.st.dec) == nd
        if not x.branch(c):
            raise PathDone()
        g.cond.append((c, pure))
        try:
            body()
        except CppContinue:
            pass
        inc()
    try:
        g.res = x.explore(one, tag)
    finally:
        x.wlog = saved_w
    if saved_w is not None:
        pass
    g.normal = [s for s, o in g.res if o[0] == 'norm']
    g.exits = [(s, o) for s, o in g.res if o[0] != 'norm']
    return g


def generic_fast(*a):
    solver.FAST[0] += 1
    try:
        return generic(*a)
    finally:
        solver.FAST[0] -= 1


def guard(s, nd):
    ds = s.dec[nd:]
    return z3.And(ds) if len(ds) > 1 else (ds[0] if ds else TRUE)


def facts_of(s, npc, nd):
    dl = set(f.get_id() for f in s.dec[nd:])
    return [f for f in s.pc[npc:] if f.get_id() not in dl and not any(f.eq(h) for d in s.dec[nd:] if z3.is_and(d) for h in d.children())]


def merged(vals, gs):
    r = vals[-1]
    for v, g in zip(reversed(vals[:-1]), reversed(gs[:-1])):
        r = vite(g, v, r)
    return r


def own(t, names):
    return bool(vsyms(t) & names)


def names_of(ph):
    return frozenset(n for n in vsyms(ph) if '@' in n)


# ------------------------------------------------------------------ detection of forms
def detect(x, l, v0, ph, g, K, ctx):
    posts = [peek(s.store, l[0], l[1]) for s in g.normal]
    gs = [guard(s, g.ndec) for s in g.normal]
    if not posts:
        return Form('const', lambda k: v0)
    if hasattr(ph, 'detect'):
        return ph.detect(x, v0, posts, gs, g, K, ctx)
    mine = ph_names(ph)
    if isinstance(ph, z3.ExprRef):
        return detect_scalar(x, v0, ph, posts, gs, g, K, ctx, mine)
    if isinstance(ph, Ptr):
        if not all(isinstance(p, Ptr) and p.lv.same(ph.lv) for p in posts):
            return None
        f = detect_scalar(x, v0.idx, ph.idx, [p.idx for p in posts], gs, g, K, ctx, mine)
        if f is None:
            return None
        return Form(f.kind, lambda k: Ptr(v0.lv, f.at(k), v0.byte, v0.et), f.specs)
    if isinstance(ph, Seq):
        return detect_seq(x, l, v0, ph, posts, gs, g, K, ctx, mine)
    if isinstance(ph, SetV):
        return detect_set(x, v0, ph, posts, gs, g, K, ctx, mine)
    if isinstance(ph, MapV):
        return detect_map(x, v0, ph, posts, gs, g, K, ctx, mine)
    if isinstance(ph, Uninit):
        return detect_last(x, v0, posts, gs, K, frozenset())
    return None


def ph_names(ph):
    if isinstance(ph, SetV):
        return frozenset()
    if isinstance(ph, MapV):
        return frozenset()
    return frozenset(n for n in vsyms(ph) if '@' in n)


def detect_last(x, v0, posts, gs, K, mine):
    try:
        for p in posts:
            if vsyms(p) & mine or isinstance(p, Uninit):
                return None
        m = merged(posts, gs)
        if vsyms(m) & mine:
            return None
        vsubst(m, [(K, I(0))])
    except Unsupported:
        return None

    def at(k):
        if is_num(k) and num(k) == 0:
            return v0
        prev = vsubst(m, [(K, z3.simplify(k - 1))])
        if isinstance(v0, Uninit):
            return prev if not (is_num(k)) else prev
        return vite(k == 0, v0, prev)
    return Form('last', at)


def detect_scalar(x, v0, ph, posts, gs, g, K, ctx, mine):
    if all(p.eq(ph) for p in posts):
        return Form('const', lambda k: v0)
    if z3.is_int(ph):
        ds = [z3.simplify(p - ph) for p in posts]
        if all(is_num(d) for d in ds):
            vs = set(num(d) for d in ds)
            if len(vs) == 1:
                c = vs.pop()
                return Form('linear', lambda k: z3.simplify(v0 + c * k))
            nz = vs - {0}
            if len(nz) == 1 and 0 in vs:
                c = nz.pop()
                P = z3.Or([gg for gg, d in zip(gs, ds) if num(d) != 0])
                sp = filter_spec(x, P, K, ctx, g)
                return Form('count', lambda k: z3.simplify(v0 + c * sp.cnt(k)), [sp])
        elif len(ds) >= 1 and all(d.eq(ds[0]) for d in ds):
            c = ds[0]
            s = syms(c)
            if not any('@' in n for n in s) and K.decl().name() not in s and not (s & {cc.decl().name() for cc in ()}):
                f = Form('linear', lambda k: v0 + k * c)
                f.coef = c
                return f
        # variable increments: a running sum
        if all(not own(d, mine) for d in ds):
            m = merged(ds, gs)
            if not own(m, mine) and not is_num(m):
                sp = rec_sum(x, v0, m, K, ctx, g)
                return Form('sum', lambda k: v0 if is_num(k) and num(k) == 0 else sp.h(0, k), [sp])
    if z3.is_bool(ph):
        # flag set to a constant on some paths
        setp = [(p, gg) for p, gg in zip(posts, gs) if not p.eq(ph)]
        if all(z3.is_true(p) for p, _ in setp):
            return exists_form(x, v0, z3.Or([gg for _, gg in setp]), K, ctx, g, True)
        if all(z3.is_false(p) for p, _ in setp):
            return exists_form(x, v0, z3.Or([gg for _, gg in setp]), K, ctx, g, False)
        m = merged(posts, gs)
        # ph || P  /  ph && P
        up = z3.simplify(z3.substitute(m, (ph, TRUE)))
        dn = z3.simplify(z3.substitute(m, (ph, FALSE)))
        if not own(up, mine) and not own(dn, mine):
            if z3.is_true(up):
                return exists_form(x, v0, dn, K, ctx, g, True)
            if z3.is_false(dn):
                return exists_form(x, v0, z3.Not(up), K, ctx, g, False)
    return detect_last(x, v0, posts, gs, K, mine)


def exists_form(x, v0, P, K, ctx, g, val):
    Pf = lambda k: z3.substitute(P, (K, k))
    sp = None
    for c in x.specs:
        if c.kind == 'exists' and same_ctx(c, ctx) and x_valid(x, g, c.P(K) == P):
            sp = c
            break
    if sp is None:
        sp = ExistsSpec(Pf, ctx)
        x.specs.append(sp)
    if val:
        return Form('exists', lambda k: z3.Or(v0, sp.ex(k)) if not z3.is_false(v0) else sp.ex(k), [sp])
    return Form('exists', lambda k: z3.And(v0, z3.Not(sp.ex(k))) if not z3.is_true(v0) else z3.Not(sp.ex(k)), [sp])


def same_ctx(c, ctx):
    return len(c.ctx) == len(ctx) and all(a.eq(b) for a, b in zip(c.ctx, ctx))


def x_valid(x, g, f):
    """valid at the head of a generic iteration that is entered"""
    hyps = list(g.start.pc)
    if g.cond and g.cond[0][1]:
        hyps.append(g.cond[0][0])
    return solver.valid(hyps, f, 1500)


def filter_spec(x, P, K, ctx, g):
    P = z3.simplify(P)
    for c in x.specs:
        if c.kind == 'filter' and (not c.ctx or same_ctx(c, ctx)):
            try:
                if x_valid(x, g, c.P(K) == P):
                    return c
            except z3.Z3Exception:
                pass
    sp = FilterSpec(lambda k: z3.substitute(P, (K, k)), ctx)
    x.specs.append(sp)
    return sp


def rec_sum(x, v0, m, K, ctx, g):
    for c in x.specs:
        if c.kind == 'rec' and len(c.init) == 1 and c.init[0].sort() == INT and c.init[0].eq(v0) and same_ctx(c, ctx):
            h = c.h(0, K)
            try:
                if x_valid(x, g, c.stepf(K, [h])[0] == h + m):
                    return c
            except z3.Z3Exception:
                pass
    sp = RecSpec([v0], lambda k, h: [h[0] + z3.substitute(m, (K, k))], ctx)
    x.specs.append(sp)
    return sp


def path_valid(s, f, hyps=(), again=False):
    hyps = list(s.pc) + list(hyps)
    r = solver.valid(hyps, f, 2500)
    if not r and not solver.FAST[0] and again and any(w in solver.LAST.get('reason', '') for w in ('resource', 'canceled', 'timeout')):
        r = solver.valid(hyps, f, 10000)
    return r


def detect_seq(x, l, v0, ph, posts, gs, g, K, ctx, mine):
    if all(p is ph for p in posts):
        return Form('const', lambda k: v0)
    if not all(isinstance(p, Seq) for p in posts):
        return None
    es = v0.es
    ds = [z3.simplify(p.n - ph.n) for p in posts]
    j = Const('j!probe', INT)
    # are the old elements kept?
    kept = []
    for p, s in zip(posts, g.normal):
        if p is ph:
            kept.append(True)
            continue
        f = veq(p.at(j), ph.at(j))
        kept.append(z3.is_true(f) or path_valid(s, f, [j >= 0, j < ph.n]))
    if all(kept):
        if all(is_num(d) for d in ds):
            vals = set(num(d) for d in ds)
            if vals == {0}:
                return Form('const', lambda k: v0)
            if vals == {1}:
                E = merged([p.at(ph.n) for p in posts], gs)
                if not own(E, mine):
                    return append_form(v0, lambda k: subk(E, K, k), es)
            elif vals == {0, 1}:
                sel = [(p, gg) for p, gg, d in zip(posts, gs, ds) if num(d) == 1]
                P = z3.Or([gg for _, gg in sel])
                if own(P, mine):
                    # a guess: conditions on the sequence itself (they exclude exceptions) always hold
                    P = z3.Or([strip_guard(gg, mine) for _, gg in sel])
                E = merged([p.at(ph.n) for p, _ in sel], [gg for _, gg in sel])
                if not own(E, mine) and not own(P, mine):
                    sp = filter_spec(x, P, K, ctx, g)
                    return filter_form(v0, sp, lambda k: subk(E, K, k), es)
            elif len(vals) == 1 and vals.copy().pop() > 1:
                c = vals.pop()
                Es = [merged([p.at(z3.simplify(ph.n + t)) for p in posts], gs) for t in range(c)]
                if not any(own(E, mine) for E in Es):
                    def at(k):
                        def fn(jj):
                            q = z3.simplify(jj - v0.n)
                            kk = z3.simplify(q / c)
                            r = subk(Es[c - 1], K, kk)
                            for t in range(c - 2, -1, -1):
                                r = vite(q % c == t, subk(Es[t], K, kk), r)
                            return vite(jj < v0.n, v0.at(jj), r) if not (is_num(v0.n) and num(v0.n) == 0) else r
                        return Seq(z3.simplify(v0.n + c * k), fn, es)
                    return Form('blocks', at)
        # variable number of elements per iteration
        m = merged(ds, gs)
        if not own(m, mine):
            t = Const('t!probe', INT)
            E = merged([p.at(ph.n + t) for p in posts], gs)
            if not own(E, mine):
                sp = None
                for c in x.specs:
                    if c.kind == 'flat' and same_ctx(c, ctx):
                        try:
                            if x_valid(x, g, c.m(K) == m):
                                sp = c
                                break
                        except z3.Z3Exception:
                            pass
                if sp is None:
                    sp = FlatSpec(lambda k: z3.substitute(m, (K, k)), ctx)
                    x.specs.append(sp)

                def at2(k):
                    def fn(jj):
                        q = jj if is_num(v0.n) and num(v0.n) == 0 else jj - v0.n
                        b = sp.blk(q)
                        r = vsubst(E, [(K, b), (t, q - sp.off(b))])
                        return r if is_num(v0.n) and num(v0.n) == 0 else vite(jj < v0.n, v0.at(jj), r)
                    return Seq(z3.simplify(v0.n + sp.off(k)), fn, es)
                return Form('flat', at2, [sp])
        return None
    # the first element is dropped in every iteration (as long as there is one)
    dropped = bool(posts)
    for p, st in zip(posts, g.normal):
        if p is ph or not path_valid(st, p.n == z3.If(ph.n >= 1, ph.n - 1, I(0))) or not path_valid(st, veq(p.at(j), ph.at(z3.simplify(j + 1))), [j >= 0, j < p.n]):
            dropped = False
            break
    if dropped:
        def at(k):
            m = z3.simplify(z3.If(v0.n >= k, v0.n - k, I(0)))
            return Seq(m, lambda j: v0.at(z3.simplify(k + j)), es)
        return Form('drop', at)
    # in-place updates
    if all(is_num(d) and num(d) == 0 for d in ds):
        idxs = {}
        for cell, path in g.wl:
            if cell == l[0] and under(path, l[1]) and len(path) > len(l[1]) and path[len(l[1])][0] == 'i':
                idx = path[len(l[1])][1]
                idxs[idx.get_id()] = idx
        cand = []
        for idx in idxs.values():
            if own(idx, mine):
                continue
            d = z3.simplify(z3.substitute(idx, (K, K + 1)) - idx)
            if is_num(d) and abs(num(d)) == 1:
                if not any(z3.simplify(idx - c[0]).eq(I(0)) for c in cand):
                    cand.append((idx, num(d)))
        if len(cand) == 1:
            idx, sgn = cand[0]
            ok = True
            for p, s in zip(posts, g.normal):
                if p is ph:
                    continue
                f = veq(p.at(j), ph.at(j))
                if not (z3.is_true(f) or path_valid(s, f, [j >= 0, j < ph.n, j != idx])):
                    ok = False
            if ok:
                E = merged(dontcare([p.at(idx) for p in posts], g.normal), gs)
                a = z3.simplify(z3.substitute(idx, (K, I(0))))
                if not own(E, mine):
                    return map_form(v0, a, sgn, lambda k: subk(E, K, k), es)
                # the element depends on its own old value: retry with the old
                # part of the sequence replaced by its value before the loop
                return PartialMap(v0, ph, a, sgn, es)
    # whole value replaced every iteration
    return detect_last(x, v0, posts, gs, K, mine)


def detect_rows(l, v0, ph, g, K, forms):
    """every iteration sets one column of a sequence of rows"""
    posts = [peek(s.store, l[0], l[1]) for s in g.normal]
    gs = [guard(s, g.ndec) for s in g.normal]
    mine = ph_names(ph)
    j, m = Const('j!probe', INT), Const('m!probe', INT)
    for f in forms.values():
        if f.kind != 'linear':
            continue
        a = f.at(I(0))
        idx = f.at(K)
        if not isinstance(idx, z3.ExprRef) or not z3.simplify(idx - a - K).eq(I(0)):
            continue
        ok = True
        for p, s in zip(posts, g.normal):
            if p is ph:
                continue
            if not (p.n.eq(ph.n) or path_valid(s, p.n == ph.n)):
                return None
            h = [j >= 0, j < ph.n]
            if not path_valid(s, p.at(j).n == ph.at(j).n, h) or not path_valid(s, veq(p.at(j).at(m), ph.at(j).at(m)), h + [m >= 0, m < ph.at(j).n, m != idx]):
                ok = False
                break
        if not ok:
            continue
        E = merged([vsimplify(p.at(j).at(idx), [s]) for p, s in zip(posts, g.normal)], gs)
        E = under_hyps(E, g, [j >= 0, j < ph.n])
        if own(E, mine):
            continue
        ies = ph.es[1]

        def at(k):
            def row(jj):
                r0 = v0.at(jj)
                return Seq(r0.n, lambda mm: vite(inside(mm, a, 1, k), vsubst(E, [(K, z3.simplify(mm - a)), (j, jj)]), r0.at(mm)), ies)
            return Seq(v0.n, row, v0.es)
        return Form('column', at)
    return None


def under_hyps(E, g, hyps):
    """drop the branches that the hypotheses exclude"""
    def go(t):
        if isinstance(t, z3.ExprRef) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            if all(path_valid(s, c, hyps) for s in g.normal):
                return go(a)
            if all(path_valid(s, z3.Not(c), hyps) for s in g.normal):
                return go(b)
        if isinstance(t, Struct):
            return Struct(t.name, {k: go(v) for k, v in t.f.items()}, t.shape)
        return t
    return go(E)


def strip_guard(gg, mine):
    cs = [c for c in split(gg) if not own(c, mine)]
    return z3.And(cs) if cs else TRUE


def dontcare(vals, sts):
    """the elements of a sequence that is empty on a path may be chosen freely there"""
    if len(vals) < 2:
        return vals
    if all(isinstance(v, Struct) for v in vals):
        cols = {f: dontcare([v.f[f] for v in vals], sts) for f in vals[0].f}
        return [Struct(v.name, {f: cols[f][i] for f in v.f}, v.shape) for i, v in enumerate(vals)]
    if all(isinstance(v, Seq) for v in vals):
        empty = [path_valid(s, v.n <= 0) for v, s in zip(vals, sts)]
        if any(empty) and not all(empty):
            r = vals[empty.index(False)]
            return [Seq(v.n, r.fn, v.es) if e else v for v, e in zip(vals, empty)]
    return vals


class PartialMap:
    """intermediate state used while the element expression is being derived"""
    kind = 'partial'

    def __init__(self, v0, ph, a, sgn, es):
        self.v0, self.ph, self.a, self.sgn, self.es = v0, ph, a, sgn, es
        self.specs = []

    def at(self, k):
        v0, ph = self.v0, self.ph
        return Seq(v0.n, lambda jj: vite(self.inside(jj, k), ph.at(jj), v0.at(jj)), self.es)

    def inside(self, jj, k):
        return inside(jj, self.a, self.sgn, k)


def inside(jj, a, sgn, k):
    if sgn > 0:
        lo, hi = a, z3.simplify(a + k)
    else:
        lo, hi = z3.simplify(a - k + 1), z3.simplify(a + 1)
    return simp_cond(z3.And(lo <= jj, jj < hi))


def map_form(v0, a, sgn, E, es):
    def at(k):
        def fn(jj):
            kk = z3.simplify(jj - a) if sgn > 0 else z3.simplify(a - jj)
            return vite(inside(jj, a, sgn, k), E(kk), v0.at(jj))
        return Seq(v0.n, fn, es)
    return Form('map', at)


def append_form(v0, E, es):
    zero = is_num(v0.n) and num(v0.n) == 0

    def at(k):
        if zero:
            return Seq(k, E, es)
        return Seq(z3.simplify(v0.n + k), lambda jj: vite(jj < v0.n, v0.at(jj), E(z3.simplify(jj - v0.n))), es)
    return Form('append', at)


def filter_form(v0, sp, E, es):
    zero = is_num(v0.n) and num(v0.n) == 0

    def at(k):
        if zero:
            return Seq(sp.cnt(k), lambda jj: E(sp.sel(jj)), es)
        return Seq(z3.simplify(v0.n + sp.cnt(k)), lambda jj: vite(jj < v0.n, v0.at(jj), E(sp.sel(z3.simplify(jj - v0.n)))), es)
    return Form('filter', at, [sp])


def detect_set(x, v0, ph, posts, gs, g, K, ctx, mine):
    if all(p is ph for p in posts):
        return Form('const', lambda k: v0)
    P, Es = [], []
    for p, gg in zip(posts, gs):
        chain = []
        q = p
        while q is not ph:
            d = getattr(q, 'der', None)
            if d is None:
                return None
            chain.append(d[1])
            q = d[0]
        if len(chain) > 1:
            return None
        if chain:
            P.append(gg)
            Es.append(chain[0])
    E = merged(Es, P)
    if any('@' in n for n in vsyms(E)):
        return None
    if len(P) == len(posts):
        Pm = TRUE
    else:
        Pm = z3.simplify(z3.Or(P))
    me = K.decl().name() + '.has'
    if any('@' in n and not n.endswith(me) for n in syms(Pm)):
        return None
    ks = v0.ks
    # the guard may say "was not in the set yet"; insertion of a present key is no change
    Pf = lambda k: z3.substitute(Pm, (K, k)) if not z3.is_true(Pm) else TRUE
    Ef = lambda k: subk(E, K, k)
    hasname = None
    sp = None
    for c in x.specs:
        if c.kind == 'set' and same_ctx(c, ctx) and c.ks == ks:
            try:
                if x_valid(x, g, z3.And(c.P(K) == Pm, veq(c.E(K), E))):
                    sp = c
                    break
            except z3.Z3Exception:
                pass
    if any('@' in n for n in syms(Pm)):
        Pm2 = TRUE
        # insertion guarded by absence: as a set, the same as inserting always
        if sp is None:
            for c in x.specs:
                if c.kind == 'set' and same_ctx(c, ctx) and c.ks == ks and z3.is_true(c.P(K)) and x_valid(x, g, veq(c.E(K), E)):
                    sp = c
                    break
        if sp is None:
            Pf = lambda k: TRUE
    if sp is None:
        sp = SetSpec(Pf, Ef, ks, lambda a, b: x.keyeq(a, b, ks), ctx)
        x.specs.append(sp)
    zero = False
    try:
        vs = [qvar(shape_sort(s), 'e') for s in flat_shapes(ks)]
        zero = z3.is_false(v0.has(unflat(list(vs), ks)))
    except Unsupported:
        return None
    return Form('set', lambda k: SetV((lambda v: sp.has(v, k)) if zero else (lambda v: z3.Or(v0.has(v), sp.has(v, k))), ks), [sp])


def detect_map(x, v0, ph, posts, gs, g, K, ctx, mine):
    if all(p is ph for p in posts):
        return Form('const', lambda k: v0)
    ks, vshape = v0.ks, v0.vs
    try:
        vs = [qvar(shape_sort(s), 'e') for s in flat_shapes(ks)]
    except Unsupported:
        return None
    if not z3.is_false(v0.has(unflat(list(vs), ks))):
        return None
    P, keys, new, sts = [], [], [], []
    for p, gg, s in zip(posts, gs, g.normal):
        q = p
        key = val = None
        while q is not ph:
            d = getattr(q, 'der', None)
            if d is None:
                return None
            if key is None:
                key, val = d[1], d[2]
            else:
                f = veq(key, d[1])
                if not (z3.is_true(f) or path_valid(s, f)):
                    return None
            q = d[0]
        if key is not None:
            P.append(gg)
            keys.append(key)
            new.append(val)
            sts.append(s)
    if not P:
        return None
    key = merged(keys, P)
    Pm = TRUE if len(P) == len(posts) else z3.simplify(z3.Or(P))
    if any('@' in n for n in vsyms(key)) or any('@' in n for n in syms(Pm)):
        return None
    sp = None
    for c in x.specs:
        if c.kind == 'map' and same_ctx(c, ctx) and c.ks == ks:
            try:
                if x_valid(x, g, z3.And(c.P(K) == Pm, veq(c.key(K), key))):
                    sp = c
                    break
            except z3.Z3Exception:
                pass
    if sp is None:
        sp = MapSpec((lambda k: TRUE) if z3.is_true(Pm) else (lambda k: z3.substitute(Pm, (K, k))), lambda k: subk(key, K, k), ks, lambda a, b: x.keyeq(a, b, ks), ctx)
        x.specs.append(sp)
    has = lambda v, k: sp.cnt(v, k) > 0
    if vshape[0] == 'seq':
        # appended element
        Es = []
        for kk, v, s in zip(keys, new, sts):
            oldn = z3.If(ph.has(kk), ph.get(kk).n, I(0))
            if not path_valid(s, v.n == oldn + 1):
                return None
            Es.append(v.at(z3.simplify(v.n - 1)))
        E = merged(Es, P)
        # strip the case distinction "v.n-1 < old length"
        e2 = strip_own(E, K, sts, P)
        return Form('map', lambda k: MapV(lambda v: has(v, k), lambda v: Seq(sp.cnt(v, k), lambda jj: subk(e2, K, sp.sel(v, jj)), vshape[1]), ks, vshape), [sp])
    if vshape[0] == 'int':
        for kk, v, s in zip(keys, new, sts):
            old = z3.If(ph.has(kk), ph.get(kk), I(0))
            if not path_valid(s, v == old + 1):
                return None
        return Form('map', lambda k: MapV(lambda v: has(v, k), lambda v: z3.If(has(v, k), sp.cnt(v, k), I(0)), ks, vshape), [sp])
    # last value wins
    return None


def strip_own(E, K, sts, P):
    """simplify the appended element under the path condition"""
    def go(t):
        if isinstance(t, Struct):
            return Struct(t.name, {k: go(v) for k, v in t.f.items()}, t.shape)
        if isinstance(t, z3.ExprRef) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            if any('@' in n for n in syms(c)):
                if all(path_valid(s, z3.Not(c)) for s in sts):
                    return go(b)
                if all(path_valid(s, c) for s in sts):
                    return go(a)
        if isinstance(t, Seq):
            return Seq(go(t.n), lambda j: go(t.at(j)), t.es)
        return t
    return go(E)


# ------------------------------------------------------------------ inference
def infer(x, node, cond, body, inc, name):
    r = infer0(x, node, cond, body, inc, name, ())
    if r.fine:
        try:
            return infer0(x, node, cond, body, inc, name + ('fine',), r.fine)
        except Refuted:
            pass
    return r


def fine_locations(g, recs, ph, kn, K):
    """for sequences without a closed form: the one element that all iterations write inside"""
    out = []
    for l in recs:
        if not isinstance(ph[l], Seq):
            continue
        ps = [p for c, p in g.wl if c == l[0] and under(p, l[1])]
        n = len(l[1])
        if not ps or any(len(p) < n + 2 or p[n][0] != 'i' for p in ps):
            continue
        idx = z3.simplify(ps[0][n][1])
        if any(not z3.simplify(p[n][1] - idx).eq(I(0)) for p in ps):
            continue
        ns = syms(idx)
        if K.decl().name() in ns or any(q.endswith('@' + kn) for q in ns):
            continue
        out.append((l[0], l[1] + (('i', idx),)))
    return out


def infer0(x, node, cond, body, inc, name, fine):
    base = x.st.copy()
    ctx = base.ctx
    base.nfresh += 1
    kn = 'K~%d' % base.nfresh
    K = Fn(kn, *([c.sort() for c in ctx] + [INT]))(*ctx)
    x.quiet += 1
    saved_w, saved_r = x.wlog, x.rlog
    x.rlog = None
    try:
        M = {}
        forms = {}
        rec = set()
        ph = {}

        def mk_ph(l):
            v0 = peek(base.store, l[0], l[1])
            ph[l] = placeholder(x, v0, '%s@%s' % (locname(l), kn), ctx + (K,), locname(l), shape_of(base, l))
        for npass in range(6):
            g = generic_fast(x, base, M, forms, ph, K, [], cond, body, inc, ('loop', name, 'disc', npass))
            if not add_locs(M, base.store, g.wl, fine):
                break
            for l in M:
                if l not in ph:
                    mk_ph(l)
        else:
            raise Unsupported('modified locations do not stabilise')
        partial_tried = set()
        # sequences whose length the body never changes keep their length
        fixedn = {}

        def kept_sizes(l, g, v0):
            """names of the element fields whose sizes the body does not change; None when it changes the length"""
            qs = [(s, peek(s.store, l[0], l[1])) for s in g.normal]
            if not all(isinstance(q, Seq) and (q.n.eq(ph[l].n) or path_valid(s, q.n == ph[l].n)) for s, q in qs):
                return None
            names = []
            if v0.es and v0.es[0] == 'struct':
                j = Const('j!sz', INT)
                for fname, fs in v0.es[2]:
                    if fs[0] != 'seq':
                        continue
                    if all(path_valid(s, q.at(j)[fname].n == ph[l].at(j)[fname].n, [j >= 0, j < q.n]) for s, q in qs):
                        names.append(fname)
            elif v0.es and v0.es[0] == 'seq':
                j = Const('j!sz', INT)
                if all(path_valid(s, q.at(j).n == ph[l].at(j).n, [j >= 0, j < q.n]) for s, q in qs):
                    names.append('*')
            return names

        def fix_sizes(p, v0, names):
            def at(j):
                e = p.at(j)
                for f in names:
                    if f == '*':
                        e = Seq(v0.at(j).n, e.fn, e.es)
                        continue
                    q = e[f]
                    e = e.set(f, Seq(v0.at(j)[f].n, q.fn, q.es))
                return e
            return Seq(v0.n, at if names else p.fn, p.es)
        solver.FAST[0] += 1
        for l in M:
            p = ph[l]
            v0 = peek(base.store, l[0], l[1])
            if isinstance(p, Seq) and isinstance(v0, Seq) and g.normal:
                try:
                    names = kept_sizes(l, g, v0)
                except Unsupported:
                    names = None
                if names is not None:
                    fixedn[l] = (p, names)
                    ph[l] = fix_sizes(p, v0, names)
        solver.FAST[0] -= 1
        if fixedn:
            g = generic_fast(x, base, M, forms, ph, K, [], cond, body, inc, ('loop', name, 'disc2'))
        for npass in range(8):
            new = {}
            for l in M:
                if l in rec or (l in forms and not isinstance(forms[l], PartialMap)):
                    continue
                v0 = peek(base.store, l[0], l[1])
                if isinstance(forms.get(l), PartialMap):
                    f = finish_partial(x, l, forms[l], g, K)
                else:
                    f = detect(x, l, v0, ph[l], g, K, ctx)
                    if f is None and isinstance(ph[l], Seq) and ph[l].es and ph[l].es[0] == 'seq':
                        f = detect_rows(l, v0, ph[l], g, K, forms)
                if isinstance(f, PartialMap):
                    if l in partial_tried:
                        f = None
                    partial_tried.add(l)
                if f is None:
                    if l in forms:
                        del forms[l]
                        rec.add(l)
                    continue
                new[l] = f
            if not new:
                break
            forms.update(new)
            # forms that mention a placeholder that has a closed form now are derived again
            closed = set()
            for l in forms:
                if not isinstance(forms[l], PartialMap):
                    closed |= ph_names2(ph[l])
            for l in list(forms):
                if isinstance(forms[l], PartialMap):
                    continue
                try:
                    used = vsyms(forms[l].at(Const('k!probe', INT)))
                except Unsupported:
                    used = frozenset()
                for sp in forms[l].specs:
                    used |= spec_syms(sp, K)
                if used & closed and npass < 6 and l in new:
                    del forms[l]
            g = generic(x, base, M, forms, ph, K, [K >= 0], cond, body, inc, ('loop', name, 'det', npass))
        for l in list(forms):
            if isinstance(forms[l], PartialMap):
                del forms[l]
        if DEBUG:
            print('LOOP', name, 'fast' if solver.FAST[0] else '', 'detected', {locname(l): forms[l].kind if l in forms else 'rec' for l in M}, 'sizes', {locname(l): n[1] for l, n in fixedn.items()})
        # check preservation
        hist = None
        for npass in range(8):
            g = generic(x, base, M, forms, ph, K, hist or [], cond, body, inc, ('loop', name, 'chk', npass))
            bad = []
            for l in M:
                f = forms.get(l)
                if f is None or f.kind == 'const' and all(peek(s.store, l[0], l[1]) is peek(g.start.store, l[0], l[1]) for s in g.normal):
                    continue
                want = f.at(z3.simplify(K + 1))
                st = [sp.step(K) for sp in f.specs]
                for s in g.normal:
                    if not same_value(x, s, peek(s.store, l[0], l[1]), want, st):
                        bad.append(l)
                        break
            reset = False
            for l in list(fixedn):
                if l in forms:
                    continue
                v0 = peek(base.store, l[0], l[1])
                names = kept_sizes(l, g, v0)
                p, old = fixedn[l]
                if names is None:
                    ph[l] = p
                    del fixedn[l]
                    reset = True
                elif any(f not in names for f in old):
                    fixedn[l] = (p, [f for f in old if f in names])
                    ph[l] = fix_sizes(p, v0, fixedn[l][1])
                    reset = True
            if reset:
                hist = None
                continue
            h2 = history(x, g, K, forms, ph, M)
            if bad:
                if DEBUG:
                    print('LOOP', name, 'fast' if solver.FAST[0] else '', 'not preserved', [locname(l) for l in bad])
                for l in bad:
                    del forms[l]
                hist = None
                continue
            if hist is None and h2:
                hist = h2
                # one more pass with the history available
                continue
            break
        else:
            raise Unsupported('loop forms do not stabilise')
        if hist is None:
            hist = []
        recs = [l for l in M if l not in forms]
        split = [] if fine else fine_locations(g, recs, ph, kn, K)
        cands = [] if split else houdini(x, base, M, forms, ph, K, hist, recs, cond, body, inc, name, ctx, node)
    finally:
        x.quiet -= 1
        x.wlog, x.rlog = saved_w, saved_r
        x.st = base
    r = Inv()
    r.fine = split
    r.K, r.M, r.forms, r.ph, r.hist, r.cands, r.recs = K, list(M), forms, ph, hist, cands, recs
    r.specs = []
    for f in forms.values():
        r.specs += f.specs
    r.specs += [sp for sp in x.specs if any(c[1] is sp for c in cands) and not any(sp is q for q in r.specs)]
    return r


def spec_syms(sp, K):
    try:
        if sp.kind in ('filter', 'exists'):
            return syms(sp.P(K))
        if sp.kind == 'flat':
            return syms(sp.m(K))
        if sp.kind == 'rec':
            r = frozenset()
            for v in sp.stepf(K, [sp.h(i, K) for i in range(len(sp.fs))]):
                r |= syms(v)
            return r
    except (Unsupported, z3.Z3Exception, AttributeError):
        pass
    return frozenset()


def ph_names2(ph):
    if isinstance(ph, (SetV, MapV)):
        try:
            v = unflat([qvar(shape_sort(t), 'e') for t in flat_shapes(ph.ks)], ph.ks)
            return frozenset(n for n in syms(ph.has(v)) if '@' in n)
        except Unsupported:
            return frozenset()
    try:
        return frozenset(n for n in vsyms(ph) if '@' in n)
    except Unsupported:
        return frozenset()


def finish_partial(x, l, pm, g, K):
    posts = [peek(s.store, l[0], l[1]) for s in g.normal]
    gs = [guard(s, g.ndec) for s in g.normal]
    idx = z3.simplify(pm.a + K) if pm.sgn > 0 else z3.simplify(pm.a - K)
    E = merged(dontcare([p.at(idx) for p in posts], g.normal), gs)
    mine = ph_names(pm.ph)
    E = vsimplify(E, [s for s in g.normal])
    if own(E, mine):
        return None
    return map_form(pm.v0, pm.a, pm.sgn, lambda k: subk(E, K, k), pm.es)


def vsimplify(v, sts):
    if isinstance(v, z3.ExprRef):
        return z3.simplify(v, blast_distinct=False) if any('@' in n for n in syms(v)) else v
    if isinstance(v, Struct):
        return Struct(v.name, {k: vsimplify(y, sts) for k, y in v.f.items()}, v.shape)
    if isinstance(v, Seq):
        return Seq(vsimplify(v.n, sts), lambda j: vsimplify(v.at(j), sts), v.es)
    return v


def same_value(x, s, got, want, steps):
    if got is want:
        return True
    if hasattr(got, 'same_as'):
        return got.same_as(x, s, want, steps)
    if isinstance(got, Uninit) or isinstance(want, Uninit):
        return isinstance(got, Uninit) and isinstance(want, Uninit)
    try:
        if isinstance(got, Seq) and isinstance(want, Seq):
            if not path_valid(s, got.n == want.n, steps):
                return False
            j = Const('j!sv', INT)
            hy = steps + [j >= 0, j < want.n]
            return all(path_valid(s, f, hy) for f in split(veq(got.at(j), want.at(j))))
        if isinstance(got, SetV) and isinstance(want, SetV):
            vs = [qvar(shape_sort(t), 'e') for t in flat_shapes(got.ks)]
            v = unflat(list(vs), got.ks)
            return path_valid(s, got.has(v) == want.has(v), steps)
        if isinstance(got, MapV) and isinstance(want, MapV):
            vs = [qvar(shape_sort(t), 'e') for t in flat_shapes(got.ks)]
            v = unflat(list(vs), got.ks)
            if not path_valid(s, got.has(v) == want.has(v), steps):
                return False
            a, b = got.get(v), want.get(v)
            if isinstance(a, Seq):
                j = Const('j!sv', INT)
                if not path_valid(s, z3.Implies(got.has(v), a.n == b.n), steps):
                    return False
                return all(path_valid(s, f, steps + [got.has(v), j >= 0, j < b.n]) for f in split(veq(a.at(j), b.at(j))))
            return path_valid(s, z3.Implies(got.has(v), veq(a, b)), steps)
        return all(path_valid(s, f, steps) for f in split(veq(got, want)))
    except Unsupported:
        return False


def split(f):
    if z3.is_and(f):
        r = []
        for c in f.children():
            r += split(c)
        return r
    return [f]


def earlier(f, K):
    """an invariant at the heads of all the iterations before K"""
    j = z3.Int('j!h')
    q = z3.substitute(z3.simplify(f), (K, j))
    pts = [t for t in pattern_terms(q, j) if '@' in t.decl().name()]
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < K), q), patterns=pts[:2]) if pts else None


def history(x, g, K, forms, ph, M):
    """what is known because iterations 0..K-1 were normal iterations"""
    if not g.normal:
        return []
    parts = []
    pure = g.cond and all(p for _, p in g.cond) and all(c.eq(g.cond[0][0]) for c, _ in g.cond)
    if pure:
        parts.append(g.cond[0][0])
        for s, o in g.exits:
            parts.append(z3.Not(guard(s, g.ndec)))
    else:
        gs = [guard(s, g.ndec) for s in g.normal]
        parts.append(z3.Or(gs) if len(gs) > 1 else gs[0])
    for s in g.normal:
        gd = guard(s, g.ndec)
        fs = [f for f in facts_of(s, g.npc, g.ndec) if K.decl().name() in syms(f) or any(True for n in syms(f) if '~' in n)]
        for f in fs[:12]:
            parts.append(f if len(g.normal) == 1 and not g.exits else z3.Implies(gd, f))
    out = []
    Km1 = z3.simplify(K - 1)
    j = z3.Int('j!h')
    for p in parts:
        p = z3.simplify(p)
        if z3.is_true(p):
            continue
        out.append(z3.Implies(K > 0, z3.substitute(p, (K, Km1))))
        q = z3.substitute(p, (K, j))
        pts = pattern_terms(q, j)
        if not pts:
            f = nested_fact(q, j, K)
            if f is not None:
                out.append(f)
            continue
        body = z3.Implies(z3.And(j >= 0, j < K), q)
        try:
            out.append(z3.ForAll([j], body, patterns=pts[:4]))
        except z3.Z3Exception:
            out.append(z3.ForAll([j], body))
    return out


def nested_fact(q, j, K):
    """a quantified fact about iteration j, for every j < K, with the triggers of the inner quantifier"""
    hyp = [j >= 0, j < K]
    while z3.is_implies(q):
        hyp.append(q.arg(0))
        q = q.arg(1)
    if not (z3.is_quantifier(q) and q.is_forall() and q.num_patterns()):
        return None
    vs = [z3.Const(q.var_name(i) + '!h', q.var_sort(i)) for i in range(q.num_vars())]
    inst = lambda t: z3.substitute_vars(t, *reversed(vs))
    ps = []
    for i in range(q.num_patterns()):
        ts = [inst(t) for t in q.pattern(i).children()]
        if any(j.decl().name() in syms(t) for t in ts):
            ps.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
    if not ps:
        return None
    return z3.ForAll([j] + vs, z3.Implies(z3.And(hyp), inst(q.body())), patterns=ps)


class LoopView:
    """what a contract-supplied template sees: values by name at the loop head"""

    def __init__(self, x, inv_vals, K, base, node):
        self.vals = inv_vals
        self.K = K
        self.x = x
        self.base = base
        self.node = node

    def get(self, name, default=None):
        return self.vals.get(name, default)


def add_folds(x, base, M, forms, ph, K, hist, recs, cond, body, inc, name, ctx):
    """scalars whose new value depends on nothing but their old one and the iteration number
    are named by a recursion of their own, so that a lemma can reason about them by induction"""
    if not any(isinstance(ph[l], z3.ExprRef) for l in recs):
        return
    g = generic(x, base, M, forms, ph, K, list(hist), cond, body, inc, ('loop', name, 'fold'))
    for l in recs:
        p, v0 = ph[l], peek(base.store, l[0], l[1])
        if not isinstance(p, z3.ExprRef) or not g.normal:
            continue
        m = merged([peek(s.store, l[0], l[1]) for s in g.normal], [guard(s, g.ndec) for s in g.normal])
        if any('@' in n and n not in ph_names(p) for n in syms(m)):
            continue
        x.specs.append(RecSpec([v0], lambda k, h, m=m, p=p: [z3.substitute(m, (p, h[0]), (K, k))], ctx))


def houdini(x, base, M, forms, ph, K, hist, recs, cond, body, inc, name, ctx, node):
    """candidate invariants over `rec` locations: list of (function value-dict -> formula, tag)"""
    cands = []
    v0s = {l: peek(base.store, l[0], l[1]) for l in M}

    if x.cfg.get('folds'):
        add_folds(x, base, M, forms, ph, K, hist, recs, cond, body, inc, name, ctx)
    for l in recs:
        v0 = v0s[l]
        p = ph[l]
        if isinstance(p, z3.ExprRef):
            if z3.is_int(p):
                cands.append((lambda vals, k, l=l, v0=v0: vals[l] >= v0, None))
                cands.append((lambda vals, k, l=l, v0=v0: vals[l] <= v0, None))
                cands.append((lambda vals, k, l=l, v0=v0: vals[l] - v0 <= k, None))
                cands.append((lambda vals, k, l=l: vals[l] >= 0, None))
                sh = shape_of(base, l)
                for b in int_bounds(base, l):
                    cands.append((lambda vals, k, l=l, b=b: vals[l] <= b, None))
            for sp in x.specs:
                if sp.kind == 'rec' and (not sp.ctx or same_ctx(sp, ctx)):
                    for i in range(len(sp.init)):
                        if sp.init[i].sort() == p.sort():
                            cands.append((lambda vals, k, l=l, sp=sp, i=i: vals[l] == sp.h(i, k), sp))
            for sp in x.specs:
                if hasattr(sp, 'candidate') and (not sp.ctx or same_ctx(sp, ctx)):
                    f = sp.candidate(l, p, v0)
                    if f is not None:
                        cands.append((f, sp))
        elif isinstance(p, Seq):
            cands.append((lambda vals, k, l=l, v0=v0: vals[l].n == v0.n, None))
            cands.append((lambda vals, k, l=l, v0=v0: vals[l].n >= v0.n, None))
            cands.append((lambda vals, k, l=l, v0=v0: vals[l].n - v0.n <= k, None))
        elif isinstance(p, Ptr):
            cands.append((lambda vals, k, l=l, v0=v0: vals[l].idx >= v0.idx, None))
        elif hasattr(p, 'loop_candidates'):
            cands += p.loop_candidates(l, v0, K)
    nauto = len(cands)
    for t in x.templates:
        try:
            cands += [f if isinstance(f, tuple) else (f, None) for f in t(LoopInfo(x, base, M, v0s, K, node))]
        except (KeyError, Unsupported, z3.Z3Exception, AttributeError):
            pass
    if not cands:
        return []
    tmpl = set(id(c) for c in cands[nauto:])

    def values_at(st):
        return {l: peek(st.store, l[0], l[1]) for l in M}
    # initial validity
    base_vals = dict(v0s)
    ok = []
    for c in cands:
        try:
            f = c[0](base_vals, I(0))
        except (Unsupported, KeyError, z3.Z3Exception, AttributeError):
            continue
        if f is not None and solver.valid(base.pc, f, 1500):
            ok.append(c)
        elif os.environ.get('VC_HOU'):
            print('HOU', name, ctx, 'not initial', c[0].__code__.co_firstlineno)
    cands = ok
    while cands:
        head = {l: (forms[l].at(K) if l in forms else ph[l]) for l in M}
        hy = []
        for c in cands:
            hy.append(c[0](head, K))
        g = generic(x, base, M, forms, ph, K, list(hist) + hy, cond, body, inc, ('loop', name, 'hou', len(cands)))
        drop = []
        K1 = z3.simplify(K + 1)
        steps = []
        for sp in set(c[1] for c in cands if c[1] is not None):
            steps.append(sp.step(K))
        for f in forms.values():
            steps += [sp.step(K) for sp in f.specs]
        for i, c in enumerate(cands):
            for s in g.normal:
                try:
                    f = c[0](values_at(s), K1)
                except (Unsupported, KeyError):
                    drop.append(i)
                    break
                if not path_valid(s, f, steps, id(c) in tmpl):
                    drop.append(i)
                    break
        if os.environ.get('VC_HOU'):
            print('HOU', name, ctx, 'kept', [cands[i][0].__code__.co_firstlineno for i in range(len(cands)) if i not in drop], 'dropped', [cands[i][0].__code__.co_firstlineno for i in drop])
        if not drop:
            break
        cands = [c for i, c in enumerate(cands) if i not in drop]
    return cands


def int_bounds(base, l):
    """terms that may bound an integer: other integer variables of the same function and sizes"""
    out = []
    for c, v in list(base.store.items()):
        if isinstance(v, Seq) and not is_num(v.n):
            out.append(v.n)
        elif isinstance(v, z3.ExprRef) and z3.is_int(v) and not is_num(v) and c.split('#')[0] not in ('tmp',):
            out.append(v)
        if len(out) > 12:
            break
    return out


class LoopInfo:
    def __init__(self, x, base, M, v0s, K, node):
        self.x, self.base, self.M, self.v0s, self.K, self.node = x, base, M, v0s, K, node
        self.byname = {locname(l): l for l in M}
        self.ctx = tuple(base.ctx)      # numbers of the enclosing iterations

    def loc(self, name):
        return self.byname[name]

    def has(self, name):
        return name in self.byname


# ------------------------------------------------------------------ the loop itself
def symbolic_loop(x, node, cond, body, inc):
    # after the condition was probed the state is unchanged
    cnt = x.bump('loop')
    key = (x.ctxkey, x.trailkey(), id(node), cnt)
    inv = x.loopcache.get(key)
    if inv is None:
        if DEBUG:
            print('LOOP infer', node.get('l'), cnt, x.trailkey(), [str(d)[:80] for d in x.st.dec])
        inv = infer(x, node, cond, body, inc, (node.get('l'), cnt))
        x.loopcache[key] = inv
        x.nloops = getattr(x, 'nloops', 0) + 1
    K = inv.K
    st = x.st
    st.nfresh += 1
    ctx0 = st.ctx
    if x.wlog is not None:
        for l in inv.M:
            x.wlog.append((l[0], l[1]))
    if not x.quiet:
        record(x, node, inv)
    # base case: V_L(0) is the value before the loop (by construction of the forms)
    st.ctx = ctx0 + (K,)

    def set_state(k):
        for l in inv.M:
            f = inv.forms.get(l)
            poke(x, l[0], l[1], f.at(k) if f is not None else inv.ph[l])
    par = None
    if 'omp' in node and not x.quiet:
        par = region(x, key, node.get('l'), K)
        par.private |= node['omp']
        par.syms = set()
        for f in st.pc:
            par.syms |= syms(f)
        for v in st.store.values():
            try:
                par.syms |= vsyms(v)
            except Unsupported:
                pass
        if not hasattr(par, 'counted'):
            # what the increment writes is the loop variable, private to each iteration
            par.counted = True
            keep, st1, w0 = x.st, x.st.copy(), x.wlog
            x.wlog = []
            x.quiet += 1
            x.st = st1
            try:
                x.explore(inc, ('omp-inc',))
                par.private |= set(l[0] for l in x.wlog)
            finally:
                x.quiet -= 1
                x.wlog = w0
                x.st = keep
    pre = {l: peek(st.store, l[0], l[1]) for l in inv.M}
    set_state(K)
    x.assume(K >= 0)
    for f in inv.forms.values():
        if getattr(f, 'coef', None) is not None:
            x.mulfacts(K, f.coef)
    for h in inv.hist:
        x.assume(h)
    head = {l: peek(x.st.store, l[0], l[1]) for l in inv.M}
    for c in inv.cands:
        f = c[0](head, K)
        x.assume(f)
        # it held at the head of every earlier iteration, too
        if c[1] is not None and c[1].kind == 'rec':
            h = earlier(f, K)
            if h is not None:
                x.assume(h)
    before = dict(x.st.store)
    c = cond()
    pure = all(x.st.store.get(k) is v for k, v in before.items())
    t = exit_count(x, c, K) if pure else None
    if x.branch(c):
        for sp in inv.specs:
            x.assume(sp.step(K))
        try:
            if par is not None:
                par.run(None, body)
            else:
                body()
        except CppContinue:
            pass
        except CppBreak:
            x.st.ctx = ctx0
            return
        inc()
        raise PathDone()
    x.st.ctx = ctx0
    if t is not None and x.valid(K == t) and not inv.recs:
        x.assume(K == t)
        set_state(t)


def record(x, node, inv):
    name = '%s/loop-invariant@%s' % (x.fname, node.get('l'))
    o = x.obls.get(name)
    if o is None:
        o = Obl(name, 'loop-invariant', True, node.get('l'))
        o.time = 0
        o.smt = 0
        o.detail = ', '.join('%s: %s' % (locname(l), inv.forms[l].kind if l in inv.forms else 'rec') for l in inv.M)
        x.obls[name] = o
    o.smt += 2 * len(inv.forms) + len(inv.cands)


def exit_count(x, c, K):
    """the value of K at which a linear condition becomes false"""
    c = z3.simplify(c)
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.arg(0)
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ) or not z3.is_int(c.arg(0)):
        return None
    d = z3.simplify(c.arg(0) - c.arg(1))
    d1 = z3.simplify(z3.substitute(d, (K, I(1))) - z3.substitute(d, (K, I(0))))
    if not is_num(d1) or abs(num(d1)) != 1:
        return None
    d0 = z3.simplify(z3.substitute(d, (K, I(0))))
    if K.decl().name() in syms(d0):
        return None
    root = z3.simplify(-d0) if num(d1) == 1 else d0
    for t in (root, z3.simplify(root + 1), z3.simplify(root - 1)):
        hyps = x.st.pc + [z3.Not(c) if not neg else c]
        if solver.valid(hyps, K == t, 1500):
            return t
    return None


# ------------------------------------------------------------------ OpenMP
# Sequential semantics, plus the obligation that what one iteration (or section) writes is neither read
# nor written by another one.
PRIVATE = ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear')
HARMLESS = ('schedule', 'if', 'num_threads', 'default', 'shared', 'nowait', 'proc_bind', 'safelen', 'simdlen')


def omp(x, s):
    d = s['dir']
    if d in ('parallel for', 'for', 'parallel for simd', 'for simd', 'simd'):
        return parallel_for(x, s)
    if d in ('parallel sections', 'sections'):
        return sections(x, s)
    if d in ('critical', 'atomic'):
        x.locked += 1
        try:
            x.stmt(s['b'])
        finally:
            x.locked -= 1
        return
    if d == 'barrier':
        return
    raise Unsupported('OpenMP directive %s' % d)


def privates(x, s):
    out = set()
    for c in s.get('clauses', []):
        if c['n'] in PRIVATE:
            for v in c['v']:
                lv = x.st.env.get(v)
                if isinstance(lv, LV) and not lv.path:
                    val = x.peek(lv)
                    if c['n'] == 'reduction' and isinstance(val, z3.ExprRef) and val.sort() == D:
                        raise Unsupported('reduction whose rounding depends on the schedule')
                    out.add(lv.cell)
        elif c['n'] == 'collapse':
            raise Unsupported('collapse clause')
        elif c['n'] not in HARMLESS:
            raise Unsupported('OpenMP clause %s' % c['n'])
    return out


def parallel_for(x, s):
    b = s['b']
    while b and b['k'] == 'block' and len(b['b']) == 1:
        b = b['b'][0]
    if not b or b['k'] not in ('for', 'rfor'):
        raise Unsupported('OpenMP loop form')
    if not hasattr(x, 'ompnodes'):
        x.ompnodes = {}
    n = x.ompnodes.get(id(s))
    if n is None:
        n = x.ompnodes[id(s)] = dict(b)
    n['omp'] = privates(x, s)
    x.stmt(n)


class Region:
    """the accesses of one parallel loop or of the sections of one construct"""

    def __init__(self, x, line, K=None):
        self.x, self.line, self.K = x, line, K
        self.log = []
        self.private = set()

    def run(self, part, fn):
        """execute fn as (an iteration / section of) this region"""
        x = self.x
        if x.quiet:
            return fn()
        outer = x.rlog
        x.rlog = []
        npc = len(x.st.pc)
        live = set(x.st.store)
        try:
            return fn()
        finally:
            for a in x.rlog:
                if a[1] in live and a[1] not in self.private and not a[1].startswith('strlit') and not a[1].startswith('g:rel'):
                    self.log.append((part,) + a)
            if outer is not None:
                outer.extend(x.rlog)
            x.rlog = outer


def sections(x, s):
    b = s['b']
    subs = b['b'] if b['k'] == 'block' else [b]
    key = ('sections', s.get('l'), x.trailkey(), tuple(x.ctxkey))
    r = region(x, key, s.get('l'), None)
    r.private |= privates(x, s)
    for i, q in enumerate(subs):
        if q['k'] == 'omp' and q['dir'] == 'section':
            q = q['b']
        r.run(i, lambda: x.stmt(q))


def region(x, key, line, K):
    if not hasattr(x, 'regions'):
        x.regions = {}
    r = x.regions.get(key)
    if r is None:
        r = x.regions[key] = Region(x, line, K)
    return r


def check_races(x):
    """called when all paths of the function have been explored"""
    for r in getattr(x, 'regions', {}).values():
        name = '%s/race@%s' % (x.fname, r.line)
        o = x.obls.get(name)
        if o is None:
            o = Obl(name, 'race', True, r.line)
            o.time, o.smt = 0, 0
            o.detail = 'iterations and sections that run in parallel touch disjoint memory'
            x.obls[name] = o
        seen = set()
        log = []
        for a in r.log:
            k = (a[0], a[1], a[2], a[5] > 0) + tuple((p[0], p[1].get_id() if hasattr(p[1], 'get_id') else p[1]) if len(p) > 1 else p for p in a[3])
            if k not in seen:
                seen.add(k)
                log.append(a)
        writes = [a for a in log if a[1] == 'w']
        for w in writes:
            for a in log:
                if a[2] != w[2] or (r.K is None and a[0] == w[0]):
                    continue
                o.smt += 1
                if not disjoint(x, r, w, a):
                    o.ok = False
                    o.detail = 'line %s writes %s, which line %s of another %s %s' % (w[6], w[2].split('#')[0] + show_path(w[3]), a[6], 'iteration' if r.K is not None else 'section', 'writes' if a[1] == 'w' else 'reads') + (', in an order that is not determined' if w[5] and a[5] else '')
                    break


def show_path(path):
    return ''.join('.' + str(p[1]) if p[0] == 'f' else '[%s]' % str(p[1])[:60].replace('\n', ' ') if p[0] == 'i' else '' for p in path)


def disjoint(x, r, w, a):
    """do the accesses w of one iteration and a of a different iteration touch different memory?"""
    ren = renaming(r, a) if r.K is not None else []
    R = lambda f: z3.substitute(f, *ren) if ren else f
    base = []
    if r.K is not None:
        K2 = R(r.K)
        base = [r.K != K2, r.K >= 0, K2 >= 0]
    pcs = None
    for p, q in zip(w[3], a[3]):
        if p[0] != q[0]:
            return p[0] in ('i', 'len') and q[0] in ('i', 'len')
        if p[0] == 'f':
            if p[1] != q[1]:
                return True
        elif p[0] == 'i':
            s, t = p[1], q[1]
            if isinstance(s, z3.ExprRef) and isinstance(t, z3.ExprRef):
                t = R(t)
                if solver.valid(base, s != t, 1000):
                    return True
                pcs = pcs or list(w[4]) + [R(f) for f in a[4]]
                if solver.valid(base + pcs, s != t, 3000):
                    return True
            elif isinstance(s, (int, str)) and s != t:
                return True
        elif p[0] == 'len':
            break
    pcs = pcs or list(w[4]) + [R(f) for f in a[4]]
    return solver.valid(base + pcs, FALSE, 3000)


def renaming(r, a):
    """symbols of the iteration that the access belongs to, for a second iteration"""
    consts = {}

    def go(t, seen):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                consts[t.decl().name()] = t
            for c in t.children():
                go(c, seen)
        elif z3.is_quantifier(t):
            go(t.body(), seen)
    seen = set()
    for p in a[3]:
        if len(p) > 1 and isinstance(p[1], z3.ExprRef):
            go(p[1], seen)
    for f in a[4]:
        go(f, seen)
    out = []
    for n, t in consts.items():
        if t.eq(r.K) or n not in r.syms:
            out.append((t, z3.Const(n + "''", t.sort())))
    if not any(t.eq(r.K) for t, _ in out):
        out.append((r.K, z3.Const("K''", r.K.sort())))
    return out
