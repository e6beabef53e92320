"""Ghost specification functions: order-preserving filters, existential searches,
concatenations, sets built by insertion, and general recursions.

Each is *defined* (by primitive recursion over the iteration number, or by
enumeration of the indices that satisfy a predicate), so that its axioms are
consistent; loops and contracts share a function when their steps are proved
equal."""
import z3
from .values import *
from . import values as V

_n = [0]


def _new(p):
    _n[0] += 1
    return '%s!%d' % (p, _n[0])


def subk(v, k, t):
    if isinstance(k, z3.ExprRef) and isinstance(t, z3.ExprRef) and k.eq(t):
        return v
    return vsubst(v, [(k, t)])


class FilterSpec:
    """the indices k >= 0 with P(k), enumerated in order: cnt(k) = #{j<k: P(j)}, sel(cnt(k)) = k if P(k)"""
    kind = 'filter'

    def __init__(self, P, ctx=()):
        self.P = P              # python: term -> Bool term
        self.ctx = tuple(ctx)   # enclosing iteration numbers the predicate depends on
        n = _new('filt')
        srt = [c.sort() for c in self.ctx]
        self._cnt = Fn(n + '.cnt', *(srt + [INT, INT]))
        self._sel = Fn(n + '.sel', *(srt + [INT, INT]))
        cs = [z3.Const('ctx%d' % i, s) for i, s in enumerate(srt)]

        def P2(k):
            f = P(k)
            if cs:
                f = z3.substitute(f, *[(a, b) for a, b in zip(self.ctx, cs)])
            return f
        cnt = lambda k: self._cnt(*(cs + [k]))
        sel = lambda k: self._sel(*(cs + [k]))
        k, j = z3.Ints('fk fj')
        A = z3.ForAll
        cn, sn = self._cnt.name(), self._sel.name()
        add_fact(cn, A(cs + [k], z3.Implies(k >= 0, z3.And(cnt(k) >= 0, cnt(k) <= k)), patterns=[cnt(k)]))
        add_fact(cn, A(cs + [j, k], z3.Implies(z3.And(0 <= j, j <= k), z3.And(cnt(j) <= cnt(k), cnt(k) - cnt(j) <= k - j)), patterns=[z3.MultiPattern(cnt(j), cnt(k))]))
        add_fact(cn, z3.ForAll(cs, cnt(I(0)) == 0) if cs else cnt(I(0)) == 0)
        add_fact(sn, A(cs + [j, k], z3.Implies(z3.And(0 <= j, 0 <= k, j < cnt(k)), z3.And(sel(j) >= 0, sel(j) < k, cnt(sel(j)) == j, P2(sel(j)))), patterns=[z3.MultiPattern(sel(j), cnt(k))]))
        pp = [cnt(k)]
        if any(s.startswith('set!') for s in syms(P2(k))):
            # selection by "not seen before": the membership test itself is a trigger
            pp += [p for p in pattern_terms(P2(k), k) if p.decl().name().startswith('set!')][:1]
            add_fact(cn, A(cs + [j, k], z3.Implies(z3.And(0 <= j, j < k, P2(j)), cnt(j) < cnt(k)), patterns=[z3.MultiPattern(cnt(j), cnt(k))]))
        add_fact(cn, A(cs + [k], z3.Implies(z3.And(k >= 0, P2(k)), sel(cnt(k)) == k), patterns=pp))
        add_fact(sn, A(cs + [j, k], z3.Implies(z3.And(0 <= j, j < k), z3.Implies(z3.And(sel(j) >= 0, cnt(sel(j)) == j, cnt(sel(k)) == k, P2(sel(j)), sel(k) >= 0), sel(j) < sel(k))), patterns=[z3.MultiPattern(sel(j), sel(k))]))

    def cnt(self, k):
        if is_num(k) and num(k) == 0:
            return I(0)
        return self._cnt(*(list(self.ctx) + [k]))

    def sel(self, j):
        return self._sel(*(list(self.ctx) + [j]))

    def at_ctx(self, pairs):
        s = object.__new__(FilterSpec)
        s.__dict__ = dict(self.__dict__)
        s.ctx = tuple(z3.substitute(c, *pairs) for c in self.ctx)
        s.P = lambda k: z3.substitute(self.P(k), *pairs)
        return s

    def step(self, k):
        k1 = z3.simplify(k + 1)
        return z3.And(self.cnt(k1) == self.cnt(k) + z3.If(self.P(k), I(1), I(0)), z3.Implies(self.P(k), self.sel(self.cnt(k)) == k))

    def seq(self, N, E, es=None):
        """the filtered sequence: E(k) for the k < N with P(k), in order"""
        return Seq(self.cnt(N), lambda j: E(self.sel(j)), es)


class ExistsSpec:
    """ex(k) = exists j<k: P(j); w(k) a witness"""
    kind = 'exists'

    def __init__(self, P, ctx=()):
        self.P = P
        self.ctx = tuple(ctx)
        n = _new('ex')
        srt = [c.sort() for c in self.ctx]
        self._ex = Fn(n, *(srt + [INT, BOOL]))
        self._w = Fn(n + '.w', *(srt + [INT, INT]))
        cs = [z3.Const('ctx%d' % i, s) for i, s in enumerate(srt)]
        P2 = lambda k: z3.substitute(P(k), *[(a, b) for a, b in zip(self.ctx, cs)]) if cs else P(k)
        ex = lambda k: self._ex(*(cs + [k]))
        w = lambda k: self._w(*(cs + [k]))
        k, j = z3.Ints('fk fj')
        nm = self._ex.name()
        add_fact(nm, z3.ForAll(cs + [k], z3.Implies(ex(k), z3.And(w(k) >= 0, w(k) < k, P2(w(k)))), patterns=[ex(k)]))
        add_fact(nm, z3.ForAll(cs + [j, k], z3.Implies(z3.And(0 <= j, j <= k, ex(j)), ex(k)), patterns=[z3.MultiPattern(ex(j), ex(k))]))
        # every j < k with P(j) makes it true
        f = z3.Implies(z3.And(0 <= j, j < k, P2(j)), ex(k))
        # patterns: terms of P that contain j, together with ex(k)
        pts = pattern_terms(P2(j), j)
        if pts:
            add_fact(nm, z3.ForAll(cs + [j, k], f, patterns=[z3.MultiPattern(p, ex(k)) for p in pts[:4]]))
        else:
            add_fact(nm, z3.ForAll(cs + [j, k], f, patterns=[z3.MultiPattern(w(j), ex(k))]))

    def ex(self, k):
        if is_num(k) and num(k) == 0:
            return FALSE
        return self._ex(*(list(self.ctx) + [k]))

    def step(self, k):
        k1 = z3.simplify(k + 1)
        return self.ex(k1) == z3.Or(self.ex(k), self.P(k))


def pattern_terms(f, j):
    """smallest uninterpreted applications that contain j directly as an argument"""
    out = []
    seen = set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                if any(a.eq(j) for a in t.children()):
                    if not has_bad(t):
                        out.append(t)
            for c in t.children():
                go(c)
    go(f)
    out.sort(key=lambda t: len(str(t)))
    return out


def has_bad(t):
    """terms with interpreted boolean structure cannot be patterns"""
    for c in t.children():
        if z3.is_app(c):
            if c.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES):
                return True
            if has_bad(c):
                return True
        elif z3.is_quantifier(c):
            return True
    return False


class FlatSpec:
    """concatenation of blocks of m(k) elements: off(k) = sum of m(j), j<k; blk inverse"""
    kind = 'flat'

    def __init__(self, m, ctx=()):
        self.m = m
        self.ctx = tuple(ctx)
        n = _new('flat')
        srt = [c.sort() for c in self.ctx]
        self._off = Fn(n + '.off', *(srt + [INT, INT]))
        self._blk = Fn(n + '.blk', *(srt + [INT, INT]))
        cs = [z3.Const('ctx%d' % i, s) for i, s in enumerate(srt)]
        m2 = lambda k: z3.substitute(m(k), *[(a, b) for a, b in zip(self.ctx, cs)]) if cs else m(k)
        off = lambda k: self._off(*(cs + [k]))
        blk = lambda k: self._blk(*(cs + [k]))
        k, j = z3.Ints('fk fj')
        on, bn = self._off.name(), self._blk.name()
        add_fact(on, z3.ForAll(cs, off(I(0)) == 0) if cs else off(I(0)) == 0)
        add_fact(on, z3.ForAll(cs + [k], z3.Implies(k >= 0, off(k) >= 0), patterns=[off(k)]))
        add_fact(on, z3.ForAll(cs + [j, k], z3.Implies(z3.And(0 <= j, j <= k), off(j) <= off(k)), patterns=[z3.MultiPattern(off(j), off(k))]))
        add_fact(on, z3.ForAll(cs + [j, k], z3.Implies(z3.And(0 <= j, j < k), off(j) + m2(j) <= off(k)), patterns=[z3.MultiPattern(off(j), off(k))]))
        b = blk(j)
        add_fact(bn, z3.ForAll(cs + [j, k], z3.Implies(z3.And(0 <= j, 0 <= k, j < off(k)), z3.And(b >= 0, b < k, off(b) <= j, j < off(b) + m2(b))), patterns=[z3.MultiPattern(b, off(k))]))

    def off(self, k):
        if is_num(k) and num(k) == 0:
            return I(0)
        return self._off(*(list(self.ctx) + [k]))

    def blk(self, j):
        return self._blk(*(list(self.ctx) + [j]))

    def step(self, k):
        k1 = z3.simplify(k + 1)
        t = qvar(INT, 't')
        return z3.And(self.off(k1) == self.off(k) + self.m(k), self.m(k) >= 0,
                      z3.ForAll([t], z3.Implies(z3.And(t >= self.off(k), t < self.off(k) + self.m(k)), self.blk(t) == k), patterns=[self.blk(t)]))

    def seq(self, N, E, es=None):
        def fn(j):
            b = self.blk(j)
            return E(b, j - self.off(b))
        return Seq(self.off(N), fn, es)


class SetSpec:
    """set of the keys E(j), j<k, P(j)"""
    kind = 'set'

    def __init__(self, P, E, ks, keyeq, ctx=()):
        self.P, self.E, self.ks, self.keyeq = P, E, ks, keyeq
        self.ctx = tuple(ctx)
        n = _new('set')
        srt = [c.sort() for c in self.ctx]
        es = [shape_sort(s) for s in flat_shapes(ks)]
        self._has = Fn(n + '.has', *(srt + es + [INT, BOOL]))
        self._w = Fn(n + '.w', *(srt + es + [INT, INT]))
        cs = [z3.Const('ctx%d' % i, s) for i, s in enumerate(srt)]
        pr = [(a, b) for a, b in zip(self.ctx, cs)]
        P2 = lambda k: z3.substitute(P(k), *pr) if cs else P(k)
        E2 = lambda k: vsubst(E(k), pr) if cs else E(k)
        vs = [z3.Const('v%d' % i, s) for i, s in enumerate(es)]
        v = unflat(list(vs), ks)
        k, j = z3.Ints('fk fj')
        has = self._has(*(cs + vs + [k]))
        w = self._w(*(cs + vs + [k]))
        nm = self._has.name()
        # w is the least witness, so nothing equal to E(w) was inserted before it
        hasw = self._has(*(cs + flat(E2(w), ks) + [w]))
        add_fact(nm, z3.ForAll(cs + vs + [k], z3.Implies(has, z3.And(w >= 0, w < k, P2(w), keyeq(v, E2(w)), z3.Not(hasw))), patterns=[has]))
        f = z3.Implies(z3.And(0 <= j, j < k, P2(j), keyeq(v, E2(j))), has)
        e = flat(E2(j), ks)
        pts = pattern_terms(z3.And([x == x2 for x, x2 in zip(e, e)]) if False else z3.And([P2(j)] + [Fn('pat', x.sort(), BOOL)(x) for x in e]), j)
        pts = [p for p in pts if p.decl().name() != 'pat']
        if pts:
            add_fact(nm, z3.ForAll(cs + vs + [k, j], f, patterns=[z3.MultiPattern(p, t) for p in pts[:3] for t in (has, w)]))
        self.mono_added = False

    def has(self, v, k):
        if is_num(k) and num(k) == 0:
            return FALSE
        return self._has(*(list(self.ctx) + flat(v, self.ks) + [k]))

    def step(self, k):
        k1 = z3.simplify(k + 1)
        es = [shape_sort(s) for s in flat_shapes(self.ks)]
        vs = [qvar(s, 'e') for s in es]
        v = unflat(list(vs), self.ks)
        l = self.has(v, k1)
        return z3.ForAll(vs, l == z3.Or(self.has(v, k), z3.And(self.P(k), self.keyeq(v, self.E(k)))), patterns=[l])


def reads_of(ts, j):
    """the smallest applications of uninterpreted functions to j within the terms"""
    out, seen, todo = [], set(), list(ts)
    while todo:
        t = todo.pop(0)
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(z3.eq(a, j) for a in t.children()):
            out.append(t)
        todo += t.children()
    return out


class MapSpec:
    """map built by get[key(k)] = append(E(k)): per key, the filtered sequence of the k with key(k) == key"""
    kind = 'map'

    def __init__(self, P, key, ks, keyeq, ctx=()):
        self.P, self.key, self.ks, self.keyeq = P, key, ks, keyeq
        self.ctx = tuple(ctx)
        n = _new('mapf')
        srt = [c.sort() for c in self.ctx]
        es = [shape_sort(s) for s in flat_shapes(ks)]
        self._cnt = Fn(n + '.cnt', *(srt + es + [INT, INT]))
        self._sel = Fn(n + '.sel', *(srt + es + [INT, INT]))
        cs = [z3.Const('ctx%d' % i, s) for i, s in enumerate(srt)]
        pr = [(a, b) for a, b in zip(self.ctx, cs)]
        P2 = lambda k: z3.substitute(P(k), *pr) if cs else P(k)
        K2 = lambda k: vsubst(key(k), pr) if cs else key(k)
        vs = [z3.Const('v%d' % i, s) for i, s in enumerate(es)]
        v = unflat(list(vs), ks)
        Q = lambda k: z3.And(P2(k), keyeq(v, K2(k)))
        k, j = z3.Ints('fk fj')
        cnt = lambda k: self._cnt(*(cs + vs + [k]))
        sel = lambda k: self._sel(*(cs + vs + [k]))
        b = cs + vs
        cn, sn = self._cnt.name(), self._sel.name()
        A = z3.ForAll
        add_fact(cn, A(b + [k], z3.Implies(k >= 0, z3.And(cnt(k) >= 0, cnt(k) <= k)), patterns=[cnt(k)]))
        add_fact(cn, A(b + [j, k], z3.Implies(z3.And(0 <= j, j <= k), cnt(j) <= cnt(k)), patterns=[z3.MultiPattern(cnt(j), cnt(k))]))
        add_fact(cn, A(b + [j, k], z3.Implies(z3.And(0 <= j, j < k, Q(j)), cnt(j) < cnt(k)), patterns=[z3.MultiPattern(cnt(j), cnt(k))]))
        for t in reads_of(flat(K2(j), ks), j)[:1]:
            try:
                add_fact(cn, A(b + [j, k], z3.Implies(z3.And(0 <= j, j < k, Q(j)), cnt(k) > 0), patterns=[z3.MultiPattern(cnt(k), t)]))
            except z3.Z3Exception:
                pass
        add_fact(cn, A(b, cnt(I(0)) == 0, patterns=[cnt(I(0))]))
        add_fact(sn, A(b + [j, k], z3.Implies(z3.And(0 <= j, 0 <= k, j < cnt(k)), z3.And(sel(j) >= 0, sel(j) < k, cnt(sel(j)) == j, Q(sel(j)))), patterns=[z3.MultiPattern(sel(j), cnt(k))]))
        add_fact(cn, A(b + [k], z3.Implies(z3.And(k >= 0, Q(k)), sel(cnt(k)) == k), patterns=[cnt(k)]))

    def cnt(self, v, k):
        return self._cnt(*(list(self.ctx) + flat(v, self.ks) + [k]))

    def sel(self, v, j):
        return self._sel(*(list(self.ctx) + flat(v, self.ks) + [j]))

    def Q(self, v, k):
        return z3.And(self.P(k), self.keyeq(v, self.key(k)))

    def step(self, k):
        k1 = z3.simplify(k + 1)
        es = [shape_sort(s) for s in flat_shapes(self.ks)]
        vs = [qvar(s, 'e') for s in es]
        v = unflat(list(vs), self.ks)
        l = self.cnt(v, k1)
        return z3.And(z3.ForAll(vs, l == self.cnt(v, k) + z3.If(self.Q(v, k), I(1), I(0)), patterns=[l]),
                      z3.ForAll(vs, z3.Implies(self.Q(v, k), self.sel(v, self.cnt(v, k)) == k), patterns=[self.cnt(v, k)]))


class RecSpec:
    """h(0) = init, h(k+1) = step(k, h(k)), a tuple of scalars"""
    kind = 'rec'

    def __init__(self, init, step, ctx=()):
        self.init = list(init)
        self.stepf = step
        self.ctx = tuple(ctx)
        n = _new('rec')
        srt = [c.sort() for c in self.ctx]
        self.fs = [Fn('%s.%d' % (n, i), *(srt + [INT, v.sort()])) for i, v in enumerate(self.init)]
        for f, v in zip(self.fs, self.init):
            add_fact(f.name(), f(*(list(self.ctx) + [I(0)])) == v)

    def h(self, i, k):
        return self.fs[i](*(list(self.ctx) + [k]))

    def step(self, k):
        k1 = z3.simplify(k + 1)
        hs = [self.h(i, k) for i in range(len(self.fs))]
        new = self.stepf(k, hs)
        return z3.And([self.h(i, k1) == v for i, v in enumerate(new)])


class ExtSpec:
    """running minimum (sgn=-1) or maximum (sgn=+1) of the real numbers v(0..k-1), starting from init"""
    kind = 'ext'

    def __init__(self, init, v, sgn, ctx=(), ok=None):
        self.init, self.v, self.sgn = init, v, sgn
        self.ctx = tuple(ctx)
        n = _new('ext')
        srt = [c.sort() for c in self.ctx]
        self._h = Fn(n, *(srt + [INT, z3.RealSort()]))
        self._w = Fn(n + '.w', *(srt + [INT, INT]))
        cs = list(self.ctx)
        k, j = z3.Ints('fk fj')
        h, w = self._h(*(cs + [k])), self._w(*(cs + [k]))
        nm = self._h.name()
        le = (lambda a, b: a <= b) if sgn < 0 else (lambda a, b: a >= b)
        add_fact(nm, self._h(*(cs + [I(0)])) == init)
        # every element up to k is bounded by h(k); h(k) is the initial value or an element
        pts = [p for p in pattern_terms(v(j), j) if p.decl().name() != 'ord']
        f = z3.Implies(z3.And(0 <= j, j < k), le(h, v(j)))
        add_fact(nm, z3.ForAll([j, k], f, patterns=[z3.MultiPattern(p, h) for p in pts[:3]]))
        add_fact(nm, z3.ForAll([k], z3.Implies(k >= 0, z3.And(le(h, init), z3.Or(h == init, z3.And(w >= 0, w < k, h == v(w))))), patterns=[h]))

    def h(self, k):
        return self._h(*(list(self.ctx) + [k]))

    def w(self, k):
        return self._w(*(list(self.ctx) + [k]))

    def step(self, k):
        k1 = z3.simplify(k + 1)
        a, b = self.h(k), self.v(k)
        better = b < a if self.sgn < 0 else b > a
        return self.h(k1) == z3.If(better, b, a)

    def candidate(self, l, p, v0):
        """loop-head candidate for a floating-point location"""
        if not (isinstance(p, z3.ExprRef) and p.sort() == D):
            return None
        return lambda vals, k: z3.And(z3.Not(f_nan(vals[l])), f_ord(vals[l]) == self.h(k))
