"""radius_search.h"""
from .common import *
from .lib_data2 import finite_pts
from vc.values import Unsupported
from .lib_geo import VI, V, IJK, mkvi, vieq, voxels_of, U64
from vc.values import MapV, Ptr, Closure, LV, Opaque

RS, PT = 'spoc::radius_search::', 'spoc::point::'
NB = ('seq', U64)
LIM = 2 ** 62            # voxel indexes stay away from the ends of the 64-bit range
MANY = 2 ** 58           # fewer neighbor candidates than this
N27 = 27


def sumsq(a, b):
    d = [f_sub(a[f], b[f]) for f in DF]
    return f_add(f_add(f_mul(d[0], d[0]), f_mul(d[1], d[1])), f_mul(d[2], d[2]))


def distance(a, b):
    return Fn("m_sqrt", D, D)(sumsq(a, b))


@contract(PT + 'distance')
def _(c):
    c.ret(distance(c.arg(0), c.arg(1)))


def offset(w):
    """the three offsets of surrounding voxel number w"""
    return w // 9 - 1, w // 3 % 3 - 1, w % 3 - 1


def around(q, mode):
    """the 27 voxels around voxel q"""
    if mode == 'call':
        below = lambda t: If(t < 1, t + (2 ** 64 - 1), t - 1)
    else:
        below = lambda t: z3.simplify((t + (2 ** 64 - 1)) % 2 ** 64)
    wrap = lambda t, o: below(t) if o < 0 else z3.simplify(t + o) if o else t
    return [mkvi(*[wrap(q[f], o) for f, o in zip(IJK, offset(w))]) for w in range(N27)]


def size_of(m, q):
    return If(m.has(q), m.get(q).n, I(0))


def far_from_limits(q):
    return And(*[And(q[f] >= 0, q[f] < LIM) for f in IJK])


def total(cnt):
    t = cnt.at(I(0))
    for w in range(1, N27):
        t = t + cnt.at(I(w))
    return t


def selector(x, c, vim, vi, cnt, left, rng):
    st = c.x.prog
    return Struct(RS + 'random_neighbor_selector', dict(neighbor_vim=vim, total_voxels=I(N27), voxel_indexes=vi, voxel_counts=cnt, total_points_left=left, rng=rng))


@contract(RS + 'random_neighbor_selector::random_neighbor_selector')
def _(c):
    q, m = c.arg(0), c.arg(1)
    c.require(far_from_limits(q), 'voxel index below 2^62')
    vi = around(q, c.mode)
    for v in vi:
        c.require(size_of(m, v) < MANY, 'fewer than 2^58 candidates per voxel')
    t = c.this_lv
    sizes = lit_seq([size_of(m, v) for v in vi], U64)
    c.post(t.f('neighbor_vim'), Ptr(c.lv(1)))
    c.post(t.f('voxel_indexes'), lit_seq(vi, VI))
    c.post(t.f('voxel_counts'), sizes)
    c.post(t.f('total_points_left'), total(sizes))
    c.post(t.f('rng'), Opaque('rng'))


def symbolic_selector(x, fn):
    """an arbitrary selector over an arbitrary map"""
    types = x.prog.types
    fs = {f['name']: x.prog.deref(f['type']) for f in types[fn['cls']]['fields']}
    m = x.newcell(x.fresh(x.prog.shape(fs['neighbor_vim']), 'vim'), 'vim')
    v = {n: Ptr(m) if n == 'neighbor_vim' else Opaque('rng') if n == 'rng' else x.fresh(x.prog.shape(t), n) for n, t in fs.items()}
    return {'this': x.newcell(Struct(RS + 'random_neighbor_selector', v), 'this')}


@contract(RS + 'random_neighbor_selector::get_total_points_left', setup=symbolic_selector)
def _(c):
    c.ret(c.this['total_points_left'])


def consistent(c, s, m):
    """what the selector keeps true: at most the points of each voxel are left, and their number is the sum"""
    vi, cnt = s['voxel_indexes'], s['voxel_counts']
    fs = [('27 voxels', And(vi.n == N27, cnt.n == N27)), ('points left', s['total_points_left'] == total(cnt))]
    for w in range(N27):
        fs.append(('points left in a voxel', And(cnt.at(I(w)) >= 0, cnt.at(I(w)) <= size_of(m, vi.at(I(w))), cnt.at(I(w)) < MANY)))
    return fs


@contract(RS + 'random_neighbor_selector::operator()', setup=symbolic_selector)
def _(c):
    x, s, t = c.x, c.this, c.this_lv
    m = x.peek(s['neighbor_vim'].target())
    vi, cnt, left = s['voxel_indexes'], s['voxel_counts'], s['total_points_left']
    for label, f in consistent(c, s, m):
        c.require(f, label)
    c.require(left > 0, 'points are left')

    def pulled(w):
        return m.get(vi.at(w)).at(cnt.at(w) - 1)
    if c.mode == 'call':
        # the voxel that is chosen, its number and how many of its points were left
        v, n, u = x.fresh(U64, 'chosen'), x.fresh(U64, 'left'), x.fresh(VI, 'voxel')
        c.facts.append(And(v >= 0, v < N27, n > 0))
        c.facts.append(Or(*[And(v == w, n == cnt.at(I(w)), vieq(u, vi.at(I(w)))) for w in range(N27)]))
        c.post(t.f('voxel_counts'), Seq(I(N27), lambda w: If(w == v, cnt.at(w) - 1, cnt.at(w)), U64))
        c.post(t.f('total_points_left'), left - 1)
        c.ret(m.get(u).at(n - 1))
        return
    # partial sums of the counts
    P = Fn('rs!sum', z3.IntSort(), z3.IntSort())
    w = z3.Int('w')
    c.facts.append(P(I(0)) == 0)
    c.facts.append(z3.ForAll([w], Implies(And(w >= 0, w < N27), And(P(w + 1) == P(w) + cnt.at(w), P(w) >= 0)), patterns=[cnt.at(w)]))
    for k in range(N27):
        c.facts.append(P(I(k + 1)) == P(I(k)) + cnt.at(I(k)))

    def chosen(L):
        """the voxel number a and the cumulative count b of a search for the voxel that holds the point number r"""
        ints = [l for l in L.M if isinstance(L.v0s[l], z3.ExprRef) and z3.is_int(L.v0s[l])]
        rs = [v for n, v in L.base.store.items() if isinstance(v, z3.ExprRef) and z3.is_int(v) and not is_num(v) and all(n != l[0] for l in L.M)]
        return [lambda v, k, a=a, b=b, r=r: And(v[a] >= 0, v[a] < N27, v[b] == P(v[a] + 1), Or(P(v[a]) == 0, P(v[a]) < r)) for a in ints for b in ints for r in rs if a != b][:12]
    c.template(chosen)

    def rel(r):
        now = x.peek(t)
        c2 = now['voxel_counts']
        one = [And(cnt.at(I(v)) > 0, r == pulled(I(v)), *[c2.at(I(k)) == cnt.at(I(k)) - (1 if k == v else 0) for k in range(N27)]) for v in range(N27)]
        return [('27 counts', c2.n == N27), ('one point fewer', now['total_points_left'] == left - 1), ('last point left of a voxel is pulled', Or(*one))]
    c.ret_rel(U64, rel)
    c.havoc += [t.f(f) for f in ('voxel_counts', 'total_points_left')]


def near(ijk, q):
    """q is one of the 27 voxels around ijk"""
    return And(*[And(q[f] - ijk[f] <= 1, ijk[f] - q[f] <= 1) for f in IJK])


def ghosts(c, m):
    """voxel and position within the voxel of each candidate"""
    src = getattr(m, 'src', None)
    if c.mode == 'call':
        if src is None:
            raise Unsupported('map of unknown origin')
        sp, v = src
        return v.at, lambda j: sp.cnt(v.at(j), j)
    key = [Fn('rs!key.' + f, z3.IntSort(), z3.IntSort()) for f in IJK]
    rank = Fn('rs!rank', z3.IntSort(), z3.IntSort())
    return lambda j: mkvi(*[f(j) for f in key]), rank


def found(ijk, key, close, limit, n, r, full, pat):
    """what the result r promises"""
    a, b, j = z3.Ints('ra rb rj')
    at = r.at
    one = at(a)
    good = Implies(And(a >= 0, a < r.n), And(one >= 0, one < n, near(ijk, key(one)), close(one)))
    diff = Implies(And(a >= 0, a < b, b < r.n), at(a) != at(b))
    alls = Implies(And(full, j >= 0, j < n, near(ijk, key(j)), close(j)), z3.Exists([a], And(a >= 0, a < r.n, at(a) == j)))
    return [('at most the allowed number', r.n <= limit), ('eligible and within the radius', z3.ForAll([a], good, patterns=pats(at(a)))),
            ('no neighbor twice', z3.ForAll([a, b], diff, patterns=pats(at(a), at(b)))), ('every neighbor is found', z3.ForAll([j], alls, patterns=pats(pat(j))))]


@contract(RS + 'get_neighbors')
def _(c):
    x = c.x
    i, pts, pi, ni, pv, m, radius, limit = [c.arg(k) for k in range(8)]
    key, rank = ghosts(c, m)
    c.require(And(i < pv.n, i < pi.n), 'index in range')
    ijk = pv.at(i)
    c.require(far_from_limits(ijk), 'voxel index below 2^62')
    c.require(pi.at(i) < pts.n, 'point in range')
    j, t = z3.Ints('nj nt')
    q = mkvi(*z3.Ints('qi qj qk'))
    qs = [q[f] for f in IJK]
    e = m.get(q)
    c.require(And(ni.n < MANY, forall(I(0), ni.n, lambda j: And(ni.at(j) < pts.n, far_from_limits(key(j))), lambda j: ni.at(j))), 'candidates in range')
    # the map lists each candidate once, under its voxel
    c.require(z3.ForAll(qs + [t], Implies(And(m.has(q), t >= 0, t < e.n), And(e.at(t) >= 0, e.at(t) < ni.n, vieq(key(e.at(t)), q), rank(e.at(t)) == t)), patterns=pats(e.at(t))), 'listed candidates')
    c.require(z3.ForAll(qs, Implies(m.has(q), And(e.n >= 0, e.n <= ni.n)), patterns=pats(e.n)), 'sizes')
    ek = m.get(key(j))
    c.require(z3.ForAll([j], Implies(And(j >= 0, j < ni.n), And(m.has(key(j)), rank(j) >= 0, rank(j) < ek.n, ek.at(rank(j)) == j)), patterns=pats(rank(j)) + pats(key(j)['i'])), 'every candidate is listed')
    p = pts.at(pi.at(i))

    def close(j):
        return fle(distance(p, pts.at(ni.at(j))), radius)

    def inv(L):
        sel = [l for l in L.M if isinstance(L.v0s[l], Seq) and l[1] and l[1][-1] == ('f', 'voxel_counts')]
        nb = [l for l in L.M if isinstance(L.v0s[l], Seq) and l not in sel]
        left = [l for l in L.M if l[1] and l[1][-1] == ('f', 'total_points_left')]
        if len(sel) != 1 or not left:
            return []
        sl = sel[0]
        base = L.base.store[sl[0]]
        vi = base['voxel_indexes']
        ring = [vi.at(I(w)) for w in range(N27)]
        cs = [lambda v, k: And(v[sl].n == N27, v[left[0]] == total(v[sl]))]
        cs += [lambda v, k, w=w: And(v[sl].at(I(w)) >= 0, v[sl].at(I(w)) <= size_of(m, vi.at(I(w))), v[sl].at(I(w)) < MANY) for w in range(N27)]

        def pulled(v, j):
            return And(near(ijk, key(j)), *[Implies(vieq(key(j), u), rank(j) >= v[sl].at(I(w))) for w, u in enumerate(ring)])
        for l in nb:
            a, b, j = z3.Ints('ra rb rj')
            cs.append(lambda v, k, l=l: v[l].n <= limit)
            cs.append(lambda v, k, l=l: z3.ForAll([a], Implies(And(a >= 0, a < v[l].n), And(v[l].at(a) >= 0, v[l].at(a) < ni.n, pulled(v, v[l].at(a)), close(v[l].at(a)))), patterns=pats(v[l].at(a))))
            cs.append(lambda v, k, l=l: z3.ForAll([a, b], Implies(And(a >= 0, a < b, b < v[l].n), v[l].at(a) != v[l].at(b)), patterns=pats(v[l].at(a), v[l].at(b))))
            cs.append(lambda v, k, l=l: z3.ForAll([j], Implies(And(j >= 0, j < ni.n, pulled(v, j), close(j)), z3.Exists([a], And(a >= 0, a < v[l].n, v[l].at(a) == j))), patterns=pats(rank(j)) + pats(key(j)['i'])))
        return cs
    c.template(inv)
    c.ret_rel(NB, lambda r: found(ijk, key, close, limit, ni.n, r, r.n < limit, lambda j: f_sub(p['x'], pts.at(ni.at(j))['x'])))


@contract(RS + 'radius_search_get_neighbors')
def _(c):
    p, radius = c.arg(0), c.arg(1)
    c.require(finite_pts(p), 'finite coordinates')
    c.require(p.n < MANY, 'fewer than 2^58 points')
    vox = voxels_of(c, p, radius)
    c.require(forall(I(0), p.n, lambda k: far_from_limits(vox(k)), lambda k: p.at(k)['x']), 'voxel indexes below 2^62')

    def rel(r):
        i = z3.Int('i!rs')
        s = r.at(i)
        fs = found(vox(i), vox, lambda j: fle(distance(p.at(i), p.at(j)), radius), I(32), p.n, s, s.n < 32, lambda j: f_sub(p.at(i)['x'], p.at(j)['x']))
        return [('one list per point', r.n == p.n)] + [(l, z3.ForAll([i], Implies(And(i >= 0, i < p.n), f))) for l, f in fs]
    c.ret_rel(('seq', NB), rel)


def client(c, p, frm, into, radius, limit, out, calls):
    """a client whose operation records the neighbors in out and counts its calls"""
    P = c.arg(p)
    every = Seq(P.n, lambda k: k, U64)
    a = every if frm is None else c.arg(frm)
    b = every if into is None else c.arg(into)
    r, lim, o, n = c.arg(radius), c.arg(limit), c.arg(out), c.arg(calls)
    c.require(finite_pts(P), 'finite coordinates')
    for s in (a, b):
        c.require(forall(I(0), s.n, lambda k: s.at(k) < P.n, lambda k: s.at(k)), 'indexes in range')
    c.require(b.n < MANY, 'fewer than 2^58 candidates')
    c.require(And(o.n >= a.n, n.n >= a.n), 'room for the results')
    c.require(forall(I(0), a.n, lambda k: n.at(k) < MANY, lambda k: n.at(k)), 'call counts do not overflow')
    vox = voxels_of(c, P, r)
    c.require(forall(I(0), P.n, lambda k: far_from_limits(vox(k)), lambda k: P.at(k)['x']), 'voxel indexes below 2^62')
    c.post(c.lv(calls), Seq(n.n, lambda k: If(k < a.n, n.at(k) + 1, n.at(k)), U64))

    def rel(res):
        i, j = z3.Ints('i!rs j!rs')
        s = res.at(i)
        fs = found(vox(a.at(i)), lambda j: vox(b.at(j)), lambda j: fle(distance(P.at(a.at(i)), P.at(b.at(j))), r), lim, b.n, s, s.n < lim, lambda j: f_sub(P.at(a.at(i))['x'], P.at(b.at(j))['x']))
        rest = z3.ForAll([i], Implies(And(i >= a.n, i < o.n), And(s.n == o.at(i).n, z3.ForAll([j], Implies(And(j >= 0, j < s.n), s.at(j) == o.at(i).at(j))))))
        return [('number of lists', res.n == o.n), ('other lists', rest)] + [(l, z3.ForAll([i], Implies(And(i >= 0, i < a.n), f))) for l, f in fs]
    c.post_rel(c.lv(out), ('seq', NB), rel)


C = 'vp_driver::client::'


@contract(C + 'search')
def _(c):
    client(c, 0, 1, 2, 3, 4, 5, 6)


@contract(C + 'search_indexes')
def _(c):
    client(c, 0, 1, 1, 2, 3, 4, 5)


@contract(C + 'search_all_neighbors')
def _(c):
    client(c, 0, 1, None, 2, 3, 4, 5)


@contract(C + 'search_all')
def _(c):
    client(c, 0, None, None, 1, 2, 3, 4)
