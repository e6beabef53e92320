"""voxel.h, subsampling.h, point.h (hash), point_record.h (hash)"""
from .common import *
from .lib_data import pt_eq, rec_eq
from .lib_data2 import finite, finite_pts, extent_specs, DMAX
from .apps import cvt
from vc.contract import lemma
from vc.values import MapV, SetV

V, SS, PT = 'spoc::voxel::', 'spoc::subsampling::', 'spoc::point::'
VI = ('struct', 'spoc::voxel::voxel_index', (('i', ('int', 64, False)), ('j', ('int', 64, False)), ('k', ('int', 64, False))))
IJK = ('i', 'j', 'k')


def mkvi(i, j, k):
    return Struct('spoc::voxel::voxel_index', {'i': i, 'j': j, 'k': k}, VI)


def vieq(a, b):
    return And(*[a[f] == b[f] for f in IJK])


def vox1(d, m, res):
    return cvt(f_div(f_sub(d, m), res), 64)


def voxel(p, m, res):
    """the documented index of a point: (p - min) / res, truncated"""
    return mkvi(*[vox1(p[f], m[f], res) for f in DF])


@contract(V + 'voxel_index::voxel_index', nparams=0, name='voxel_index(0)')
def _(c):
    c.post(c.this_lv, mkvi(I(0), I(0), I(0)))


@contract(V + 'voxel_index::voxel_index', nparams=3, name='voxel_index(3)')
def _(c):
    c.post(c.this_lv, mkvi(c.arg(0), c.arg(1), c.arg(2)))


@contract(V + 'voxel_index::operator==')
def _(c):
    c.ret(vieq(c.this, c.arg(0)))


@contract(V + 'get_voxel_index')
def _(c):
    c.ret(voxel(c.arg(0), c.arg(1), c.arg(2)))


# A double is determined by its ordinal except for the two zeros, and x - 0, its quotient and the
# truncation of that do not depend on the zero's sign.  fofr(r) names one double of ordinal r.
fofr = Fn('fofr', z3.RealSort(), D)
_a, _m, _r = z3.Consts('ga gm gr', D)
add_fact('fofr', z3.ForAll([_m], Implies(Not(f_nan(_m)), And(Not(f_nan(fofr(f_ord(_m)))), f_ord(fofr(f_ord(_m))) == f_ord(_m))), patterns=[fofr(f_ord(_m))]))
_cv = Fn('cvt_u64', D, INT)


def min_real(c, p):
    """ordinals of the smallest coordinates"""
    sp = extent_specs(c, p)
    return {f: sp['minp', f].h(p.n) for f in DF}


def zero_sign(m, r, res):
    """m and fofr(r) are interchangeable in voxel indexes when they compare equal"""
    a = z3.Const('ga', D)
    t = lambda q: _cv(f_div(f_sub(a, q), res))
    return Implies(And(Not(f_nan(m)), f_ord(m) == r), z3.ForAll([a], t(m) == t(fofr(r)), patterns=[f_div(f_sub(a, m), res)]))


def voxels_of(c, p, res):
    """voxel index of each point relative to the smallest coordinates; None-free only for non-empty clouds"""
    r = min_real(c, p)
    m = {f: fofr(r[f]) for f in DF}
    d = z3.Const('gd', D)
    for f in DF:
        t = lambda q: _cv(f_div(f_sub(_a, q), res))
        # instances for every double that compares equal to the minimum
        c.facts.append(z3.ForAll([_a, d], Implies(And(Not(f_nan(d)), f_ord(d) == r[f]), t(d) == t(m[f])), patterns=[t(d)]))
    return lambda k: voxel(p.at(k), m, res)


@contract(V + 'get_voxel_indexes', params=[None, 'extent', None], name='get_voxel_indexes(extent)')
def _(c):
    p, e, res = c.arg(0), c.arg(1), c.arg(2)
    c.ret(cmap(p, lambda q: voxel(q, e['minp'], res), VI))


@contract(V + 'get_voxel_indexes', nparams=2, name='get_voxel_indexes(all)')
def _(c):
    p, res = c.arg(0), c.arg(1)
    c.require(finite_pts(p), 'finite coordinates')
    vox = voxels_of(c, p, res)
    c.ret(Seq(p.n, vox, VI))


@contract(V + 'get_voxel_indexes', params=[None, 'vector', None], name='get_voxel_indexes(some)')
def _(c):
    p, idx, res = c.arg(0), c.arg(1), c.arg(2)
    c.require(finite_pts(p), 'finite coordinates')
    c.require(forall(I(0), idx.n, lambda k: idx.at(k) < p.n), 'indexes in range')
    vox = voxels_of(c, p, res)
    c.ret(Seq(idx.n, lambda k: vox(idx.at(k)), VI))


@contract(V + 'get_voxel_index_set')
def _(c):
    v = c.arg(0)
    sp = S.SetSpec(lambda k: TRUE, lambda k: v.at(k), VI, vieq)
    c.x.specs.append(sp)
    c.ret(SetV(lambda q: sp.has(q, v.n), VI))


@contract(V + 'get_voxel_index_map')
def _(c):
    v = c.arg(0)
    sp = S.MapSpec(lambda k: TRUE, lambda k: v.at(k), VI, vieq)
    c.x.specs.append(sp)
    es = ('int', 64, False)
    m = MapV(lambda q: sp.cnt(q, v.n) > 0, lambda q: Seq(sp.cnt(q, v.n), lambda j: sp.sel(q, j), es), VI, ('seq', es))
    m.src = (sp, v)
    c.ret(m)


# ---------------------------------------------------------------- subsampling
U64 = ('int', 64, False)


def reps(c, key):
    """index functions that may map k to the representative of its key"""
    out = []
    w = c.x.st.store.get('g:rep')
    if w is not None:
        out.append(lambda k: (w(k), TRUE))
    for f in c.x.specs:
        if f.kind != 'filter' or f.ctx:
            continue
        names = syms(f.P(z3.Int('k!rep')))
        for s in c.x.specs:
            if s.kind == 'set' and not s.ctx and s._has.name() in names:
                out.append(lambda k, f=f, s=s: (f.cnt(s._w(*(flat(key(k), s.ks) + [c.n]))), s.has(key(k), c.n)))
    return out


def representatives(c, r, n, key, eq, seed):
    """r holds one index per key; the first one, in order, when no seed is given"""
    out = [('indexes are in range', forall(I(0), r.n, lambda a: And(r.at(a) >= 0, r.at(a) < n), lambda a: r.at(a)))]
    i, j = z3.Ints('ri rj')
    two = lambda f: z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < r.n), f), patterns=[z3.MultiPattern(r.at(i), r.at(j))])
    out.append(('one index per key', two(Not(eq(key(r.at(i)), key(r.at(j)))))))
    k = z3.Int('rk')
    ok = lambda t: And(t >= 0, t < r.n, eq(key(k), key(r.at(t))))
    if c.mode == 'call':
        c.x.st.nfresh += 1
        w = Fn('rep~%d' % c.x.st.nfresh, INT, INT)
        c.x.st.store['g:rep'] = w
        out.append(('every key is represented', z3.ForAll([k], Implies(And(k >= 0, k < n), ok(w(k))), patterns=[w(k)])))
    else:
        c.n = n
        cs = reps(c, key)
        g = Or(*[And(ok(f(k)[0]), f(k)[1]) for f in cs]) if cs else z3.Exists([j], ok(j))
        # the inverse permutation's range is a known fact; stating it names the term for the solver
        hint = [Implies(k < m, q(k) >= 0) for q, m in c.x.st.store.get('g:perms', ())]
        out.append(('every key is represented', z3.ForAll([k], Implies(And(k >= 0, k < n, *hint), g))))
    out.append(('in order without a seed', Implies(seed == 0, two(r.at(i) < r.at(j)))))
    out.append(('the first of its key without a seed', Implies(seed == 0, z3.ForAll([j, k], Implies(And(j >= 0, j < r.n, k >= 0, k < n, eq(key(k), key(r.at(j)))), r.at(j) <= k)))))
    return out


@contract(SS + 'get_subsample_indexes')
def _(c):
    p, res, seed = c.arg(0), c.arg(1), c.arg(2)
    c.require(finite_pts(p), 'finite coordinates')
    vox = voxels_of(c, p, res)
    c.ret_rel(('seq', U64), lambda r: representatives(c, r, p.n, vox, vieq, seed), 'sub')


@contract(SS + 'get_unique_xyz_indexes')
def _(c):
    p, seed = c.arg(0), c.arg(1)
    c.require(forall(I(0), p.n, lambda k: And(*[Not(f_nan(p.at(k)[f])) for f in DF])), 'no NaN coordinates')
    loc = lambda k: Struct('xyz', {f: p.at(k)[f] for f in DF})
    c.ret_rel(('seq', U64), lambda r: representatives(c, r, p.n, loc, pt_eq, seed), 'uniq')


@contract(SS + 'subsample_points')
def _(c):
    p, res, seed = c.arg(0), c.arg(1), c.arg(2)
    c.require(finite_pts(p), 'finite coordinates')
    vox = voxels_of(c, p, res)

    def rel(r):
        w = c.witness(SS + 'get_subsample_indexes') if c.mode == 'verify' else c.x.fresh(('seq', U64), 'w')
        if w is None:
            raise Unsupported('no index sequence')
        if c.mode == 'call':
            c.x.st.store['g:rel:' + SS + 'get_subsample_indexes'] = w
        out = [('indexes: ' + l, f) for l, f in representatives(c, w, p.n, vox, vieq, seed)]
        out.append(('as many points as indexes', r.n == w.n))
        out.append(('the indexed points', forall(I(0), r.n, lambda a: veq(r.at(a), p.at(w.at(a))))))
        return out
    c.ret_rel(c.retshape(), rel, 'sub')


# ---------------------------------------------------------------- hashes
@lemma('voxel-hash')
def _(L):
    a, b = L.fresh(VI, 'a'), L.fresh(VI, 'b')
    L.assume(vieq(a, b))
    h = [L.call(V + 'voxel_index_hash::operator()', [L.cell(v)], this=L.cell(Struct('spoc::voxel::voxel_index_hash', {}))) for v in (a, b)]
    L.prove(h[0] == h[1], 'equal indexes have equal hashes')


@lemma('point-hash')
def _(L):
    s = L.shape('spoc::point::point')
    a, b = L.fresh(s, 'a'), L.fresh(s, 'b')
    L.assume(pt_eq(a, b))
    h = [L.call(PT + 'point_hash::operator()', [L.cell(v)], this=L.cell(Struct('spoc::point::point_hash', {}))) for v in (a, b)]
    L.prove(h[0] == h[1], 'equal points have equal hashes')


@lemma('record-hash')
def _(L):
    s = L.shape('spoc::point_record::point_record')
    a, b = L.fresh(s, 'a'), L.fresh(s, 'b')
    L.assume(rec_eq(a, b))
    h = [L.call('spoc::point_record::point_record_hash::operator()', [L.cell(v)], this=L.cell(Struct('h', {}))) for v in (a, b)]
    fs = L.folds()
    if len(fs) == 2:
        L.induct(lambda k: fs[0].h(0, k) == fs[1].h(0, k), a['extra'].n, 'the combined hashes agree')
    L.prove(h[0] == h[1], 'equal records have equal hashes')


@lemma('point-order')
def _(L):
    s = L.shape('spoc::point::point')
    v = [L.fresh(s, n) for n in 'abc']
    L.assume(And(*[Not(f_nan(p[f])) for p in v for f in DF]))
    lt = lambda i, j: L.call(PT + 'operator<', [L.cell(v[i]), L.cell(v[j])])
    eq = L.call(PT + 'operator==', [L.cell(v[0]), L.cell(v[1])])
    L.prove(Not(lt(0, 0)), 'irreflexive')
    L.prove(Implies(And(lt(0, 1), lt(1, 2)), lt(0, 2)), 'transitive')
    L.prove(Not(And(lt(0, 1), lt(1, 0))), 'asymmetric')
    L.prove(And(Not(lt(0, 1)), Not(lt(1, 0))) == eq, 'unordered exactly when equal')
