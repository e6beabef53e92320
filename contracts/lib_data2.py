"""header.h, file.h, affine.h, extent.h, utils.h"""
from .common import *
from .lib_data import rec_eq, pt_eq

H, F, A, E, U = 'spoc::header::', 'spoc::file::', 'spoc::affine::', 'spoc::extent::', 'spoc::utils::'
RT = 'std::runtime_error'

SIG = [ord(ch) for ch in 'SPOC']


def sig_ok(h):
    return And(*[h['signature'].at(I(i)) == v for i, v in enumerate(SIG)])


def mkheader(c, shape, maj, mnr, wkt, ef, n, comp):
    sig = lit_seq([I(v) for v in SIG] + [I(0)], ('int', 8, True))
    return Struct('spoc::header::header', {'signature': sig, 'major_version': maj, 'minor_version': mnr, 'wkt': wkt, 'extra_fields': ef, 'total_points': n, 'compressed': If(comp, I(1), I(0))}, shape)


MAJOR, MINOR = I(0), I(2)
EMPTY = lit_seq([], ('int', 8, True))


@contract(H + 'header::header', nparams=6, name='header(6)')
def _(c):
    maj, mnr, wkt, ef, n, comp = [c.arg(i) for i in range(6)]
    c.throw_if(wkt.n > 0xFFFF, 'WKT longer than 65535')
    c.post(c.this_lv, mkheader(c, None, maj, mnr, wkt, ef, n, comp))


def version(c):
    g = c.x.prog.globals
    def val(name):
        for k, v in g.items():
            if k.endswith(name):
                e = v['init']
                while e['k'] != 'int':
                    e = e['e']
                return I(int(e['v']))
        raise Unsupported('no global %s' % name)
    return val('MAJOR_VERSION'), val('MINOR_VERSION')


@contract(H + 'header::header', nparams=4, name='header(4)')
def _(c):
    wkt, ef, n, comp = [c.arg(i) for i in range(4)]
    maj, mnr = version(c)
    c.throw_if(wkt.n > 0xFFFF, 'WKT longer than 65535')
    c.post(c.this_lv, mkheader(c, None, maj, mnr, wkt, ef, n, comp))


@contract(H + 'header::header', nparams=0, name='header(0)')
def _(c):
    maj, mnr = version(c)
    c.post(c.this_lv, mkheader(c, None, maj, mnr, EMPTY, I(0), I(0), FALSE))


@contract(H + 'header::check_signature')
def _(c):
    c.ret(sig_ok(c.this))


@contract(H + 'header::is_valid')
def _(c):
    c.ret(And(sig_ok(c.this), c.this['wkt'].n <= 0xFFFF))


HF = ('major_version', 'minor_version', 'extra_fields', 'total_points', 'compressed')


def hdr_eq(a, b):
    return And(*([a['signature'].at(I(i)) == b['signature'].at(I(i)) for i in range(4)] + [a[f] == b[f] for f in HF] + [veq(a['wkt'], b['wkt'])]))


@contract(H + 'operator==')
def _(c):
    c.ret(hdr_eq(c.arg(0), c.arg(1)))


@contract(H + 'operator!=')
def _(c):
    c.ret(Not(hdr_eq(c.arg(0), c.arg(1))))


# ---------------------------------------------------------------- spoc_file
SF = F + 'spoc_file::'


def same_extra(prs):
    """class invariant: every record has as many extra fields as the first"""
    return Or(prs.n == 0, forall(I(0), prs.n, lambda k: prs.at(k)['extra'].n == prs.at(I(0))['extra'].n))


@contract(F + 'all_same_size_extra')
def _(c):
    c.ret(same_extra(c.arg(0)))


def keep_inv(c, lv=None):
    """the class invariant holds afterwards"""
    if c.mode == 'verify':
        lv = lv or c.this_lv
        c.rels.append(('post', lv, lambda v: [('invariant: equal extra field counts', same_extra(v['prs']))]))


def frel(c, lv=None):
    """assume the invariant on entry"""
    c.require(same_extra(c.x.peek(lv or c.this_lv)['prs']), 'class invariant')


def mkfile(maj, mnr, wkt, comp, prs):
    return Struct('spoc::file::spoc_file', {'major_version': maj, 'minor_version': mnr, 'wkt': wkt, 'compressed': comp, 'prs': prs})


def noprs(c):
    s = c.x.prog
    return lit_seq([], None)


@contract(SF + 'spoc_file', nparams=0, name='spoc_file(0)')
def _(c):
    maj, mnr = version(c)
    c.post(c.this_lv, mkfile(maj, mnr, EMPTY, FALSE, empty_prs(c)))


def empty_prs(c):
    s = c.x.prog.shape(c.fn['cls'])
    return lit_seq([], dict(s[2])['prs'][1])


INCON = 'inconsistent extra sizes'


@contract(SF + 'spoc_file', nparams=5, name='spoc_file(5)')
def _(c):
    a = [c.arg(i) for i in range(5)]
    c.throw_if(Not(same_extra(a[4])), INCON)
    c.post(c.this_lv, mkfile(*a))
    keep_inv(c)


@contract(SF + 'spoc_file', nparams=3, name='spoc_file(3)')
def _(c):
    a = [c.arg(i) for i in range(3)]
    maj, mnr = version(c)
    c.throw_if(Not(same_extra(a[2])), INCON)
    c.post(c.this_lv, mkfile(maj, mnr, *a))
    keep_inv(c)


@contract(SF + 'spoc_file', params=['spoc_file'], name='spoc_file(copy)')
def _(c):
    frel(c, c.lv(0))
    c.post(c.this_lv, c.arg(0))
    keep_inv(c)


@contract(SF + 'clone_empty')
def _(c):
    c.ret(c.this.set('prs', empty_prs(c)))


@contract(SF + 'is_valid')
def _(c):
    c.ret(same_extra(c.this['prs']))


for _n, _f in (('get_major_version', 'major_version'), ('get_minor_version', 'minor_version'), ('get_wkt', 'wkt'), ('get_compressed', 'compressed')):
    def _mk(f):
        def spec(c):
            c.ret(c.this[f])
        return spec
    contract(SF + _n)(_mk(_f))


@contract(SF + 'get_extra_fields')
def _(c):
    p = c.this['prs']
    c.ret(If(p.n == 0, I(0), p.at(I(0))['extra'].n))


@contract(SF + 'get_header')
def _(c):
    frel(c)
    f = c.this
    p = f['prs']
    ef = If(p.n == 0, I(0), p.at(I(0))['extra'].n)
    c.throw_if(f['wkt'].n > 0xFFFF, 'WKT longer than 65535')
    c.throw_if(ef > 255, 'more than 255 extra fields')
    c.ret(mkheader(c, None, f['major_version'], f['minor_version'], f['wkt'], ef, p.n, f['compressed']))


@contract(SF + 'set_wkt')
def _(c):
    c.post(c.this_lv.f('wkt'), c.arg(0))


@contract(SF + 'set_compressed')
def _(c):
    c.post(c.this_lv.f('compressed'), c.arg(0))


@contract(SF + 'push_back')
def _(c):
    frel(c)
    p, r = c.this['prs'], c.arg(0)
    c.throw_if(And(p.n != 0, r['extra'].n != p.at(I(0))['extra'].n), 'wrong number of extra fields')
    c.post(c.this_lv.f('prs'), Seq(p.n + 1, lambda k: vite(k < p.n, p.at(k), r), p.es))
    keep_inv(c)


def resized(s, n):
    return Seq(n, lambda k: vite(k < s.n, s.at(k), I(0)), s.es)


@contract(SF + 'resize_extra_fields')
def _(c):
    frel(c)
    p = c.this['prs']
    c.post(c.this_lv.f('prs'), cmap(p, lambda r: r.set('extra', resized(r['extra'], c.arg(0))), p.es))
    keep_inv(c)


@contract(SF + 'swap')
def _(c):
    a, b = c.this, c.arg(0)
    c.post(c.this_lv, b)
    c.post(c.lv(0), a)


@contract(SF + 'operator=')
def _(c):
    frel(c)
    frel(c, c.lv(0))
    c.post(c.this_lv, c.arg(0))
    c.ret(c.this_lv)
    keep_inv(c)


@contract(SF + 'set_point_record')
def _(c):
    frel(c)
    p, i, r = c.this['prs'], c.arg(0), c.arg(1)
    c.throw_if(i >= p.n, 'index out of range')
    c.throw_if(And(i < p.n, r['extra'].n != p.at(I(0))['extra'].n), INCON)
    c.post(c.this_lv.f('prs'), Seq(p.n, lambda k: vite(k == i, r, p.at(k)), p.es))
    keep_inv(c)


@contract(SF + 'set_point_records')
def _(c):
    c.throw_if(Not(same_extra(c.arg(0))), INCON)
    c.post(c.this_lv.f('prs'), c.arg(0))
    keep_inv(c)


@contract(SF + 'move_point_records', nparams=1, name='move_point_records(in)')
def _(c):
    c.throw_if(Not(same_extra(c.arg(0))), INCON)
    c.post(c.this_lv.f('prs'), c.arg(0))
    c.havoc.append(c.lv(0))
    if c.mode == 'call':
        c.posts.append((c.lv(0), lit_seq([], c.arg(0).es)))
    keep_inv(c)


@contract(SF + 'get_point_record')
def _(c):
    c.require(And(c.arg(0) >= 0, c.arg(0) < c.this['prs'].n), 'index in range')
    c.ret(c.this_lv.f('prs').i(c.arg(0)))


@contract(SF + 'get_point_records')
def _(c):
    c.ret(c.this_lv.f('prs'))


for _f in FIELDS:
    def _mk(f):
        def spec(c):
            c.ret(cmap(c.this['prs'], lambda p: p[f]))
        return spec
    contract(SF + 'get_' + _f)(_mk(_f))


@contract(SF + 'get_extra')
def _(c):
    k, p = c.arg(0), c.this['prs']
    c.require(forall(I(0), p.n, lambda n: k < p.at(n)['extra'].n), 'every record has extra field k')
    c.ret(cmap(p, lambda r: r['extra'].at(k)))


# ---------------------------------------------------------------- affine
def each(c, g):
    p = c.arg(0)
    c.post(c.lv(0), cmap(p, g, p.es))


for _f in DF:
    def _mk(f):
        def add(c):
            each(c, lambda r: r.set(f, f_add(r[f], c.arg(1))))

        def scale(c):
            each(c, lambda r: r.set(f, f_mul(r[f], c.arg(1))))
        return add, scale
    _a, _s = _mk(_f)
    contract(A + 'add_' + _f)(_a)
    contract(A + 'scale_' + _f)(_s)


@contract(A + 'add')
def _(c):
    v = c.arg(1)
    each(c, lambda r: upd(r, x=f_add(r['x'], v['x']), y=f_add(r['y'], v['y']), z=f_add(r['z'], v['z'])))


PI = dlit(3.14159265358979323846)


def rad(deg):
    return f_div(f_mul(deg, PI), dlit(180.0))


def dfun(name):
    return Fn('fn:' + name, D, D)


def rot(c, u, v, f, g):
    """u' = u cos - v sin, v' = u sin + v cos"""
    from vc.stdmodel import dmath
    a = rad(c.arg(1))
    cs, sn = dmath('cos', a), dmath('sin', a)
    return lambda r: r.set(u, f_sub(f_mul(r[u], cs), f_mul(r[v], sn))).set(v, f_add(f_mul(r[u], sn), f_mul(r[v], cs)))


for _n, _u, _v in (('x', 'y', 'z'), ('y', 'x', 'z'), ('z', 'x', 'y')):
    def _mk(u, v):
        def spec(c):
            each(c, rot(c, u, v, None, None))
        return spec
    contract(A + 'rotate_' + _n)(_mk(_u, _v))


# ---------------------------------------------------------------- extent
DMAX = dlit(1.7976931348623157e308)
DLOW = dlit(-1.7976931348623157e308)


def finite(d):
    return And(Not(f_nan(d)), f_ord(d) <= f_ord(DMAX), f_ord(d) >= f_ord(DLOW))


def finite_pts(p):
    return forall(I(0), p.n, lambda k: And(*[finite(p.at(k)[f]) for f in DF]))


def ext_spec(c, init, v, sgn):
    k = z3.Int('k!ext')
    for sp in c.x.specs:
        if sp.kind == 'ext' and sp.sgn == sgn and sp.init.eq(init) and not sp.ctx and sp.v(k).eq(v(k)):
            return sp
    sp = S.ExtSpec(init, v, sgn)
    c.x.specs.append(sp)
    return sp


def extent_specs(c, p):
    sp = {}
    for f in DF:
        sp['minp', f] = ext_spec(c, f_ord(DMAX), lambda k, f=f: f_ord(p.at(k)[f]), -1)
        sp['maxp', f] = ext_spec(c, f_ord(DLOW), lambda k, f=f: f_ord(p.at(k)[f]), +1)
    return sp


def extent_rel(c, p):
    """tight axis-aligned bounding box: bounds every point, and every bound is attained"""
    sp = extent_specs(c, p) if c.mode == 'verify' else None

    def rel(e):
        out = []
        for f in DF:
            lo, hi = e['minp'][f], e['maxp'][f]
            out.append(('bounds every point (%s)' % f, forall(I(0), p.n, lambda k: And(fle(lo, p.at(k)[f]), fle(p.at(k)[f], hi)), lambda k: p.at(k)[f])))
            for w, d in (('minp', lo), ('maxp', hi)):
                if c.mode == 'verify':
                    wk = If(sp[w, f].h(p.n) == sp[w, f].init, I(0), sp[w, f].w(p.n))
                else:
                    wk = c.x.fresh(('int', 64, True), 'w')
                out.append(('attained (%s.%s)' % (w, f), Implies(p.n > 0, And(wk >= 0, wk < p.n, feq(d, p.at(wk)[f])))))
            out.append(('empty cloud (%s)' % f, Implies(p.n == 0, And(feq(lo, DMAX), feq(hi, DLOW)))))
        return out
    return rel


@contract(E + 'get_extent')
def _(c):
    p = c.arg(0)
    c.require(finite_pts(p), 'finite coordinates')
    c.ret_rel(c.retshape(), extent_rel(c, p), 'extent')


@contract(E + 'get_total_extent')
def _(c):
    a, b = c.arg(0), c.arg(1)
    for e in (a, b):
        for q in ('minp', 'maxp'):
            for f in DF:
                c.require(Not(f_nan(e[q][f])), 'not NaN')

    def rel(e):
        out = []
        for f in DF:
            lo, hi = e['minp'][f], e['maxp'][f]
            out.append(('min.' + f, And(fle(lo, a['minp'][f]), fle(lo, b['minp'][f]), Or(feq(lo, a['minp'][f]), feq(lo, b['minp'][f])))))
            out.append(('max.' + f, And(fle(a['maxp'][f], hi), fle(b['maxp'][f], hi), Or(feq(hi, a['maxp'][f]), feq(hi, b['maxp'][f])))))
        return out
    c.ret_rel(c.retshape(), rel, 'extent')


@contract(E + 'operator==')
def _(c):
    a, b = c.arg(0), c.arg(1)
    c.ret(And(pt_eq(a['minp'], b['minp']), pt_eq(a['maxp'], b['maxp'])))


@contract(E + 'all_less_equal')
def _(c):
    a, b = c.arg(0), c.arg(1)
    c.ret(And(*[Not(flt(b[f], a[f])) for f in DF]))


def dims(e):
    return [f_sub(e['maxp'][f], e['minp'][f]) for f in DF]


@contract(E + 'get_volume')
def _(c):
    x, y, z = dims(c.arg(0))
    c.ret(f_mul(f_mul(x, y), z))


@contract(E + 'get_area')
def _(c):
    x, y, z = dims(c.arg(0))
    c.ret(f_mul(x, y))


# ---------------------------------------------------------------- utils
@contract(U + 'quantize')
def _(c):
    from vc.stdmodel import dmath
    prec = c.arg(1)
    c.throw_if(feq(prec, dlit(0.0)), 'precision is zero')
    q = lambda d: f_mul(dmath('trunc', f_div(d, prec)), prec)
    each(c, lambda r: upd(r, x=q(r['x']), y=q(r['y']), z=q(r['z'])))


def inside(p, e):
    return And(*[And(Not(flt(p[f], e['minp'][f])), Not(flt(e['maxp'][f], p[f]))) for f in DF])


@contract(U + 'crop')
def _(c):
    p, e = c.arg(0), c.arg(1)
    sp = S.FilterSpec(lambda k: inside(p.at(k), e))
    c.x.specs.append(sp)
    c.ret(sp.seq(p.n, p.at, p.es))


@contract(U + 'get_center')
def _(c):
    p = c.arg(0)
    sp = S.RecSpec([dlit(0.0)] * 3, lambda k, h: [f_add(h[i], p.at(k)[f]) for i, f in enumerate(DF)])
    c.x.specs.append(sp)
    from vc.engine import Exec
    v = c.x.zero_of_shape(c.retshape())
    for i, f in enumerate(DF):
        v = v.set(f, f_div(sp.h(i, p.n), f_i2d(p.n)))
    c.ret(v)
