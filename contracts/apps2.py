"""apps/tile, apps/diff, apps/info, apps/tool"""
from .common import *
from .lib_data2 import finite, finite_pts
from .lib_geo import cvt, U64

T = 'spoc::tile_app::'
ONE, ZERO = dlit(1.0), dlit(0.0)
LIM = z3.RealVal(2 ** 1024)


def fin(d):
    return And(Not(f_nan(d)), f_ord(d) < LIM, f_ord(d) > -LIM)


def ieee():
    """Facts about IEEE-754 arithmetic with round-to-nearest: subtraction, division and conversion are
    monotone, and adding one to a number below 2^52 passes at least one and at most two integers."""
    a, b, m = z3.Consts('ia ib im', D)
    A = z3.ForAll
    sa, sb, da, db = f_sub(a, m), f_sub(b, m), f_div(a, m), f_div(b, m)
    pos = And(Not(f_nan(m)), f_ord(m) > 0)
    return [
        A([a, m], Implies(And(fin(a), fin(m)), Not(f_nan(sa))), patterns=[sa]),
        A([a, m], Implies(And(fin(a), fin(m), f_ord(a) >= f_ord(m)), f_ord(sa) >= 0), patterns=[sa]),
        A([a, b, m], Implies(And(fin(a), fin(b), fin(m), f_ord(a) <= f_ord(b)), f_ord(sa) <= f_ord(sb)), patterns=[z3.MultiPattern(sa, sb)]),
        A([a, m], Implies(And(Not(f_nan(a)), f_ord(a) >= 0, pos, fin(m)), And(Not(f_nan(da)), f_ord(da) >= 0)), patterns=[da]),
        A([a, b, m], Implies(And(Not(f_nan(a)), Not(f_nan(b)), f_ord(a) >= 0, pos, fin(m), f_ord(a) <= f_ord(b)), f_ord(da) <= f_ord(db)), patterns=[z3.MultiPattern(da, db)]),
        A([a], Implies(And(Not(f_nan(a)), f_ord(a) >= 0, f_ord(a) < 2 ** 52), And(Not(f_nan(f_add(a, ONE))), f_ord(f_add(a, ONE)) >= 0, f_d2i(f_add(a, ONE)) >= f_d2i(a) + 1, f_d2i(f_add(a, ONE)) <= f_d2i(a) + 2)), patterns=[f_add(a, ONE)]),
    ]


def products(t):
    out, seen, todo = [], set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_MUL and u.num_args() == 2 and u.sort() == INT and not any(z3.is_int_value(c) for c in u.children()):
                out.append(u)
            todo += u.children()
    return out


def mul_hints(s, t):
    """valid facts about the products in two terms that have a factor in common"""
    out = []
    for p in products(s):
        for q in products(t):
            for a, u in (p.children(), p.children()[::-1]):
                for b, v in (q.children(), q.children()[::-1]):
                    if u.eq(v) and not a.eq(b):
                        out += [Implies(And(u >= 0, a > b), p >= q + u), Implies(And(u >= 0, b > a), q >= p + u)]
    return out


@contract(T + 'get_tile_size')
def _(c):
    e, tiles = c.arg(0), c.arg(1)
    side = lambda f: f_add(f_sub(e['maxp'][f], e['minp'][f]), dlit(2.0 ** -23))
    dx, dy = side('x'), side('y')
    c.require(And(Not(f_nan(dx)), Not(f_nan(dy))), 'not NaN')
    c.ret_rel(c.retshape(), lambda r: [('the longer side is divided into the given number of tiles', And(Implies(flt(dy, dx), r == f_div(dx, f_i2d(tiles))), Implies(flt(dx, dy), r == f_div(dy, f_i2d(tiles))), Or(r == f_div(dx, f_i2d(tiles)), r == f_div(dy, f_i2d(tiles)))))], 'size')


@contract(T + 'get_tile_indexes')
def _(c):
    p, e, sx, sy = c.arg(0), c.arg(1), c.arg(2), c.arg(3)
    lo, hi = e['minp'], e['maxp']
    for f, s in (('x', sx), ('y', sy)):
        c.require(And(fin(lo[f]), fin(hi[f]), fin(s)), 'finite')
        c.require(forall(I(0), p.n, lambda k: And(fle(lo[f], p.at(k)[f]), fle(p.at(k)[f], hi[f])), lambda k: p.at(k)[f]), 'points inside the extent')
        c.require(Implies(f_ord(s) > 0, f_ord(f_div(f_sub(hi[f], lo[f]), s)) < 2 ** 31), 'fewer than 2^31 rows and columns')
        c.require(f_ord(lo[f]) <= f_ord(hi[f]), 'an extent')
    c.facts += ieee()
    cell1 = lambda k, f, s: If(f_ord(s) > 0, cvt(f_div(f_sub(p.at(k)[f], lo[f]), s), 64), I(0))
    same = lambda i, j: And(cell1(i, 'x', sx) == cell1(j, 'x', sx), cell1(i, 'y', sy) == cell1(j, 'y', sy))

    def rel(r):
        i, j = z3.Ints('ti tj')
        a, b = r.at(i), r.at(j)
        h = mul_hints(a, b) if c.mode == 'verify' else []
        return [('one index per record', r.n == p.n),
                ('records share a tile exactly when they are in the same cell', z3.ForAll([i, j], Implies(And(i >= 0, i < p.n, j >= 0, j < p.n, *h), (a == b) == same(i, j))))]
    c.ret_rel(c.retshape(), rel, 'tile')


@contract(T + 'get_tile_map')
def _(c):
    v = c.arg(0)
    sp = S.MapSpec(lambda k: TRUE, lambda k: v.at(k), U64, lambda a, b: a == b)
    c.x.specs.append(sp)
    c.ret(MapV(lambda q: sp.cnt(q, v.n) > 0, lambda q: Seq(sp.cnt(q, v.n), lambda j: sp.sel(q, j), U64), U64, ('seq', U64)))


# ---------------------------------------------------------------- tool
from .apps import AU, is_ch, extra_index, field_ok, cvt as _cvt
from .lib_data2 import frel, SF
from .lib_data import rec_eq
from vc.streams import dec, rep, norm
TO = 'spoc::tool_app::'


def moved(c, prs, zf, off):
    """every record with the offsets subtracted from its coordinates"""
    def f(r):
        return upd(r, x=f_sub(r['x'], off['x']), y=f_sub(r['y'], off['y']), z=If(zf, f_sub(r['z'], off['z']), r['z']))
    return cmap(prs, f, prs.es)


@contract(TO + 'recenter')
def _(c):
    f, zf = c.arg(0), c.arg(1)
    frel(c, c.lv(0))
    prs = f['prs']
    off = {}
    for a in DF:
        sp = S.RecSpec([dlit(0.0)], lambda k, h, a=a: [f_add(h[0], prs.at(k)[a])])
        c.x.specs.append(sp)
        # the sum may be left out when it is not needed
        c.template(lambda info, sp=sp: [(lambda vals, k, l=l: Implies(zf, vals[l] == sp.h(0, k)), sp) for l in info.M if a == 'z' and isinstance(info.v0s[l], z3.ExprRef) and info.v0s[l].sort() == D])
        off[a] = If(prs.n == 0, dlit(0.0), f_div(sp.h(0, prs.n), f_i2d(prs.n)))
    c.ret(f.set('prs', moved(c, prs, zf, off)))


@contract(TO + 'subtract_min')
def _(c):
    f, zf = c.arg(0), c.arg(1)
    frel(c, c.lv(0))
    prs = f['prs']
    c.require(finite_pts(prs), 'finite coordinates')
    E = 'spoc::extent::get_extent'

    def rel(g):
        if c.mode == 'call':
            e = {a: c.x.fresh(('D',), 'm' + a) for a in DF}
        else:
            e = c.witness(E)
            if e is None:
                raise Unsupported('no extent')
            e = e['minp']
        out = [('offset %s is a smallest coordinate' % a, Implies(prs.n > 0, And(forall(I(0), prs.n, lambda k: fle(e[a], prs.at(k)[a]), lambda k: prs.at(k)[a]), S_min(c, prs, a, e[a])))) for a in DF]
        want = f.set('prs', moved(c, prs, zf, e))
        for k in want.f:
            out.append(('subtracted, nothing else changes: %s' % k, veq(g[k], want[k])))
        return out
    c.ret_rel(c.retshape(), rel, 'sub')


def S_min(c, prs, a, v):
    k = qvar(INT, 'mk')
    return z3.Exists([k], And(k >= 0, k < prs.n, feq(v, prs.at(k)[a])))


@contract(TO + 'resize_extra')
def _(c):
    from .lib_data2 import resized
    f, sz = c.arg(0), c.arg(1)
    frel(c, c.lv(0))
    c.throw_if(sz < 0, 'negative size')
    prs = f['prs']
    c.ret(f.set('prs', cmap(prs, lambda r: r.set('extra', resized(r['extra'], sz)), prs.es)))


@contract(TO + 'set_field')
def _(c):
    from .lib_data2 import resized
    from .apps import low
    f, nm = c.arg(0), c.arg(2)
    st = c.arg(1)
    frel(c, c.lv(0))
    prs, C = f['prs'], st['src']
    c.throw_if(Or(st['fail'], st['eof']), 'the stream is not good')
    c.throw_if(Not(field_ok(c, nm)), 'not a field name')
    n, tk = prs.n, st['tk']
    fl = Or(*[is_ch(nm, a) for a in DF])
    # a value can be read unless it is malformed or the previous one ended the input
    for kind, cond, what in (('D', fl, 'numbers'), ('u64', Not(fl), 'integers')):
        sp = S.ExistsSpec(lambda k, kind=kind: Or(Not(C.tok_ok(kind, norm(tk + k))), And(k > 0, C.tok_last(norm(tk + k - 1)))))
        c.x.specs.append(sp)
        c.throw_if(And(cond, sp.ex(n)), 'not enough ' + what)
        c.template(lambda info, sp=sp, cond=cond: [(lambda vals, k: Implies(cond, Not(sp.ex(k))), sp)])
    j = extra_index(c, nm)
    e0 = If(n == 0, I(0), prs.at(I(0))['extra'].n)
    isx = is_ch(nm, 'e')

    def rec(k):
        r = prs.at(k)
        v, d = C.tok('u64', norm(tk + k)), C.tok('D', norm(tk + k))
        e = r['extra']
        m = If(And(isx, j >= e0), j + 1, e.n)
        ext = Seq(m, lambda q: If(And(isx, q == j), v, If(q < e.n, e.at(q), I(0))), e.es)
        out = r.set('extra', ext)
        for a in DF:
            out = out.set(a, If(is_ch(nm, a), d, r[a]))
        for a in IF:
            out = out.set(a, If(is_ch(nm, a), low(v)(BITS[a]), r[a]))
        return out
    c.ret(f.set('prs', Seq(n, rec, prs.es)))
    c.havoc.append(c.lv(1))


@contract(TO + 'get_field')
def _(c):
    f, nm = c.arg(0), c.arg(2)
    s = c.arg(1)
    frel(c, c.lv(0))
    prs = f['prs']
    c.throw_if(Or(s['fail'], s['eof']), 'the stream is not good')
    c.throw_if(Not(field_ok(c, nm)), 'not a field name')
    j = extra_index(c, nm)
    isx = is_ch(nm, 'e')
    c.throw_if(And(isx, prs.n > 0, j >= prs.at(I(0))['extra'].n), 'no such extra field')
    fl = Or(*[is_ch(nm, a) for a in DF])
    c.havoc_on_throw(c.lv(1))
    prec = If(fl, I(17), s['prec'])
    line = lambda k: None
    r = lambda k: prs.at(k)
    ival = lambda k: _ival(c, nm, r(k), j)
    dval = lambda k: If(is_ch(nm, 'x'), r(k)['x'], If(is_ch(nm, 'y'), r(k)['y'], r(k)['z']))
    D_ = [('ite', fl, rep(prs.n, lambda k: [('txt', 'd', dval(k), (prec, s['fixed'])), ('s', 1, I(10))]), rep(prs.n, lambda k: [('txt', 'i', ival(k), ()), ('s', 1, I(10))]))]
    c.post(c.lv(1).f('out'), s['out'].add(D_))
    c.post(c.lv(1).f('prec'), prec)


def _ival(c, nm, r, j):
    from .apps import pick_field
    return pick_field(r, nm, j)


@contract(TO + 'upsample_classifications')
def _(c):
    from .lib_geo import voxels_of, voxel, vieq, fofr, min_real, VI
    l, f, res = c.arg(0), c.arg(1), c.arg(2)
    frel(c, c.lv(0))
    frel(c, c.lv(1))
    lp, hp = l['prs'], f['prs']
    c.require(finite_pts(lp), 'finite coordinates')
    c.require(finite_pts(hp), 'finite coordinates')
    c.throw_if(Not(flt(dlit(0.0), res)), 'resolution is not positive')
    vox = voxels_of(c, hp, res)
    m = {a: fofr(r) for a, r in min_real(c, hp).items()}
    lvox = lambda i: voxel(lp.at(i), m, res)
    # per voxel, the low resolution records in it
    sp = S.MapSpec(lambda k: TRUE, lvox, VI, vieq)
    c.x.specs.append(sp)

    def cls(k, upto):
        v = vox(k)
        n = sp.cnt(v, upto)
        return If(n > 0, lp.at(sp.sel(v, n - 1))['c'], hp.at(k)['c'])
    c.template(scatter_template(c, hp, lp, cls, sp, vox, lvox, vieq))
    prs = Seq(hp.n, lambda k: hp.at(k).set('c', cls(k, lp.n)), hp.es)
    c.ret(f.set('prs', prs))
    c.havoc.append(c.lv(4))


def scatter_template(c, hp, lp, cls, sp, vox, lvox, vieq):
    """outer loop: the low resolution records seen so far are applied; inner loop: so is the current
    one, to the first k of the records in its voxel"""
    def t(info):
        out = []
        ctx = info.base.ctx
        for l in info.M:
            q = info.v0s[l]
            if not (isinstance(q, Seq) and q.es and q.es[0] == 'struct' and 'extra' in dict(q.es[2])):
                continue
            out.append(lambda vals, k, l=l: vals[l].n == hp.n)
            for f in FIELDS:
                if f != 'c':
                    out.append(lambda vals, k, l=l, f=f: forall(I(0), hp.n, lambda j: vals[l].at(j)[f] == hp.at(j)[f], lambda j: vals[l].at(j)[f]))
            out.append(lambda vals, k, l=l: forall(I(0), hp.n, lambda j: vals[l].at(j)['extra'].n == hp.at(j)['extra'].n, lambda j: vals[l].at(j)['extra'].n))

            def ext(vals, k, l=l):
                j, e = qvar(INT, 'k'), qvar(INT, 'e')
                a = vals[l].at(j)['extra'].at(e)
                return z3.ForAll([j, e], Implies(And(j >= 0, j < hp.n, e >= 0, e < hp.at(j)['extra'].n), a == hp.at(j)['extra'].at(e)), patterns=pats(a))
            out.append(ext)
            if not ctx:
                out.append((lambda vals, k, l=l: forall(I(0), hp.n, lambda j: vals[l].at(j)['c'] == cls(j, k), lambda j: vals[l].at(j)['c']), sp))
            else:
                i = ctx[-1]
                for ms in info.x.specs:
                    if ms.kind != 'map' or ms is sp or ms.ctx:
                        continue
                    hit = lambda j, k, ms=ms: And(vieq(vox(j), lvox(i)), ms.cnt(lvox(i), j) < k)
                    out.append(lambda vals, k, l=l, hit=hit: forall(I(0), hp.n, lambda j: vals[l].at(j)['c'] == If(hit(j, k), lp.at(i)['c'], cls(j, i)), lambda j: vals[l].at(j)['c']))
        return out
    return t
