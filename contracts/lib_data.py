"""spoc/point.h, point_record.h, header.h, file.h, affine.h, extent.h, utils.h"""
from .common import *

PT, PR = 'spoc::point::', 'spoc::point_record::'


# ---------------------------------------------------------------- point arithmetic and relations
def pt_eq(a, b):
    return And(*[feq(a[f], b[f]) for f in DF])


@contract(PT + 'operator==')
def _(c):
    c.ret(pt_eq(c.arg(0), c.arg(1)))


@contract(PT + 'operator!=')
def _(c):
    c.ret(Not(pt_eq(c.arg(0), c.arg(1))))


@contract(PT + 'operator<')
def _(c):
    a, b = c.arg(0), c.arg(1)

    def lex(fs):
        f = fs[0]
        if len(fs) == 1:
            return flt(a[f], b[f])
        return Or(flt(a[f], b[f]), And(Not(flt(b[f], a[f])), lex(fs[1:])))
    c.ret(lex(list(DF)))


def pt_op(a, b, op):
    for f in DF:
        a = a.set(f, op(a[f], b[f]))
    return a


for _q, _op in (('operator+', f_add), ('operator-', f_sub)):
    def _mk(op):
        def pure(c):
            c.ret(pt_op(c.arg(0), c.arg(1), op))

        def assign(c):
            v = pt_op(c.arg(0), c.arg(1), op)
            c.post(c.lv(0), v)
            c.ret(v)
        return pure, assign
    _p, _a = _mk(_op)
    contract(PT + _q)(_p)
    contract(PT + _q + '=')(_a)

# ---------------------------------------------------------------- column accessors
for _f in FIELDS:
    def _mk(f):
        def spec(c):
            c.ret(cmap(c.arg(0), lambda p: p[f]))
        return spec
    contract(PR + 'get_' + _f)(_mk(_f))


@contract(PR + 'get_extra')
def _(c):
    k, p = c.arg(0), c.arg(1)
    c.require(forall(I(0), p.n, lambda n: k < p.at(n)['extra'].n), 'every record has extra field k')
    c.ret(cmap(p, lambda r: r['extra'].at(k)))


@contract(PR + 'get_extra_fields_size')
def _(c):
    p = c.arg(0)
    c.ret(If(p.n == 0, I(0), p.at(I(0))['extra'].n))


def all_zero_f(p, fs):
    return forall(I(0), p.n, lambda k: And(*[p.at(k)[f] == 0 for f in fs]))


for _f in IF:
    def _mk(f):
        def spec(c):
            c.ret(all_zero_f(c.arg(0), [f]))
        return spec
    contract(PR + 'has_all_zero_' + _f)(_mk(_f))


@contract(PR + 'has_all_zero_rgb')
def _(c):
    c.ret(all_zero_f(c.arg(0), ['r', 'g', 'b']))


@contract(PR + 'has_all_zero_extra')
def _(c):
    n, p = c.arg(0), c.arg(1)
    c.require(forall(I(0), p.n, lambda k: n < p.at(k)['extra'].n), 'every record has extra field n')
    c.ret(forall(I(0), p.n, lambda k: p.at(k)['extra'].at(n) == 0))


# ---------------------------------------------------------------- record equality
def rec_eq(a, b):
    return And(*([deq(a[f], b[f]) for f in FIELDS] + [veq(a['extra'], b['extra'])]))


@contract(PR + 'point_record::operator==')
def _(c):
    c.ret(rec_eq(c.this, c.arg(0)))


@contract(PR + 'point_record::operator!=')
def _(c):
    c.ret(Not(rec_eq(c.this, c.arg(0))))
