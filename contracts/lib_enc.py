"""encode_* and decode_* of point.h and extent.h"""
from .common import *
from vc.contract import lemma
from vc.values import byteD, mkD

PT, EX = 'spoc::point::', 'spoc::extent::'
U8 = ('int', 8, False)
POINT = ('struct', 'spoc::point::point', tuple((f, ('D',)) for f in DF))
PBYTES = 8 * len(DF)


def scalar_bytes(v):
    return [byteD(v, I(k)) for k in range(8)]


def point_bytes(p):
    return lit_seq([b for f in DF for b in scalar_bytes(p[f])], U8)


def point_at(b, at):
    """the point stored at byte number at"""
    return Struct('spoc::point::point', {f: mkD(*[b.at(z3.simplify(at + 8 * k + i)) for i in range(8)]) for k, f in enumerate(DF)}, POINT)


@contract(PT + 'append_double')
def _(c):
    v, b = c.arg(0), c.arg(1)
    bs = scalar_bytes(v)

    def at(k):
        r = bs[7]
        for i in range(6, -1, -1):
            r = If(k == b.n + i, bs[i], r)
        return If(k < b.n, b.at(k), r)
    if is_num(b.n):
        c.post(c.lv(1), lit_seq([b.at(I(k)) for k in range(num(b.n))] + bs, U8))
    else:
        c.post(c.lv(1), Seq(b.n + 8, at, U8))


@contract(PT + 'encode_point')
def _(c):
    c.ret(point_bytes(c.arg(0)))


@contract(PT + 'decode_point')
def _(c):
    b = c.arg(0)
    c.require(b.n >= PBYTES, 'the bytes of a point')
    c.ret(point_at(b, I(0)))


@contract(PT + 'encode_points')
def _(c):
    p = c.arg(0)

    def at(k):
        v, m = p.at(z3.simplify(k / PBYTES)), z3.simplify(k % PBYTES)
        return If(m < 8, byteD(v['x'], m), If(m < 16, byteD(v['y'], m - 8), byteD(v['z'], m - 16)))
    c.ret(Seq(p.n * PBYTES, at, U8))


@contract(PT + 'decode_points')
def _(c):
    b = c.arg(0)
    c.require(b.n % PBYTES == 0, 'whole points')
    c.ret(Seq(z3.simplify(b.n / PBYTES), lambda k: point_at(b, k * PBYTES), POINT))


@contract(EX + 'encode_extent')
def _(c):
    e = c.arg(0)
    c.ret(Struct('std::pair', {'first': point_bytes(e['minp']), 'second': point_bytes(e['maxp'])}))


@contract(EX + 'decode_extent')
def _(c):
    b = c.arg(0)
    c.require(And(b['first'].n >= PBYTES, b['second'].n >= PBYTES), 'the bytes of two points')
    c.ret(Struct('spoc::extent::extent', {'minp': point_at(b['first'], I(0)), 'maxp': point_at(b['second'], I(0))}))


@lemma('encode-decode')
def _(L):
    """decoding an encoding restores every coordinate, and an encoding has the size of the data"""
    p = L.fresh(POINT, 'p')
    b = L.call(PT + 'encode_point', [L.cell(p)])
    L.prove(b.n == PBYTES, 'point: 24 bytes')
    L.prove_eq(L.call(PT + 'decode_point', [L.cell(b)]), p, 'point')
    v = L.fresh(('seq', POINT), 'v')
    b = L.call(PT + 'encode_points', [L.cell(v)])
    L.prove(b.n == v.n * PBYTES, 'points: 24 bytes each')
    L.prove_eq(L.call(PT + 'decode_points', [L.cell(b)]), v, 'points')
    e = L.fresh(L.shape('spoc::extent::extent'), 'e')
    b = L.call(EX + 'encode_extent', [L.cell(e)])
    L.prove(And(b['first'].n == PBYTES, b['second'].n == PBYTES), 'extent: 48 bytes')
    L.prove_eq(L.call(EX + 'decode_extent', [L.cell(b)]), e, 'extent')
