"""header.h, point_record.h, io.h: the file format

The byte layout is stated once, by hdr_parts and rec_parts (what a writer
emits) and hdr_of and rec_of (what a reader makes of the bytes at a
position)."""
from .common import *
from .lib_data import rec_eq
from .lib_data2 import sig_ok, version, same_extra, SIG, frel, mkfile
from vc.streams import Rope, rep, mk, dec, enc, s2u, u2s, norm, sval
from vc import streams as ST

H, PR, F, IO = 'spoc::header::', 'spoc::point_record::', 'spoc::file::', 'spoc::io::'
CH = ('int', 8, True)


# ---------------------------------------------------------------- layout
def hdr_parts(h):
    w = h['wkt']
    return ([('s', 1, s2u(h['signature'].at(I(i)))) for i in range(4)]
            + [('s', 1, h['major_version']), ('s', 1, h['minor_version']), ('s', 2, w.n)]
            + rep(w.n, lambda j: [('s', 1, s2u(w.at(j)))])
            + [('s', 1, h['extra_fields']), ('s', 8, h['total_points']), ('s', 1, h['compressed'])])


RECW = [('x', 8), ('y', 8), ('z', 8), ('c', 4), ('p', 4), ('i', 2), ('r', 2), ('g', 2), ('b', 2)]
STRUCT = 40


def rec_parts(r):
    return [('s', w, r[f]) for f, w in RECW] + rep(r['extra'].n, lambda j: [('s', 8, r['extra'].at(j))])


def hdr_len(C, pos):
    return mk('I', 2, [C.byte(pos + 6), C.byte(pos + 7)])


def hdr_of(C, pos, shape=None):
    L = hdr_len(C, pos)
    sig = lit_seq([u2s(C.byte(pos + i)) for i in range(4)] + [I(0)], CH)
    q = pos + 8 + L
    return Struct('spoc::header::header', {'signature': sig, 'major_version': C.byte(pos + 4), 'minor_version': C.byte(pos + 5),
                                           'wkt': Seq(L, lambda j: u2s(C.byte(pos + 8 + j)), CH), 'extra_fields': C.byte(q),
                                           'total_points': mk('I', 8, [C.byte(q + 1 + i) for i in range(8)]), 'compressed': C.byte(q + 9)}, shape)


def hdr_size(C, pos):
    return 18 + hdr_len(C, pos)


def rec_of(C, pos, ef):
    d, o = {}, 0
    for f, w in RECW:
        d[f] = mk('D' if f in DF else 'I', w, [C.byte(pos + o + i) for i in range(w)])
        o += w
    d['extra'] = Seq(ef, lambda j: mk('I', 8, [C.byte(pos + o + 8 * j + i) for i in range(8)]), ('int', 64, False))
    return Struct('spoc::point_record::point_record', d)


def readable(s, n):
    """n bytes can be read"""
    return And(Not(s['fail']), Not(s['eof']), s['pos'] + n <= s['src'].n)


# ---------------------------------------------------------------- writers
def out(c, i, parts):
    s = c.arg(i)
    c.post(c.lv(i).f('out'), s['out'].add(parts))


@contract(H + 'write_header')
def _(c):
    h = c.arg(1)
    c.throw_if(Not(And(sig_ok(h), h['wkt'].n <= 0xFFFF)), 'bad signature or over-long WKT')
    out(c, 0, hdr_parts(h))


@contract(PR + 'write_point_record')
def _(c):
    out(c, 0, rec_parts(c.arg(1)))


# ---------------------------------------------------------------- readers
def advance(c, i, n, gc=None):
    s = c.arg(i)
    c.post(c.lv(i).f('pos'), norm(s['pos'] + n))
    c.havoc.append(c.lv(i).f('gc'))


@contract(H + 'read_header', weak_throw=True)
def _(c):
    s = c.arg(0)
    C, pos = s['src'], s['pos']
    maj, mnr = version(c)
    h = hdr_of(C, pos)
    c.throw_if(Not(readable(s, I(8))), 'input ends before the header')
    c.throw_if(Not(readable(s, hdr_size(C, pos))), 'input ends before the header')
    c.throw_if(Not(sig_ok(h)), 'bad signature')
    c.throw_if(Not(And(h['major_version'] == maj, h['minor_version'] == mnr)), 'unsupported version')
    c.havoc_on_throw(c.lv(0))
    advance(c, 0, hdr_size(C, pos))
    c.ret(h)


@contract(PR + 'read_point_record', weak_throw=True)
def _(c):
    s, ef = c.arg(0), c.arg(1)
    c.throw_if(Not(readable(s, STRUCT + 8 * ef)), 'input ends before the record')
    c.havoc_on_throw(c.lv(0))
    advance(c, 0, STRUCT + 8 * ef)
    c.ret(rec_of(s['src'], s['pos'], ef))


def recsize(ef):
    return STRUCT + 8 * ef


def recs_parts(prs):
    return rep(prs.n, lambda k: rec_parts(prs.at(k)))


def recs_of(C, pos, n, ef):
    return Seq(n, lambda k: rec_of(C, pos + k * recsize(ef), ef))


@contract(IO + 'read_uncompressed_points', weak_throw=True)
def _(c):
    s, n, ef = c.arg(0), c.arg(1), c.arg(2)
    c.require(ef <= 255, 'at most 255 extra fields')
    c.throw_if(And(n > 0, Not(readable(s, n * recsize(ef)))), 'input ends before the announced records')
    c.havoc_on_throw(c.lv(0))
    advance(c, 0, n * recsize(ef))
    c.ret(recs_of(s['src'], s['pos'], n, ef))
    c.template(chunk_template(c.lv(0), s, n, ef))


def imin(a, b):
    return If(a <= b, a, b)


def chunk_template(lv, s0, n, ef):
    """the first min(i, n) records are decoded and the stream stands behind them, for a counter i"""
    C, pos0, rs = s0['src'], s0['pos'], recsize(ef)

    def t(info):
        out = []
        pos = (lv.cell, lv.path + (('f', 'pos'),))
        if pos not in info.M:
            return out
        for li in info.M:
            v = info.v0s[li]
            if not (isinstance(v, z3.ExprRef) and z3.is_int(v)) or li == pos or li[0] == lv.cell:
                continue

            def at_pos(vals, k, li=li):
                info.x.mulfacts(vals[li], norm(rs))
                return And(vals[li] >= 0, vals[pos] == pos0 + imin(vals[li], n) * rs, Implies(vals[li] > 0, And(Not(s0['fail']), Not(s0['eof']), vals[pos] <= C.n)))
            out.append(at_pos)
            for ls in info.M:
                q = info.v0s[ls]
                if not (isinstance(q, Seq) and q.es and q.es[0] == 'struct' and 'extra' in dict(q.es[2])):
                    continue
                for f in FIELDS:
                    out.append(lambda vals, k, li=li, ls=ls, f=f: forall(I(0), imin(vals[li], n), lambda j: vals[ls].at(j)[f] == rec_of(C, pos0 + j * rs, ef)[f]))
                out.append(lambda vals, k, li=li, ls=ls: forall(I(0), n, lambda j: vals[ls].at(j)['extra'].n == ef))

                def ext(vals, k, li=li, ls=ls):
                    j, e = qvar(INT, 'k'), qvar(INT, 'e')
                    return z3.ForAll([j, e], Implies(And(j >= 0, j < imin(vals[li], n), e >= 0, e < ef), vals[ls].at(j)['extra'].at(e) == rec_of(C, pos0 + j * rs, ef)['extra'].at(e)))
                out.append(ext)
        return out
    return t
