"""apps/diff, apps/info, apps/filter (rest)"""
from .common import *
from .lib_data2 import frel, hdr_eq, same_extra

DA = 'spoc::diff_app::'


def nextra(p):
    return If(p.n == 0, I(0), p.at(I(0))['extra'].n)


class Same:
    """which columns of two clouds are the same"""

    def __init__(self, c, a, b):
        self.a, self.b = a, b
        self.n = If(a.n <= b.n, a.n, b.n)
        self.sp = {f: S.ExistsSpec(lambda k, f=f: Not(deq(a.at(k)[f], b.at(k)[f]))) for f in FIELDS}
        j = z3.Int('dj')
        self.ext = S.ExistsSpec(lambda k: Not(a.at(k)['extra'].at(j) == b.at(k)['extra'].at(j)), (j,))
        self.exts = S.ExistsSpec(lambda j: Not(self.extra(j)))
        c.x.specs += list(self.sp.values()) + [self.ext, self.exts]

    def col(self, f):
        return And(self.a.n == self.b.n, Not(self.sp[f].ex(self.n)))

    def extra(self, j):
        return And(self.a.n == self.b.n, Not(self.ext._ex(j, self.n)))

    def data(self):
        m = nextra(self.a)
        return And(*([self.col(f) for f in FIELDS] + [m == nextra(self.b), Not(self.exts.ex(m))]))

    def field(self, v):
        """the field with this letter or digit is the same in both clouds, or absent from one of them"""
        e = v - 48
        return And(*([Implies(v == ord(f), self.col(f)) for f in FIELDS] + [Implies(And(v >= 48, v <= 57, e < nextra(self.a), e < nextra(self.b)), self.extra(e))]))


def known_field(v):
    return Or(*([v == ord(f) for f in FIELDS] + [And(v >= 48, v <= 57)]))


@contract(DA + 'diff')
def _(c):
    f1, f2, ho, do, fields, rev = [c.arg(i) for i in range(6)]
    frel(c, c.lv(0))
    frel(c, c.lv(1))
    a, b = f1['prs'], f2['prs']
    n = fields.n
    same_ = Same(c, a, b)
    ok = lambda v: And(known_field(v), same_.field(v))
    # some field before this one is unknown or differs
    sp = S.ExistsSpec(lambda k: Not(ok(fields.at(k))))
    c.x.specs.append(sp)
    ints = lambda info: [l for l in info.M if isinstance(info.v0s[l], z3.ExprRef) and info.v0s[l].sort() == INT]
    c.template(lambda info: [(lambda vals, k, l=l: (vals[l] == 0) == And(info.v0s[l] == 0, Not(same_.exts.ex(k))), same_.exts) for l in ints(info)])
    c.template(lambda info: [(lambda vals, k: Not(sp.ex(k)), sp)])
    # the first field that is unknown or differs is unknown
    m = z3.Int('dm')
    unknown = z3.Exists([m], And(m >= 0, m < n, Not(sp.ex(m)), Not(known_field(fields.at(m)))))
    c.throw_if(And(n > 0, unknown), 'unknown field')
    # a header that the format cannot hold
    bad = Or(*[Or(f['wkt'].n > 0xFFFF, nextra(f['prs']) > 255) for f in (f1, f2)])
    c.throw_if(And(n == 0, Not(do), bad), 'header not representable')
    same_header = And(f1['major_version'] == f2['major_version'], f1['minor_version'] == f2['minor_version'], f1['compressed'] == f2['compressed'], veq(f1['wkt'], f2['wkt']), a.n == b.n, nextra(a) == nextra(b))
    same = And(Implies(And(n == 0, Not(do)), same_header), Implies(And(n == 0, Or(do, Not(ho))), same_.data()), Implies(n > 0, Not(sp.ex(n))))
    c.ret_rel(c.retshape(), lambda r: [('equal exactly when every selected part is', (r == 0) == (same != rev))], 'diff')


# ---------------------------------------------------------------- filter
from .apps import filtered
from .lib_data2 import finite_pts, empty_prs
from .lib_data import pt_eq
from .lib_geo import representatives, voxels_of, vieq, U64
from vc.stdmodel import ARR, txtfun, textid, sub, text2len
FA = 'spoc::filter_app::'
NPOS = I(2 ** 64 - 1)
CH = ('int', 8, True)


CUTS = {}


class Pieces:
    """A text cut at every occurrence of a character: piece k starts at cut(k), and there are cuts + 1 of them"""

    def __init__(self, c, s, ch):
        self.s, self.ch = s, ch
        self.id = textid(s)
        self.n = Fn('cuts', INT, ARR, INT, INT)(*self.id, ch)
        f = self.find
        ts = [z3.simplify(t) for t in self.id + (ch,)]
        key = tuple(t.get_id() for t in ts)
        if key not in CUTS:
            CUTS[key] = S.RecSpec([I(0)], lambda k, h: [f(h[0]) + 1]), ts
        self.sp = CUTS[key][0]
        c.x.specs.append(self.sp)
        k = z3.Int('ck')
        cut = self.cut(k)
        j, p = z3.Ints('cj cp')
        fp = f(p)
        hit = And(fp >= p, fp < s.n, s.at(fp) == ch)
        c.facts += [
            s.n >= 0, self.n >= 0, f(self.cut(self.n)) == NPOS,
            z3.ForAll([k], Implies(And(k >= 0, k < self.n), f(cut) != NPOS), patterns=[f(cut)]),
            # what it means to find the character at or after position p
            z3.ForAll([p], Or(fp == NPOS, hit), patterns=[fp]),
            z3.ForAll([p, j], Implies(And(j >= p, j < s.n, Or(fp == NPOS, j < fp)), s.at(j) != ch), patterns=[z3.MultiPattern(fp, s.at(j))]),
        ]

    def find(self, p):
        return Fn('txt.find', INT, ARR, INT, INT, INT)(*self.id, self.ch, p)

    def cut(self, k):
        return self.sp.h(0, k)

    def piece(self, k):
        a = self.cut(k)
        return sub(self.s, a, If(k == self.n, self.s.n, self.find(a)) - a)

    def all(self):
        return Seq(self.n + 1, self.piece, ('seq', CH))


@contract(FA + 'detail::split')
def _(c):
    s, d = c.arg(0), c.arg(1)
    c.require(d.n == 1, 'a single character')
    p = Pieces(c, s, d.at(I(0)))

    c.template(lambda info: [lambda vals, k: k <= p.n])
    c.ret(p.all())


def is_text(t, ch):
    """the text is this one character"""
    return And(t.n == 1, t.at(I(0)) == ord(ch))


@contract(FA + 'remove_coords')
def _(c):
    f, op = c.arg(0), c.arg(1)
    frel(c, c.lv(0))
    p = Pieces(c, op, I(32))
    axis, sign, value = [p.piece(I(k)) for k in range(3)]
    c.throw_if(p.n != 2, 'not three parts')
    c.throw_if(Not(Or(*[is_text(axis, a) for a in DF])), 'not a coordinate')
    c.throw_if(Not(Or(is_text(sign, '<'), is_text(sign, '>'))), 'not a comparison')
    c.throw_if(Not(And(txtfun('text2double.ok', value, BOOL), text2len('text2double', value) == value.n)), 'not a number')
    w = txtfun('text2double', value, D)

    def removed(r):
        v = If(is_text(axis, 'x'), r['x'], If(is_text(axis, 'y'), r['y'], r['z']))
        return If(is_text(sign, '<'), flt(v, w), flt(w, v))
    c.ret(filtered(c, f, lambda r: Not(removed(r))))


@contract(FA + 'unique_xyz')
def _(c):
    f, seed = c.arg(0), c.arg(1)
    frel(c, c.lv(0))
    prs = f['prs']
    c.require(forall(I(0), prs.n, lambda k: And(*[Not(f_nan(prs.at(k)[a])) for a in DF])), 'no NaN coordinates')
    loc = lambda k: Struct('xyz', {a: prs.at(k)[a] for a in DF})
    chosen(c, f, 'get_unique_xyz_indexes', lambda w: representatives(c, w, prs.n, loc, pt_eq, seed))


def chosen(c, f, q, props):
    """the file with the chosen records, unchanged and in the order of the indexes"""
    prs = f['prs']

    def rel(g):
        w = c.witness('spoc::subsampling::' + q) if c.mode == 'verify' else c.x.fresh(('seq', U64), 'w')
        if w is None:
            raise Unsupported('no index sequence')
        out = [('indexes: ' + l, h) for l, h in props(w)]
        out.append(('as many records as indexes', g['prs'].n == w.n))
        out.append(('the indexed records', forall(I(0), w.n, lambda a: veq(g['prs'].at(a), prs.at(w.at(a))))))
        for k in f.f:
            if k != 'prs':
                out.append(('nothing else changes: %s' % k, veq(g[k], f[k])))
        return out
    c.ret_rel(c.retshape(), rel, 'chosen')


@contract(FA + 'subsample_file')
def _(c):
    f, res, seed = c.arg(0), c.arg(1), c.arg(2)
    frel(c, c.lv(0))
    prs = f['prs']
    c.require(finite_pts(prs), 'finite coordinates')
    vox = voxels_of(c, prs, res)
    chosen(c, f, 'get_subsample_indexes', lambda w: representatives(c, w, prs.n, vox, vieq, seed))
