"""compression.h and the whole-file part of io.h.

A column (a sequence of scalars) is compressed as a function of its bytes,
its length and the level: zlen and zbyte.  What zlib guarantees about them
(inflating gives the bytes back) is stated in `lossless`, the one fact about
zlib that the round trip lemmas use."""
from .common import *
from .lib_data2 import sig_ok, version, same_extra, frel, mkfile, mkheader, keep_inv, empty_prs
from .lib_io import *
from vc.contract import lemma
from vc.streams import regions, Rope
from vc import streams as ST
from vc.specs import RecSpec, ExistsSpec
from vc.values import Fn, add_fact

Z = 'spoc::compression::'
U8 = ('int', 8, False)
U64 = ('int', 64, False)
ZERO = dlit(0.0)
LEVEL = I(-1)


def tag_of(es):
    return 'D' if es[0] == 'D' else '%s%d' % ('s' if es[2] else 'u', es[1])


def width(es):
    return 8 if es[0] == 'D' else es[1] // 8


def column(x):
    """(tag, contents as an array that is zero outside, length)"""
    es = x.es
    k = z3.Int('col!k')
    z = ZERO if es[0] == 'D' else I(0)
    n = norm(x.n)
    return tag_of(es), z3.Lambda([k], z3.If(z3.And(k >= 0, k < n), x.at(k), z)), n


_known = set()


def zfuns(tag):
    srt = z3.ArraySort(INT, D if tag == 'D' else INT)
    zlen, zbyte = Fn('zlen:' + tag, srt, INT, INT, INT), Fn('zbyte:' + tag, srt, INT, INT, INT, INT)
    if tag not in _known:
        _known.add(tag)
        a, n, l, j = z3.Const('za', srt), z3.Int('zn'), z3.Int('zl'), z3.Int('zj')
        add_fact('zlen:' + tag, z3.ForAll([a, n, l], z3.And(zlen(a, n, l) >= 1, zlen(a, n, l) < 2 ** 62), patterns=[zlen(a, n, l)]))
        add_fact('zbyte:' + tag, z3.ForAll([a, n, l, j], z3.And(zbyte(a, n, l, j) >= 0, zbyte(a, n, l, j) <= 255), patterns=[zbyte(a, n, l, j)]))
    return zlen, zbyte


def deflated(x, level):
    """the compressed form of a column"""
    tag, lam, n = column(x)
    zlen, zbyte = zfuns(tag)
    return Seq(zlen(lam, n, level), lambda j: zbyte(lam, n, level, j), U8)


BYTES = z3.ArraySort(INT, INT)
zok, ilen, ibyte = Fn('zok', BYTES, INT, BOOL), Fn('ilen', BYTES, INT, INT), Fn('ibyte', BYTES, INT, INT, INT)
_a, _n, _k = z3.Const('ia', BYTES), z3.Int('in'), z3.Int('ik')
add_fact('ilen', z3.ForAll([_a, _n], z3.And(ilen(_a, _n) >= 0, ilen(_a, _n) < 2 ** 62), patterns=[ilen(_a, _n)]))
add_fact('ibyte', z3.ForAll([_a, _n, _k], z3.And(ibyte(_a, _n, _k) >= 0, ibyte(_a, _n, _k) <= 255), patterns=[ibyte(_a, _n, _k)]))


def inflated(x):
    _, lam, n = column(x)
    return zok(lam, n), Seq(ilen(lam, n), lambda k: ibyte(lam, n, k), U8)


# ---------------------------------------------------------------- compression.h
ZLIB = 'zlib itself: deflate is a function of the bytes and the level'


@contract(Z + 'compress', params=['unsigned char', None, None], name='compress(bytes)', trusted=ZLIB)
def _(c):
    rs = regions(c.x, c.arg(0), c.arg(1))
    if len(rs) != 1 or rs[0][0] != 'many':
        raise Unsupported('compression of a structure')
    _, lv, start, cnt, kind, w, sg = rs[0]
    s = c.x.peek(lv)
    c.require(And(start >= 0, cnt >= 0, start + cnt <= s.n), 'bytes within the object')
    c.ret(deflated(Seq(cnt, lambda k: s.at(norm(start + k)), s.es), c.arg(2)))


@contract(Z + 'decompress', params=['vector'], name='decompress(bytes)', trusted=ZLIB)
def _(c):
    ok, d = inflated(c.arg(0))
    c.throw_if(Not(ok), 'not a deflate stream')
    c.ret(d)


def out_buffer(x, fn):
    from vc.values import Ptr
    cell = x.newcell(fresh(('seq', U8), 'outbuf'), 'outbuf')
    return {1: Ptr(cell, I(0), None, U8)}


def typed(es, n, byte):
    """the n elements whose bytes are byte(0), byte(1), ..."""
    w = width(es)
    kind = 'D' if es[0] == 'D' else 'I'
    return Seq(n, lambda k: dec(kind, w, es[0] == 'int' and es[2], [byte(norm(k * w + i)) for i in range(w)]), es)


@contract(Z + 'decompress', params=['vector', None, None], name='decompress(buffer)', setup=out_buffer)
def _(c):
    ok, d = inflated(c.arg(0))
    n = c.arg(2)
    c.throw_if(Not(ok), 'not a deflate stream')
    c.throw_if(And(ok, d.n != n), 'unexpected number of bytes')
    rs = regions(c.x, c.arg(1), n)
    if not rs:
        return
    if len(rs) != 1 or rs[0][0] != 'many':
        raise Unsupported('decompression into a structure')
    _, lv, start, cnt, kind, w, sg = rs[0]
    s = c.x.peek(lv)
    c.require(And(start >= 0, cnt >= 0, start + cnt <= s.n), 'bytes within the object')
    new = typed(s.es, cnt, d.at)
    c.post(lv, Seq(s.n, lambda k: vite(And(k >= start, k < start + cnt), new.at(norm(k - start)), s.at(k)), s.es))
    c.havoc_on_throw(lv)


# ---------------------------------------------------------------- columns
def allzero(x):
    z = ZERO if x.es[0] == 'D' else I(0)
    return forall(I(0), x.n, lambda k: x.at(k) == z)


@contract(IO + 'all_zero')
def _(c):
    c.ret(allzero(c.arg(0)))


def stored(x):
    """what a file stores of a column: nothing when it is all zero"""
    d = deflated(x, LEVEL)
    return Seq(If(allzero(x), I(0), d.n), d.at, U8)


@contract(IO + 'compress_field')
def _(c):
    c.ret(stored(c.arg(0)))


def block_parts(d):
    return [('s', 8, d.n)] + rep(d.n, lambda j: [('s', 1, d.at(j))])


@contract(IO + 'write_compressed')
def _(c):
    out(c, 0, block_parts(c.arg(1)))


class Block:
    """a stored column in the content C, by the position p of its length field: its length, the
    position behind it, whether it is damaged, its elements.  The functions are defined by axioms."""

    def __init__(self, C):
        self.C = C
        n = C.name
        self._len, self._next = Fn('blk.len:' + n, INT, INT), Fn('blk.next:' + n, INT, INT)
        p = z3.Int('bp')
        L = mk('I', 8, [C.byte(p + i) for i in range(8)])
        add_fact('blk.len:' + n, z3.ForAll([p], And(self._len(p) == L, L >= 0, L < 2 ** 64), patterns=[self._len(p)]))
        self._arr = Fn('blk.arr:' + n, INT, BYTES)
        k = z3.Int('bk')
        e = z3.Select(self._arr(p), k)
        add_fact('blk.arr:' + n, z3.ForAll([p, k], e == If(And(k >= 0, k < self._len(p)), C.f(p + 8 + k), I(0)), patterns=[e]))
        add_fact('blk.next:' + n, z3.ForAll([p], And(self._next(p) == p + 8 + self._len(p), self._len(p) >= 0), patterns=[self._next(p)]))

    def len(self, p):
        return self._len(p)

    def next(self, p):
        return self._next(p)

    def bytes(self, p):
        """the bytes of the block as an array, zero outside"""
        return self._arr(p)

    def inflated(self, p):
        lam, n = self._arr(p), self._len(p)
        return zok(lam, n), Seq(ilen(lam, n), lambda k: ibyte(lam, n, k), U8)

    def funs(self, es):
        key = '%s:%s' % (tag_of(es), self.C.name)
        bad, val = Fn('blk.bad:' + key, INT, INT, BOOL), Fn('blk.val:' + key, INT, INT, INT, D if es[0] == 'D' else INT)
        if key not in _known:
            _known.add(key)
            p, n, k = z3.Int('bp'), z3.Int('bn'), z3.Int('bk')
            C, L = self.C, self._len(p)
            ok, d = self.inflated(p)
            add_fact('blk.bad:' + key, z3.ForAll([p, n], bad(p, n) == Or(p + 8 > C.n, And(L > 0, Or(p + 8 + L > C.n, Not(ok), d.n != n * width(es)))), patterns=[bad(p, n)]))
            v = val(p, n, k)
            rng = [] if es[0] == 'D' else [v >= 0, v < 2 ** es[1]]
            add_fact('blk.val:' + key, z3.ForAll([p, n, k], And(v == typed(es, n, d.at).at(k), *rng), patterns=[v]))
        return bad, val

    def bad(self, p, n, es):
        """not complete, or not the compressed form of n elements"""
        return self.funs(es)[0](p, n)

    def col(self, p, n, es):
        val = self.funs(es)[1]
        return Seq(n, lambda k: val(p, n, k), es)


_blocks = {}


def block(C):
    if getattr(C, 'ctx', ()):
        raise Unsupported('columns of a file opened in a loop')
    if C.name not in _blocks:
        _blocks[C.name] = Block(C)
    return _blocks[C.name]


def stream_bad(s):
    return Or(s['fail'], s['eof'])


@contract(IO + 'read_compressed', weak_throw=True)
def _(c):
    s, n = c.arg(0), c.arg(1)
    es = c.retshape()[1]
    B, p = block(s['src']), s['pos']
    c.throw_if(Or(stream_bad(s), B.bad(p, n, es)), 'damaged column')
    c.havoc_on_throw(c.lv(0))
    c.post(c.lv(0).f('pos'), B.next(p))
    c.havoc.append(c.lv(0).f('gc'))
    x = B.col(p, n, es)
    c.ret(Seq(If(B.len(p) == 0, I(0), n), x.at, es))


# ---------------------------------------------------------------- columns of a whole file
RECORD_ES = {'x': ('D',), 'y': ('D',), 'z': ('D',), 'c': ('int', 32, False), 'p': ('int', 32, False), 'i': ('int', 16, False), 'r': ('int', 16, False), 'g': ('int', 16, False), 'b': ('int', 16, False)}


def positions(C, p):
    """positions of the nine fixed columns and of the first extra column"""
    ps = [p]
    for _ in FIELDS:
        ps.append(block(C).next(ps[-1]))
    return ps


def extra_positions(c, C, p):
    """where the column of extra field j starts"""
    k = z3.Int('k!ep')
    for sp in c.x.specs:
        if sp.kind == 'rec' and getattr(sp, 'what', None) == 'columns' and sp.init[0].eq(p) and sp.C is C:
            return sp
    sp = RecSpec([p], lambda k, h: [block(C).next(h[0])])
    sp.what, sp.C = 'columns', C
    c.x.specs.append(sp)
    return sp


def value_at(C, p, n, es, k):
    """element k of the column at p"""
    z = ZERO if es[0] == 'D' else I(0)
    return If(block(C).len(p) == 0, z, block(C).col(p, n, es).at(k))


def columns_of(c, C, p, n, ef):
    """the records that the columns at p describe, the end position, and the damage conditions"""
    ps = positions(C, p)
    ep = extra_positions(c, C, ps[9])
    E = lambda j: ep.h(0, j)

    def rec(k):
        d = {f: value_at(C, ps[i], n, RECORD_ES[f], k) for i, f in enumerate(FIELDS)}
        d['extra'] = Seq(ef, lambda j: value_at(C, E(j), n, U64, k), U64)
        return Struct('spoc::point_record::point_record', d)
    return Seq(n, rec), E(ef), ps, E


def bad_columns(c, s, ps, E, n, ef):
    ex = S.ExistsSpec(lambda j: block(s['src']).bad(E(j), n, U64))
    c.x.specs.append(ex)
    return [(block(s['src']).bad(ps[i], n, RECORD_ES[f]), 'damaged column ' + f) for i, f in enumerate(FIELDS)] + [(ex.ex(ef), 'damaged extra column')]


@contract(IO + 'read_compressed_points', weak_throw=True)
def _(c):
    s, n, ef = c.arg(0), c.arg(1), c.arg(2)
    c.require(ef <= 255, 'at most 255 extra fields')
    C, p = s['src'], s['pos']
    prs, end, ps, E = columns_of(c, C, p, n, ef)
    c.throw_if(stream_bad(s), 'unusable stream')
    for f, l in bad_columns(c, s, ps, E, n, ef):
        c.throw_if(f, l)
    c.havoc_on_throw(c.lv(0))
    c.post(c.lv(0).f('pos'), end)
    c.havoc.append(c.lv(0).f('gc'))
    c.ret(Seq(n, prs.at, c.retshape()[1]))
    c.template(column_template(c.lv(0), s, n, ps, E))


def column_template(lv, s0, n, ps, E):
    C = s0['src']
    pos = (lv.cell, lv.path + (('f', 'pos'),))

    def t(info):
        out = []
        if pos not in info.M:
            return out
        for li in info.M:
            v = info.v0s[li]
            if not (isinstance(v, z3.ExprRef) and z3.is_int(v)) or li == pos or li[0] == lv.cell:
                continue
            out.append(lambda vals, k, li=li: And(vals[li] >= 0, vals[pos] == E(vals[li])))
            out.append(lambda vals, k, li=li: forall(I(0), vals[li], lambda j: Not(block(C).bad(E(j), n, U64)), lambda j: block(C).bad(E(j), n, U64)))
            for ls in info.M:
                q = info.v0s[ls]
                if not (isinstance(q, Seq) and q.es and q.es[0] == 'seq'):
                    continue
                out.append(lambda vals, k, li=li, ls=ls: forall(I(0), vals[li], lambda j: vals[ls].at(j).n == If(block(C).len(E(j)) == 0, I(0), n)))

                def el(vals, k, li=li, ls=ls):
                    j, e = qvar(INT, 'j'), qvar(INT, 'e')
                    return z3.ForAll([j, e], Implies(And(j >= 0, j < vals[li], e >= 0, e < n, block(C).len(E(j)) != 0), vals[ls].at(j).at(e) == block(C).col(E(j), n, U64).at(e)))
                out.append(el)
        return out
    return t


# ---------------------------------------------------------------- writers of whole files
def nextra(prs):
    return If(prs.n == 0, I(0), prs.at(I(0))['extra'].n)


def header_of(c, f):
    """the header that describes a file object"""
    p = f['prs']
    return mkheader(c, None, f['major_version'], f['minor_version'], f['wkt'], nextra(p), p.n, f['compressed'])


def unrepresentable(c, f):
    c.throw_if(f['wkt'].n > 0xFFFF, 'WKT longer than 65535')
    c.throw_if(nextra(f['prs']) > 255, 'more than 255 extra fields')


def columns(prs):
    """the columns of the fixed fields, and column j of the extra fields"""
    fixed = [Seq(prs.n, lambda k, f=f: prs.at(k)[f], RECORD_ES[f]) for f in FIELDS]
    return fixed, lambda j: Seq(prs.n, lambda k: prs.at(k)['extra'].at(j), U64)


def column_parts(prs):
    fixed, extra = columns(prs)
    ps = []
    for x in fixed:
        ps += block_parts(stored(x))
    return ps + rep(nextra(prs), lambda j: block_parts(stored(extra(j))))


@contract(IO + 'write_spoc_file_uncompressed')
def _(c):
    f = c.arg(1)
    frel(c, c.lv(1))
    c.throw_if(f['compressed'], 'the file is marked compressed')
    unrepresentable(c, f)
    out(c, 0, hdr_parts(header_of(c, f)) + recs_parts(f['prs']))


@contract(IO + 'write_spoc_file_compressed')
def _(c):
    f = c.arg(1)
    frel(c, c.lv(1))
    c.throw_if(Not(f['compressed']), 'the file is marked uncompressed')
    unrepresentable(c, f)
    out(c, 0, hdr_parts(header_of(c, f)) + column_parts(f['prs']))


@contract(IO + 'write_spoc_file')
def _(c):
    f = c.arg(1)
    frel(c, c.lv(1))
    unrepresentable(c, f)
    out(c, 0, written_parts(c, f))


def written_parts(c, f):
    """the serialised form of a file object"""
    if z3.is_true(f['compressed']):
        return hdr_parts(header_of(c, f)) + column_parts(f['prs'])
    if z3.is_false(f['compressed']):
        return hdr_parts(header_of(c, f)) + recs_parts(f['prs'])
    return hdr_parts(header_of(c, f)) + [('ite', f['compressed'], column_parts(f['prs']), recs_parts(f['prs']))]


# ---------------------------------------------------------------- readers of whole files
def bad_header(c, s):
    """the conditions under which the header at the read position is refused"""
    C, pos = s['src'], s['pos']
    maj, mnr = version(c)
    h = hdr_of(C, pos)
    return h, [(Not(readable(s, I(8))), 'input ends before the header'), (Not(readable(s, hdr_size(C, pos))), 'input ends before the header'),
               (Not(sig_ok(h)), 'bad signature'), (Not(And(h['major_version'] == maj, h['minor_version'] == mnr)), 'unsupported version')]


def reader_value(c, s, kinds, es):
    """reading a whole file at the position of s: [(condition, reason of refusal)], file object, end position"""
    C = s['src']
    h, conds = bad_header(c, s)
    comp = h['compressed'] != 0
    known = z3.simplify(comp)
    comp = known if z3.is_true(known) or z3.is_false(known) else comp
    n, ef = h['total_points'], h['extra_fields']
    P = norm(s['pos'] + hdr_size(C, s['pos']))
    if kinds == 'c':
        conds.append((Not(comp), 'not a compressed file'))
    if kinds == 'u':
        conds.append((comp, 'not an uncompressed file'))
    upos = P + n * recsize(ef)
    c.x.mulfacts(n, norm(recsize(ef)))
    short = And(n > 0, upos > C.n)
    if 'c' in kinds:
        cols, cend, ps, E = columns_of(c, C, P, n, ef)
        for f, l in bad_columns(c, s, ps, E, n, ef):
            conds.append((f if kinds == 'c' else And(comp, f), l))
    if 'u' in kinds:
        conds.append((short if kinds == 'u' else And(Not(comp), short), 'input ends before the announced records'))
        recs = recs_of(C, P, n, ef)
    if kinds == 'u':
        prs, end = recs, upos
    elif kinds == 'c':
        prs, end = cols, cend
    else:
        prs, end = vite(comp, Seq(n, cols.at, es), Seq(n, recs.at, es)), If(comp, cend, upos)
    maj, mnr = version(c)
    return conds, mkfile(maj, mnr, h['wkt'], comp, Seq(n, prs.at, es)), norm(end)


def reader(kinds):
    def spec(c):
        conds, f, end = reader_value(c, c.arg(0), kinds, dict(c.retshape()[2])['prs'][1])
        for cond, l in conds:
            c.throw_if(cond, l)
        c.havoc_on_throw(c.lv(0))
        c.post(c.lv(0).f('pos'), end)
        c.havoc.append(c.lv(0).f('gc'))
        c.ret(f)
    return spec


contract(IO + 'read_spoc_file', weak_throw=True)(reader('cu'))
contract(IO + 'read_spoc_file_compressed', weak_throw=True)(reader('c'))
contract(IO + 'read_spoc_file_uncompressed', weak_throw=True)(reader('u'))


# ---------------------------------------------------------------- reading back what was written
class Written(ST.Content):
    """the content that consists of the parts of a rope.  The bytes are those of an unknown function f, with
    byte(t) rewritten, where the place of t in the rope is found, to the byte that was written there."""

    def __init__(self, name, parts, widths=()):
        super().__init__(name)
        self.parts, self.widths = parts, dict(widths)
        self.start = []
        o = I(0)
        for i, p in enumerate(parts):
            self.start.append(o)
            if p[0] == 's':
                o = norm(o + p[1])
            elif p[0] == 'rep':
                o = norm(o + p[1] * self.width(parts, i))
            else:
                raise Unsupported('length of a part')
        self.n = o

    def width(self, parts, i):
        """the length of one of the parts of a repetition; the lemma shows that it does not depend on which"""
        if parts is self.parts and i in self.widths:
            return self.widths[i]
        k = z3.Int('wd!k')
        w = total(parts[i][2](k))
        if w is None or k.decl().name() in syms(w):
            raise Unsupported('repetition of parts of different lengths')
        return w

    def byte(self, t):
        t = norm(t)
        r = self.find(self.parts, self.start, t)
        return self.f(t) if r is None else r[1] if r[0] is None else If(r[0], r[1], self.f(t))

    def find(self, parts, start, t):
        for p, o in zip(parts, start):
            if p[0] == 's':
                d = norm(t - o)
                if is_num(d) and 0 <= num(d) < p[1]:
                    return None, ST.byte_of('D' if p[2].sort() == D else 'I', p[1], p[2], I(num(d)))
        for i in reversed(range(len(parts))):
            p = parts[i]
            if p[0] != 'rep':
                continue
            d = norm(t - start[i])
            W = norm(self.width(parts, i))
            k = quotient(d, W)
            if k is None:
                continue
            inner = p[2](k)
            st, o = [], I(0)
            for q in inner:
                st.append(o)
                s = total([q])
                if s is None:
                    break
                o = norm(o + s)
            r = self.find(inner[:len(st)], st, norm(d - k * W))
            if r is None:
                continue
            c = And(k >= 0, k < p[1])
            return (c if r[0] is None else And(c, r[0])), r[1]
        return None


def total(parts):
    o = I(0)
    for p in parts:
        if p[0] == 's':
            o = norm(o + p[1])
        elif p[0] == 'rep':
            k = z3.Int('wd!k')
            w = total(p[2](k))
            if w is None or k.decl().name() in syms(w):
                return None
            o = norm(o + p[1] * w)
        else:
            return None
    return o


def monomials(t):
    """[(coefficient, rest)] of a normalised term"""
    out = []
    for s in (t.children() if z3.is_add(t) else [t]):
        if is_num(s):
            out.append((num(s), None))
        elif z3.is_mul(s) and is_num(s.arg(0)):
            r = s.children()[1:]
            out.append((num(s.arg(0)), r[0] if len(r) == 1 else norm(z3.Product(r))))
        else:
            out.append((1, s))
    return out


def quotient(d, W):
    """k with d = k * W + r, as far as it can be read off the term"""
    c0 = num(W) if is_num(W) else sum(c for c, r in monomials(W) if r is None)
    if c0 <= 0:
        return None
    k = I(0)
    for c, r in monomials(d):
        if c0 == 1 or (r is not None and c % c0 == 0):
            k = k + I(c // c0) * (r if r is not None else I(1))
    k = norm(k)
    if is_num(W) and is_num(d):
        return I(num(d) // num(W))
    return k


_names = iter(range(10 ** 6))


def unique(name):
    return '%s%d' % (name, next(_names))


def whole_file(L, compressed):
    f = L.fresh(L.shape('spoc::file::spoc_file'), 'f')
    maj, mnr = version(L)
    L.assume(And(same_extra(f['prs']), f['major_version'] == maj, f['minor_version'] == mnr, f['wkt'].n <= 0xFFFF, nextra(f['prs']) <= 255))
    return f.set('major_version', maj).set('minor_version', mnr).set('compressed', z3.BoolVal(compressed))


def written(L, f, fname):
    os = L.cell(ST.ostream_value(L.x), 'os')
    L.call(IO + fname, [os, L.cell(f, 'f')])
    return L.x.peek(os)['out'].p


def reading(L, C, fname):
    i = L.cell(ST.ostream_value(L.x, src=C), 'is')
    g = L.call(IO + fname, [i])
    return g, L.x.peek(i)['pos']


def uncompressed_roundtrip(L, wname, rname):
    f = whole_file(L, False)
    prs = f['prs']
    ps = written(L, f, wname)
    ps = flatten(L, ps)
    n = len(ps)
    W = norm(recsize(nextra(prs)))
    L.prove(forall(I(0), prs.n, lambda k: prs.at(k)['extra'].n == nextra(prs)), 'every record has the same length')
    C = Written(unique('file'), ps, {i: W for i, p in enumerate(ps) if p[0] == 'rep' and i == n - 1})
    L.x.assume(C.n < 2 ** 62)
    g, pos = reading(L, C, rname)
    L.prove_eq(g, f, 'the file object')
    L.prove(pos == C.n, 'exactly the bytes written are consumed')


def flatten(L, ps):
    """decide the alternatives"""
    out = []
    for p in ps:
        if p[0] != 'ite':
            out.append(p)
        elif L.x.valid(p[1]):
            out += flatten(L, p[2])
        elif L.x.valid(Not(p[1])):
            out += flatten(L, p[3])
        else:
            raise Unsupported('undecided alternative')
    return out


for _n, _w, _r in (('uncompressed', '_uncompressed', '_uncompressed'), ('uncompressed, either reader', '_uncompressed', ''), ('uncompressed, either writer', '', '_uncompressed'), ('uncompressed, either writer and reader', '', '')):
    lemma('roundtrip (%s)' % _n)(lambda L, w=_w, r=_r: uncompressed_roundtrip(L, 'write_spoc_file' + w, 'read_spoc_file' + r))


def mkfact(w, v):
    """the bytes of v make v"""
    if w == 1:
        return TRUE
    return (ST.mkD(*[ST.byteD(v, I(i)) for i in range(8)]) if v.sort() == D else ST.mkI[w](*[ST.byteI[w](v, I(i)) for i in range(w)])) == v


def zarr(x, level):
    """the bytes of the compressed form as an array that is zero outside, and their number"""
    tag, lam, n = column(x)
    zlen, zbyte = zfuns(tag)
    arr = Fn('zarr:' + tag, lam.sort(), INT, INT, BYTES)
    if 'zarr' + tag not in _known:
        _known.add('zarr' + tag)
        a, m, l, j = z3.Const('za', lam.sort()), z3.Int('zn'), z3.Int('zl'), z3.Int('zj')
        e = z3.Select(arr(a, m, l), j)
        add_fact('zarr:' + tag, z3.ForAll([a, m, l, j], e == If(And(j >= 0, j < zlen(a, m, l)), zbyte(a, m, l, j), I(0)), patterns=[e]))
    return arr(lam, n, level), zlen(lam, n, level)


def lossless(x, level=LEVEL):
    """what zlib guarantees: the compressed form of a column inflates to the bytes of the column"""
    lam, n = zarr(x, level)
    w, kind = width(x.es), 'D' if x.es[0] == 'D' else 'I'
    k = qvar(INT, 'e')
    return And(zok(lam, n), ilen(lam, n) == x.n * w,
               forall(I(0), x.n, lambda e: And(*[ibyte(lam, n, norm(e * w + i)) == ST.byte_of(kind, w, x.at(e), I(i)) for i in range(w)] + [mkfact(w, x.at(e))]),
                      lambda e: x.at(e)))


class Columns(ST.Content):
    """the content that consists of a header and of the columns that the rope ps consists of"""

    def __init__(self, L, name, head, ps, xs, ef, extra):
        super().__init__(name)
        self.head = Written(name + '.head', head)
        self.head.f = self.f
        o = self.head.n
        self.blocks = []
        while len(ps) > 1:
            o, d = self.block(L, o, ps[:2], xs[len(self.blocks)])
            ps = ps[2:]
        if len(ps) != 1 or len(self.blocks) != len(xs) or not ps[0][1].eq(ef):
            raise Unsupported('columns of another form')
        self.extra = ps[0][2]
        j = L.fresh(('int', 63, False), 'j')
        d = as_block(self.extra(j))
        L.prove(Implies(And(j >= 0, j < ef), d.n == stored(extra(j)).n), 'length of an extra column')
        self.m = Fn('length:' + name, INT, INT)      # of extra column j
        self.sums = RecSpec([o], lambda k, h: [h[0] + 8 + self.m(k)])
        L.x.specs.append(self.sums)
        self.S = lambda j: self.sums.h(0, j)
        self.n = self.S(ef)

    def block(self, L, o, ps, x):
        d = as_block(ps)
        m = L.fresh(('int', 62, False), 'm')
        L.assume(m == d.n)
        self.blocks.append((o, Seq(m, d.at, U8), x))
        return block(self).next(o), d

    def byte(self, t):
        t = norm(t)
        r = self.head.find(self.head.parts, self.head.start, t)
        return self.f(t) if r is None else r[1] if r[0] is None else If(r[0], r[1], self.f(t))


def as_block(ps):
    """the stored column that two parts of a rope are"""
    if len(ps) != 2 or ps[0][:2] != ('s', 8) or ps[1][0] != 'rep' or not ps[0][2].eq(ps[1][1]):
        raise Unsupported('not a stored column')
    f = ps[1][2]
    if [q[:2] for q in f(I(0))] != [('s', 1)]:
        raise Unsupported('not a stored column')
    return Seq(ps[1][1], lambda k: f(k)[0][2], U8)


def block_layout(C, o, d, k=None):
    """the column d is stored at o: its length, or its byte k"""
    if k is None:
        return And(*[C.f(norm(o + i)) == ST.byteI[8](d.n, I(i)) for i in range(8)] + [mkfact(8, d.n)])
    return Implies(And(k >= 0, k < d.n), C.f(norm(o + 8 + k)) == d.at(k))


def have(L, f, label):
    L.prove(f, label)
    L.assume(f)


def read_block(L, C, o, d, x, n, what):
    """the column d = stored(x) at o is read as x"""
    B = block(C)
    saved = list(L.x.st.pc)
    L.assume(block_layout(C, o, d))
    have(L, And(B.len(o) == d.n, B.next(o) == o + 8 + d.n), 'length of ' + what)
    z = z3.Const('z!%d' % len(L.x.st.pc), BOOL)
    L.assume(z == allzero(x))
    lam, m = zarr(x, LEVEL)
    have(L, d.n == If(z, I(0), m), 'column left out when zero, ' + what)
    k = L.fresh(('int', 63, True), 'k')
    L.assume(block_layout(C, o, d, k))
    L.prove(Implies(Not(z), z3.Select(B.bytes(o), k) == z3.Select(lam, k)), 'bytes of ' + what)
    L.assume(Implies(Not(z), B.bytes(o) == lam))
    L.assume(lossless(x))
    w, kind = width(x.es), 'D' if x.es[0] == 'D' else 'I'
    have(L, Implies(Not(z), And(zok(B.bytes(o), B.len(o)), ilen(B.bytes(o), B.len(o)) == n * w)), 'what inflates, ' + what)
    have(L, Not(And(B.len(o) > 0, Or(Not(zok(B.bytes(o), B.len(o))), ilen(B.bytes(o), B.len(o)) != n * w))), 'undamaged, ' + what)
    col = B.col(o, n, x.es)
    have(L, Implies(Not(z), forall(I(0), n, lambda e: col.at(e) == x.at(e), lambda e: col.at(e))), 'elements of ' + what)
    have(L, Implies(z, B.len(o) == 0), 'empty ' + what)
    e = qvar(INT, 'e')
    r = z3.ForAll([e], Implies(And(e >= 0, e < n), value_at(C, o, n, x.es, e) == x.at(e)), patterns=[col.at(e), x.at(e)])
    have(L, r, 'values of ' + what)
    L.prove(Implies(o + 8 + d.n <= C.n, Not(B.bad(o, n, x.es))), 'undamaged ' + what)
    L.x.st.pc = saved
    return r, And(B.next(o) == o + 8 + d.n, Implies(o + 8 + d.n <= C.n, Not(B.bad(o, n, x.es))))


def compressed_roundtrip(L, wname, rname):
    f = whole_file(L, True)
    known = list(L.x.st.pc)
    prs = f['prs']
    n, ef = prs.n, nextra(prs)
    ps = flatten(L, written(L, f, wname))
    xs, extra = columns(prs)
    h = len(hdr_parts(header_of(L, f)))
    C = Columns(L, unique('file'), ps[:h], ps[h:], xs, ef, extra)
    B = block(C)
    L.assume(C.n < 2 ** 62)
    for i, (o, d, x) in enumerate(C.blocks):
        r = read_block(L, C, o, d, x, n, 'column %d' % i)
        L.assume(And(*r))
        known.append(r[0])
    # the extra columns
    S, U = C.S, U64
    j0 = L.fresh(('int', 63, False), 'j')
    j = z3.Int('j!len')
    L.assume(z3.ForAll([j], C.m(j) >= 0, patterns=[C.m(j)]))
    L.induct(lambda k: forall(I(0), k + 1, lambda j: S(j) <= S(k), lambda j: S(j)), ef, 'columns follow each other')
    saved = list(L.x.st.pc)
    d = as_block(C.extra(j0))
    L.assume(And(j0 >= 0, j0 < ef, C.sums.step(j0), C.m(j0) == d.n))
    L.prove(d.n >= 0, 'length of an extra column')
    same, one = read_block(L, C, S(j0), Seq(C.m(j0), d.at, U8), extra(j0), n, 'an extra column')
    L.assume(one)
    have(L, B.next(S(j0)) == S(z3.simplify(j0 + 1)), 'where the next extra column starts')
    L.x.st.pc = saved
    j = z3.Int('j!col')
    L.assume(z3.ForAll([j], Implies(And(j >= 0, j < ef), And(z3.substitute(one, (j0, j)), B.next(S(j)) == S(j + 1), S(j + 1) <= S(ef))), patterns=[S(j)]))
    E = extra_positions(L, C, C.sums.init[0])
    L.induct(lambda k: Implies(k <= ef, E.h(0, k) == S(k)), ef, 'where the extra columns are')
    j = z3.Int('j!pos')
    L.assume(z3.ForAll([j], Implies(And(j >= 0, j <= ef), E.h(0, j) == S(j)), patterns=[E.h(0, j)]))
    saved = list(L.x.st.pc)
    e0 = L.fresh(('int', 63, False), 'e')
    at = z3.substitute_vars(same.body(), e0)         # an instance of what is known about column j0
    L.x.st.pc = [And(j0 >= 0, j0 < ef, e0 >= 0, e0 < n), at, E.h(0, j0) == S(j0)]
    v = value_at(C, E.h(0, j0), n, U, e0) == extra(j0).at(e0)
    L.prove(v, 'values of an extra column')
    L.x.st.pc = saved
    e = z3.Int('e!val')
    known.append(z3.ForAll([j, e], Implies(And(j >= 0, j < ef, e >= 0, e < n), z3.substitute(v, (j0, j), (e0, e))), patterns=[block(C).col(E.h(0, j), n, U).at(e), extra(j).at(e)]))
    g, pos = reading(L, C, rname)
    L.prove(pos == C.n, 'exactly the bytes written are consumed')
    L.x.st.pc = known              # what the values depend on
    L.prove_eq(g, f, 'the file object')


for _n, _w, _r in (('compressed', '_compressed', '_compressed'), ('compressed, either reader', '_compressed', ''), ('compressed, either writer', '', '_compressed'), ('compressed, either writer and reader', '', '')):
    lemma('roundtrip (%s)' % _n)(lambda L, w=_w, r=_r: compressed_roundtrip(L, 'write_spoc_file' + w, 'read_spoc_file' + r))
