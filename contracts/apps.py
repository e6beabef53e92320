"""apps/: app_utils.h and the programs' functions"""
from .common import *
from .lib_data import rec_eq
from .lib_data2 import same_extra
from vc.stdmodel import txtfun, text2int, text2len, text_only, dmath, sub

AU, TR = 'spoc::app_utils::', 'spoc::transform_app::'
ST = ('seq', ('int', 8, True))


def ch0(s):
    """s[0] of a std::string: the terminating zero when it is empty"""
    return If(s.n == 0, I(0), s.at(I(0)))


def is_ch(s, c):
    return ch0(s) == ord(c)


def cvt(v, bits, signed=False):
    """C++ conversion of a double to an integer type"""
    return Fn('cvt_%s%d' % ('s' if signed else 'u', bits), D, INT)(v)


def extra_index(c, s):
    """the index that an extra field name spells, -1 when it spells none"""
    t = sub(s, I(1), z3.simplify(s.n - 1))
    digits, d = text_only(t, sorted(map(ord, '0123456789')))
    c.facts.append(d)
    return If(And(is_ch(s, 'e'), digits, txtfun('text2int32.ok', t, BOOL)), text2int(t, 32), I(-1))


@contract(AU + 'is_extra_field')
def _(c):
    c.ret(is_ch(c.arg(0), 'e'))


@contract(AU + 'get_extra_index')
def _(c):
    c.ret(extra_index(c, c.arg(0)))


# ---------------------------------------------------------------- transform operations
def pr_shape(c):
    for i, t in enumerate(c.x.prog.types):
        if t and t['k'] == 'record' and t.get('name') == 'spoc::point_record::point_record':
            return c.x.prog.shape(i)


def opret(c, spec, free={}):
    """spec(record) -> (throws, record)"""
    def s(a):
        t, r = spec(a[0])
        return t, r, free
    c.ret_fn([pr_shape(c)], s)


for _f in DF:
    def _mk(f):
        def add(c):
            v = c.arg(0)
            opret(c, lambda r: (FALSE, r.set(f, f_add(r[f], v))))

        def scale(c):
            v = c.arg(0)
            opret(c, lambda r: (FALSE, r.set(f, f_mul(r[f], v))))
        return add, scale
    _a, _s = _mk(_f)
    contract(TR + 'get_add_%s_op' % _f)(_a)
    contract(TR + 'get_scale_%s_op' % _f)(_s)


PLANE = {'x': ('y', 'z'), 'y': ('x', 'z'), 'z': ('x', 'y')}
for _f in DF:
    def _mk(f):
        a, b = PLANE[f]

        def rot(c):
            deg = c.arg(0)
            r = f_div(f_mul(deg, dlit(3.14159265358979323846)), dlit(180.0))
            s, k = dmath('sin', r), dmath('cos', r)
            opret(c, lambda p: (FALSE, p.set(a, f_sub(f_mul(p[a], k), f_mul(p[b], s))).set(b, f_add(f_mul(p[a], s), f_mul(p[b], k)))))
        return rot
    contract(TR + 'get_rotate_%s_op' % _f)(_mk(_f))


@contract(TR + 'get_quantize_op')
def _(c):
    prec = c.arg(0)
    q = lambda d: f_mul(dmath('trunc', f_div(d, prec)), prec)
    opret(c, lambda r: (FALSE, upd(r, x=q(r['x']), y=q(r['y']), z=q(r['z']))))


def no_xyz(c, s):
    c.throw_if(Or(*[is_ch(s, f) for f in DF]), 'floating point field')


def known_field(c, s):
    c.require(Or(*[is_ch(s, f) for f in FIELDS + ('e',)]), 'the name starts with a field letter')


def pick_field(r, s, j, dflt=None):
    v = If(And(j >= 0, j < r['extra'].n), r['extra'].at(j), I(0))
    for f in IF:
        v = If(is_ch(s, f), r[f], v)
    return v


def put_field(r, s, j, v, cond=TRUE):
    """v: function of the number of bits of the field"""
    for f in IF:
        r = r.set(f, If(And(is_ch(s, f), cond), v(BITS[f]), r[f]))
    e = r['extra']
    val = v(64)
    return r.set('extra', Seq(e.n, lambda k: If(And(is_ch(s, 'e'), k == j, cond), val, e.at(k)), e.es))


def bad_extra(r, s, j):
    return And(is_ch(s, 'e'), Or(j < 0, j >= r['extra'].n))


def low(v):
    return lambda bits: v if bits == 64 else v % (1 << bits)


@contract(TR + 'get_copy_field_op')
def _(c):
    a, b = c.arg(0), c.arg(1)
    known_field(c, a)
    known_field(c, b)
    no_xyz(c, a)
    no_xyz(c, b)
    i, j = extra_index(c, a), extra_index(c, b)
    opret(c, lambda r: (Or(bad_extra(r, a, i), bad_extra(r, b, j)), put_field(r, b, j, low(pick_field(r, a, i)))))


@contract(TR + 'get_replace_op')
def _(c):
    a, v1, v2 = c.arg(0), c.arg(1), c.arg(2)
    known_field(c, a)
    no_xyz(c, a)
    j = extra_index(c, a)
    opret(c, lambda r: (bad_extra(r, a, j), put_field(r, a, j, low(v2), pick_field(r, a, j) == v1)))


@contract(TR + 'get_replace_not_op')
def _(c):
    a, vs = c.arg(0), c.arg(1)
    known_field(c, a)
    no_xyz(c, a)
    c.throw_if(vs.n < 2, 'not enough values')
    j = extra_index(c, a)
    last = vs.at(vs.n - 1)

    def spec(r):
        cur = pick_field(r, a, j)
        k = qvar(INT, 'k')
        listed = z3.Exists([k], And(k >= 0, k < vs.n - 1, vs.at(k) == cur))
        return bad_extra(r, a, j), put_field(r, a, j, low(last), Not(listed))
    opret(c, spec)


@contract(TR + 'get_set_op')
def _(c):
    a, v = c.arg(0), c.arg(1)
    known_field(c, a)
    j = extra_index(c, a)

    def spec(r):
        out = put_field(r, a, j, lambda b: cvt(v, b))
        for f in DF:
            out = out.set(f, If(is_ch(a, f), v, r[f]))
        return bad_extra(r, a, j), out
    opret(c, spec)


for _n in ('gaussian', 'uniform'):
    @contract(TR + 'get_%s_noise_op' % _n)
    def _(c):
        m = {f: c.arg(i + 1) for i, f in enumerate(DF)}
        opret(c, lambda r: (FALSE, r), {f: Not(feq(m[f], dlit(0.0))) for f in DF})


# ---------------------------------------------------------------- names and numbers on the command line
def is_letter(s):
    return And(s.n == 1, Or(*[s.at(I(0)) == ord(f) for f in FIELDS]))


def field_ok(c, s):
    return Or(is_letter(s), And(s.n > 1, s.at(I(0)) == ord('e'), extra_index(c, s) >= 0))


@contract(AU + 'check_field_name')
def _(c):
    c.ret(field_ok(c, c.arg(0)))


def imin(a, b):
    return If(a <= b, a, b)


def alnum(v):
    return Fn('c_isalnum', INT, INT)(v) != 0


def word_len(c, s):
    """length of the run of letters and digits at the start"""
    L = txtfun('word', s, INT)
    c.facts.append(And(L >= 0, L <= s.n, forall(I(0), L, lambda k: alnum(s.at(k)), lambda k: s.at(k)), Or(L == s.n, Not(alnum(s.at(L))))))
    return L


def skip(s, n):
    """without the first n characters and the separator behind them"""
    m = z3.simplify(imin(n + 1, s.n))
    return sub(s, m, z3.simplify(s.n - m))


@contract(AU + 'consume_field_name')
def _(c):
    s = c.arg(0)
    L = word_len(c, s)
    w = sub(s, I(0), L)
    # the terminating zero is neither a letter nor a digit (C library)
    c.facts.append(Fn('c_isalnum', INT, INT)(I(0)) == 0)
    c.throw_if(s.n == 0, 'no text')
    c.throw_if(Not(field_ok(c, w)), 'not a field name')
    c.havoc_on_throw(c.lv(0))
    c.post(c.lv(0), skip(s, L))
    c.ret(w)
    c.template(lambda info: [lambda vals, k: And(k <= L, k >= 0)])


@contract(AU + 'consume_int')
def _(c):
    s = c.arg(0)
    c.throw_if(Not(txtfun('text2int32.ok', s, BOOL)), 'not a number')
    c.post(c.lv(0), skip(s, text2len('text2int32', s)))
    v = text2int(s, 32)
    c.ret(If(v < 0, v + 2 ** 32, v))


@contract(AU + 'consume_double')
def _(c):
    s = c.arg(0)
    c.throw_if(Not(txtfun('text2double.ok', s, BOOL)), 'not a number')
    c.post(c.lv(0), skip(s, text2len('text2double', s)))
    c.ret(txtfun('text2double', s, D))


# ---------------------------------------------------------------- filter
FI, ME, TI = 'spoc::filter_app::', 'spoc::merge_app::', 'spoc::tile_app::'
from .lib_data2 import mkfile, frel


def filtered(c, f, pred):
    """the file with the records that satisfy pred, unchanged and in order"""
    prs = f['prs']
    sp = S.FilterSpec(lambda k: pred(prs.at(k)))
    c.x.specs.append(sp)
    return f.set('prs', sp.seq(prs.n, prs.at, prs.es))


def isclass(cs, r):
    c = r['c']
    return cs.has(If(c >= 1 << 31, c - 2 ** 32, c))   # converted to the set's element type, int


@contract(FI + 'keep_classes')
def _(c):
    f, cs = c.arg(0), c.arg(1)
    frel(c, c.lv(0))
    c.ret(filtered(c, f, lambda r: isclass(cs, r)))


@contract(FI + 'remove_classes')
def _(c):
    f, cs = c.arg(0), c.arg(1)
    frel(c, c.lv(0))
    c.ret(filtered(c, f, lambda r: Not(isclass(cs, r))))


# ---------------------------------------------------------------- merge
@contract(ME + 'append')
def _(c):
    f1, f2, ident = c.arg(0), c.arg(1), c.arg(2)
    frel(c, c.lv(0))
    frel(c, c.lv(1))
    a, b = f1['prs'], f2['prs']
    c.require(And(f1['wkt'].n <= 0xFFFF, f2['wkt'].n <= 0xFFFF), 'reference strings of at most 65535 bytes')
    e1, e2 = a.at(I(0))['extra'].n, b.at(I(0))['extra'].n
    c.require(And(Or(a.n == 0, e1 <= 255), Or(b.n == 0, e2 <= 255)), 'at most 255 extra fields')
    c.throw_if(And(a.n > 0, b.n > 0, e1 != e2), 'different numbers of extra fields')
    from vc.stdmodel import concat
    c.post(c.lv(1).f('prs'), concat(c.x, b, cmap(a, lambda r: r.set('p', ident), b.es)))
    c.havoc.append(c.lv(4))
