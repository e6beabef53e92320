"""Value domain of the verifier.

Scalars are z3 terms (Int for every C++ integer type, Bool for bool, the
uninterpreted sort D for float/double).  Aggregates are Python objects whose
leaves are scalars, sequences are (length, index -> value) pairs, so that a
`vector<point_record>` is simply a family of uninterpreted functions.
"""
import z3

D = z3.DeclareSort('D')
INT = z3.IntSort()
BOOL = z3.BoolSort()
_keep = []


class Unsupported(Exception):
    """The verifier cannot reason about this construct (never an alarm by itself)."""


def I(n):
    return z3.IntVal(n)


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def is_num(t):
    return z3.is_int_value(t)


def num(t):
    return t.as_long()


# ------------------------------------------------------------------ facts
# symbol name -> list of formulas that hold for that symbol (type ranges,
# defining axioms of spec functions).
FACTS = {}
_symcache = {}


def add_fact(name, f):
    l = FACTS.setdefault(name, {})
    k = f.get_id()
    if k not in l:
        l[k] = f
        _keep.append(f)


def syms(t):
    """names of uninterpreted symbols occurring in t"""
    root = t
    r = _symcache.get(root.get_id())
    if r is not None:
        return r
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = _symcache.get(i)
        if c is not None:
            out |= c
            continue
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    r = frozenset(out)
    _symcache[root.get_id()] = r
    _keep.append(root)
    return r


_fcache = {}


_mpkeep = []
_z3mp = z3.MultiPattern


def _mp(*args):
    """z3's pattern objects do not keep their terms alive"""
    _mpkeep.append(args)
    return _z3mp(*args)


z3.MultiPattern = _mp


def Fn(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    f = _fcache.get(k)
    if f is None:
        f = z3.Function(name, *sorts)
        _fcache[k] = f
    return f


_ccache = {}


def Const(name, sort):
    k = (name, sort.name())
    c = _ccache.get(k)
    if c is None:
        c = z3.Const(name, sort)
        _ccache[k] = c
    return c


# ------------------------------------------------------------------ floating point
f_ord = Fn('ord', D, z3.RealSort())
f_nan = Fn('isnan', D, BOOL)
f_add = Fn('fadd', D, D, D)
f_sub = Fn('fsub', D, D, D)
f_mul = Fn('fmul', D, D, D)
f_div = Fn('fdiv', D, D, D)
f_neg = Fn('fneg', D, D)
f_i2d = Fn('i2d', INT, D)      # integer -> double (round to nearest)
f_d2i = Fn('d2i', D, INT)      # trunc towards zero, as a mathematical integer
f_d2f = Fn('d2f', D, D)        # double -> float rounding


def flt(a, b):
    return z3.And(z3.Not(f_nan(a)), z3.Not(f_nan(b)), f_ord(a) < f_ord(b))


def fle(a, b):
    return z3.And(z3.Not(f_nan(a)), z3.Not(f_nan(b)), f_ord(a) <= f_ord(b))


def feq(a, b):
    return z3.And(z3.Not(f_nan(a)), z3.Not(f_nan(b)), f_ord(a) == f_ord(b))


_lits = {}


def dlit(v):
    import struct
    from fractions import Fraction
    import math
    v = float(v)
    bits = struct.unpack('<Q', struct.pack('<d', v))[0]
    if bits in _lits:
        return _lits[bits]
    name = 'dlit_%016x' % bits
    c = Const(name, D)
    if math.isnan(v):
        add_fact(name, f_nan(c))
    else:
        add_fact(name, z3.Not(f_nan(c)))
        if math.isinf(v):
            o = z3.RealVal(2 ** 1024 if v > 0 else -2 ** 1024)
        else:
            fr = Fraction(v)
            o = z3.Q(fr.numerator, fr.denominator)
        add_fact(name, f_ord(c) == o)
        if bits == 0:
            # the only two doubles that compare equal to zero are the two zeros
            pass
    f = Fn('dbits', D, INT)
    add_fact(name, f(c) == I(bits))
    _lits[bits] = c
    return c


def _theory():
    a, b, c = z3.Consts('fa fb fc', D)
    n, m = z3.Ints('fn fm')
    A = z3.ForAll
    add_fact('fadd', A([a, b], f_add(a, b) == f_add(b, a), patterns=[f_add(a, b)]))
    add_fact('fmul', A([a, b], f_mul(a, b) == f_mul(b, a), patterns=[f_mul(a, b)]))
    # finite doubles and infinities embed in [-2^1024, 2^1024]
    lim = z3.RealVal(2 ** 1024)
    add_fact('ord', A([a], z3.And(f_ord(a) <= lim, f_ord(a) >= -lim), patterns=[f_ord(a)]))
    # rounding is monotone: integer -> double
    add_fact('i2d', A([n], z3.And(z3.Not(f_nan(f_i2d(n))),
                                  z3.Implies(z3.And(n <= 2 ** 53, n >= -2 ** 53), f_ord(f_i2d(n)) == z3.ToReal(n))),
                      patterns=[f_i2d(n)]))
    add_fact('i2d', A([n, m], z3.Implies(n <= m, f_ord(f_i2d(n)) <= f_ord(f_i2d(m))),
                      patterns=[z3.MultiPattern(f_i2d(n), f_i2d(m))]))
    add_fact('i2d', f_i2d(I(0)) == dlit(0.0))
    # truncation of a non-negative double is non-negative and never exceeds it
    add_fact('d2i', A([a], z3.Implies(z3.And(z3.Not(f_nan(a)), f_ord(a) >= 0),
                                      z3.And(f_d2i(a) >= 0, z3.ToReal(f_d2i(a)) <= f_ord(a), f_ord(a) < z3.ToReal(f_d2i(a)) + 1)),
                      patterns=[f_d2i(a)]))


_theory()

# bytes of scalars
mkD = Fn('mkD', *([INT] * 8 + [D]))
byteD = Fn('byteD', D, INT, INT)
mkI = {2: Fn('mkI2', INT, INT, INT), 4: Fn('mkI4', *([INT] * 5)), 8: Fn('mkI8', *([INT] * 9))}
byteI = {2: Fn('byteI2', INT, INT, INT), 4: Fn('byteI4', INT, INT, INT), 8: Fn('byteI8', INT, INT, INT)}


def _bytes_theory():
    a = z3.Const('ba', D)
    n, j = z3.Ints('bn bj')
    bs = z3.Ints('b0 b1 b2 b3 b4 b5 b6 b7')
    A = z3.ForAll
    rng = lambda x: z3.And(x >= 0, x <= 255)
    add_fact('byteD', A([a], mkD(*[byteD(a, I(k)) for k in range(8)]) == a, patterns=[byteD(a, I(0))]))
    add_fact('byteD', A([a, j], rng(byteD(a, j)), patterns=[byteD(a, j)]))
    add_fact('mkD', A(bs, z3.Implies(z3.And([rng(x) for x in bs]), z3.And([byteD(mkD(*bs), I(k)) == bs[k] for k in range(8)])), patterns=[mkD(*bs)]))
    for w in (2, 4, 8):
        add_fact('byteI%d' % w, A([n], z3.Implies(z3.And(n >= 0, n < 2 ** (8 * w)), mkI[w](*[byteI[w](n, I(k)) for k in range(w)]) == n), patterns=[byteI[w](n, I(0))]))
        add_fact('byteI%d' % w, A([n, j], rng(byteI[w](n, j)), patterns=[byteI[w](n, j)]))
        b = bs[:w]
        add_fact('mkI%d' % w, A(b, z3.Implies(z3.And([rng(x) for x in b]), z3.And([byteI[w](mkI[w](*b), I(k)) == b[k] for k in range(w)])), patterns=[mkI[w](*b)]))
        add_fact('mkI%d' % w, A(b, z3.And(mkI[w](*b) >= 0, mkI[w](*b) < 2 ** (8 * w)), patterns=[mkI[w](*b)]))
        add_fact('mkI%d' % w, mkI[w](*[I(0)] * w) == 0)
    add_fact('mkD', mkD(*[I(0)] * 8) == dlit(0.0))


_bytes_theory()


# ------------------------------------------------------------------ aggregates
class Struct:
    __slots__ = ('name', 'f', 'shape')

    def __init__(self, name, f, shape=None):
        self.name = name
        self.f = f
        self.shape = shape

    def __getitem__(self, k):
        return self.f[k]

    def set(self, k, v):
        g = dict(self.f)
        g[k] = v
        return Struct(self.name, g, self.shape)

    def __repr__(self):
        return 'Struct(%s,%s)' % (self.name, self.f)


class Seq:
    """sequence value: n = length term, fn = index -> value"""
    __slots__ = ('n', 'fn', 'memo', 'es', 'lit', 'over')

    def __init__(self, n, fn, es=None, lit=None):
        self.n = n
        self.fn = fn
        self.memo = {}
        self.es = es
        self.over = None   # (old sequence, lo, hi, value function on [lo, hi))
        self.lit = lit     # python list of elements when fully concrete length

    def at(self, k):
        if isinstance(k, int):
            k = I(k)
        i = k.get_id()
        r = self.memo.get(i)
        if r is None:
            v = self.fn(k)
            self.memo[i] = (k, v)
            return v
        return r[1]

    def __repr__(self):
        return 'Seq(%s)' % (self.n,)


def lit_seq(vals, es=None):
    vals = list(vals)

    def fn(k):
        if is_num(k):
            n = num(k)
            if 0 <= n < len(vals):
                return vals[n]
            if vals:
                return vals[0]
        if not vals:
            if es is not None:
                return fresh(es, 'emptyseq.' + shape_name(es), (k,))
            raise Unsupported('element of empty sequence')
        r = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            r = vite(k == i, vals[i], r)
        return r
    return Seq(I(len(vals)), fn, es, vals)


class SetV:
    """unordered_set: membership predicate closed under the key equality"""
    __slots__ = ('has', 'ks', 'n', 'der')

    def __init__(self, has, ks, n=None, der=None):
        self.has = has
        self.ks = ks
        self.n = n
        self.der = der       # (previous set, inserted key)


class MapV:
    __slots__ = ('has', 'get', 'ks', 'vs', 'der', 'src')

    def __init__(self, has, get, ks, vs, der=None):
        self.src = None      # (specification function, key sequence) of a map that groups the indexes of equal keys
        self.has = has
        self.get = get
        self.ks = ks
        self.vs = vs
        self.der = der       # (previous map, key, new value)


class Closure:
    __slots__ = ('key', 'caps', 'f')

    def __init__(self, key, caps, f):
        self.key = key
        self.caps = caps   # vid -> ('val', Value) | ('ref', LV)
        self.f = f


class FnV:
    """std::function / callable: guarded closures"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts   # [(cond, Closure|str-opaque)]


class Opaque:
    __slots__ = ('kind', 'd')

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def set(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return Opaque(self.kind, **d)

    def __repr__(self):
        return 'Opaque(%s)' % self.kind


class LV:
    """location: memory cell plus access path"""
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def f(self, name):
        return LV(self.cell, self.path + (('f', name),))

    def i(self, k):
        return LV(self.cell, self.path + (('i', k),))

    def __repr__(self):
        return 'LV(%s%s)' % (self.cell, self.path)

    def same(self, o):
        if self.cell != o.cell or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0]:
                return False
            if a[0] == 'f' and a[1] != b[1]:
                return False
            if a[0] == 'i' and not a[1].eq(b[1]):
                return False
        return True


class Ptr:
    """pointer or iterator: to location lv (idx None), or to element idx of the sequence at lv.
    bt: byte-view offset (term) when the pointer was reinterpret_cast to bytes."""
    __slots__ = ('lv', 'idx', 'byte', 'et')

    def __init__(self, lv, idx=None, byte=None, et=None):
        self.lv = lv
        self.idx = idx
        self.byte = byte
        self.et = et

    def target(self):
        if self.et is not None and (self.et[0] in ('view', 'bytesof') or self.et[0] == 'byte' and self.et[1] != self.et[2]):
            raise Unsupported('access through a pointer of another type')
        if self.idx is None:
            return self.lv
        return self.lv.i(self.idx)

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.lv, self.idx, self.byte)


class Iter:
    """iterator into a set/map: key or end"""
    __slots__ = ('lv', 'key', 'found')

    def __init__(self, lv, key, found):
        self.lv = lv
        self.key = key
        self.found = found   # Bool: points to key (else end())


class Null:
    pass


NULL = Null()


class Uninit:
    pass


# ------------------------------------------------------------------ shapes
def shape_name(s):
    return str(abs(hash(str(s))) % 100000) if False else s[0]


def fresh(shape, name, idx=()):
    k = shape[0]
    sorts = [INT if z3.is_int(x) else (BOOL if z3.is_bool(x) else D) for x in idx]
    if k == 'int':
        name = '%s:%s%d' % (name, 'i' if shape[2] else 'u', shape[1])
        f = Fn(name, *(sorts + [INT]))
        lo, hi = int_range(shape)
        if idx:
            vs = [z3.Const('q%d' % i, s) for i, s in enumerate(sorts)]
            add_fact(name, z3.ForAll(vs, z3.And(f(*vs) >= lo, f(*vs) <= hi), patterns=[f(*vs)]))
            return f(*idx)
        add_fact(name, z3.And(f() >= lo, f() <= hi))
        return f()
    if k == 'bool':
        return Fn(name, *(sorts + [BOOL]))(*idx)
    if k == 'D':
        return Fn(name, *(sorts + [D]))(*idx)
    if k == 'struct':
        return Struct(shape[1], {fn: fresh(fs, name + '.' + fn, idx) for fn, fs in shape[2]}, shape)
    if k == 'seq':
        es = shape[1]
        nm = name + '.n%d' % max(1, shape_size(es))
        f = Fn(nm, *(sorts + [INT]))
        lim = (2 ** 63 - 1) // max(1, shape_size(es))
        if idx:
            vs = [z3.Const('q%d' % i, s) for i, s in enumerate(sorts)]
            add_fact(nm, z3.ForAll(vs, z3.And(f(*vs) >= 0, f(*vs) <= lim), patterns=[f(*vs)]))
        else:
            add_fact(nm, z3.And(f() >= 0, f() <= lim))
        return Seq(f(*idx), lambda j: fresh(es, name + '.a', idx + (j,)), es)
    if k == 'arr':
        es = shape[1]
        return Seq(I(shape[2]), lambda j: fresh(es, name + '.a', idx + (j,)), es)
    if k == 'set':
        ks = shape[1]
        return SetV(lambda v: fresh(('bool',), name + '.has', idx + tuple(flat(v, ks))), ks)
    if k == 'map':
        ks, vs_ = shape[1], shape[2]
        return MapV(lambda v: fresh(('bool',), name + '.has', idx + tuple(flat(v, ks))),
                    lambda v: fresh(vs_, name + '.get', idx + tuple(flat(v, ks))), ks, vs_)
    if k == 'fn':
        return Opaque('fn', name=name, idx=idx)
    raise Unsupported('fresh value of shape %s' % (shape,))


def flat(v, s):
    """flatten a fixed-size value to scalars"""
    if s[0] in ('int', 'bool', 'D'):
        return [v]
    if s[0] == 'struct':
        r = []
        for fn, fs in s[2]:
            r += flat(v.f[fn], fs)
        return r
    raise Unsupported('flatten %s' % (s,))


def unflat(l, s):
    if s[0] in ('int', 'bool', 'D'):
        return l.pop(0)
    if s[0] == 'struct':
        return Struct(s[1], {fn: unflat(l, fs) for fn, fs in s[2]}, s)
    raise Unsupported('unflatten')


def flat_shapes(s):
    if s[0] in ('int', 'bool', 'D'):
        return [s]
    if s[0] == 'struct':
        r = []
        for fn, fs in s[2]:
            r += flat_shapes(fs)
        return r
    raise Unsupported('flatten %s' % (s,))


def shape_sort(s):
    return {'int': INT, 'bool': BOOL, 'D': D}[s[0]]


def int_range(s):
    bits, signed = s[1], s[2]
    if signed:
        return -2 ** (bits - 1), 2 ** (bits - 1) - 1
    return 0, 2 ** bits - 1


def shape_size(s):
    k = s[0]
    if k == 'int':
        return s[1] // 8
    if k == 'bool':
        return 1
    if k == 'D':
        return 8
    if k == 'struct':
        return max(1, sum(shape_size(fs) for _, fs in s[2]))
    if k == 'arr':
        return s[2] * shape_size(s[1])
    if k == 'seq':
        return 24
    return 32


# ------------------------------------------------------------------ generic operations
def zite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b):
            return c
    if FACTOR[0] and z3.is_int(a) and (z3.is_add(a) or z3.is_add(b)):
        return factored(z3.If(z3.simplify(c), z3.simplify(a), z3.simplify(b)))
    return z3.If(c, a, b)


FACTOR = [False]      # inside loops that are executed iteration by iteration


def factored(t):
    """If(c, a + b, a) is a + If(c, b, 0): the addends that both branches share are taken out"""
    memo = {}

    def addends(t):
        k = t.get_id()
        if k in memo:
            return memo[k]
        if z3.is_add(t):
            r = [a for c in t.children() for a in addends(c)]
        elif z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            ra, rb, common = list(addends(a)), list(addends(b)), []
            for u in list(ra):
                for i, w in enumerate(rb):
                    if u.eq(w):
                        common.append(u)
                        ra = without(ra, u)
                        del rb[i]
                        break
            if ra or rb:
                common.append(z3.If(c, summed(ra), summed(rb)))
            r = common
        elif is_num(t) and num(t) == 0:
            r = []
        else:
            r = [t]
        memo[k] = r
        return r
    return summed(addends(t))


def without(l, u):
    for i, w in enumerate(l):
        if u.eq(w):
            return l[:i] + l[i + 1:]
    return l


def summed(l):
    return I(0) if not l else l[0] if len(l) == 1 else z3.Sum(l)


def simp_cond(c):
    if z3.is_true(c) or z3.is_false(c):
        return c
    s = z3.simplify(c)
    if z3.is_true(s) or z3.is_false(s):
        return s
    return c


def vite(c, a, b):
    """value-level if-then-else"""
    c = simp_cond(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return zite(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name:
        return Struct(a.name, {k: vite(c, a.f[k], b.f[k]) for k in a.f}, a.shape)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(zite(c, a.n, b.n), lambda k: vite(c, a.at(k), b.at(k)), a.es or b.es)
    if isinstance(a, SetV) and isinstance(b, SetV):
        return SetV(lambda v: zite(c, a.has(v), b.has(v)), a.ks)
    if isinstance(a, MapV) and isinstance(b, MapV):
        return MapV(lambda v: zite(c, a.has(v), b.has(v)), lambda v: vite(c, a.get(v), b.get(v)), a.ks, a.vs)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.same(b.lv) and a.idx is not None and b.idx is not None and a.byte is None and b.byte is None:
        return Ptr(a.lv, zite(c, a.idx, b.idx), None, a.et)
    if isinstance(a, Uninit):
        return b
    if isinstance(b, Uninit):
        return a
    if isinstance(a, (FnV, Closure)) and isinstance(b, (FnV, Closure)):
        aa = a.alts if isinstance(a, FnV) else [(TRUE, a)]
        bb = b.alts if isinstance(b, FnV) else [(TRUE, b)]
        return FnV([(z3.And(c, g), x) for g, x in aa] + [(z3.And(z3.Not(c), g), x) for g, x in bb])
    if isinstance(a, Null) and isinstance(b, Null):
        return a
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind:
        if a.d.keys() == b.d.keys():
            r = {}
            for k in a.d:
                x, y = a.d[k], b.d[k]
                if x is y:
                    r[k] = x
                elif isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                    r[k] = zite(c, x, y)
                elif isinstance(x, (Struct, Seq)) and isinstance(y, (Struct, Seq)):
                    r[k] = vite(c, x, y)
                elif isinstance(x, (str, int, tuple, list, type(None))) and x == y:
                    r[k] = x
                elif hasattr(x, 'ite'):
                    r[k] = x.ite(c, y)
                else:
                    raise Unsupported('merge of %s.%s' % (a.kind, k))
            return Opaque(a.kind, **r)
    raise Unsupported('merge of %r and %r' % (type(a), type(b)))


_qn = [0]


def qvar(sort=INT, hint='k'):
    _qn[0] += 1
    return z3.Const('%s!%d' % (hint, _qn[0]), sort)


def veq(a, b, conj=None):
    """bit-identity of two values, as a formula (sequences: same length, same elements)"""
    out = []
    _veq(a, b, out)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(out)


def _veq(a, b, out):
    if a is b:
        return
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return
        out.append(a == b)
        return
    if isinstance(a, Struct) and isinstance(b, Struct):
        if set(a.f) != set(b.f):
            raise Unsupported('comparison of different structs %s %s' % (a.name, b.name))
        for k in a.f:
            _veq(a.f[k], b.f[k], out)
        return
    if isinstance(a, Seq) and isinstance(b, Seq):
        if not a.n.eq(b.n):
            out.append(a.n == b.n)
        if is_num(a.n) and num(a.n) <= 32:
            for i in range(num(a.n)):
                _veq(a.at(I(i)), b.at(I(i)), out)
            return
        if is_num(b.n) and num(b.n) <= 32:
            for i in range(num(b.n)):
                _veq(a.at(I(i)), b.at(I(i)), out)
            return
        k = qvar()
        f = veq(a.at(k), b.at(k))
        if z3.is_true(f):
            return
        out.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a.n), f)))
        return
    if isinstance(a, SetV) and isinstance(b, SetV):
        vs = [qvar(shape_sort(s), 'e') for s in flat_shapes(a.ks)]
        v = unflat(list(vs), a.ks)
        out.append(z3.ForAll(vs, a.has(v) == b.has(v)))
        return
    if isinstance(a, MapV) and isinstance(b, MapV):
        vs = [qvar(shape_sort(s), 'e') for s in flat_shapes(a.ks)]
        v = unflat(list(vs), a.ks)
        out.append(z3.ForAll(vs, z3.And(a.has(v) == b.has(v), z3.Implies(a.has(v), veq(a.get(v), b.get(v))))))
        return
    if isinstance(a, Null) and isinstance(b, Null):
        return
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind:
        for k in a.d:
            x, y = a.d[k], b.d[k]
            if x is y:
                continue
            if isinstance(x, (z3.ExprRef, Struct, Seq, SetV, MapV, Opaque)):
                _veq(x, y, out)
            elif hasattr(x, 'eqf'):
                out.append(x.eqf(y))
            elif x != y:
                raise Unsupported('comparison of %s.%s' % (a.kind, k))
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.same(b.lv):
        if a.idx is None and b.idx is None:
            return
        out.append(a.idx == b.idx)
        return
    raise Unsupported('comparison of %r and %r' % (type(a), type(b)))


def vsubst(v, pairs):
    """substitute terms in a value"""
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, Struct):
        return Struct(v.name, {k: vsubst(x, pairs) for k, x in v.f.items()}, v.shape)
    if isinstance(v, Seq):
        old = pairs

        def fn(k):
            # rename the index apart from the substituted terms
            kk = qvar(INT, 's')
            return vsubst(vsubst(v.at(kk), old), [(kk, k)])
        return Seq(z3.substitute(v.n, *pairs), fn, v.es)
    if isinstance(v, FnV):
        return FnV([(z3.substitute(c, *pairs), vsubst(x, pairs)) for c, x in v.alts])
    if isinstance(v, Closure):
        return Closure(v.key, {k: (a, vsubst(b, pairs)) if a == 'val' else (a, b) for k, (a, b) in v.caps.items()}, v.f)
    if isinstance(v, (Null, Uninit)):
        return v
    if isinstance(v, Opaque):
        return Opaque(v.kind, **{k: (vsubst(x, pairs) if isinstance(x, (z3.ExprRef, Struct, Seq, Opaque)) or hasattr(x, 'subst') else x) for k, x in v.d.items()})
    if isinstance(v, Ptr) and v.idx is not None:
        return Ptr(v.lv, z3.substitute(v.idx, *pairs), v.byte, v.et)
    if isinstance(v, SetV):
        return SetV(lambda x: z3.substitute(v.has(x), *pairs), v.ks)
    if hasattr(v, 'subst'):
        return v.subst(pairs)
    raise Unsupported('substitution in %r' % type(v))


def vsyms(v):
    if isinstance(v, z3.ExprRef):
        return syms(v)
    if isinstance(v, Struct):
        r = frozenset()
        for x in v.f.values():
            r |= vsyms(x)
        return r
    if isinstance(v, Seq):
        kk = Const('vs!k', INT)
        return syms(v.n) | vsyms(v.at(kk))
    if isinstance(v, FnV):
        r = frozenset()
        for c, x in v.alts:
            r |= syms(c) | vsyms(x)
        return r
    if isinstance(v, Closure):
        r = frozenset()
        for a, b in v.caps.values():
            if a == 'val':
                r |= vsyms(b)
        return r
    if isinstance(v, Opaque):
        r = frozenset()
        for x in v.d.values():
            if isinstance(x, (z3.ExprRef, Struct, Seq, Opaque)) or hasattr(x, 'syms'):
                r |= vsyms(x)
        return r
    if hasattr(v, 'syms'):
        return v.syms()
    if isinstance(v, Ptr) and v.idx is not None:
        return syms(v.idx)
    return frozenset()
