"""Contracts of the C++ standard library and C library functions that SPOC uses.

These are *assumed* contracts (the library is not verified); every one that is
used by a proof is recorded in x.used_std and listed in the evidence."""
import z3
from .values import *
from . import values as V
from .engine import *
from .specs import *
from . import loops
from . import solver

FNS = {}
CTORS = {}


def fn(*names):
    def deco(f):
        for n in names:
            FNS[n] = f
        return f
    return deco


def ctor(*names):
    def deco(f):
        for n in names:
            CTORS[n] = f
        return f
    return deco


class Tracked(list):
    """arguments of a library call; remembers which of them the model looked at"""
    __slots__ = ('seen', 'off')

    def __init__(self, it, seen=None, off=0):
        list.__init__(self, it)
        self.seen, self.off = set() if seen is None else seen, off

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is None:
                return Tracked(list.__getitem__(self, i), self.seen, self.off + i.indices(len(self))[0])
            self.seen.update(range(self.off, self.off + len(self)))
        else:
            self.seen.add(self.off + (i if i >= 0 else len(self) + i))
        return list.__getitem__(self, i)

    def __iter__(self):
        self.seen.update(range(self.off, self.off + len(self)))
        return list.__iter__(self)


class Call:
    """one library call"""
    __slots__ = ('x', 'f', 'obj', 'args', 'node')

    def __init__(self, x, f, obj, args, node):
        self.x, self.f, self.obj, self.args, self.node = x, f, obj, args, node

    def v(self, i):
        return self.x.val(self.args[i])

    def this(self):
        o = self.obj
        if isinstance(o, LV):
            return self.x.read(o)
        return o

    def n(self):
        return len(self.args)

    def pt(self, i):
        """canonical parameter type name"""
        return self.x.prog.tname(self.f['ps'][i])

    def cls(self):
        return self.x.T(self.f['cls'])

    def targ(self, i):
        return self.cls()['targs'][i]

    def elem_shape(self):
        c = self.cls()
        if c['name'] == 'std::basic_string':
            return ('int', 8, True)
        return self.x.prog.shape(c['targs'][0])


def call(x, f, obj, args, node):
    q = f['q']
    h = FNS.get(q)
    if h is None:
        raise Unsupported('library function %s' % q)
    x.used_std.add(q)
    args = Tracked(args)
    r = h(Call(x, f, obj, args, node))
    unseen(q, args)
    return r


def construct(x, e, f, args):
    q = f['q']
    h = CTORS.get(q)
    if h is None:
        raise Unsupported('library constructor %s' % q)
    x.used_std.add(q)
    args = Tracked(args)
    r = h(Call(x, f, None, args, e))
    unseen(q, args)
    return r


# arguments that these functions have and their contracts do not mention: texts of exceptions, capacities, hash and
# equality objects (stateless), random numbers (any number may be drawn)
UNSEEN = {'std::vector::reserve': None, 'std::basic_string::reserve': None, 'std::unordered_set::unordered_set': None, 'std::unordered_map::unordered_map': None, 'std::shuffle': {2},
          'std::uniform_real_distribution::operator()': None, 'std::normal_distribution::operator()': None, 'std::uniform_int_distribution::operator()': None,
          'std::linear_congruential_engine::seed': None, 'std::linear_congruential_engine::linear_congruential_engine': None,
          'std::mersenne_twister_engine::seed': None, 'std::mersenne_twister_engine::mersenne_twister_engine': None}
EXC = ('_error', 'invalid_argument', 'out_of_range', 'exception')


def unseen(q, args):
    """a model that ignores an argument would accept any value of it"""
    for i in range(len(args)):
        if i not in args.seen and not q.endswith(EXC) and not (q in UNSEEN and (UNSEEN[q] is None or i in UNSEEN[q])):
            raise Unsupported('argument %d of %s' % (i, q))


def default_value(x, t):
    ty = x.T(t)
    n = ty['name']
    s = x.prog.shape(t)
    if s is not None and s[0] in ('seq', 'set', 'map', 'struct', 'arr'):
        if s[0] == 'arr':
            return x.fresh(s, 'uninit')
        return x.zero_of_shape(s)
    if n in CTORS:
        return CTORS[n](Call(x, {'q': n + '::' + n.split('::')[-1], 'ps': [], 'cls': t}, None, [], None))
    h = CTORS.get(n + '::' + n.split('::')[-1])
    if h is not None:
        x.used_std.add(n)
        return h(Call(x, {'q': n + '::' + n.split('::')[-1], 'ps': [], 'cls': t}, None, [], None))
    if n == 'std::function':
        return FnV([])
    raise Unsupported('default value of %s' % n)


GLOBALS = {}


def global_value(x, name, g):
    h = GLOBALS.get(name)
    if h is None:
        return None
    return h(x, name, g)


OBJECTS = {}       # class name -> (x, name) -> value


def symbolic_object(x, prog, t, name):
    ty = prog.types[t]
    if ty['k'] == 'record' and ty['name'] in OBJECTS:
        return OBJECTS[ty['name']](x, name, t)
    if ty['k'] == 'ptr':
        return symbolic_pointer(x, prog, t, name)
    s = prog.shape(t)
    if s is None:
        raise Unsupported('symbolic object of type %s' % ty['s'])
    return fix_shape(x, prog, t, s, name)


def fix_shape(x, prog, t, s, name):
    ty = prog.types[t]
    if s[0] == 'struct' and 'fields' in ty:
        return Struct(s[1], {f['name']: symbolic_object(x, prog, f['type'], name + '.' + f['name']) for f in ty['fields']}, s)
    if s[0] == 'nosh':
        raise Unsupported('symbolic object of type %s' % s[1])
    return fresh(s, name)


def symbolic_pointer(x, prog, t, name):
    raise Unsupported('symbolic pointer parameter')


# ------------------------------------------------------------------ helpers
def rng(x, a, b):
    """iterator/pointer range -> (seq value, start, length)"""
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
        raise Unsupported('range of %r' % type(a))
    if not a.lv.same(b.lv):
        raise Unsupported('range over two objects')
    for p in (a, b):
        if p.et is not None and p.et[0] in ('view', 'bytesof'):
            if p.et[0] == 'bytesof' and a.byte is not None and b.byte is not None:
                from . import streams
                mid = streams.byte_range(x, a, b)
                return mid, I(0), mid.n
            if p.et[0] == 'view' and b.et is not None and a.et is not None and a.et[:2] == b.et[:2]:
                from . import streams
                n = streams.divide(z3.simplify(b.idx - a.idx), V.shape_size(x.prog.shape(p.et[1])))
                if n is not None:
                    mid = streams.view(x, a, n)
                    return mid, I(0), n
            raise Unsupported('range of objects of another type')
    s = x.peek(a.lv)
    if not isinstance(s, Seq):
        raise Unsupported('range over %r' % type(s))
    n = z3.simplify(b.idx - a.idx)
    x.prove(z3.And(a.idx >= 0, n >= 0, b.idx <= s.n), 'bounds', 'valid iterator range')
    if x.rlog is not None:
        x.access('r', a.lv.cell, a.lv.path)
    return s, a.idx, n


def sub(s, start, n):
    if is_num(start) and num(start) == 0 and n.eq(s.n):
        return s
    if s.lit is not None and is_num(start) and is_num(n):
        return lit_seq(s.lit[num(start):num(start) + num(n)], s.es)
    if is_num(start) and num(start) == 0:
        return Seq(n, s.at, s.es)
    return Seq(n, lambda j: s.at(z3.simplify(start + j)), s.es)


def concat(x, a, b):
    if is_num(a.n) and num(a.n) == 0:
        return b if b.es is not None else Seq(b.n, b.at, a.es, b.lit)
    if is_num(b.n) and num(b.n) == 0:
        return a
    if a.lit is not None and b.lit is not None:
        return lit_seq(a.lit + b.lit, a.es or b.es)
    an = a.n

    def fn_(j):
        d = x_decide(j < an)
        if d is True:
            return a.at(j)
        if d is False:
            return b.at(z3.simplify(j - an))
        return vite(j < an, a.at(j), b.at(z3.simplify(j - an)))
    return Seq(z3.simplify(an + b.n), fn_, a.es or b.es)


def x_decide(c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return None


def append(x, s, v):
    if s.lit is not None:
        return lit_seq(s.lit + [v], s.es)
    n = s.n

    def fn_(j):
        if j.eq(n):
            return v
        d = x_decide(j < n)
        if d is True:
            return s.at(j)
        if d is False:
            return v
        return vite(j < n, s.at(j), v)
    return Seq(z3.simplify(n + 1), fn_, s.es)


def resize(x, s, n, v):
    if is_num(n) and s.lit is not None:
        k = num(n)
        if k <= len(s.lit):
            return lit_seq(s.lit[:k], s.es)
        if k <= 4096:
            return lit_seq(s.lit + [v] * (k - len(s.lit)), s.es)
    if is_num(s.n) and num(s.n) == 0:
        return x.seq_fill(n, v, s.es)
    old = s
    x.alloc(n, s.es)

    def fn_(j):
        d = x_decide(j < old.n)
        if d is True:
            return old.at(j)
        if d is False:
            return v
        return vite(j < old.n, old.at(j), v)
    return Seq(n, fn_, s.es)


def pointwise(x, n, body, start=None):
    """value of body(k) for a generic 0<=k<n, as a function of k (no side effects allowed)"""
    x.st.nfresh += 1
    ctx = x.st.ctx
    k0 = Fn('kk~%d' % x.st.nfresh, *([c.sort() for c in ctx] + [INT]))(*ctx)
    npc, ndec = len(x.st.pc), len(x.st.dec)
    before = dict(x.st.store)
    x.assume(k0 >= 0)
    x.assume(k0 < n)
    x.st.ctx = ctx + (k0,)
    n0 = len(x.st.dec)
    res = x.explore(lambda: body(k0), ('pw', x.trailkey(), x.bump('pw')))
    exc = [o for s, o in res if o[0] != 'norm']
    if exc:
        raise Unsupported('callback that may throw')
    v = x.merge_results(res, n0)
    if isinstance(v, LV):
        v = x.read(v)
    for c, old in before.items():
        if x.st.store.get(c) is not old:
            raise Unsupported('callback with side effects')
    new = x.st.pc[npc + 2:]
    del x.st.pc[npc:]
    del x.st.dec[ndec:]
    x.st.ctx = ctx
    j = z3.Int('j!pw')
    for f in new:
        if k0.decl().name() in syms(f):
            q = z3.substitute(f, (k0, j))
            pts = pattern_terms(q, j)
            x.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), q), patterns=pts[:3]) if pts else z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), q)))
        else:
            x.assume(f)
    return k0, v


def exists_term(x, n, k0, b):
    """exists k<n: b(k)"""
    b = z3.simplify(b)
    if z3.is_false(b):
        return FALSE
    if z3.is_true(b):
        return z3.simplify(n > 0)
    if is_num(n) and num(n) <= 16:
        return z3.simplify(z3.Or([z3.substitute(b, (k0, I(i))) for i in range(num(n))])) if num(n) else FALSE
    ctx = x.st.ctx
    for c in x.specs:
        if c.kind == 'exists' and (not c.ctx or loops.same_ctx(c, ctx)):
            try:
                if solver.valid(x.st.pc + [k0 >= 0, k0 < n], c.P(k0) == b, 1500):
                    return c.ex(n)
            except z3.Z3Exception:
                pass
    sp = ExistsSpec(lambda k: z3.substitute(b, (k0, k)), ctx)
    x.specs.append(sp)
    return sp.ex(n)


def elem_lv(x, lv, k):
    return lv.i(k)


def callp(x, pred, lv, k):
    """pred(element)"""
    r = x.call_value(pred, [lv.i(k)])
    if isinstance(r, LV):
        r = x.read(r)
    return x.tobool(r)


def elem_eq(x, a, b):
    """operator== on two element values"""
    if isinstance(a, z3.ExprRef):
        if a.sort() == D:
            return feq(a, b)
        return a == b
    if isinstance(a, Struct):
        for k, fl in x.prog.by_q.items():
            if not k.endswith('operator=='):
                continue
            for f in fl:
                if 'cls' in f and len(f['params']) == 1 and x.T(f['cls']).get('name') == a.name and x.prog.tname(x.prog.deref(f['params'][0]['t'])) == a.name:
                    return x.tobool(x.call(f, x.newcell(a, 'tmp'), [x.newcell(b, 'tmp')]))
                if 'cls' not in f and len(f['params']) == 2 and x.prog.tname(x.prog.deref(f['params'][0]['t'])) == a.name:
                    return x.tobool(x.call(f, None, [x.newcell(a, 'tmp'), x.newcell(b, 'tmp')]))
        # defaulted comparison
        return z3.And([elem_eq(x, a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Seq):
        return seq_eq(x, a, b)
    raise Unsupported('equality of elements')


def seq_eq(x, a, b):
    if is_num(a.n) and is_num(b.n) and num(a.n) != num(b.n):
        return FALSE
    if is_num(a.n) and num(a.n) <= 40:
        return z3.And([a.n == b.n] + [elem_eq(x, a.at(I(i)), b.at(I(i))) for i in range(num(a.n))]) if not (is_num(b.n) and num(a.n) == 0) else TRUE
    if is_num(b.n) and num(b.n) <= 40:
        return z3.And([a.n == b.n] + [elem_eq(x, a.at(I(i)), b.at(I(i))) for i in range(num(b.n))])
    k0, e = pointwise(x, z3.If(a.n <= b.n, a.n, b.n), lambda k: elem_eq(x, a.at(k), b.at(k)))
    j = z3.Int('j!eq')
    ef = z3.substitute(e, (k0, j))
    # exists-style spec keeps both polarities usable by E-matching
    ne = exists_term(x, z3.If(a.n <= b.n, a.n, b.n), k0, z3.Not(e))
    return z3.And(a.n == b.n, z3.Not(ne))


def cstr(x, p):
    """C string pointed to by p as a sequence without the terminator"""
    if isinstance(p, LV):
        p = x.read(p)
    if isinstance(p, Ptr):
        s = x.peek(p.lv)
        if isinstance(s, Seq) and s.lit is not None and is_num(p.idx):
            out = []
            for e in s.lit[num(p.idx):]:
                if is_num(e) and num(e) == 0:
                    return lit_seq(out, s.es)
                if not is_num(e):
                    break
                out.append(e)
        if isinstance(s, Opaque) and s.kind == 'cstring':
            return sub(s['s'], p.idx, z3.simplify(s['s'].n - p.idx))
        if isinstance(s, Seq):
            z = getattr(x, 'strlens', {}).get(p.lv.cell)
            if z is not None:
                return sub(s, p.idx, z3.simplify(z - p.idx))
    raise Unsupported('C string %r' % (p,))


ARR = z3.ArraySort(INT, INT)
NAMED = {}


def textid(s):
    """a term that identifies a text: equal for equal texts"""
    if s.lit is not None or (is_num(s.n) and num(s.n) <= 64):
        r = z3.K(INT, I(0))
        for i in range(num(s.n)):
            r = z3.Store(r, I(i), s.at(I(i)))
        return s.n, r
    k = z3.Int('txt!k')
    a = z3.Lambda([k], z3.simplify(z3.If(z3.And(k >= 0, k < s.n), s.at(k), I(0))))
    n = z3.simplify(s.n)
    # the text of a parameter gets a name, which patterns can mention
    if all(v.startswith('arg') for v in syms(a) | syms(n) if v != 'txt!k'):
        nm = NAMED.get(a.get_id(), (None,))[0]
        if nm is None:
            nm = z3.Const('text!%d' % len(NAMED), ARR)
            NAMED[a.get_id()] = nm, a
            # (not an equation: it would be solved for the name)
            inr = z3.And(k >= 0, k < s.n)
            add_fact(nm.decl().name(), z3.ForAll([k], z3.And(z3.Implies(inr, nm[k] == s.at(k)), z3.Implies(z3.Not(inr), nm[k] == 0)), patterns=[nm[k]]))
        a = nm
    return n, a


def txtfun(name, s, sort, extra=(), x=None):
    """uninterpreted function of a text"""
    n, a = textid(s)
    return Fn('txt.' + name, *([INT, ARR] + [e.sort() for e in extra] + [sort]))(n, a, *extra)


# ------------------------------------------------------------------ vector / string
def mkstr(lit):
    return lit_seq([I(b if b < 128 else b - 256) for b in lit.encode()], ('int', 8, True))


@ctor('std::vector::vector', 'std::basic_string::basic_string')
def seq_ctor(c):
    x = c.x
    es = c.elem_shape()
    args = [a for a in c.args]
    ps = [c.pt(i) for i in range(len(c.f['ps']))]
    while ps and x.T(x.prog.deref(c.f['ps'][len(ps) - 1])).get('name') == 'std::allocator':
        ps.pop()
        args = args[:len(ps)]
    args = args[:len(ps)]
    if not ps:
        if es[0] == 'fn' and x.fnlist is not None:
            es = x.fnlist.shape
        return lit_seq([], es)
    t0 = x.T(x.prog.deref(c.f['ps'][0]))
    if len(ps) == 1:
        v = x.val(args[0])
        if isinstance(v, Seq):
            if t0['k'] == 'record' and t0['name'] == 'std::initializer_list':
                return Seq(v.n, v.at, es, v.lit)
            if c.f.get('ctor') == 'move' and isinstance(args[0], LV):
                x.write(args[0], lit_seq([], v.es))
            return v
        if isinstance(v, z3.ExprRef) and z3.is_int(v):
            return x.seq_fill(v, x.zero_of_shape(es), es)
        if isinstance(v, Ptr):
            return cstr(x, v)
        if isinstance(v, Opaque) and v.kind in ('path', 'string_view'):
            return v['s']
    if len(ps) == 2:
        a, b = x.val(args[0]), x.val(args[1])
        if isinstance(a, z3.ExprRef):
            return x.seq_fill(a, b, es)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            s, st, n = rng(x, a, b)
            r = sub(s, st, n)
            return Seq(r.n, r.at, es, r.lit)
        if isinstance(a, Ptr) and isinstance(b, z3.ExprRef):
            s = x.peek(a.lv)
            x.prove(z3.And(b >= 0, a.idx + b <= s.n), 'bounds', 'string from buffer')
            return sub(s, a.idx, b)
        if isinstance(a, Seq):
            return a
    raise Unsupported('constructor %s(%s)' % (c.f['q'], ', '.join(ps)))


@fn('std::vector::size', 'std::basic_string::size', 'std::basic_string::length', 'std::array::size', 'std::ssize')
def seq_size(c):
    if isinstance(c.obj, LV):
        s = c.x.peek(c.obj)
        if c.x.rlog is not None:
            c.x.access('r', c.obj.cell, c.obj.path + (('len',),))
        if isinstance(s, Uninit):
            s = c.this()
    else:
        s = c.this() if c.obj is not None else c.v(0)
    return s.n


@fn('std::size')
def std_size(c):
    return c.v(0).n


@fn('std::vector::empty', 'std::basic_string::empty', 'std::empty')
def seq_empty(c):
    return c.x.compare('==', seq_size(c), I(0))


@fn('std::vector::operator[]', 'std::basic_string::operator[]', 'std::array::operator[]')
def seq_index(c):
    i = c.v(0)
    if isinstance(c.obj, LV):
        if c.f['q'] == 'std::basic_string::operator[]':
            s = c.x.peek(c.obj)
            if isinstance(s, Seq):
                if s.lit is not None and is_num(i) and 0 <= num(i) < len(s.lit):
                    return c.obj.i(i)
                if not c.x.valid(z3.And(i >= 0, i < s.n), 1000):
                    # the position of the terminating zero may be read
                    c.x.prove(z3.And(i >= 0, i <= s.n), 'bounds', 'index within bounds')
                    if c.node is not None and c.node is getattr(c.x, 'addr_node', None):
                        # only the address is taken
                        return c.obj.i(i)
                    if c.x.rlog is not None:
                        c.x.access('r', c.obj.cell, c.obj.path)
                    return c.x.newcell(z3.simplify(z3.If(i < s.n, s.at(i), I(0))), 'rdonly')
            return c.obj.i(i)
        # forming the reference already requires the element to exist
        s = c.x.peek(c.obj)
        if isinstance(s, Seq):
            c.x.bounds(s, i)
        return c.obj.i(i)
    s = c.obj
    c.x.bounds(s, i)
    return s.at(i)


@fn('std::vector::at', 'std::basic_string::at', 'std::array::at')
def seq_at(c):
    x = c.x
    i = c.v(0)
    s = c.this()
    if not x.branch(z3.And(i >= 0, i < s.n)):
        raise CppThrow('std::out_of_range', None, 'at()')
    return c.obj.i(i) if isinstance(c.obj, LV) else s.at(i)


@fn('std::vector::front', 'std::basic_string::front')
def seq_front(c):
    s = c.this()
    c.x.prove(s.n > 0, 'bounds', 'front() of a non-empty sequence')
    return c.obj.i(I(0)) if isinstance(c.obj, LV) else s.at(I(0))


@fn('std::vector::back', 'std::basic_string::back')
def seq_back(c):
    s = c.this()
    c.x.prove(s.n > 0, 'bounds', 'back() of a non-empty sequence')
    k = z3.simplify(s.n - 1)
    return c.obj.i(k) if isinstance(c.obj, LV) else s.at(k)


@fn('std::vector::push_back', 'std::basic_string::push_back')
def push_back(c):
    x = c.x
    v = c.v(0)
    s = c.this()
    if isinstance(v, FnV) and x.fnlist is not None:
        v = x.fnlist.push(s, v)
    x.write(c.obj, append(x, s, v))
    return None


@fn('std::vector::emplace_back')
def emplace_back(c):
    x = c.x
    s = c.this()
    es = c.elem_shape()
    if c.n() == 1:
        v = c.v(0)
        if isinstance(v, z3.ExprRef) and es[0] in ('int', 'bool', 'D'):
            v = coerce(x, v, es)
        elif not isinstance(v, (Struct, Seq)):
            raise Unsupported('emplace_back')
    elif c.n() == 0:
        v = x.zero_of_shape(es)
    else:
        v = emplace(x, c.targ(0), [a for a in c.args], es)
    x.write(c.obj, append(x, s, v))
    return c.obj.i(s.n)


def coerce(x, v, es):
    if es[0] == 'D' and v.sort() != D:
        if is_num(v):
            return dlit(float(num(v)))
        return f_i2d(v)
    return v


def emplace(x, t, args, es):
    """construct an element of repo class type t in place"""
    ty = x.T(t)
    if es[0] == 'seq' and len(args) == 2:
        a, b = x.val(args[0]), x.val(args[1])
        if isinstance(a, z3.ExprRef):
            return x.seq_fill(a, b, es[1])
    if ty.get('mine'):
        cn = ty['name'] + '::' + ty['name'].split('::')[-1]
        for f in x.prog.by_q.get(cn, []):
            if len(f['params']) == len(args):
                return x.construct(f, t, args)
        if 'fields' in ty and len(args) == len(ty['fields']):
            return Struct(ty['name'], {f['name']: x.val(a) for f, a in zip(ty['fields'], args)}, es)
    if ty.get('name') == 'std::pair' and len(args) == 2:
        return Struct('std::pair', {'first': x.val(args[0]), 'second': x.val(args[1])}, es)
    raise Unsupported('emplace of %s' % ty['s'])


@fn('std::vector::pop_back', 'std::basic_string::pop_back')
def pop_back(c):
    x = c.x
    s = c.this()
    x.prove(s.n > 0, 'bounds', 'pop_back() of a non-empty sequence')
    x.write(c.obj, sub(s, I(0), z3.simplify(s.n - 1)))


@fn('std::vector::clear', 'std::basic_string::clear')
def seq_clear(c):
    s = c.this()
    c.x.write(c.obj, lit_seq([], s.es))


@fn('std::vector::reserve', 'std::vector::shrink_to_fit', 'std::basic_string::reserve', 'std::basic_string::shrink_to_fit', 'std::unordered_set::reserve', 'std::unordered_map::reserve')
def seq_reserve(c):
    return None


@fn('std::vector::capacity')
def seq_capacity(c):
    s = c.this()
    v = c.x.fresh(('int', 64, False), 'cap')
    c.x.assume(v >= s.n)
    return v


@fn('std::vector::resize', 'std::basic_string::resize')
def seq_resize(c):
    x = c.x
    s = c.this()
    es = s.es or c.elem_shape()
    v = c.v(1) if c.n() > 1 else x.zero_of_shape(es)
    x.write(c.obj, resize(x, Seq(s.n, s.at, es, s.lit), c.v(0), v))


@fn('std::vector::assign', 'std::basic_string::assign')
def seq_assign(c):
    x = c.x
    es = c.elem_shape()
    if c.n() == 2:
        a, b = c.v(0), c.v(1)
        if isinstance(a, z3.ExprRef):
            x.write(c.obj, x.seq_fill(a, b, es))
        else:
            s, st, n = rng(x, a, b)
            r = sub(s, st, n)
            x.write(c.obj, Seq(r.n, r.at, es, r.lit))
    else:
        v = c.v(0)
        x.write(c.obj, v if isinstance(v, Seq) else cstr(x, v))
    return c.obj


@fn('std::vector::insert')
def seq_insert(c):
    x = c.x
    p = c.v(0)
    s = c.this()
    if not isinstance(p, Ptr):
        raise Unsupported('insert position')
    x.prove(z3.And(p.idx >= 0, p.idx <= s.n), 'bounds', 'insert position')
    if c.n() == 3:
        a, b = c.v(1), c.v(2)
        if isinstance(a, Ptr):
            src, st, n = rng(x, a, b)
            mid = sub(src, st, n)
        else:
            mid = x.seq_fill(a, b, s.es)
    else:
        v = c.v(1)
        if isinstance(v, Seq) and s.es and s.es[0] != 'seq':
            mid = v
        else:
            mid = lit_seq([v], s.es)
    pre = sub(s, I(0), p.idx)
    post = sub(s, p.idx, z3.simplify(s.n - p.idx))
    x.write(c.obj, concat(x, concat(x, Seq(pre.n, pre.at, s.es, pre.lit), mid), post))
    return Ptr(c.obj, p.idx)


@fn('std::vector::erase')
def seq_erase(c):
    x = c.x
    a = c.v(0)
    s = c.this()
    b = c.v(1) if c.n() > 1 else Ptr(a.lv, x.addi(a.idx, I(1)))
    x.prove(z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= s.n), 'bounds', 'erase range')
    pre = sub(s, I(0), a.idx)
    post = sub(s, b.idx, z3.simplify(s.n - b.idx))
    x.write(c.obj, concat(x, Seq(pre.n, pre.at, s.es, pre.lit), post))
    return Ptr(c.obj, a.idx)


@fn('std::vector::operator=', 'std::basic_string::operator=')
def seq_assign_op(c):
    x = c.x
    v = c.v(0)
    if isinstance(v, Ptr):
        v = cstr(x, v)
    if isinstance(v, z3.ExprRef):
        v = lit_seq([v], ('int', 8, True))
    es = c.elem_shape()
    if not isinstance(v, Seq):
        raise Unsupported('assignment of %r' % type(v))
    x.write(c.obj, v if v.es is not None else Seq(v.n, v.at, es, v.lit))
    return c.obj


@fn('std::vector::swap', 'std::swap', 'std::basic_string::swap', 'std::exchange')
def std_swap(c):
    x = c.x
    if c.f['q'] == 'std::exchange':
        old = c.v(0)
        x.write(c.args[0], c.v(1))
        return old
    a, b = (c.args[0], c.args[1]) if c.obj is None else (c.obj, c.args[0])
    va, vb = x.read(a), x.read(b)
    x.write(a, vb)
    x.write(b, va)


@fn('std::vector::begin', 'std::vector::cbegin', 'std::basic_string::begin', 'std::basic_string::cbegin', 'std::array::begin', 'std::begin', 'std::cbegin', 'std::vector::data', 'std::basic_string::data', 'std::basic_string::c_str', 'std::array::data', 'std::data')
def seq_begin(c):
    o = c.obj if c.obj is not None else c.args[0]
    if not isinstance(o, LV):
        o = c.x.newcell(o, 'tmp')
    v = c.x.peek(o)
    if isinstance(v, (SetV, MapV)):
        return enum_ptr(c.x, o, v, 0)
    return Ptr(o, I(0))


@fn('std::vector::end', 'std::vector::cend', 'std::basic_string::end', 'std::basic_string::cend', 'std::array::end', 'std::end', 'std::cend')
def seq_end(c):
    o = c.obj if c.obj is not None else c.args[0]
    if not isinstance(o, LV):
        raise Unsupported('end() of a temporary')
    v = c.x.peek(o)
    if isinstance(v, (SetV, MapV)):
        return enum_ptr(c.x, o, v, 1)
    return Ptr(o, v.n)


@fn('__gnu_cxx::__normal_iterator::operator*', '__gnu_cxx::__normal_iterator::operator->')
def it_deref(c):
    p = c.this()
    if c.f['q'].endswith('>'):
        return p
    return p.target()


@fn('__gnu_cxx::__normal_iterator::operator[]')
def it_index(c):
    p = c.this()
    return p.lv.i(c.x.addi(p.idx, c.v(0)))


@fn('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-')
def it_plus(c):
    return c.x.ptr_arith(c.f['q'][-1], c.this(), c.v(0))


@fn('__gnu_cxx::operator-', '__gnu_cxx::operator+', 'std::operator-')
def it_minus(c):
    return c.x.ptr_arith(c.f['q'][-1], c.v(0), c.v(1))


@fn('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--')
def it_inc(c):
    x = c.x
    p = c.this()
    q = Ptr(p.lv, x.addi(p.idx, I(1 if c.f['q'][-1] == '+' else -1)), p.byte, p.et)
    x.write(c.obj, q)
    return p if c.n() else c.obj


@fn('__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=')
def it_addassign(c):
    x = c.x
    p = c.this()
    x.write(c.obj, x.ptr_arith('+' if '+' in c.f['q'][-2:] else '-', p, c.v(0)))
    return c.obj


@fn('std::next', 'std::prev')
def std_next(c):
    x = c.x
    d = c.v(1) if c.n() > 1 else I(1)
    return x.ptr_arith('+' if c.f['q'] == 'std::next' else '-', c.v(0), d)


@fn('std::advance')
def std_advance(c):
    c.x.write(c.args[0], c.x.ptr_arith('+', c.v(0), c.v(1)))


@fn('std::distance')
def std_distance(c):
    return c.x.ptr_arith('-', c.v(1), c.v(0))


@ctor('__gnu_cxx::__normal_iterator::__normal_iterator')
def it_ctor(c):
    return c.v(0)


for _op in ('==', '!=', '<', '<=', '>', '>='):
    def _mk(op):
        @fn('__gnu_cxx::operator' + op)
        def it_cmp(c):
            return c.x.compare(op, c.v(0), c.v(1))
    _mk(_op)


@fn('std::operator==', 'std::operator!=', 'std::__detail::operator==', 'std::__detail::operator!=', 'std::basic_string::operator==', 'std::_Rb_tree_const_iterator::operator==', 'std::_Rb_tree_iterator::operator==')
def std_eq(c):
    x = c.x
    if c.obj is not None:
        a, b = c.this(), c.v(0)
    else:
        a, b = c.v(0), c.v(1)
    neg = c.f['q'].endswith('!=')
    if isinstance(a, (Iter,)) or isinstance(b, Iter) or (isinstance(a, Ptr) and isinstance(b, Ptr)):
        return x.compare('!=' if neg else '==', a, b)
    if isinstance(a, Ptr):
        a = cstr(x, a)
    if isinstance(b, Ptr):
        b = cstr(x, b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        r = seq_eq(x, a, b)
    elif isinstance(a, Struct) and isinstance(b, Struct):
        r = elem_eq(x, a, b)
    elif isinstance(a, (SetV, MapV)):
        r = veq(a, b)
    else:
        raise Unsupported('std::operator== on %r' % type(a))
    return z3.Not(r) if neg else r


@fn('std::basic_string::append', 'std::basic_string::operator+=')
def str_append(c):
    x = c.x
    s = c.this()
    v = c.v(0)
    if isinstance(v, Ptr):
        v = cstr(x, v)
    if isinstance(v, z3.ExprRef):
        v = lit_seq([v], s.es)
    x.write(c.obj, concat(x, s, v))
    return c.obj


@fn('std::operator+')
def str_plus(c):
    x = c.x
    r = []
    for i in (0, 1):
        v = c.v(i)
        if isinstance(v, Ptr):
            v = cstr(x, v)
        if isinstance(v, z3.ExprRef):
            v = lit_seq([v], ('int', 8, True))
        if not isinstance(v, Seq):
            return it_minus(c)
        r.append(v)
    return concat(x, r[0], r[1])


@fn('std::basic_string::substr')
def str_substr(c):
    x = c.x
    s = c.this()
    pos = c.v(0) if c.n() > 0 else I(0)
    n = c.v(1) if c.n() > 1 else I(2 ** 64 - 1)
    if not x.branch(pos <= s.n):
        raise CppThrow('std::out_of_range', None, 'substr')
    rest = z3.simplify(s.n - pos)
    ln = z3.simplify(z3.If(n <= rest, n, rest))
    return sub(s, pos, ln)


@fn('std::basic_string::erase')
def str_erase(c):
    x = c.x
    a = c.v(0) if c.n() else I(0)
    s = c.this()
    if isinstance(a, Ptr):
        return seq_erase(c)
    n = c.v(1) if c.n() > 1 else I(2 ** 64 - 1)
    if not x.branch(a <= s.n):
        raise CppThrow('std::out_of_range', None, 'erase')
    rest = z3.simplify(s.n - a)
    ln = z3.simplify(z3.If(n <= rest, n, rest))
    pre = sub(s, I(0), a)
    post = sub(s, z3.simplify(a + ln), z3.simplify(s.n - a - ln))
    x.write(c.obj, concat(x, pre, post))
    return c.obj


@fn('std::basic_string::find')
def str_find(c):
    x = c.x
    s = c.this()
    p = c.v(0)
    ch = None
    if isinstance(p, z3.ExprRef):
        ch = p
    else:
        if isinstance(p, Ptr):
            p = cstr(x, p)
        if p.lit is not None and len(p.lit) == 1:
            ch = p.lit[0]
        elif p.lit is None and solver.valid(x.st.pc, p.n == 1, 1500):
            ch = p.at(I(0))
    if ch is None:
        raise Unsupported('find of a general substring')
    pos = c.v(1) if c.n() > 1 else I(0)
    r = txtfun('find', s, INT, (ch, pos))
    j = z3.Int('j!find')
    npos = I(2 ** 64 - 1)
    body = s.at(j) != ch
    pts = pattern_terms(body, j)
    x.assume(z3.Or(r == npos, z3.And(r >= pos, r < s.n, s.at(r) == ch)))
    x.assume(z3.ForAll([j], z3.Implies(z3.And(j >= pos, j < s.n, z3.Or(r == npos, j < r)), body), patterns=pts) if pts else z3.ForAll([j], z3.Implies(z3.And(j >= pos, j < s.n, z3.Or(r == npos, j < r)), body)))
    return r


def text_only(s, chs):
    """every character of the text is one of chs: (predicate, definition)"""
    nm = 'only.' + ''.join('%02x' % c for c in chs)
    p = txtfun(nm, s, BOOL)
    w = txtfun(nm + '.w', s, INT)
    hit = lambda v: z3.Or([v == ch for ch in chs]) if chs else FALSE
    j = z3.Int('j!only')
    pts = pattern_terms(s.at(j), j)
    b = z3.Implies(z3.And(j >= 0, j < s.n), hit(s.at(j)))
    q = z3.ForAll([j], b, patterns=pts) if pts else z3.ForAll([j], b)
    return p, z3.And(z3.Implies(p, q), z3.Implies(z3.Not(p), z3.And(w >= 0, w < s.n, z3.Not(hit(s.at(w))))))


@fn('std::basic_string::find_first_not_of', 'std::basic_string::find_first_of')
def str_find_set(c):
    x = c.x
    s = c.this()
    p = c.v(0)
    if isinstance(p, z3.ExprRef):
        chs = [p]
    else:
        p = cstr(x, p) if isinstance(p, Ptr) else p
        if p.lit is None:
            raise Unsupported('find_first_of with a general set')
        chs = p.lit
    pos = c.v(1) if c.n() > 1 else I(0)
    neg = c.f['q'].endswith('not_of')

    def hit(v):
        h = z3.Or([v == ch for ch in chs]) if chs else FALSE
        return z3.Not(h) if neg else h
    r = x.fresh(('int', 64, False), 'find')
    npos = I(2 ** 64 - 1)
    x.assume(z3.Or(r == npos, z3.And(r >= pos, r < s.n, hit(s.at(r)))))
    j = z3.Int('j!find')
    pts = pattern_terms(s.at(j), j)
    b = z3.Implies(z3.And(j >= pos, j < s.n, z3.Or(r == npos, j < r)), z3.Not(hit(s.at(j))))
    x.assume(z3.ForAll([j], b, patterns=pts) if pts else z3.ForAll([j], b))
    if neg and all(is_num(ch) for ch in chs) and is_num(pos) and num(pos) == 0:
        p, d = text_only(s, sorted(num(ch) & 255 for ch in chs))
        x.assume(d)
        x.assume(p == (r == npos))
    return r


@fn('std::to_string')
def to_string(c):
    v = c.v(0)
    if v.sort() != INT:
        raise Unsupported('to_string of a floating value')
    if is_num(v):
        return mkstr(str(num(v)))
    n = Fn('dec.n', INT, INT)(v)
    a = Fn('dec.a', INT, INT, INT)
    add_fact('dec.n', z3.ForAll([z3.Int('dv')], z3.And(Fn('dec.n', INT, INT)(z3.Int('dv')) >= 1, Fn('dec.n', INT, INT)(z3.Int('dv')) <= 20), patterns=[Fn('dec.n', INT, INT)(z3.Int('dv'))]))
    return Seq(n, lambda j: a(v, j), ('int', 8, True))


def text_int(c, bits):
    x = c.x
    s = c.v(0)
    if isinstance(s, Ptr):
        s = cstr(x, s)
    return s, text2int(s, bits)


def text2int(s, bits):
    """the number that the text starts with (meaningless unless text2int.ok)"""
    r = txtfun('text2int%d' % bits, s, INT)
    lo, hi = int_range(('int', bits, True))
    tn, ta = z3.Int('tn'), z3.Const('ta', ARR)
    f = r.decl()(tn, ta)
    add_fact('txt.text2int%d' % bits, z3.ForAll([tn, ta], z3.And(f >= lo, f <= hi), patterns=[f]))
    return r


def text2len(name, s):
    """how many characters that number takes"""
    r = txtfun(name + '.len', s, INT)
    ok = txtfun(name + '.ok', s, BOOL)
    tn, ta = z3.Int('tn'), z3.Const('ta', ARR)
    f, o = r.decl()(tn, ta), ok.decl()(tn, ta)
    add_fact('txt.' + name + '.len', z3.ForAll([tn, ta], z3.Implies(o, z3.And(f >= 1, f <= tn)), patterns=[f]))
    return r


def in_base(c, name, s, lo, hi):
    """(number, is there one) for a base that need not be 10; None for base 10"""
    if c.n() < 3:
        return None
    b = c.v(2)
    if is_num(b) and num(b) == 10:
        return None
    r, ok = txtfun(name + '.base', s, INT, (b,)), txtfun(name + '.base.ok', s, BOOL, (b,))
    c.x.assume(z3.And(r >= lo, r <= hi, z3.Implies(b == 10, z3.And(r == txtfun(name, s, INT), ok == txtfun(name + '.ok', s, BOOL)))))
    if isinstance(c.v(1), Ptr):
        raise Unsupported('length of a number in a base other than 10')
    return r, ok


def put_len(c, name, s):
    p = c.v(1) if c.n() > 1 else None
    if isinstance(p, Ptr):
        c.x.write(p.target(), text2len(name, s))


@fn('std::stoi', 'std::stol', 'std::stoll')
def std_stoi(c):
    bits = 32 if c.f['q'] == 'std::stoi' else 64
    s, r = text_int(c, bits)
    okf = txtfun('text2int%d.ok' % bits, s, BOOL)
    other = in_base(c, 'text2int%d' % bits, s, *int_range(('int', bits, True)))
    if other:
        r, okf = other
    if not c.x.branch(okf):
        raise CppThrow('std::invalid_argument', None, 'stoi')
    if other:
        return r
    put_len(c, 'text2int%d' % bits, s)
    return r


@fn('std::stoul', 'std::stoull')
def std_stoul(c):
    s = c.v(0)
    r = txtfun('text2uint', s, INT)
    c.x.assume(z3.And(r >= 0, r < 2 ** 64))
    okf = txtfun('text2uint.ok', s, BOOL)
    other = in_base(c, 'text2uint', s, 0, 2 ** 64 - 1)
    if other:
        r, okf = other
    if not c.x.branch(okf):
        raise CppThrow('std::invalid_argument', None, 'stoul')
    if other:
        return r
    put_len(c, 'text2uint', s)
    return r


@fn('std::stod', 'std::stof')
def std_stod(c):
    name = 'text2double' if c.f['q'] == 'std::stod' else 'text2float'
    s = c.v(0)
    okf = txtfun(name + '.ok', s, BOOL)
    if not c.x.branch(okf):
        raise CppThrow('std::invalid_argument', None, 'stod')
    put_len(c, name, s)
    return txtfun(name, s, D)


@fn('atoi')
def c_atoi(c):
    return text_int(c, 32)[1]


@fn('atol', 'atoll')
def c_atol(c):
    return text_int(c, 64)[1]


@fn('atof')
def c_atof(c):
    s = cstr(c.x, c.v(0))
    return txtfun('text2double', s, D)


@fn('isalnum', 'isdigit', 'isalpha', 'isspace', 'std::isdigit', 'std::isalnum', 'tolower', 'toupper')
def c_ctype(c):
    v = c.v(0)
    return Fn('c_' + c.f['q'].split('::')[-1], INT, INT)(v)


# ------------------------------------------------------------------ algorithms
@fn('std::any_of', 'std::all_of', 'std::none_of')
def any_of(c):
    x = c.x
    a, b, pred = c.v(0), c.v(1), c.args[2]
    s, st, n = rng(x, a, b)
    want = c.f['q']
    k0, v = pointwise(x, n, lambda k: callp(x, pred, a.lv, x.addi(st, k)))
    if want == 'std::all_of':
        v = z3.Not(v)
    e = exists_term(x, n, k0, v)
    return e if want == 'std::any_of' else z3.Not(e)


def alg_loop(c, n, body):
    """an algorithm over 0..n-1 as a loop"""
    x = c.x
    idx = x.newcell(I(0), 'alg')
    x.st.sh = dict(x.st.sh)
    x.st.sh[idx.cell] = ('int', 64, True)
    # nodes are keyed by identity for the invariant cache
    cache = getattr(x, 'algnodes', None)
    if cache is None:
        cache = x.algnodes = {}
    node = cache.setdefault((id(c.node), c.f['q']), {'k': 'alg', 'l': x.curloc})
    loops.loop(x, node, lambda: x.compare('<', x.read(idx), n), lambda: body(x.read(idx)), lambda: x.write(idx, x.addi(x.read(idx), I(1))))


@fn('std::for_each')
def for_each(c):
    x = c.x
    a, b = c.v(0), c.v(1)
    s, st, n = rng(x, a, b)
    alg_loop(c, n, lambda k: x.call_value(c.args[2], [a.lv.i(x.addi(st, k))]))
    return x.val(c.args[2])


def out_put(x, out, k, v):
    """*out++ = v"""
    o = x.read(out)
    if isinstance(o, Opaque) and o.kind == 'back_inserter':
        lv = o['lv']
        x.write(lv, append(x, x.read(lv), v))
        return
    if isinstance(o, Ptr):
        x.write(o.target(), v)
        x.write(out, Ptr(o.lv, x.addi(o.idx, I(1)), o.byte, o.et))
        return
    raise Unsupported('output iterator')


@fn('std::back_inserter')
def back_inserter(c):
    return Opaque('back_inserter', lv=c.args[0])


@fn('std::transform')
def std_transform(c):
    x = c.x
    a, b = c.v(0), c.v(1)
    s, st, n = rng(x, a, b)
    out = x.newcell(c.v(2 if c.n() == 4 else 3), 'out')

    def body(k):
        e = a.lv.i(x.addi(st, k))
        if c.n() == 4:
            r = x.call_value(c.args[3], [e])
        else:
            p2 = c.v(2)
            r = x.call_value(c.args[4], [e, p2.lv.i(x.addi(p2.idx, k))])
        out_put(x, out, k, x.val(r))
    alg_loop(c, n, body)
    return x.read(out)


@fn('std::copy_if', 'std::remove_copy_if')
def std_copy_if(c):
    x = c.x
    a, b = c.v(0), c.v(1)
    s, st, n = rng(x, a, b)
    out = x.newcell(c.v(2), 'out')

    def body(k):
        e = a.lv.i(x.addi(st, k))
        r = x.tobool(x.val(x.call_value(c.args[3], [e])))
        if c.f['q'] == 'std::remove_copy_if':
            r = z3.Not(r)
        if x.branch(r):
            out_put(x, out, k, x.read(e))
    alg_loop(c, n, body)
    return x.read(out)


@fn('std::count_if', 'std::count')
def std_count_if(c):
    x = c.x
    a, b = c.v(0), c.v(1)
    s, st, n = rng(x, a, b)
    acc = x.newcell(I(0), 'count')

    def body(k):
        e = a.lv.i(x.addi(st, k))
        if c.f['q'] == 'std::count_if':
            r = x.tobool(x.val(x.call_value(c.args[2], [e])))
        else:
            r = elem_eq(x, x.read(e), c.v(2))
        if x.branch(r):
            x.write(acc, x.addi(x.read(acc), I(1)))
    alg_loop(c, n, body)
    return x.read(acc)


@fn('std::accumulate')
def std_accumulate(c):
    x = c.x
    a, b = c.v(0), c.v(1)
    s, st, n = rng(x, a, b)
    acc = x.newcell(c.v(2), 'acc')

    def body(k):
        e = a.lv.i(x.addi(st, k))
        if c.n() == 4:
            x.write(acc, x.val(x.call_value(c.args[3], [x.newcell(x.read(acc), 'tmp'), e])))
        else:
            o, v = x.read(acc), x.read(e)
            x.write(acc, f_add(o, v) if o.sort() == D else o + v)
    alg_loop(c, n, body)
    return x.read(acc)


@fn('std::find_if', 'std::find', 'std::find_if_not')
def std_find_if(c):
    x = c.x
    a, b = c.v(0), c.v(1)
    s, st, n = rng(x, a, b)

    def P(k):
        e = a.lv.i(x.addi(st, k))
        if c.f['q'] == 'std::find':
            return elem_eq(x, x.read(e), c.v(2))
        r = x.tobool(x.val(x.call_value(c.args[2], [e])))
        return z3.Not(r) if c.f['q'].endswith('not') else r
    k0, v = pointwise(x, n, P)
    r = x.fresh(('int', 64, True), 'found')
    x.assume(z3.And(r >= 0, r <= n))
    x.assume(z3.Implies(r < n, z3.substitute(v, (k0, r))))
    j = z3.Int('j!find')
    q = z3.Not(z3.substitute(v, (k0, j)))
    pts = pattern_terms(q, j)
    f = z3.Implies(z3.And(j >= 0, j < r), q)
    x.assume(z3.ForAll([j], f, patterns=pts[:3]) if pts else z3.ForAll([j], f))
    return Ptr(a.lv, z3.simplify(st + r))


def filter_seq(x, s, st, n, k0, v, es):
    """elements k (of n) with v(k), in order"""
    sp = None
    v = z3.simplify(v)
    for cc in x.specs:
        if cc.kind == 'filter' and (not cc.ctx or loops.same_ctx(cc, x.st.ctx)):
            try:
                if solver.valid(x.st.pc + [k0 >= 0, k0 < n], cc.P(k0) == v, 1500):
                    sp = cc
                    break
            except z3.Z3Exception:
                pass
    if sp is None:
        sp = FilterSpec(lambda k: z3.substitute(v, (k0, k)), x.st.ctx)
        x.specs.append(sp)
    return sp


@fn('std::remove_if', 'std::remove')
def std_remove_if(c):
    x = c.x
    a, b = c.v(0), c.v(1)
    s, st, n = rng(x, a, b)

    def P(k):
        e = a.lv.i(x.addi(st, k))
        if c.f['q'] == 'std::remove':
            return elem_eq(x, x.read(e), c.v(2))
        return x.tobool(x.val(x.call_value(c.args[2], [e])))
    k0, v = pointwise(x, n, P)
    sp = filter_seq(x, s, st, n, k0, z3.Not(v), s.es)
    cnt = sp.cnt(n)
    junk = x.fresh(('seq', s.es), 'removed')
    old = s
    x.write(a.lv, Seq(s.n, lambda j: vite(j < st, old.at(j), vite(j < st + cnt, old.at(z3.simplify(st + sp.sel(z3.simplify(j - st)))), vite(j < st + n, junk.at(j), old.at(j)))) if not (is_num(st) and num(st) == 0) else vite(j < cnt, old.at(sp.sel(j)), vite(j < n, junk.at(j), old.at(j))), s.es))
    return Ptr(a.lv, z3.simplify(st + cnt))


@fn('std::erase_if', 'std::erase')
def std_erase_if(c):
    x = c.x
    lv = c.args[0]
    s = x.read(lv)
    if not isinstance(s, Seq):
        raise Unsupported('erase_if')

    def P(k):
        if c.f['q'] == 'std::erase':
            return elem_eq(x, x.read(lv.i(k)), c.v(1))
        return x.tobool(x.val(x.call_value(c.args[1], [lv.i(k)])))
    k0, v = pointwise(x, s.n, P)
    sp = filter_seq(x, s, I(0), s.n, k0, z3.Not(v), s.es)
    x.write(lv, Seq(sp.cnt(s.n), lambda j: s.at(sp.sel(j)), s.es))
    return z3.simplify(s.n - sp.cnt(s.n))


@fn('std::copy', 'std::move_range', 'std::copy_n')
def std_copy(c):
    x = c.x
    if c.f['q'] == 'std::copy_n':
        a, n, out = c.v(0), c.v(1), c.v(2)
        b = Ptr(a.lv, x.addi(a.idx, n), a.byte, a.et)
    else:
        a, b, out = c.v(0), c.v(1), c.v(2)
    from . import streams
    r = streams.byte_copy(x, a, b, out)
    if r is not None:
        return r
    s, st, n = rng(x, a, b)
    if isinstance(out, Opaque) and out.kind == 'back_inserter':
        lv = out['lv']
        x.write(lv, concat(x, x.read(lv), sub(s, st, n)))
        return out
    if not isinstance(out, Ptr) or out.idx is None:
        raise Unsupported('copy to %r' % type(out))
    d = x.read(out.lv)
    x.prove(z3.And(out.idx >= 0, out.idx + n <= d.n), 'bounds', 'copy destination')
    o = out.idx
    src = sub(s, st, n)
    x.write(out.lv, overlay(x, d, o, src))
    return Ptr(out.lv, x.addi(o, n))


def overlay(x, d, o, src):
    if d.lit is not None and src.lit is not None and is_num(o):
        l = list(d.lit)
        for i, e in enumerate(src.lit):
            if num(o) + i < len(l):
                l[num(o) + i] = e
        return lit_seq(l, d.es)
    if is_num(o) and num(o) == 0 and src.n.eq(d.n):
        return Seq(d.n, src.at, d.es)

    def fn_(j):
        k = j if is_num(o) and num(o) == 0 else z3.simplify(j - o)
        return vite(simp_cond(z3.And(j >= o, j < o + src.n)), src.at(k), d.at(j))
    return Seq(d.n, fn_, d.es)


@fn('std::fill', 'std::fill_n')
def std_fill(c):
    x = c.x
    if c.f['q'] == 'std::fill_n':
        a, n, v = c.v(0), c.v(1), c.v(2)
        b = Ptr(a.lv, x.addi(a.idx, n))
    else:
        a, b, v = c.v(0), c.v(1), c.v(2)
    s, st, n = rng(x, a, b)
    x.write(a.lv, overlay(x, s, st, x.seq_fill(n, v, s.es)))
    return b


@fn('std::iota')
def std_iota(c):
    x = c.x
    a, b, v = c.v(0), c.v(1), c.v(2)
    s, st, n = rng(x, a, b)
    es = s.es

    def el(k):
        t = z3.simplify(v + k)
        if es and es[0] == 'int':
            lo, hi = int_range(es)
            # the values wrap modulo the element type
            return z3.If(z3.And(t >= lo, t <= hi), t, z3.simplify((t - lo) % (2 ** es[1]) + lo)) if not is_num(t) else t
        return t
    if es and es[0] == 'int' and x.valid(z3.And(v >= 0, v + n <= int_range(es)[1] + 1)):
        x.write(a.lv, overlay(x, s, st, Seq(n, lambda k: z3.simplify(v + k), es)))
    else:
        x.write(a.lv, overlay(x, s, st, Seq(n, el, es)))


def permute(x, a, s, st, n, name):
    x.st.nfresh += 1
    ctx = x.st.ctx
    nm = '%s~%d' % (name, x.st.nfresh)
    perm = Fn(nm + '.perm', *([c.sort() for c in ctx] + [INT, INT]))
    inv = Fn(nm + '.inv', *([c.sort() for c in ctx] + [INT, INT]))
    p = lambda j: perm(*(list(ctx) + [j]))
    q = lambda j: inv(*(list(ctx) + [j]))
    j = z3.Int('pj')
    x.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(p(j) >= 0, p(j) < n, q(p(j)) == j)), patterns=[p(j)]))
    x.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(q(j) >= 0, q(j) < n, p(q(j)) == j)), patterns=[q(j)]))
    new = Seq(n, lambda k: s.at(z3.simplify(st + p(k))), s.es)
    x.write(a.lv, overlay(x, s, st, new))
    # ghost: the inverse permutations of this path (each maps [0,n) into itself, as assumed above)
    x.st.store['g:perms'] = x.st.store.get('g:perms', ()) + ((q, n),)
    return new


@fn('std::shuffle')
def std_shuffle(c):
    x = c.x
    a, b = c.v(0), c.v(1)
    s, st, n = rng(x, a, b)
    permute(x, a, s, st, n, 'shuffle')


@fn('std::sort', 'std::stable_sort')
def std_sort(c):
    x = c.x
    a, b = c.v(0), c.v(1)
    s, st, n = rng(x, a, b)
    new = permute(x, a, s, st, n, 'sort')
    if c.n() == 2 and s.es and s.es[0] in ('int', 'D'):
        i, j = z3.Ints('si sj')
        lt = (lambda u, v: flt(u, v)) if s.es[0] == 'D' else (lambda u, v: u < v)
        p1 = pattern_terms(new.at(i) == new.at(i), i)
        f = z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(lt(new.at(j), new.at(i))))
        x.assume(z3.ForAll([i, j], f, patterns=[z3.MultiPattern(new.at(i), new.at(j))]) if not has_bad(new.at(i)) else z3.ForAll([i, j], f))


@fn('std::reverse')
def std_reverse(c):
    x = c.x
    a, b = c.v(0), c.v(1)
    s, st, n = rng(x, a, b)
    x.write(a.lv, overlay(x, s, st, Seq(n, lambda k: s.at(z3.simplify(st + n - 1 - k)), s.es)))


@fn('std::min_element', 'std::max_element')
def std_min_element(c):
    x = c.x
    a, b = c.v(0), c.v(1)
    if c.n() != 2:
        raise Unsupported('min_element with a comparator')
    s, st, n = rng(x, a, b)
    r = x.fresh(('int', 64, True), 'ext')
    mn = c.f['q'] == 'std::min_element'
    lt = (lambda u, v: flt(u, v)) if s.es and s.es[0] == 'D' else (lambda u, v: u < v)
    at = lambda k: s.at(z3.simplify(st + k))
    x.assume(z3.And(r >= 0, z3.Or(r < n, z3.And(n == 0, r == 0))))
    j = z3.Int('j!me')
    f = z3.Implies(z3.And(j >= 0, j < n), z3.Not(lt(at(j), at(r)) if mn else lt(at(r), at(j))))
    pts = pattern_terms(f, j)
    x.assume(z3.ForAll([j], f, patterns=pts[:2]) if pts else z3.ForAll([j], f))
    return Ptr(a.lv, z3.simplify(st + r))


@fn('std::min', 'std::max')
def std_min(c):
    x = c.x
    mn = c.f['q'] == 'std::min'
    if c.n() == 1:
        s = c.v(0)
        if isinstance(s, Seq) and s.lit:
            r = s.lit[0]
            for e in s.lit[1:]:
                r = pick(x, mn, r, e)
            return r
        raise Unsupported('min of a list')
    if c.n() != 2:
        raise Unsupported('min with comparator')
    return pick(x, mn, c.v(0), c.v(1))


def pick(x, mn, a, b):
    # min: (b < a) ? b : a      max: (a < b) ? b : a
    cnd = x.compare('<', b, a) if mn else x.compare('<', a, b)
    if is_num(a) and is_num(b):
        return I(min(num(a), num(b)) if mn else max(num(a), num(b)))
    return vite(cnd, b, a)


@fn('std::clamp')
def std_clamp(c):
    x = c.x
    v, lo, hi = c.v(0), c.v(1), c.v(2)
    return vite(x.compare('<', v, lo), lo, vite(x.compare('<', hi, v), hi, v))


@fn('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref')
def std_move(c):
    if c.n() == 1:
        return c.args[0]
    raise Unsupported('std::move (range)')


# ------------------------------------------------------------------ numeric
@fn('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest', 'std::numeric_limits::epsilon', 'std::numeric_limits::infinity', 'std::numeric_limits::quiet_NaN')
def limits(c):
    x = c.x
    t = x.T(c.targ(0))
    w = c.f['q'].split('::')[-1]
    if t['k'] == 'int':
        lo, hi = int_range(('int', t['bits'], t['signed']))
        return I(hi if w == 'max' else lo)
    import sys
    d = {'max': sys.float_info.max, 'min': sys.float_info.min, 'lowest': -sys.float_info.max, 'epsilon': sys.float_info.epsilon, 'infinity': float('inf'), 'quiet_NaN': float('nan')}
    if t['bits'] == 32:
        fm = (2 - 2.0 ** -23) * 2.0 ** 127
        d.update(max=fm, min=2.0 ** -126, lowest=-fm, epsilon=2.0 ** -23)
    return dlit(d[w])


@fn('sin', 'cos', 'std::sin', 'std::cos', 'tan', 'sqrt', 'std::sqrt', 'exp', 'log', 'std::log', 'std::exp', 'std::hypot', 'hypot', 'fmod', 'std::fmod', 'pow', 'std::pow')
def c_math(c):
    n = c.f['q'].split('::')[-1]
    args = []
    for i in range(c.n()):
        v = c.v(i)
        args.append(coerce(c.x, v, ('D',)))
    return Fn('m_' + n, *([D] * len(args) + [D]))(*args)


_rnd = {}


def dmath(name, *args):
    if name == 'trunc':
        rnd_fact(name)
    return Fn('m_' + name, *([D] * len(args) + [D]))(*args)


def rnd_fact(n):
    f = Fn('m_' + n, D, D)
    if n not in _rnd:
        _rnd[n] = 1
        a = z3.Const('ra', D)
        if n == 'trunc':
            add_fact('m_trunc', z3.ForAll([a], z3.And(f_nan(f(a)) == f_nan(a)), patterns=[f(a)]))


@fn('round', 'floor', 'ceil', 'trunc', 'std::round', 'std::floor', 'std::ceil', 'std::trunc', 'fabs', 'std::fabs', 'std::abs', 'abs', 'rint', 'nearbyint', 'std::rint', 'std::nearbyint')
def c_round(c):
    n = c.f['q'].split('::')[-1]
    v = c.v(0)
    if v.sort() == INT:
        if n in ('abs',):
            t = c.x.T(c.f['ret'])
            lo, hi = int_range(('int', t['bits'], True))
            c.x.prove(v > lo, 'overflow', 'abs of the most negative value')
            return z3.If(v >= 0, v, -v)
        v = coerce(c.x, v, ('D',))
    if n == 'abs':
        n = 'fabs'
    rnd_fact(n)
    return Fn('m_' + n, D, D)(v)


@fn('std::isnan', 'isnan', 'std::isinf', 'std::isfinite', 'isinf', 'isfinite', 'std::signbit', 'signbit')
def c_isnan(c):
    n = c.f['q'].split('::')[-1]
    v = c.v(0)
    if n == 'isnan':
        return f_nan(v)
    f = Fn('m_' + n, D, BOOL)
    if n == 'signbit':
        a, k = z3.Const('sa', D), z3.Int('sk')
        add_fact('m_signbit', z3.ForAll([a], z3.And(z3.Implies(z3.And(z3.Not(f_nan(a)), f_ord(a) == 0, z3.Not(f(a))), a == dlit(0.0)),
                                                    z3.Implies(z3.And(z3.Not(f_nan(a)), f_ord(a) > 0), z3.Not(f(a))),
                                                    z3.Implies(z3.And(z3.Not(f_nan(a)), f_ord(a) < 0), f(a))), patterns=[f(a)]))
        add_fact('m_signbit', z3.And(z3.Not(f(dlit(0.0))), f(dlit(-0.0))))
        add_fact('m_signbit', z3.ForAll([k], f(f_i2d(k)) == (k < 0), patterns=[f(f_i2d(k))]))
    return f(v)


@fn('std::hash::operator()')
def std_hash(c):
    x = c.x
    v = c.v(0)
    if v.sort() == D:
        f = Fn('hash_double', D, INT)
        a, b = z3.Consts('ha hb', D)
        add_fact('hash_double', z3.ForAll([a, b], z3.Implies(feq(a, b), f(a) == f(b)), patterns=[z3.MultiPattern(f(a), f(b))]))
        add_fact('hash_double', z3.ForAll([a], z3.And(f(a) >= 0, f(a) < 2 ** 64), patterns=[f(a)]))
        return f(v)
    if v.sort() == INT:
        f = Fn('hash_int', INT, INT)
        a = z3.Int('ha')
        add_fact('hash_int', z3.ForAll([a], z3.And(f(a) >= 0, f(a) < 2 ** 64), patterns=[f(a)]))
        return f(v)
    raise Unsupported('std::hash')


@ctor('std::hash::hash', 'std::less::less', 'std::allocator::allocator', 'std::equal_to::equal_to')
def hash_ctor(c):
    return Opaque('functor')


# ------------------------------------------------------------------ sets and maps
def setv(has, ks, der=None, n=None):
    return SetV(has, ks, n, der)


@ctor('std::unordered_set::unordered_set', 'std::set::set')
def set_ctor(c):
    x = c.x
    s = x.prog.shape(c.f['cls'])
    if c.n() >= 1:
        v = c.v(0)
        if isinstance(v, SetV):
            return v
        if isinstance(v, Ptr):
            seq, st, n = rng(x, v, c.v(1))
            return set_insert_range(x, x.zero_of_shape(s), seq, st, n)
        if isinstance(v, Seq):
            return set_insert_range(x, x.zero_of_shape(s), v, I(0), v.n)
    return x.zero_of_shape(s)


def set_insert(x, s, v):
    ks = s.ks
    return SetV(lambda q: z3.Or(s.has(q), x.keyeq(q, v, ks)), ks, None, (s, v))


def set_insert_range(x, s, seq, st, n):
    ks = s.ks
    if is_num(n) and num(n) <= 16:
        r = s
        for i in range(num(n)):
            r = set_insert(x, r, seq.at(z3.simplify(st + i)))
        return r
    E = lambda k: seq.at(z3.simplify(st + k))
    sp = None
    k0 = Const('k!ins', INT)
    for c in x.specs:
        if c.kind == 'set' and c.ks == ks and loops.same_ctx(c, x.st.ctx) and z3.is_true(c.P(k0)):
            f = veq(c.E(k0), E(k0))
            if z3.is_true(f) or solver.valid(x.st.pc + [k0 >= 0, k0 < n], f, 1000):
                sp = c
                break
    if sp is None:
        sp = SetSpec(lambda k: TRUE, E, ks, lambda a, b: x.keyeq(a, b, ks), x.st.ctx)
        x.specs.append(sp)
    return SetV(lambda q: z3.Or(s.has(q), sp.has(q, n)), ks)


@fn('std::unordered_set::insert', 'std::set::insert', 'std::unordered_set::emplace', 'std::set::emplace')
def set_insert_fn(c):
    x = c.x
    s = c.this()
    if c.n() == 2:
        a, b = c.v(0), c.v(1)
        seq, st, n = rng(x, a, b)
        x.write(c.obj, set_insert_range(x, s, seq, st, n))
        return None
    v = c.v(0)
    had = s.has(v)
    x.write(c.obj, set_insert(x, s, v))
    return Struct('std::pair', {'first': Iter(c.obj, v, TRUE), 'second': z3.simplify(z3.Not(had))}, None)


@fn('std::unordered_set::find', 'std::set::find', 'std::unordered_map::find', 'std::map::find')
def assoc_find(c):
    s = c.this()
    k = c.v(0)
    return Iter(c.obj, k, s.has(k))


@fn('std::unordered_set::contains', 'std::set::contains', 'std::unordered_map::contains', 'std::map::contains')
def assoc_contains(c):
    return c.this().has(c.v(0))


@fn('std::unordered_set::count', 'std::set::count', 'std::unordered_map::count', 'std::map::count')
def assoc_count(c):
    return z3.If(c.this().has(c.v(0)), I(1), I(0))


@fn('std::unordered_set::end', 'std::set::end', 'std::unordered_map::end', 'std::map::end', 'std::unordered_map::cend', 'std::unordered_set::cend')
def assoc_end(c):
    v = c.x.peek(c.obj) if isinstance(c.obj, LV) else c.obj
    e = Iter(c.obj, None, FALSE)
    return e


@fn('std::unordered_set::begin', 'std::set::begin', 'std::unordered_map::begin', 'std::map::begin', 'std::unordered_map::cbegin', 'std::unordered_set::cbegin')
def assoc_begin(c):
    v = c.x.peek(c.obj)
    return enum_ptr(c.x, c.obj, v, 0)


@fn('std::unordered_set::empty', 'std::set::empty', 'std::unordered_map::empty', 'std::map::empty')
def assoc_empty(c):
    v = c.this()
    return enum_seq(c.x, v).n == 0


@fn('std::unordered_set::size', 'std::set::size', 'std::unordered_map::size', 'std::map::size')
def assoc_size(c):
    v = c.this()
    return enum_seq(c.x, v).n


@fn('std::unordered_set::erase', 'std::set::erase')
def set_erase(c):
    x = c.x
    s = c.this()
    v = c.v(0)
    if isinstance(v, Iter):
        v = v.key
    had = s.has(v)
    x.write(c.obj, SetV(lambda q: z3.And(s.has(q), z3.Not(x.keyeq(q, v, s.ks))), s.ks))
    return z3.If(had, I(1), I(0))


@fn('std::unordered_set::clear', 'std::set::clear', 'std::unordered_map::clear', 'std::map::clear')
def assoc_clear(c):
    v = c.this()
    c.x.write(c.obj, c.x.zero_of_shape(('set', v.ks) if isinstance(v, SetV) else ('map', v.ks, v.vs)))


@fn('std::unordered_set::operator=', 'std::set::operator=', 'std::unordered_map::operator=', 'std::map::operator=')
def assoc_assign(c):
    c.x.write(c.obj, c.v(0))
    return c.obj


@ctor('std::unordered_map::unordered_map', 'std::map::map')
def map_ctor(c):
    x = c.x
    s = x.prog.shape(c.f['cls'])
    if c.n() >= 1:
        v = c.v(0)
        if isinstance(v, MapV):
            return v
        if isinstance(v, Seq) and v.lit is not None:
            m = x.zero_of_shape(s)
            for e in v.lit:
                k, val = e.f['first'], e.f['second']
                had = None
                m = map_put_if_absent(x, m, k, val)
            return m
    return x.zero_of_shape(s)


def map_put_if_absent(x, m, k, val):
    old = m
    ks = m.ks
    return MapV(lambda q: z3.Or(old.has(q), x.keyeq(q, k, ks)), lambda q: vite(z3.And(x.keyeq(q, k, ks), z3.Not(old.has(k))), val, old.get(q)), ks, m.vs, None)


def map_put(x, m, k, val):
    old = m
    ks = m.ks
    return MapV(lambda q: z3.Or(old.has(q), x.keyeq(q, k, ks)), lambda q: vite(x.keyeq(q, k, ks), val, old.get(q)), ks, m.vs, (old, k, val))


@fn('std::unordered_map::operator[]', 'std::map::operator[]')
def map_index(c):
    x = c.x
    k = c.v(0)
    m = c.this()
    had = z3.simplify(m.has(k))
    if not z3.is_true(had):
        dv = x.zero_of_shape(m.vs)
        cur = vite(had, m.get(k), dv)
        x.write(c.obj, map_put(x, m, k, cur))
    return c.obj.i(k)


@fn('std::unordered_map::at', 'std::map::at')
def map_at(c):
    x = c.x
    k = c.v(0)
    m = c.this()
    if not x.branch(m.has(k)):
        raise CppThrow('std::out_of_range', None, 'map::at')
    return c.obj.i(k) if isinstance(c.obj, LV) else m.get(k)


@fn('std::unordered_map::insert', 'std::map::insert', 'std::unordered_map::emplace', 'std::map::emplace', 'std::unordered_map::try_emplace', 'std::map::try_emplace')
def map_insert(c):
    x = c.x
    m = c.this()
    if c.n() == 1:
        p = c.v(0)
        k, v = p.f['first'], p.f['second']
    elif c.n() == 2:
        k, v = c.v(0), c.v(1)
    else:
        raise Unsupported('map insert')
    had = m.has(k)
    x.write(c.obj, map_put(x, m, k, vite(had, m.get(k), v)))
    return Struct('std::pair', {'first': Iter(c.obj, k, TRUE), 'second': z3.Not(had)}, None)


@fn('std::__detail::_Node_const_iterator::operator->', 'std::__detail::_Node_iterator::operator->', 'std::_Rb_tree_const_iterator::operator->', 'std::_Rb_tree_iterator::operator->')
def node_arrow(c):
    return node_deref(c, True)


@fn('std::__detail::_Node_const_iterator::operator*', 'std::__detail::_Node_iterator::operator*', 'std::_Rb_tree_const_iterator::operator*', 'std::_Rb_tree_iterator::operator*')
def node_star(c):
    return node_deref(c, False)


def node_deref(c, arrow):
    x = c.x
    it = c.this()
    if isinstance(it, Ptr):
        return it if arrow else it.target()
    if isinstance(it, Iter):
        x.prove(it.found, 'bounds', 'dereference of a valid iterator')
        m = x.peek(it.lv)
        if isinstance(m, MapV):
            return Opaque('kv', key=it.key, lv=it.lv)
        return it.key if not arrow else Ptr(x.newcell(it.key, 'tmp'))
    raise Unsupported('iterator dereference')


@fn('std::__detail::_Node_const_iterator::operator++', 'std::__detail::_Node_iterator::operator++', 'std::_Rb_tree_const_iterator::operator++', 'std::_Rb_tree_iterator::operator++')
def node_inc(c):
    return it_inc(c)


_enum = {}


def enum_seq(x, v):
    """an enumeration (in unspecified order) of the contents of a set or map"""
    r = _enum.get(id(v))
    if r is not None:
        return r[1]
    x.st.nfresh += 1
    ctx = x.st.ctx
    nm = 'enum~%d' % x.st.nfresh
    ks = v.ks
    keys = fresh(('seq', ks), nm, ctx)
    es = [shape_sort(s) for s in flat_shapes(ks)]
    pos = Fn(nm + '.pos', *([c.sort() for c in ctx] + es + [INT]))
    vs = [z3.Const('ev%d' % i, s) for i, s in enumerate(es)]
    val = unflat(list(vs), ks)
    j, i = z3.Ints('ej ei')
    kj = keys.at(j)
    p = pos(*(list(ctx) + vs))
    hv = v.has(val)
    n = keys.n
    trig = flat(kj, ks)
    facts = [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), v.has(kj)), patterns=[trig[0]]),
             z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Not(x.keyeq(keys.at(i), kj, ks))), patterns=[z3.MultiPattern(flat(keys.at(i), ks)[0], trig[0])])]
    f = z3.Implies(hv, z3.And(p >= 0, p < n, x.keyeq(val, keys.at(p), ks)))
    facts.append(z3.ForAll(vs, f, patterns=[p]))
    # usable in the other direction: whenever membership is mentioned
    apps = [t for t in find_apps(hv) if all(any(a.eq(q) for a in t.children()) for q in vs)]
    if apps:
        facts.append(z3.ForAll(vs, f, patterns=apps[:3]))
    for f in facts:
        x.assume(f)
    seq = keys
    if isinstance(v, MapV):
        pes = ('struct', 'std::pair', (('first', ks), ('second', v.vs)))
        seq = Seq(n, lambda k: Struct('std::pair', {'first': keys.at(k), 'second': v.get(keys.at(k))}, pes), pes)
    _enum[id(v)] = (v, seq, facts, x)
    return seq


def find_apps(f):
    out = []
    st = [f]
    seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            out.append(t)
        st.extend(t.children())
    return out


def enum_ptr(x, o, v, end):
    r = _enum.get(id(v))
    seq = enum_seq(x, v)
    if r is not None:
        have = set(f.get_id() for f in x.st.pc)
        for f in r[2]:
            if f.get_id() not in have:
                x.assume(f)
    cell = 'enum:%s' % id(v)
    if cell not in x.st.store:
        x.st.store[cell] = seq
    return Ptr(LV(cell), seq.n if end else I(0))


def rfor_assoc(x, s, r, v):
    p = enum_ptr(x, r, v, 0)
    seq = x.peek(p.lv)
    d = s['var']
    idx = x.newcell(I(0), 'rfor')
    x.set_shape(idx, ('int', 64, True))
    isref = x.T(d['t'])['k'] == 'ref'
    ismap = isinstance(v, MapV)

    def cond():
        return x.compare('<', x.read(idx), seq.n)

    def body():
        k = x.read(idx)
        e = p.lv.i(k)
        x.declare_loopvar(d, e, isref)
        x.stmt(s['b'])

    def inc():
        x.write(idx, x.addi(x.read(idx), I(1)))
    loops.loop(x, s, cond, body, inc)


@ctor('std::pair::pair')
def pair_ctor(c):
    x = c.x
    if c.n() == 1:
        v = c.v(0)
        if isinstance(v, Struct):
            return v
    s = x.prog.shape(c.f['cls'])
    if c.n() == 0:
        return x.zero_of_shape(s)
    if c.n() == 2:
        a, b = c.v(0), c.v(1)
        if isinstance(a, Ptr) and s[2][0][1][0] == 'seq':
            a = cstr(x, a)
        if isinstance(b, Ptr) and s[2][1][1][0] == 'seq':
            b = cstr(x, b)
        if isinstance(a, z3.ExprRef):
            a = coerce(x, a, s[2][0][1])
        if isinstance(b, z3.ExprRef):
            b = coerce(x, b, s[2][1][1])
        return Struct('std::pair', {'first': a, 'second': b}, s)
    raise Unsupported('pair constructor')


@fn('std::make_pair')
def make_pair(c):
    return Struct('std::pair', {'first': c.v(0), 'second': c.v(1)}, c.x.prog.shape(c.f['ret']))


@fn('std::pair::operator=')
def pair_assign(c):
    c.x.write(c.obj, c.v(0))
    return c.obj


# ------------------------------------------------------------------ function objects
@ctor('std::function::function')
def function_ctor(c):
    if c.n() == 0:
        return FnV([])
    v = c.v(0)
    if isinstance(v, FnV):
        return v
    return FnV([(TRUE, v)])


def spec_function(x, spec):
    """a function object known by its specification only"""
    def run(x, args):
        vs = [x.val(a) for a in args]
        throws, want, free = spec(vs)
        if x.branch(throws):
            raise CppThrow('std::runtime_error', None, 'operation')
        for k, cond in free.items():
            want = want.set(k, vite(cond, x.fresh(('D',), 'noise'), want[k]))
        return want
    return FnV([(TRUE, Opaque('pyfn', fn=run))])


@fn('std::function::operator=')
def function_assign(c):
    v = c.v(0)
    c.x.write(c.obj, v if isinstance(v, FnV) else FnV([(TRUE, v)]))
    return c.obj


@fn('std::function::operator()')
def function_call(c):
    v = c.this()
    if isinstance(v, Struct) and c.x.fnlist is not None:
        return c.x.fnlist.call(v, [c.x.val(a) for a in c.args])
    if isinstance(v, FnV) and not v.alts:
        raise CppThrow('std::bad_function_call', None, 'empty function')
    return c.x.call_value(c.obj, c.args)


@fn('std::function::operator bool')
def function_bool(c):
    v = c.this()
    return TRUE if not isinstance(v, FnV) or v.alts else FALSE


@ctor('std::linear_congruential_engine::linear_congruential_engine', 'std::mersenne_twister_engine::mersenne_twister_engine', 'std::random_device::random_device')
def rng_ctor(c):
    return Opaque('rng')


@fn('std::linear_congruential_engine::seed', 'std::mersenne_twister_engine::seed')
def rng_seed(c):
    return None


@fn('std::linear_congruential_engine::operator()', 'std::mersenne_twister_engine::operator()')
def rng_call(c):
    v = c.x.fresh(('int', 64, False), 'random')
    if 'linear' in c.f['q']:
        c.x.assume(v < 2 ** 31 - 1)
    return v


@ctor('std::normal_distribution::normal_distribution', 'std::uniform_real_distribution::uniform_real_distribution', 'std::uniform_int_distribution::uniform_int_distribution')
def dist_ctor(c):
    return Opaque('distribution', which=c.f['q'].split('::')[1], a=c.v(0) if c.n() else None, b=c.v(1) if c.n() > 1 else None)


@fn('std::normal_distribution::operator()', 'std::uniform_real_distribution::operator()')
def dist_call(c):
    return c.x.fresh(('D',), 'random')


@ctor('std::runtime_error::runtime_error', 'std::logic_error::logic_error', 'std::invalid_argument::invalid_argument', 'std::out_of_range::out_of_range')
def exc_ctor(c):
    return Opaque('exception', ty='::'.join(c.f['q'].split('::')[:-1]))


@fn('std::exception::what', 'std::runtime_error::what')
def exc_what(c):
    return Ptr(c.x.newcell(Opaque('cstring', s=c.x.fresh(('seq', ('int', 8, True)), 'what')), 'what'), I(0))


def const_value(c):
    return None


from . import streams  # noqa: E402  (registers the stream, zlib and text models)
