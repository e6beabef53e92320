"""Symbolic executor / verification condition generator for the extracted program."""
import os
import z3
from .values import *
from . import values as V
from .solver import valid, feasible, LAST
from . import solver


class CppThrow(Exception):
    def __init__(self, ty, val=None, why=''):
        self.ty = ty
        self.val = val
        self.why = why


class CppReturn(Exception):
    def __init__(self, val):
        self.val = val


class CppBreak(Exception):
    pass


class CppContinue(Exception):
    pass


class PathDone(Exception):
    """the path ends here (loop iteration closed by its invariant, or infeasible)"""


class State:
    __slots__ = ('store', 'env', 'pc', 'dec', 'ncell', 'nfresh', 'counts', 'ctx', 'sh')

    def __init__(self):
        self.store = {}
        self.env = {}
        self.pc = []
        self.dec = []
        self.ncell = 0
        self.nfresh = 0
        self.counts = {}
        self.ctx = ()      # enclosing iteration numbers
        self.sh = {}       # declared shapes of memory cells

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.env = dict(self.env)
        s.pc = list(self.pc)
        s.dec = list(self.dec)
        s.ncell = self.ncell
        s.nfresh = self.nfresh
        s.counts = dict(self.counts)
        s.ctx = self.ctx
        s.sh = self.sh
        return s


class Obl:
    __slots__ = ('name', 'kind', 'ok', 'loc', 'detail', 'smt', 'time')

    def __init__(self, name, kind, ok, loc, detail=''):
        self.name = name
        self.kind = kind
        self.ok = ok
        self.loc = loc
        self.detail = detail
        self.smt = None


MAXPATHS = int(os.environ.get('VC_MAXPATHS', '3000'))


def opaque_arith(t):
    """contains a case distinction or a division by a variable"""
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen or not z3.is_app(u):
            continue
        seen.add(u.get_id())
        k = u.decl().kind()
        if k == z3.Z3_OP_ITE or (k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not is_num(u.arg(1))):
            return True
        todo += u.children()
    return False


_cmp = {}


def comparisons(f):
    """the integer comparisons among the conjuncts of a formula"""
    r = _cmp.get(f.get_id())
    if r is not None:
        return r[1]
    out, todo = [], [f]
    while todo:
        g = todo.pop()
        neg = False
        if z3.is_not(g):
            neg, g = True, g.arg(0)
        if z3.is_and(g) and not neg or z3.is_or(g) and neg:
            todo += [z3.Not(c) for c in g.children()] if neg else g.children()
            continue
        if z3.is_app(g) and g.num_args() == 2 and z3.is_int(g.arg(0)):
            out.append((neg, g.decl().kind(), g.arg(0), g.arg(1)))
    _cmp[f.get_id()] = (f, out)
    return out


def mono(a, b, c):
    return z3.Implies(c >= 0, z3.And(z3.Implies(a <= b, a * c <= b * c), z3.Implies(a < b, a * c + c <= b * c)))


def small_if(s):
    """if (...) a = b;"""
    if s.get('k') != 'if' or s.get('b') or s.get('init') or s.get('cv'):
        return False
    a = s['a']
    while a.get('k') == 'block' and len(a['b']) == 1:
        a = a['b'][0]
    return a.get('k') == 'expr' and a['e'].get('k') == 'bin' and a['e'].get('op') == '='


class Exec:
    def __init__(self, prog, contracts=None, cfg=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.cfg = cfg or {}
        self.st = State()
        self.trail = None
        self.quiet = 0
        self.obls = {}         # name -> Obl
        self.wlog = None
        self.rlog = None
        self.locked = 0
        self.races = []
        self.loopcache = {}
        self.ctxkey = ()
        self.stack = []
        self.globals0 = {}     # global variables: their values when they were first used
        self.fnlist = None     # contract-supplied meaning of a vector of function objects
        self.opens = {}        # files opened: name -> (mode, iterations, file name)
        self.on_open = None    # contract-supplied check of every opened file
        self.own_templates = False     # ignore the templates of called functions
        self.templates = []    # contract-supplied loop templates
        self.used_std = set()
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.npaths = 0
        self.curloc = '?'
        self.fname = ''
        self.specs = []        # registry of recursive spec functions (filters, folds)
        self.exploring = 0
        self.at_throw = None
        self.ground_branches = False   # decide branches from the quantifier-free part of the path condition
        self.pathcount = 0
        self.products = []

    # ------------------------------------------------------------ state helpers
    def newcell(self, v, hint='t'):
        self.st.ncell += 1
        c = '%s#%d' % (hint, self.st.ncell)
        self.st.store[c] = v
        return LV(c)

    def set_shape(self, lv, shape):
        if shape is not None:
            self.st.sh = dict(self.st.sh)
            self.st.sh[lv.cell] = shape

    def fresh(self, shape, hint='v'):
        self.st.nfresh += 1
        return fresh(shape, '%s~%d' % (hint, self.st.nfresh), self.st.ctx)

    def assume(self, f):
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.st.pc.append(f)

    def valid(self, f, timeout=None):
        f2 = z3.simplify(f) if not (z3.is_true(f) or z3.is_false(f)) else f
        if z3.is_true(f2):
            return True
        if z3.is_false(f2) and not self.st.pc:
            return False
        return valid(self.st.pc, f, timeout)

    def feas(self, f):
        return feasible(self.st.pc, f, ground=self.ground_branches)

    def decide(self, cond):
        """True/False when cond is literally decided, else None"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return None

    def branch(self, cond):
        if not isinstance(cond, z3.ExprRef):
            return bool(cond)
        d = self.decide(cond)
        if d is not None:
            return d
        t = self.trail
        if t is None:
            # no exploration active: must be determined
            if self.valid(cond):
                return True
            if self.valid(z3.Not(cond)):
                return False
            raise Unsupported('branch outside exploration')
        if t['pos'] < len(t['prefix']):
            b = t['prefix'][t['pos']]
        else:
            ft = self.feas(cond)
            ff = self.feas(z3.Not(cond))
            if not ft and not ff:
                raise PathDone()
            if ft and ff:
                b = True
                t['alts'].append(tuple(t['prefix']) + tuple(t['taken']) + (False,))
            else:
                b = ft
        if t['pos'] >= len(t['prefix']):
            t['taken'].append(b)
        t['pos'] += 1
        f = cond if b else z3.Not(cond)
        self.st.dec.append(f)
        self.assume(f)
        return b

    def explore(self, fn, tag=None):
        """run fn along every feasible path from the current state.
        returns [(state, outcome)], outcome = ('norm',v)|('ret',v)|('throw',CppThrow)|('brk',)|('cont',)"""
        snap = self.st.copy()
        saved_trail = self.trail
        saved_stack = list(self.stack)
        ctx = self.ctxkey
        results = []
        work = [()]
        self.exploring += 1
        try:
            while work:
                prefix = work.pop()
                self.st = snap.copy()
                self.stack = list(saved_stack)
                self.trail = {'prefix': prefix, 'pos': 0, 'taken': [], 'alts': []}
                self.ctxkey = ctx + (tag,)
                self.pathcount += 1
                if self.pathcount > MAXPATHS:
                    raise Unsupported('path limit exceeded')
                try:
                    try:
                        out = ('norm', fn())
                    except CppReturn as r:
                        out = ('ret', r.val)
                    except CppThrow as r:
                        out = ('throw', r)
                        if self.at_throw is not None:
                            self.at_throw()
                    except CppBreak:
                        out = ('brk',)
                    except CppContinue:
                        out = ('cont',)
                    results.append((self.st, out))
                except PathDone:
                    pass
                work.extend(self.trail['alts'])
        finally:
            self.trail = saved_trail
            self.stack = saved_stack
            self.ctxkey = ctx
            self.st = snap
            self.exploring -= 1
        return results

    def trailkey(self):
        t = self.trail
        if t is None:
            return ()
        return tuple(t['prefix'][:t['pos']]) + tuple(t['taken'])

    # ------------------------------------------------------------ obligations
    def prove(self, f, kind, detail='', loc=None):
        """record an obligation; afterwards the formula is assumed on this path"""
        if self.quiet:
            self.assume(f)
            return True
        ok = self.valid(f)
        loc = loc or self.curloc
        # obligations are named by function, kind and source line content, aggregated over paths
        name = '%s/%s@%s' % (self.fname, kind, loc) if kind in ('bounds', 'assert', 'overflow', 'div-by-zero', 'null', 'region', 'precondition', 'race') else '%s/%s' % (self.fname, kind)
        o = self.obls.get(name)
        if o is None:
            o = Obl(name, kind, True, loc)
            o.time = 0
            o.detail = detail
            self.obls[name] = o
            o.smt = 0
        o.smt += 1      # number of VCs
        if not ok and o.ok:
            o.ok = False
            o.detail = '%s: not proved on path [%s]: goal %s (solver: %s %s)' % (detail, ' & '.join(str(d).replace('\n', ' ')[:160] for d in self.st.dec[-8:]), str(z3.simplify(f)).replace('\n', ' ')[:600], LAST.get('result'), LAST.get('reason'))
        self.assume(f)
        return ok

    # ------------------------------------------------------------ memory
    def read(self, lv):
        v = self.st.store.get(lv.cell)
        if v is None:
            raise Unsupported('read of dead or unknown object %s' % lv.cell)
        for p in lv.path:
            if p[0] == 'f':
                if isinstance(v, Struct):
                    v = v.f[p[1]]
                elif isinstance(v, Opaque):
                    v = v.d[p[1]]
                else:
                    raise Unsupported('field %s of %r' % (p[1], type(v)))
            elif p[0] == 'i':
                if isinstance(v, MapV):
                    v = v.get(p[1])
                elif isinstance(v, Seq):
                    self.bounds(v, p[1])
                    v = v.at(p[1])
                else:
                    raise Unsupported('index into %r' % type(v))
        if isinstance(v, Uninit):
            raise Unsupported('read of an uninitialised value')
        if self.rlog is not None:
            self.access('r', lv.cell, lv.path)
        return v

    def access(self, kind, cell, path):
        """note an access to memory by the current iteration of a parallel loop"""
        if self.rlog is not None:
            self.rlog.append((kind, cell, tuple(path), tuple(self.st.pc), self.locked, self.curloc))

    def peek(self, lv):
        """read without bounds obligations"""
        v = self.st.store.get(lv.cell)
        for p in lv.path:
            if p[0] == 'f':
                v = v.f[p[1]] if isinstance(v, Struct) else v.d[p[1]]
            elif isinstance(v, MapV):
                v = v.get(p[1])
            else:
                v = v.at(p[1])
        return v

    def bounds(self, seq, k):
        if is_num(k) and is_num(seq.n):
            if 0 <= num(k) < num(seq.n):
                return
        self.prove(z3.And(k >= 0, k < seq.n), 'bounds', 'index within bounds')

    def write(self, lv, v, whole=False):
        if self.wlog is not None:
            self.wlog.append((lv.cell, lv.path))
        if self.rlog is not None:
            self.access('w', lv.cell, lv.path)
        old = self.st.store.get(lv.cell)
        if old is None:
            raise Unsupported('write to dead object')
        if lv.cell.startswith('rdonly'):
            raise Unsupported('write through a string index that may be the end')
        self.st.store[lv.cell] = self._upd(old, lv.path, v)

    def _upd(self, old, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == 'f':
            if isinstance(old, Struct):
                return old.set(p[1], self._upd(old.f[p[1]], path[1:], v))
            if isinstance(old, Opaque):
                return old.set(**{p[1]: self._upd(old.d[p[1]], path[1:], v)})
            raise Unsupported('write of field of %r' % type(old))
        if isinstance(old, MapV):
            key = p[1]
            inner = self._upd(old.get(key), path[1:], v) if path[1:] else v
            return MapV(old.has, lambda q: vite(self.keyeq(q, key, old.ks), inner, old.get(q)), old.ks, old.vs, (old, key, inner))
        if isinstance(old, Seq):
            k = p[1]
            self.bounds(old, k)
            inner = self._upd(old.at(k), path[1:], v) if path[1:] else v
            if old.lit is not None and is_num(k):
                l = list(old.lit)
                l[num(k)] = inner
                return lit_seq(l, old.es)
            return Seq(old.n, lambda j: inner if j.eq(k) else vite(j == k, inner, old.at(j)), old.es)
        raise Unsupported('indexed write into %r' % type(old))

    def keyeq(self, a, b, ks):
        """key equality used by associative containers: bitwise for ints, IEEE for doubles"""
        if ks[0] in ('int', 'bool'):
            return a == b
        if ks[0] == 'D':
            return feq(a, b)
        if ks[0] == 'struct':
            return z3.And([self.keyeq(a.f[n], b.f[n], s) for n, s in ks[2]])
        if ks[0] == 'seq':
            return veq(a, b)
        raise Unsupported('key equality on %s' % (ks,))

    def val(self, x):
        """value of an evaluated argument (LV -> load)"""
        if isinstance(x, LV):
            return self.read(x)
        return x

    # ------------------------------------------------------------ types
    def shape(self, t):
        return self.prog.shape(self.prog.deref(t))

    def T(self, t):
        return self.prog.types[t]

    # ------------------------------------------------------------ calls
    def call(self, f, this, args, node=None):
        """call of a repo function (callee dict f with 'key'); args: LV or Value"""
        fn = self.prog.functions.get(f['key'])
        if fn is None:
            if f.get('asg') and this is not None and len(args) == 1:
                # defaulted assignment of a class with a user-provided destructor or constructor
                self.write(this, self.val(args[0]))
                return this
            raise Unsupported('body of %s not available' % f['q'])
        c = self.find_contract(fn)
        if c is not None:
            return self.apply_contract(c, fn, this, args)
        return self.inline(fn, this, args)

    def find_contract(self, fn):
        cs = self.contracts.get(fn['q'])
        if not cs:
            return None
        skip = self.cfg.get('nocontract') or ()
        for c in cs:
            if c.matches(self.prog, fn):
                return None if (c.id, fn['key']) in skip else c
        return None

    def inline(self, fn, this, args):
        if fn['key'] in self.stack or len(self.stack) > 24:
            raise Unsupported('recursive call of %s without a contract' % fn['q'])
        self.inlined.add(fn['q'])
        results = None

        def run():
            return self.run_body(fn, this, args)
        n0 = len(self.st.dec)
        tag = ('inl', fn['key'], self.trailkey(), self.bump('inl'))
        results = self.explore(run, tag)
        return self.merge_results(results, n0)

    def bump(self, k):
        n = self.st.counts.get(k, 0) + 1
        self.st.counts[k] = n
        return n

    def merge_results(self, results, n0):
        """adopt the outcomes of an exploration: exceptional ones fork, normal ones are merged"""
        if not results:
            raise PathDone()
        npc = len(self.st.pc)
        normal = [(s, o) for s, o in results if o[0] == 'norm']
        other = [(s, o) for s, o in results if o[0] != 'norm']
        if len(results) == 1:
            s, o = results[0]
            self.adopt(s)
            return self.outcome(o)

        def guard(s):
            ds = s.dec[n0:]
            return z3.And(ds) if len(ds) > 1 else (ds[0] if ds else TRUE)
        for s, o in other:
            if self.branch(guard(s)):
                self.adopt(s)
                return self.outcome(o)
        if not normal:
            raise PathDone()
        if len(normal) == 1:
            self.adopt(normal[0][0])
            return self.outcome(normal[0][1])
        try:
            return self.merge_normal(normal, guard, npc)
        except Unsupported:
            for s, o in normal[:-1]:
                if self.branch(guard(s)):
                    self.adopt(s)
                    return self.outcome(o)
            self.adopt(normal[-1][0])
            return self.outcome(normal[-1][1])

    def outcome(self, o):
        if o[0] == 'norm':
            return o[1]
        if o[0] == 'ret':
            raise CppReturn(o[1])
        if o[0] == 'throw':
            raise o[1]
        if o[0] == 'brk':
            raise CppBreak()
        raise CppContinue()

    def adopt(self, s):
        st = s.copy()
        # facts of this path, keep counters monotone
        st.ncell = max(st.ncell, self.st.ncell)
        st.nfresh = max(st.nfresh, self.st.nfresh)
        st.counts = dict(self.st.counts)
        self.st = st

    def merge_normal(self, normal, guard, npc):
        base = self.st
        s0, o0 = normal[-1]
        store = dict(s0.store)
        ret = o0[1]
        gs = [guard(s) for s, _ in normal]
        for (s, o), g in zip(reversed(normal[:-1]), reversed(gs[:-1])):
            r = o[1]
            if not (ret is None and r is None):
                if isinstance(ret, LV) or isinstance(r, LV):
                    if not (isinstance(ret, LV) and isinstance(r, LV) and ret.same(r)):
                        raise Unsupported('merge of references')
                else:
                    ret = vite(g, r, ret)
            for c in base.store:
                a, b = s.store.get(c), store.get(c)
                if a is b:
                    continue
                if a is None or b is None:
                    continue
                store[c] = vite(g, a, b)
            for c in s.store:
                if c not in store:
                    store[c] = s.store[c]
        st = base.copy()
        st.store = store
        st.env = dict(base.env)
        st.ncell = max(s.ncell for s, _ in normal)
        st.nfresh = max(s.nfresh for s, _ in normal)
        st.pc = list(base.pc)
        facts = []
        for (s, o), g in zip(normal, gs):
            extra = [f for f in s.pc[npc:]]
            dl = set(f.get_id() for f in s.dec)
            ex = []
            for f in extra:
                if f.get_id() not in dl:
                    ex.append(f)
            for f in ex:
                facts.append(f if z3.is_true(g) else z3.Implies(g, f))
        self.st = st
        self.assume(z3.Or(gs))
        for f in facts:
            self.assume(f)
        return ret

    def bind_params(self, fn, args):
        for p, a in zip(fn['params'], args):
            t = self.T(p['t'])
            if t['k'] == 'ref':
                if not isinstance(a, LV):
                    a = self.newcell(a, 'tmp')
                self.st.env[p['id']] = a
            else:
                v = self.val(a)
                lv = self.newcell(v, p['name'] or 'p')
                self.set_shape(lv, self.prog.shape(p['t']))
                self.st.env[p['id']] = lv

    def run_body(self, fn, this, args):
        """execute the body; returns the value (or LV for reference results)"""
        saved_env = dict(self.st.env)
        saved_this = self.st.env.get('this')
        self.stack.append(fn['key'])
        loc = self.curloc
        try:
            self.bind_params(fn, args)
            self.st.env['this'] = this
            if 'inits' in fn:
                self.run_inits(fn, this)
            try:
                self.stmt(fn['body'])
                r = None
            except CppReturn as e:
                r = e.val
        finally:
            self.stack.pop()
            self.curloc = loc
            env = dict(saved_env)
            self.st.env = env
        return r

    def run_inits(self, fn, this):
        for i in fn['inits']:
            if 'field' in i:
                lv = this.f(i['field'])
                ft = self.T(i['ft'])
                if ft['k'] == 'ref':
                    x = self.expr(i['e'])
                    self.st.store[this.cell] = self._upd(self.st.store[this.cell], this.path + (('f', i['field']),), Ptr(x))
                    continue
                v = self.rvalue(i['e'])
                self.write(lv, v)
            elif 'delegate' in i:
                v = self.rvalue(i['e'])
                self.write(this, v)
            else:
                raise Unsupported('base class initialiser')

    def blank(self, t):
        """object of class type before its constructor ran"""
        x = self.T(t)
        if x['k'] == 'record' and 'fields' in x:
            fs = {}
            for f in x['fields']:
                fs[f['name']] = self.blank(f['type'])
            return Struct(x['name'], fs, self.prog.shape(t))
        if x['k'] == 'array':
            return lit_seq([Uninit()] * x['n'], self.prog.shape(x['to']))
        return Uninit()

    def construct(self, f, t, args, node=None):
        """value of a constructor call"""
        if 'key' in f and not (f.get('implicit')):
            lv = self.newcell(self.blank(t), 'obj')
            self.call(f, lv, args)
            return self.read(lv)
        if f.get('ctor') in ('copy', 'move') and f.get('implicit'):
            return self.val(args[0])
        if f.get('ctor') == 'default':
            return self.default_init(t)
        raise Unsupported('constructor %s' % f['q'])

    def default_init(self, t):
        x = self.T(t)
        if x['k'] == 'record' and 'fields' in x:
            fs = {}
            for fl in x['fields']:
                if fl.get('init') is not None:
                    fs[fl['name']] = self.rvalue(fl['init'])
                else:
                    fs[fl['name']] = self.default_init(fl['type'])
            return Struct(x['name'], fs, self.prog.shape(t))
        if x['k'] in ('int', 'bool', 'float'):
            return self.fresh(self.prog.shape(t), 'uninit')
        if x['k'] == 'array':
            es = self.prog.shape(x['to'])
            return self.fresh(('arr', es, x['n']), 'uninit')
        if x['k'] == 'record':
            from . import stdmodel
            return stdmodel.default_value(self, t)
        return Uninit()

    def zero_init(self, t):
        x = self.T(t)
        if x['k'] == 'int':
            return I(0)
        if x['k'] == 'bool':
            return FALSE
        if x['k'] == 'float':
            return dlit(0.0)
        if x['k'] in ('ptr', 'nullptr'):
            return NULL
        if x['k'] == 'void':
            return None
        if x['k'] == 'array':
            return self.seq_fill(I(x['n']), self.zero_init(x['to']), self.prog.shape(x['to']))
        if x['k'] == 'record':
            return self.default_init(t)
        raise Unsupported('zero init of %s' % x['s'])

    def zero_of_shape(self, s):
        k = s[0]
        if k == 'int':
            return I(0)
        if k == 'bool':
            return FALSE
        if k == 'D':
            return dlit(0.0)
        if k == 'seq':
            return lit_seq([], s[1])
        if k == 'arr':
            return self.seq_fill(I(s[2]), self.zero_of_shape(s[1]), s[1])
        if k == 'set':
            return SetV(lambda v: FALSE, s[1])
        if k == 'map':
            vs = s[2]
            return MapV(lambda v: FALSE, lambda v: self.zero_of_shape(vs), s[1], vs)
        if k == 'struct':
            return Struct(s[1], {n: self.zero_of_shape(fs) for n, fs in s[2]}, s)
        raise Unsupported('zero of %s' % (s,))

    def seq_fill(self, n, v, es=None):
        if is_num(n) and num(n) <= 64:
            return lit_seq([v] * num(n), es)
        self.alloc(n, es)
        return Seq(n, lambda k: v, es)

    def alloc(self, n, es):
        """an array of n elements came into existence: it is smaller than the address space"""
        if es is None or is_num(n):
            return
        self.assumed.add('memory allocation succeeds (requests beyond the address space are not considered)')
        self.assume(n <= (2 ** 63 - 1) // max(1, V.shape_size(es)))

    # ------------------------------------------------------------ contracts
    def apply_contract(self, c, fn, this, args):
        from .contract import CallCtx
        self.used_contracts.add((c.id, fn['key']))
        # bind references
        a2 = []
        for p, a in zip(fn['params'], args):
            t = self.T(p['t'])
            if t['k'] == 'ref':
                if not isinstance(a, LV):
                    a = self.newcell(a, 'tmp')
                a2.append(a)
            else:
                a2.append(self.val(a))
        cc = CallCtx(self, fn, this, a2, 'call')
        if self.rlog is not None:
            for a in a2 + [this]:
                if isinstance(a, LV):
                    self.access('r', a.cell, a.path)
        c.spec(cc)
        for f, label in cc.reqs:
            self.prove(f, 'precondition', '%s: %s' % (fn['q'], label))
        for f, label, ty in cc.throws:
            if self.branch(f):
                for lv, fnv in cc.throw_posts:
                    self.write(lv, fnv)
                for lv in cc.throw_havoc + cc.havoc:
                    self.havoc_lv(lv)
                raise CppThrow(ty, None, 'contract %s: %s' % (c.id, label))
        for lv, v in cc.posts:
            self.write(lv, v)
        for lv in cc.havoc:
            self.havoc_lv(lv)
        for f in cc.facts:
            self.assume(f)
        return cc.retval

    def havoc_lv(self, lv):
        """lv holds an arbitrary value of its type"""
        v = self.peek(lv)
        if isinstance(v, Opaque) and v.kind == 'stream':
            self.write(lv, v.set(pos=self.fresh(('int', 63, False), 'pos'), tk=self.fresh(('int', 63, False), 'tk'), gc=self.fresh(('int', 63, False), 'gc'), fail=self.fresh(('bool',), 'fail'), eof=self.fresh(('bool',), 'eof')))
        elif isinstance(v, z3.ExprRef):
            self.write(lv, self.fresh(('D',) if v.sort() == D else ('bool',) if z3.is_bool(v) else ('int', 63, False), 'h'))
        else:
            s = getattr(v, 'shape', None)
            if s is None and isinstance(v, Seq) and v.es is not None:
                s = ('seq', v.es)
            if s is None:
                raise Unsupported('havoc of %r' % type(v))
            self.write(lv, self.fresh(s, 'h'))

    # ------------------------------------------------------------ expressions
    def rvalue(self, e):
        v = self.expr(e)
        if isinstance(v, LV):
            return self.read(v)
        return v

    def expr(self, e):
        if e is None:
            return None
        l = e.get('l')
        if l:
            self.curloc = l
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (e.get('what') or e['k'], l))
        return m(e)

    def e_int(self, e):
        v = int(e['v'])
        if self.T(e['t'])['k'] == 'bool':
            return TRUE if v else FALSE
        return I(v)

    def e_bool(self, e):
        return TRUE if e['v'] else FALSE

    def e_float(self, e):
        return dlit(float(e['v']))

    def e_str(self, e):
        v = lit_seq([I(x) for x in e['v']] + [I(0)], ('int', 8, True))
        return self.newcell(v, 'strlit')

    def e_null(self, e):
        return NULL

    def e_opaque(self, e):
        return Opaque('opaque')

    def e_zeroinit(self, e):
        return self.zero_init(e['t'])

    def e_mat(self, e):
        v = self.expr(e['e'])
        if isinstance(v, LV):
            return v
        return self.newcell(v, 'tmp')

    def e_this(self, e):
        t = self.st.env.get('this')
        if t is None:
            raise Unsupported('this')
        return Ptr(t)

    def e_ref(self, e):
        if 'global' in e:
            return self.global_lv(e)
        x = self.st.env.get(e['id'])
        if x is None:
            raise Unsupported('variable %s not in scope' % e['name'])
        return x

    def global_lv(self, e):
        name = e['global']
        c = 'G:' + name
        if c in self.st.store:
            return LV(c)
        g = self.prog.globals.get(name)
        t = self.T(g['t'])
        if g.get('init') is not None and g.get('const'):
            q = self.quiet
            v = self.rvalue(g['init'])
            self.st.store[c] = v
            return LV(c)
        from . import stdmodel
        v = stdmodel.global_value(self, name, g)
        if v is None:
            raise Unsupported('global variable %s' % name)
        self.st.store[c] = v
        self.globals0[c] = v
        return LV(c)

    def e_member(self, e):
        b = self.expr(e['base'])
        if e['arrow']:
            if isinstance(b, LV):
                b = self.read(b)
            if isinstance(b, Iter):
                raise Unsupported('-> on map iterator')
            if isinstance(b, Opaque) and b.kind == 'kv':
                return b['key'] if e['f'] == 'first' else b['lv'].i(b['key'])
            if not isinstance(b, Ptr):
                raise Unsupported('-> on %r' % type(b))
            b = b.target()
        if isinstance(b, LV):
            lv = b.f(e['f'])
            # reference member: stored as Ptr
            try:
                v = self.peek(lv)
            except Exception:
                v = None
            if isinstance(v, Ptr) and self.is_ref_field(e):
                return v.target()
            return lv
        if isinstance(b, Struct):
            return b.f[e['f']]
        if isinstance(b, Opaque) and b.kind == 'kv':
            return b['key'] if e['f'] == 'first' else b['lv'].i(b['key'])
        raise Unsupported('member of %r' % type(b))

    def is_ref_field(self, e):
        bt = self.T(e['base']['t'])
        if e['arrow']:
            bt = self.T(bt['to'])
        for f in bt.get('fields', []):
            if f['name'] == e['f']:
                return self.T(f['type'])['k'] == 'ref'
        return False

    def e_index(self, e):
        b = self.expr(e['base'])
        i = self.rvalue(e['i'])
        if isinstance(b, LV):
            b = self.read(b)
        if isinstance(b, Ptr):
            if b.idx is None:
                if is_num(i) and num(i) == 0:
                    return b.lv
                raise Unsupported('indexing a single object')
            return b.lv.i(self.addi(b.idx, i))
        raise Unsupported('subscript on %r' % type(b))

    def addi(self, a, b):
        if is_num(a) and is_num(b):
            return I(num(a) + num(b))
        if is_num(b) and num(b) == 0:
            return a
        if is_num(a) and num(a) == 0:
            return b
        return z3.simplify(a + b)

    def e_initlist(self, e):
        t = self.T(e['t'])
        if t['k'] == 'array':
            vals = [self.rvalue(x) for x in e['a']]
            while len(vals) < t['n']:
                vals.append(self.zero_init(t['to']))
            return lit_seq(vals, self.prog.shape(t['to']))
        if t['k'] == 'record' and 'fields' in t:
            fs = {}
            for f, x in zip(t['fields'], e['a']):
                fs[f['name']] = self.rvalue(x)
            return Struct(t['name'], fs, self.prog.shape(e['t']))
        if t['k'] in ('int', 'bool', 'float', 'ptr'):
            return self.rvalue(e['a'][0]) if e['a'] else self.zero_init(e['t'])
        if t['k'] == 'record' and t['name'] in ('std::hash', 'std::less', 'std::equal_to'):
            return Opaque('functor')
        if t['k'] == 'record' and not e['a']:
            return self.default_init(e['t'])
        raise Unsupported('initialiser list for %s' % t['s'])

    def e_stdinit(self, e):
        vals = [self.rvalue(x) for x in e['a']]
        t = self.T(e['t'])
        return lit_seq(vals, self.prog.shape(t['targs'][0]) if t.get('targs') else None)

    def e_lambda(self, e):
        key = e.get('key')
        if e.get('generic'):
            if len(e.get('insts') or []) != 1:
                raise Unsupported('generic lambda with several instantiations')
            key = e['insts'][0]['key']
        caps = {}
        for c in e['caps']:
            if c.get('this'):
                caps['this'] = ('ref', self.st.env['this'])
            elif c.get('other'):
                raise Unsupported('capture')
            elif c.get('ic') is not None:
                caps[c['id']] = ('val', self.rvalue(c['ic']))
            elif c['ref']:
                caps[c['id']] = ('ref', self.st.env[c['id']])
            else:
                caps[c['id']] = ('val', self.read(self.st.env[c['id']]))
        return Closure(key, caps, e.get('f'))

    def e_throw(self, e):
        if e.get('e') is None:
            raise Unsupported('rethrow')
        loc = self.curloc
        v = self.rvalue(e['e'])
        ty = self.T(e['e']['t'])['s']
        raise CppThrow(ty, v, 'line %s' % loc)

    def e_cond(self, e):
        c = e['c']
        b = e['b']
        # assert(): cond ? void : __assert_fail
        if b['k'] == 'call' and b.get('f', {}).get('q') == '__assert_fail':
            f = self.rvalue(c)
            f = self.tobool(f)
            self.curloc = e.get('l', self.curloc)
            self.prove(f, 'assert', 'assertion')
            return None
        f = self.tobool(self.rvalue(c))
        d = self.decide(f)
        if d is not None:
            return self.expr(e['a'] if d else e['b'])
        if e.get('lv'):
            return self.expr(e['a'] if self.branch(f) else e['b'])
        n0 = len(self.st.dec)

        def run():
            return self.rvalue(e['a'] if self.branch(f) else e['b'])
        res = self.explore(run, ('cond', self.trailkey(), self.bump('cond')))
        return self.merge_results(res, n0)

    def tobool(self, v):
        if isinstance(v, z3.ExprRef):
            if z3.is_bool(v):
                return v
            if z3.is_int(v):
                return v != 0
        if isinstance(v, Null):
            return FALSE
        if isinstance(v, Ptr):
            return TRUE
        raise Unsupported('condition of type %r' % type(v))

    def e_un(self, e):
        op = e['op']
        if op == '&':
            inner = e['e']
            while inner.get('k') in ('paren', 'cast', 'icast') and isinstance(inner.get('e'), dict):
                inner = inner['e']
            self.addr_node = inner
            v = self.expr(e['e'])
            if not isinstance(v, LV):
                raise Unsupported('address of rvalue')
            if v.path and v.path[-1][0] == 'i':
                return Ptr(LV(v.cell, v.path[:-1]), v.path[-1][1])
            return Ptr(v)
        if op == '*':
            v = self.rvalue(e['e'])
            if isinstance(v, Ptr):
                if v.et is not None and v.et[0] == 'view':
                    from . import streams
                    return streams.view(self, v, I(1)).at(I(0))
                return v.target()
            if isinstance(v, Closure):
                return v
            raise Unsupported('dereference of %r' % type(v))
        if op == '!':
            b = self.tobool(self.rvalue(e['e']))
            return FALSE if z3.is_true(b) else TRUE if z3.is_false(b) else z3.Not(b)
        if op in ('++', '--'):
            lv = self.expr(e['e'])
            old = self.read(lv)
            new = self.incr(old, 1 if op == '++' else -1, e['t'])
            self.write(lv, new)
            if e.get('post'):
                return old
            return lv if e.get('lv') else new
        v = self.rvalue(e['e'])
        t = self.T(e['t'])
        if op == '-':
            if t['k'] == 'float':
                return self.fneg(v)
            return self.arith('-', I(0), v, e['t'])
        if op == '+':
            return v
        if op == '~':
            if t['signed']:
                return z3.simplify(-v - 1)
            return self.wrap(I(2 ** t['bits'] - 1) - v, e['t'])
        if op == '__extension__':
            return v
        raise Unsupported('unary %s' % op)

    def fneg(self, v):
        for bits, c in list(V._lits.items()):
            if c.eq(v):
                import struct
                return dlit(-struct.unpack('<d', struct.pack('<Q', bits))[0])
        return f_neg(v)

    def incr(self, old, d, t):
        if isinstance(old, Ptr):
            if old.idx is None or old.byte is not None or old.et is not None and old.et[0] in ('view', 'bytesof'):
                raise Unsupported('pointer arithmetic on single object')
            return Ptr(old.lv, self.addi(old.idx, I(d)), old.byte, old.et)
        if isinstance(old, z3.ExprRef) and z3.is_int(old):
            return self.arith('+' if d > 0 else '-', old, I(1), t)
        if isinstance(old, z3.ExprRef) and old.sort() == D:
            return f_add(old, dlit(1.0)) if d > 0 else f_sub(old, dlit(1.0))
        raise Unsupported('increment of %r' % type(old))

    # arithmetic --------------------------------------------------------
    def wrap(self, r, t):
        ty = self.T(t)
        lo, hi = int_range(('int', ty['bits'], ty['signed']))
        s = z3.simplify(r)
        if is_num(s):
            n = num(s)
            m = 2 ** ty['bits']
            n %= m
            if ty['signed'] and n > hi:
                n -= m
            return I(n)
        if self.valid(z3.And(s >= lo, s <= hi), 200 if any(n.startswith(('bv', 'shl')) for n in syms(s)) else 2000):
            return s
        if ty['signed']:
            m = 2 ** ty['bits']
            return z3.simplify((s - lo) % m + lo)
        return s % (2 ** ty['bits'])

    def arith(self, op, a, b, t):
        ty = self.T(t)
        if ty['k'] == 'bool':
            ty = {'k': 'int', 'bits': 32, 'signed': True}
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b)
        if ty['k'] == 'float':
            r = self.farith(op, a, b)
            if ty['bits'] == 32:
                r = f_d2f(r)
            return r
        if z3.is_bool(a):
            a = zite(a, I(1), I(0))
        if z3.is_bool(b):
            b = zite(b, I(1), I(0))
        if op in '+-*':
            if op == '*' and not is_num(z3.simplify(a)) and not is_num(z3.simplify(b)):
                self.mulfacts(a, b)
            r = a + b if op == '+' else a - b if op == '-' else a * b
            if ty['signed']:
                lo, hi = int_range(('int', ty['bits'], True))
                s = z3.simplify(r)
                if not is_num(s):
                    self.prove(z3.And(s >= lo, s <= hi), 'overflow', 'no signed overflow')
                elif not (lo <= num(s) <= hi):
                    self.prove(FALSE, 'overflow', 'no signed overflow')
                return s
            return self.wrap(r, t)
        if op in '/%':
            if is_num(b) and num(b) != 0 and not ty['signed']:
                return z3.simplify(a / b if op == '/' else a % b)
            self.prove(b != 0, 'div-by-zero', 'divisor is not zero')
            if not ty['signed'] or (self.valid(a >= 0) and self.valid(b > 0)):
                if is_num(a) and is_num(b):
                    return I(num(a) // num(b)) if op == '/' else I(num(a) % num(b))
                if not is_num(z3.simplify(b)):
                    self.assume(z3.Implies(b > 0, z3.And((a / b) * b <= a, a < (a / b) * b + b)))
                    self.mulfacts(a / b, b)
                return a / b if op == '/' else a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            if is_num(z3.simplify(q)):
                q = z3.simplify(q)
            return q if op == '/' else a - b * q
        if op in ('<<', '>>'):
            if is_num(b):
                k = 2 ** num(b)
                if op == '<<':
                    return self.shl(a, num(b), t)
                if is_num(a):
                    return I(num(a) >> num(b))
                return z3.simplify(a / k)
            raise Unsupported('variable shift')
        if op in ('&', '|', '^'):
            if is_num(a) and is_num(b):
                x, y = num(a), num(b)
                return I(x & y if op == '&' else x | y if op == '|' else x ^ y)
            f = Fn({'&': 'bvand', '|': 'bvor', '^': 'bvxor'}[op] + str(ty['bits']), INT, INT, INT)
            if f.name() not in V.FACTS:
                x, y = z3.Ints('bx by')
                lo, hi = int_range(('int', ty['bits'], ty['signed']))
                add_fact(f.name(), z3.ForAll([x, y], z3.And(f(x, y) == f(y, x), f(x, y) >= lo, f(x, y) <= hi), patterns=[f(x, y)]))
            return f(a, b)
        raise Unsupported('operator %s' % op)

    def cbound(self, t, depth=0, seen=()):
        """a constant that is probably an upper bound of a term (only a hint)"""
        if is_num(t):
            return num(t)
        if depth > 6 or any(t.eq(u) for u in seen):
            return None
        sub = lambda u: self.cbound(u, depth + 1, seen + (t,))
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            a, b = sub(t.arg(1)), sub(t.arg(2))
            return None if a is None or b is None else max(a, b)
        if k == z3.Z3_OP_ADD:
            r = 0
            for c in t.children():
                if z3.is_mul(c) and is_num(c.arg(0)) and num(c.arg(0)) < 0:
                    continue
                v = sub(c)
                if v is None:
                    return None
                r += v
            return r
        if k == z3.Z3_OP_MUL:
            r = 1
            for c in t.children():
                v = sub(c)
                if v is None or v < 0:
                    return None
                r *= v
            return r
        if k == z3.Z3_OP_MOD and is_num(t.arg(1)):
            return num(t.arg(1)) - 1
        best = None
        if k == z3.Z3_OP_IDIV:
            best = sub(t.arg(0))
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name()
            for w, hi in (('u8', 255), ('u16', 65535), ('u32', 2 ** 32), ('u64', 2 ** 64)):
                if nm.endswith(':' + w):
                    best = hi
            for neg, fk, l, r in [q for f in self.st.pc for q in comparisons(f)]:
                up = None
                if fk == z3.Z3_OP_EQ and not neg:
                    up = r if l.eq(t) else l if r.eq(t) else None
                elif fk in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                    up = (l if r.eq(t) else None) if neg else (r if l.eq(t) else None)
                elif fk in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                    up = (r if l.eq(t) else None) if neg else (l if r.eq(t) else None)
                if up is not None:
                    v = sub(up)
                    if v is not None and (best is None or v < best):
                        best = v
        return best

    def mulfacts(self, a, b):
        """valid facts about products, so that the solver can treat monomials as opaque"""
        a, b = z3.simplify(a), z3.simplify(b)
        self.assume(z3.Implies(z3.And(a >= 0, b >= 0), a * b >= 0))
        A, B = self.cbound(a), self.cbound(b)
        if A is not None and B is not None and 0 <= A * B < 2 ** 70:
            self.assume(z3.Implies(z3.And(a >= 0, b >= 0, a <= A, b <= B), z3.And(a * b >= 0, a * b <= A * B)))
        for p, q in list(self.products):
            for u, v in ((a, b), (b, a)):
                for r, s in ((p, q), (q, p)):
                    if v.eq(s) and not u.eq(r):
                        self.assume(mono(u, r, v))
                        self.assume(mono(r, u, v))
        if not any(p.eq(a) and q.eq(b) for p, q in self.products):
            self.products.append((a, b))

    def shl(self, a, k, t):
        ty = self.T(t)
        s = z3.simplify(a * (2 ** k))
        lo, hi = int_range(('int', ty['bits'], ty['signed']))
        if is_num(s):
            return self.wrap(s, t)
        if k == 0:
            return a
        # keep hash-like shifts opaque but well defined
        f = Fn('shl%d_%d' % (ty['bits'], k), INT, INT)
        if f.name() not in V.FACTS:
            x = z3.Int('bx')
            add_fact(f.name(), z3.ForAll([x], z3.And(f(x) >= lo, f(x) <= hi, z3.Implies(z3.And(x * (2 ** k) <= hi, x >= 0), f(x) == x * (2 ** k))), patterns=[f(x)]))
        return f(a)

    def farith(self, op, a, b):
        f = {'+': f_add, '-': f_sub, '*': f_mul, '/': f_div}.get(op)
        if f is None:
            raise Unsupported('floating %s' % op)
        la, lb = self.litval(a), self.litval(b)
        if la is not None and lb is not None:
            try:
                r = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}[op](la, lb)
                return dlit(r)
            except ZeroDivisionError:
                pass
        if op in '+*' and str(a) > str(b) and (z3.is_const(a) and z3.is_const(b)):
            a, b = b, a
        return f(a, b)

    def litval(self, a):
        n = a.decl().name() if z3.is_const(a) else ''
        if n.startswith('dlit_'):
            import struct
            return struct.unpack('<d', struct.pack('<Q', int(n[5:], 16)))[0]
        return None

    def ptr_arith(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == '-' and a.lv.same(b.lv) and a.idx is not None and b.idx is not None and all(p.byte is None and (p.et is None or p.et[0] == 'byte') for p in (a, b)):
                return z3.simplify(a.idx - b.idx)
            raise Unsupported('pointer difference')
        if isinstance(b, Ptr):
            a, b = b, a
        if a.idx is None or a.byte is not None:
            if a.byte is not None:
                nb = self.addi(a.byte, b if op == '+' else -b)
                return Ptr(a.lv, a.idx, nb, a.et)
            if a.idx is None:
                raise Unsupported('pointer arithmetic on single object')
        if a.et is not None and a.et[0] == 'view':
            b = z3.simplify(b * V.shape_size(self.prog.shape(a.et[1])))
        return Ptr(a.lv, self.addi(a.idx, b) if op == '+' else z3.simplify(a.idx - b), None, a.et)

    def compare(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.lv.same(b.lv) and (a.idx is None) == (b.idx is None) and a.byte is None and b.byte is None:
                if a.idx is None:
                    r = TRUE
                    return r if op in ('==', '<=', '>=') else FALSE
                return {'==': a.idx == b.idx, '!=': a.idx != b.idx, '<': a.idx < b.idx, '<=': a.idx <= b.idx, '>': a.idx > b.idx, '>=': a.idx >= b.idx}[op]
            if a.lv.cell != b.lv.cell:
                if op == '==':
                    return FALSE
                if op == '!=':
                    return TRUE
            raise Unsupported('comparison of unrelated pointers')
        if isinstance(a, Null) or isinstance(b, Null):
            same = isinstance(a, Null) and isinstance(b, Null)
            if op == '==':
                return TRUE if same else FALSE
            if op == '!=':
                return FALSE if same else TRUE
            raise Unsupported('null comparison')
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.iter_compare(op, a, b)
        if a.sort() == D:
            if op == '==':
                return feq(a, b)
            if op == '!=':
                return z3.Not(feq(a, b))
            if op == '<':
                return flt(a, b)
            if op == '>':
                return flt(b, a)
            if op == '<=':
                return fle(a, b)
            return fle(b, a)
        if z3.is_bool(a) and not z3.is_bool(b):
            a = zite(a, I(1), I(0))
        if z3.is_bool(b) and not z3.is_bool(a):
            b = zite(b, I(1), I(0))
        if z3.is_bool(a):
            if op == '==':
                return a == b
            if op == '!=':
                return a != b
            a = zite(a, I(1), I(0))
            b = zite(b, I(1), I(0))
        if is_num(a) and is_num(b):
            x, y = num(a), num(b)
            return TRUE if {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op] else FALSE
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()

    def iter_compare(self, op, a, b):
        # iterators into associative containers: only comparison with end()
        if isinstance(a, Iter) and isinstance(b, Iter):
            if z3.is_false(b.found):
                r = z3.Not(a.found)
            elif z3.is_false(a.found):
                r = z3.Not(b.found)
            else:
                raise Unsupported('iterator comparison')
            if op == '==':
                return r
            if op == '!=':
                return z3.Not(r)
        raise Unsupported('iterator comparison')

    def e_bin(self, e):
        op = e['op']
        if op == ',':
            self.expr(e['a'])
            return self.expr(e['b'])
        if op == '=':
            v = self.rvalue(e['b'])
            lv = self.expr(e['a'])
            if not isinstance(lv, LV):
                raise Unsupported('assignment to rvalue')
            self.write(lv, v)
            return lv
        if op in ('&&', '||'):
            a = self.tobool(self.rvalue(e['a']))
            d = self.decide(a)
            if d is not None:
                if op == '&&':
                    return self.tobool(self.rvalue(e['b'])) if d else FALSE
                return TRUE if d else self.tobool(self.rvalue(e['b']))
            n0 = len(self.st.dec)

            def run():
                if self.branch(a):
                    return self.tobool(self.rvalue(e['b'])) if op == '&&' else TRUE
                return FALSE if op == '&&' else self.tobool(self.rvalue(e['b']))
            if self.simple(e['b']):
                # evaluate the right operand under the assumption
                m = len(self.st.pc)
                self.st.pc.append(a if op == '&&' else z3.Not(a))
                b = self.tobool(self.rvalue(e['b']))
                extra = self.st.pc[m + 1:]
                del self.st.pc[m:]
                g = a if op == '&&' else z3.Not(a)
                for f in extra:
                    self.assume(z3.Implies(g, f))
                return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            res = self.explore(run, ('sc', self.trailkey(), self.bump('sc')))
            return self.merge_results(res, n0)
        a = self.rvalue(e['a'])
        b = self.rvalue(e['b'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        return self.arith(op, a, b, e['t'])

    def simple(self, e):
        """expression whose evaluation has no side effect and cannot fork"""
        if not isinstance(e, dict):
            return True
        k = e['k']
        if k in ('int', 'bool', 'float', 'ref', 'null', 'this', 'str'):
            return True
        if k == 'member':
            return self.simple(e['base'])
        if k == 'cast':
            return self.simple(e['e'])
        if k == 'un':
            return e['op'] in ('!', '-', '*', '&', '+') and self.simple(e['e'])
        if k == 'bin':
            return e['op'] not in ('=',) and self.simple(e['a']) and self.simple(e['b'])
        if k == 'index':
            return self.simple(e['base']) and self.simple(e['i'])
        if k in ('mcall', 'opcall') and 'key' not in e.get('f', {'key': 1}):
            return e['f']['q'] in ('std::vector::size', 'std::vector::operator[]', 'std::vector::empty', 'std::basic_string::size', 'std::basic_string::operator[]', 'std::basic_string::empty', 'std::operator==') and all(self.simple(a) for a in e['args']) and self.simple(e.get('obj'))
        return False

    def e_opassign(self, e):
        b = self.rvalue(e['b'])
        lv = self.expr(e['a'])
        a = self.read(lv)
        if isinstance(a, Ptr):
            r = self.ptr_arith(e['op'], a, b)
        else:
            at = e['a']['t']
            a2 = self.convert(a, at, e['ct'])
            r = self.arith(e['op'], a2, b, e['rt'])
            r = self.convert(r, e['rt'], at)
        self.write(lv, r)
        return lv

    def convert(self, v, ft, tt):
        f, t = self.T(self.prog.deref(ft)), self.T(self.prog.deref(tt))
        if ft == tt:
            return v
        if not isinstance(v, z3.ExprRef):
            return v
        if t['k'] == 'bool':
            if z3.is_bool(v):
                return v
            if v.sort() == D:
                return z3.Not(feq(v, dlit(0.0)))
            if is_num(v):
                return TRUE if num(v) else FALSE
            return v != 0
        if t['k'] == 'int':
            if z3.is_bool(v):
                return zite(v, I(1), I(0))
            if v.sort() == D:
                return self.d2i(v, t)
            lo, hi = int_range(('int', t['bits'], t['signed']))
            if f['k'] == 'int':
                flo, fhi = int_range(('int', f['bits'], f['signed']))
                if flo >= lo and fhi <= hi:
                    return v
            elif f['k'] == 'bool':
                return v
            return self.wrap(v, tt)
        if t['k'] == 'float':
            if z3.is_bool(v):
                return z3.If(v, dlit(1.0), dlit(0.0))
            if z3.is_int(v):
                if is_num(v) and abs(num(v)) <= 2 ** 53:
                    r = dlit(float(num(v)))
                else:
                    r = f_i2d(v)
                return f_d2f(r) if t['bits'] == 32 and not self.exact_f32(v) else r
            if t['bits'] == 32 and f.get('bits') == 64:
                lv = self.litval(v)
                if lv is not None:
                    import struct
                    return dlit(struct.unpack('<f', struct.pack('<f', lv))[0])
                return f_d2f(v)
            return v
        return v

    def exact_f32(self, v):
        return is_num(v) and abs(num(v)) <= 2 ** 24

    def d2i(self, v, t):
        lit = self.litval(v)
        bits, signed = t['bits'], t['signed']
        lo, hi = int_range(('int', bits, signed))
        if lit is not None and lit == lit and abs(lit) < 1e300 and lo <= int(lit) <= hi:
            return I(int(lit))
        f = Fn('cvt_%s%d' % ('s' if signed else 'u', bits), D, INT)
        if f.name() not in V.FACTS:
            x = z3.Const('cx', D)
            add_fact(f.name(), z3.ForAll([x], z3.And(f(x) >= lo, f(x) <= hi, z3.Implies(z3.And(z3.Not(f_nan(x)), f_d2i(x) >= lo, f_d2i(x) <= hi), f(x) == f_d2i(x))), patterns=[f(x)]))
        if self.cfg.get('check_fcvt'):
            self.prove(z3.And(z3.Not(f_nan(v)), f_d2i(v) >= lo, f_d2i(v) <= hi), 'overflow', 'floating value representable in the integer type')
        return f(v)

    def e_cast(self, e):
        ck = e['ck']
        if ck in ('LValueToRValue',):
            v = self.expr(e['e'])
            return self.read(v) if isinstance(v, LV) else v
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast'):
            if ck == 'LValueBitCast':
                raise Unsupported('lvalue reinterpretation')
            return self.expr(e['e'])
        if ck == 'FunctionToPointerDecay' or ck == 'BuiltinFnToFnPtr':
            return self.expr(e['e'])
        if ck == 'ArrayToPointerDecay':
            v = self.expr(e['e'])
            if not isinstance(v, LV):
                v = self.newcell(v, 'arr')
            return Ptr(v, I(0))
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.expr(e['e'])
            return None
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingToBoolean', 'FloatingCast', 'BooleanToSignedIntegral'):
            v = self.rvalue(e['e'])
            return self.convert(v, e['e']['t'], e['t'])
        if ck == 'PointerToBoolean':
            return self.tobool(self.rvalue(e['e']))
        if ck == 'BitCast':
            v = self.rvalue(e['e'])
            if isinstance(v, Null):
                return v
            if isinstance(v, Ptr):
                src = self.T(self.T(e['e']['t'])['to'])
                dst = self.T(self.T(e['t'])['to'])
                if dst['k'] == 'void' or src['s'] == dst['s']:
                    return v
                if dst['k'] == 'int' and dst['bits'] == 8:
                    if src['k'] == 'int' and src['bits'] == 8:
                        # char <-> unsigned char view of a byte sequence
                        return Ptr(v.lv, v.idx, v.byte, ('byte', dst['signed'], src['signed']))
                    return Ptr(v.lv, v.idx, I(0), ('bytesof', self.T(e['e']['t'])['to']))
                seq = self.peek(v.lv) if v.idx is not None else None
                if not (isinstance(seq, Seq) and seq.es and seq.es[0] == 'int' and seq.es[1] == 8 and v.byte is None and v.et is None):
                    raise Unsupported('pointer cast to %s' % dst['s'])
                # objects in a sequence of bytes
                return Ptr(v.lv, v.idx, None, ('view', self.T(e['t'])['to'], self.T(e['e']['t'])['to']))
            raise Unsupported('reinterpret_cast of %r' % type(v))
        raise Unsupported('cast %s' % ck)

    def e_ctor(self, e):
        f = e['f']
        if e.get('list') and False:
            pass
        args = [self.expr(a) for a in e['args']]
        if 'key' in f and not f.get('implicit'):
            return self.construct(f, e['t'], args)
        if f.get('ctor') in ('copy', 'move') and (f.get('implicit') or True) and len(args) == 1 and 'key' not in f:
            t = self.T(e['t'])
            v = self.val(args[0])
            if t['k'] == 'record' and t.get('mine'):
                return v
            if isinstance(v, (Seq, Struct, SetV, MapV, FnV, Closure, Ptr, Iter)):
                if f.get('ctor') == 'move' and isinstance(args[0], LV) and isinstance(v, Seq):
                    self.write(args[0], lit_seq([], v.es))
                return v
        t = self.T(e['t'])
        if t.get('mine') or (t['k'] == 'record' and 'fields' in t):
            return self.construct(f, e['t'], args)
        from . import stdmodel
        return stdmodel.construct(self, e, f, args)

    # calls ---------------------------------------------------------------
    def e_call(self, e):
        if 'f' not in e:
            fe = self.rvalue(e['fe'])
            args = [self.expr(a) for a in e['args']]
            return self.call_value(fe, args)
        f = e['f']
        args = [self.expr(a) for a in e['args']]
        self.curloc = e.get('l', self.curloc)
        if 'key' in f:
            return self.call(f, None, args)
        from . import stdmodel
        return stdmodel.call(self, f, None, args, e)

    def e_fref(self, e):
        if 'key' in e['f']:
            return Closure(e['f']['key'], {}, e['f'])
        return Opaque('stdfn', q=e['f']['q'], f=e['f'])

    def e_mcall(self, e):
        f = e['f']
        obj = self.expr(e['obj'])
        if e.get('arrow'):
            if isinstance(obj, LV):
                obj = self.read(obj)
            if isinstance(obj, Ptr):
                obj = obj.target()
            else:
                raise Unsupported('method call through %r' % type(obj))
        args = [self.expr(a) for a in e['args']]
        self.curloc = e.get('l', self.curloc)
        if 'key' in f:
            if not isinstance(obj, LV):
                obj = self.newcell(obj, 'tmp')
            return self.call(f, obj, args)
        if f.get('implicit') and f.get('asg'):
            v = self.val(args[0])
            self.write(obj, v)
            return obj
        from . import stdmodel
        return stdmodel.call(self, f, obj, args, e)

    def e_opcall(self, e):
        if 'f' not in e:
            raise Unsupported('operator call')
        f = e['f']
        args = [self.expr(a) for a in e['args']]
        self.curloc = e.get('l', self.curloc)
        if 'cls' in f and not f.get('static'):
            obj, rest = args[0], args[1:]
            cls = self.T(f['cls'])
            if cls.get('lambda'):
                return self.call_value(obj, rest)
            if 'key' in f:
                if not isinstance(obj, LV):
                    obj = self.newcell(obj, 'tmp')
                return self.call(f, obj, rest)
            if f.get('asg') and (f.get('implicit')) and cls.get('mine'):
                v = self.val(rest[0])
                self.write(obj, v)
                return obj
            from . import stdmodel
            return stdmodel.call(self, f, obj, rest, e)
        if 'key' in f:
            return self.call(f, None, args)
        from . import stdmodel
        return stdmodel.call(self, f, None, args, e)

    def call_value(self, fv, args):
        """call a callable value (closure, std::function); fv may be an LV"""
        lv = fv if isinstance(fv, LV) else None
        v = self.val(fv)
        if isinstance(v, FnV):
            alts = v.alts
            if len(alts) == 1:
                v = alts[0][1]
            else:
                for c, x in alts[:-1]:
                    if self.branch(c):
                        v = x
                        break
                else:
                    v = alts[-1][1]
                lv = None
        if isinstance(v, Closure):
            fn = self.prog.functions.get(v.key)
            if fn is None:
                raise Unsupported('lambda body not available')
            ctr = self.find_contract(fn)
            if ctr is not None and not v.caps:
                return self.apply_contract(ctr, fn, None, args)
            return self.call_closure(v, fn, args, lv)
        if isinstance(v, Opaque) and v.kind == 'stdfn':
            from . import stdmodel
            return stdmodel.call(self, v['f'], None, args, None)
        if isinstance(v, Opaque) and v.kind == 'fn':
            h = self.cfg.get('opaque_fn')
            if h:
                return h(self, v, args)
        if isinstance(v, Opaque) and v.kind == 'pyfn':
            return v['fn'](self, args)
        raise Unsupported('call of %r' % type(v))

    def call_closure(self, c, fn, args, lv=None):
        n0 = len(self.st.dec)

        def run():
            saved = dict(self.st.env)
            self.stack.append(fn['key'])
            if self.stack.count(fn['key']) > 2:
                raise Unsupported('recursive closure')
            cells = {}
            try:
                for vid, (kind, x) in c.caps.items():
                    if kind == 'ref':
                        self.st.env[vid] = x
                    else:
                        cells[vid] = self.newcell(x, 'cap')
                        self.st.env[vid] = cells[vid]
                self.bind_params(fn, args)
                try:
                    self.stmt(fn['body'])
                    r = None
                except CppReturn as e:
                    r = e.val
                # persist mutable captured state
                if lv is not None and cells:
                    nc = dict(c.caps)
                    changed = False
                    for vid, cl in cells.items():
                        x = self.st.store[cl.cell]
                        if x is not c.caps[vid][1]:
                            nc[vid] = ('val', x)
                            changed = True
                    if changed:
                        self.write(lv, Closure(c.key, nc, c.f))
            finally:
                self.stack.pop()
                self.st.env = saved
            return r
        res = self.explore(run, ('clo', fn['key'], self.trailkey(), self.bump('clo')))
        return self.merge_results(res, n0)

    def e_typeid(self, e):
        return Opaque('typeid', ty=e.get('ty'))

    def e_binding(self, e):
        return self.expr(e['e'])

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (s.get('what') or s['k'], s.get('l')))
        if s.get('l'):
            self.curloc = s['l']
        m(s)

    def s_null(self, s):
        pass

    def s_block(self, s):
        b = s['b']
        small = [x for x in b if small_if(x)] if len(b) >= 4 else ()
        if len(small) < 4:
            small = ()
        for x in b:
            if x in small:
                self.merged_if(x)
            else:
                self.stmt(x)

    def merged_if(self, s):
        """a guarded assignment: both outcomes are joined before the next statement"""
        n0 = len(self.st.dec)
        res = self.explore(lambda: self.stmt(s), ('if', self.trailkey(), self.bump('if')))
        self.merge_results(res, n0)

    def s_expr(self, s):
        self.expr(s['e'])

    def s_decl(self, s):
        for d in s['d']:
            self.declare(d)

    def declare(self, d):
        t = self.T(d['t'])
        if d.get('static'):
            raise Unsupported('static local variable')
        if t['k'] == 'ref':
            v = self.expr(d['init'])
            if isinstance(v, Opaque) and v.kind == 'kv':
                raise Unsupported('reference to a map entry')
            if not isinstance(v, LV):
                v = self.newcell(v, d['name'])
            self.st.env[d['id']] = v
            self.bind_names(d, v)
            return
        if 'init' in d and d['init'] is not None:
            v = self.rvalue(d['init'])
            if v is None:
                raise Unsupported('initialiser of %s' % d['name'])
        else:
            v = self.default_init(d['t'])
        if t['k'] == 'int' and t.get('const') is not False and not self.st.ctx and isinstance(v, z3.ExprRef) and opaque_arith(v):
            # a complicated value gets a name, so that the solver sees small terms
            self.st.nfresh += 1
            nv = Fn('let~%d' % self.st.nfresh, INT)()
            self.assume(nv == v)
            if any(p.eq(v) or q.eq(v) for p, q in self.products):
                for p, q in list(self.products):
                    self.mulfacts(nv if p.eq(v) else p, nv if q.eq(v) else q)
                    self.assume(v * q == nv * q)
            v = nv
        lv = self.own_cell(v) or self.newcell(v, d['name'])
        self.set_shape(lv, self.prog.shape(d['t']))
        self.st.env[d['id']] = lv
        self.bind_names(d, lv)

    def own_cell(self, v):
        """the cell in which an object was constructed that holds a pointer to a part of itself"""
        def ptrs(u):
            if isinstance(u, Ptr):
                yield u.lv.cell
            elif isinstance(u, Struct):
                for f in u.f.values():
                    yield from ptrs(f)
        for c in ptrs(v):
            if self.st.store.get(c) is v:
                return LV(c)
        return None

    def bind_names(self, d, lv):
        for i, b in enumerate(d.get('bindings') or []):
            if b.get('hold') is not None:
                self.st.env[b['hold']] = lv.f('first' if i == 0 else 'second')

    def declare_loopvar(self, d, e, isref):
        if isref:
            self.st.env[d['id']] = e
        else:
            v = self.read(e)
            e = self.newcell(v, d['name'])
            self.set_shape(e, self.prog.shape(self.prog.deref(d['t'])))
            self.st.env[d['id']] = e
        self.bind_names(d, e)

    def s_if(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.stmt(s['cv'])
        c = self.tobool(self.rvalue(s['c']))
        d = self.decide(c)
        if d is not None:
            self.stmt(s['a'] if d else s.get('b'))
            return
        if self.branch(c):
            self.stmt(s['a'])
        else:
            self.stmt(s.get('b'))

    def s_return(self, s):
        if 'e' not in s:
            raise CppReturn(None)
        fn = self.prog.functions.get(self.stack[-1]) if self.stack else None
        v = self.expr(s['e'])
        rt = self.T(fn['ret']) if fn else None
        if rt is not None and rt['k'] == 'ref':
            raise CppReturn(v)
        if isinstance(v, LV):
            v = self.read(v)
        raise CppReturn(v)

    def s_break(self, s):
        raise CppBreak()

    def s_continue(self, s):
        raise CppContinue()

    def s_for(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        self.loop(s, (lambda: self.tobool(self.rvalue(s['c']))) if s.get('c') else (lambda: TRUE),
                  lambda: self.stmt(s['b']),
                  (lambda: self.expr(s['inc'])) if s.get('inc') else (lambda: None))

    def s_while(self, s):
        def cond():
            if s.get('cv'):
                self.stmt(s['cv'])
            return self.tobool(self.rvalue(s['c']))
        self.loop(s, cond, lambda: self.stmt(s['b']), lambda: None)

    def s_do(self, s):
        # first iteration is executed before the loop head
        def body():
            self.stmt(s['b'])
        h = self.cfg.get('do_first', True)
        try:
            body()
        except CppContinue:
            pass
        except CppBreak:
            return
        self.loop(s, lambda: self.tobool(self.rvalue(s['c'])), body, lambda: None)

    def s_rfor(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        r = self.expr(s['range'])
        if not isinstance(r, LV):
            r = self.newcell(r, 'range')
        v = self.peek(r)
        if isinstance(v, (SetV, MapV)):
            from . import stdmodel
            return stdmodel.rfor_assoc(self, s, r, v)
        if not isinstance(v, Seq):
            raise Unsupported('range-for over %r' % type(v))
        d = s['var']
        idx = self.newcell(I(0), 'rfor')
        self.set_shape(idx, ('int', 64, True))
        n = v.n
        isref = self.T(d['t'])['k'] == 'ref'

        def cond():
            return self.compare('<', self.read(idx), n)

        def body():
            k = self.read(idx)
            e = r.i(k)
            self.declare_loopvar(d, e, isref)
            self.stmt(s['b'])

        def inc():
            self.write(idx, self.addi(self.read(idx), I(1)))
        self.loop(s, cond, body, inc)

    def s_switch(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.stmt(s['cv'])
        v = self.rvalue(s['c'])
        if z3.is_bool(v):
            v = zite(v, I(1), I(0))
        body = s['b']
        stmts = body['b'] if body['k'] == 'block' else [body]
        flat_ = []     # (kind, value, stmt)

        def add(x):
            if x is None:
                return
            if x['k'] == 'case':
                if x.get('range'):
                    flat_.append(('caser', (int(x['cv']), int(x['cv2']))))
                else:
                    flat_.append(('case', int(x['cv'])))
                add(x['b'])
            elif x['k'] == 'default':
                flat_.append(('default', None))
                add(x['b'])
            else:
                flat_.append(('stmt', x))
        for x in stmts:
            add(x)
        start = None
        dflt = None
        for i, x in enumerate(flat_):
            if x[0] == 'default':
                dflt = i
        # group consecutive labels
        i = 0
        while i < len(flat_) and start is None:
            if flat_[i][0] in ('case', 'caser', 'default'):
                j = i
                cs = []
                while j < len(flat_) and flat_[j][0] != 'stmt':
                    if flat_[j][0] == 'case':
                        cs.append(v == flat_[j][1])
                    elif flat_[j][0] == 'caser':
                        cs.append(z3.And(v >= flat_[j][1][0], v <= flat_[j][1][1]))
                    j += 1
                if cs and self.branch(z3.Or(cs) if len(cs) > 1 else cs[0]):
                    start = j
                    break
                i = j
            else:
                i += 1
        if start is None:
            if dflt is None:
                return
            start = dflt
        try:
            for x in flat_[start:]:
                if x[0] == 'stmt':
                    self.stmt(x[1])
        except CppBreak:
            pass

    def s_try(self, s):
        env = dict(self.st.env)
        try:
            self.stmt(s['b'])
        except CppThrow as t:
            for h in s['h']:
                if 'var' not in h or self.catches(h, t):
                    self.st.env = env
                    if 'var' in h:
                        self.st.env[h['var']['id']] = self.newcell(t.val if t.val is not None else Opaque('exception', ty=t.ty), 'exc')
                    self.stmt(h['b'])
                    return
            raise

    EXC = {'std::runtime_error': ('std::exception',), 'std::logic_error': ('std::exception',), 'std::invalid_argument': ('std::logic_error', 'std::exception'),
           'std::out_of_range': ('std::logic_error', 'std::exception'), 'std::bad_alloc': ('std::exception',), 'std::length_error': ('std::logic_error', 'std::exception'),
           'std::exception': ()}

    def catches(self, h, t):
        ct = self.T(h['t'])['s'].replace('class ', '').replace('struct ', '').replace('const ', '').strip()
        ty = t.ty.replace('class ', '').replace('struct ', '').strip()
        if ct == ty or ct in self.EXC.get(ty, ()):
            return True
        if ty not in self.EXC:
            raise Unsupported('catch of %s' % ty)
        return False

    def s_omp(self, s):
        from . import loops
        loops.omp(self, s)

    def loop(self, node, cond, body, inc):
        from . import loops
        loops.loop(self, node, cond, body, inc)
