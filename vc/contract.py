"""Function contracts: declaration, use at call sites, verification of bodies."""
import time
import z3
from .values import *
from .engine import Exec, State, CppThrow, Obl
from . import solver

REGISTRY = {}      # qname -> [Contract]
BY_ID = {}


class Contract:
    def __init__(self, q, spec, params=None, nparams=None, tu=None, cls=None, trusted=None, name=None, weak_throw=False, setup=None, props=(), cfg=None, retq=None, when=None):
        self.q = q
        self.when = when           # condition on the program, for functions that several programs have (main)
        self.spec = spec
        self.params = params       # list of substrings of canonical parameter type names, or None
        self.nparams = nparams
        self.cls = cls
        self.trusted = trusted     # reason when the body is not verified (assumed contract)
        self.name = name
        self.weak_throw = weak_throw
        self.setup = setup
        self.props = props
        self.cfg = cfg or {}
        self.id = name or q

    def matches(self, prog, fn):
        if fn['q'] != self.q:
            return False
        if self.when is not None and not self.when(prog):
            return False
        if self.cls != 'lambda' and 'cls' in fn and prog.types[fn['cls']].get('lambda'):
            return False
        if self.nparams is not None and len(fn['params']) != self.nparams:
            return False
        if self.params is not None:
            if len(fn['params']) != len(self.params):
                return False
            for p, want in zip(fn['params'], self.params):
                if want is not None and want not in prog.types[p['t']]['s'] and want not in prog.tname(p['t']):
                    return False
        return True


def contract(q, **kw):
    def deco(f):
        c = Contract(q, f, **kw)
        REGISTRY.setdefault(q, []).append(c)
        BY_ID.setdefault(c.id, []).append(c)
        return f
    return deco


class CallCtx:
    """what a contract's spec function sees"""

    def __init__(self, x, fn, this, args, mode):
        self.x = x
        self.fn = fn
        self.mode = mode
        self.this_lv = this
        self.args = args
        self.reqs = []
        self.throws = []
        self.throw_posts = []
        self.posts = []
        self.facts = []
        self.rels = []        # (label, fn(ret, post) -> formula) relational postconditions (verify mode)
        self.retval = None
        self.exits = []       # fn(result): proves what holds of the state at every normal exit
        self.fnspec = None
        self.has_ret = False
        self.havoc = []
        self.throw_havoc = []
        self.pre = dict(x.st.store)

    # access
    @property
    def this(self):
        return self.x.peek(self.this_lv)

    def arg(self, i):
        a = self.args[i]
        return self.x.peek(a) if isinstance(a, LV) else a

    def lv(self, i):
        return self.args[i]

    def nargs(self):
        return len(self.args)

    def ptype(self, i):
        return self.x.prog.types[self.fn['params'][i]['t']]

    def shape(self, t):
        return self.x.shape(t)

    def retshape(self):
        return self.x.shape(self.fn['ret'])

    # clauses
    def require(self, f, label='precondition'):
        self.reqs.append((f, label))

    def throw_if(self, f, label='error', ty='std::runtime_error'):
        self.throws.append((f, label, ty))

    def post(self, lv, v):
        self.posts.append((lv, v))

    def ret(self, v):
        self.has_ret = True
        self.retval = v

    def havoc_on_throw(self, lv):
        """the value of lv is unspecified when the function throws"""
        self.throw_havoc.append(lv)

    def ret_rel(self, shape, rel, hint='r'):
        """relational result: rel(value) -> [(label, formula)]"""
        self.has_ret = True
        if self.mode == 'call':
            v = self.x.fresh(shape, hint)
            self.retval = v
            self.x.st.store['g:rel:' + self.fn['q']] = v
            for _, f in rel(v):
                self.facts.append(f)
        else:
            self.rels.append(('ret', None, rel))

    def witness(self, q):
        """the value that a relational callee returned on this path (a ghost variable)"""
        return self.x.st.store.get('g:rel:' + q)

    def post_rel(self, lv, shape, rel, hint='m'):
        if self.mode == 'call':
            v = self.x.fresh(shape, hint)
            self.posts.append((lv, v))
            for _, f in rel(v):
                self.facts.append(f)
        else:
            self.rels.append(('post', lv, rel))

    def template(self, t):
        if self.mode == 'verify' or not self.x.own_templates:
            self.x.templates.append(t)

    def ret_fn(self, argshapes, spec):
        """the result is a function object: spec(arguments) -> (throws, value, {field: condition under which it is free})"""
        self.has_ret = True
        self.fnspec = (argshapes, spec)
        if self.mode == 'call':
            from .stdmodel import spec_function
            self.retval = spec_function(self.x, spec)


def sym_params(x, fn, ctr, prog):
    """symbolic initial state of a function: parameters and this"""
    args = []
    setup = ctr.setup(x, fn) if ctr.setup else {}
    for i, p in enumerate(fn['params']):
        t = prog.types[p['t']]
        if i in setup:
            args.append(setup[i])
            continue
        if t['k'] == 'ref':
            from . import stdmodel
            v = stdmodel.symbolic_object(x, prog, t['to'], 'arg%d' % i)
            args.append(x.newcell(v, 'arg%d' % i))
        elif t['k'] == 'ptr':
            from . import stdmodel
            args.append(stdmodel.symbolic_pointer(x, prog, p['t'], 'arg%d' % i))
        else:
            from . import stdmodel
            args.append(stdmodel.symbolic_object(x, prog, p['t'], 'arg%d' % i))
    this = setup.get('this')
    if this is None and 'cls' in fn and not fn.get('static') and not prog.types[fn['cls']].get('lambda'):
        if 'inits' in fn:
            this = x.newcell(x.blank(fn['cls']), 'this')
        else:
            this = x.newcell(fresh(prog.shape(fn['cls']), 'this'), 'this')
    return this, args


class Result:
    def __init__(self, fn, ctr):
        self.fn = fn
        self.q = fn['q']
        self.ctr = ctr
        self.obls = []
        self.error = None       # Unsupported reason
        self.time = 0
        self.paths = 0
        self.used_std = set()
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()


def verify(prog, fn, ctr, contracts, cfg=None):
    """check the body of fn against ctr"""
    t0 = time.time()
    r = Result(fn, ctr)
    c2 = dict(cfg or {})
    c2.update(ctr.cfg)
    x = Exec(prog, contracts, c2)
    x.fname = fn['q']
    try:
        this, args = sym_params(x, fn, ctr, prog)
        is_ctor = 'inits' in fn
        # run() binds by-value parameters to fresh cells; the spec sees the initial values
        cc = CallCtx(x, fn, this, args, 'verify')
        ctr.spec(cc)
        for f, _ in cc.reqs:
            x.assume(f)
        for f in cc.facts:
            x.assume(f)
        pre = dict(x.st.store)
        # vacuity: the precondition must be satisfiable as far as the solver can tell
        o = Obl('%s/precondition-satisfiable' % fn['q'], 'vacuity', not solver.valid(x.st.pc, FALSE), fn['line'])
        o.smt = 1
        x.obls[o.name] = o

        def run():
            return x.run_body(fn, this, args)
        res = x.explore(run, ('top',))
        r.paths = len(res)
        from . import loops
        loops.check_races(x)
        T = [f for f, _, _ in cc.throws]
        anythrow = z3.Or(T) if len(T) > 1 else (T[0] if T else FALSE)
        normal = 0
        for st, out in res:
            x.st = st
            if out[0] == 'norm':
                normal += 1
                if T:
                    for f, label, _ in cc.throws:
                        x.prove(z3.Not(f), 'must-throw: %s' % label, 'the function returned although "%s" requires an exception' % label, fn['line'])
                rv = out[1]
                if isinstance(rv, LV) and cc.has_ret and not isinstance(cc.retval, LV):
                    rv = x.peek(rv)
                if cc.fnspec:
                    prove_fn(x, rv, cc.fnspec, fn['line'])
                if cc.has_ret and cc.retval is not None:
                    if isinstance(cc.retval, LV):
                        ok = isinstance(rv, LV) and rv.same(cc.retval)
                        x.prove(TRUE if ok else FALSE, 'result', 'returned reference', fn['line'])
                    else:
                        prove_eq(x, rv, cc.retval, 'result', fn['line'])
                for lv, v in cc.posts:
                    prove_eq(x, x.peek(lv), v, 'post:%s' % lvname(lv), fn['line'])
                for kind, lv, rel in cc.rels:
                    val = rv if kind == 'ret' else x.peek(lv)
                    for label, f in rel(val):
                        x.prove(f, 'ensures:%s' % label, label, fn['line'])
                for e in cc.exits:
                    e(rv)
                mod = [lv for lv, _ in cc.posts] + [lv for k, lv, _ in cc.rels if k == 'post'] + cc.havoc
                frame(x, pre, mod, 'frame', fn, is_ctor, this)
            elif out[0] == 'throw':
                x.prove(anythrow, 'throws-only-if', 'exception %s (%s) outside the specified error conditions' % (out[1].ty, out[1].why), fn['line'])
                if True:
                    frame(x, pre, [lv for lv, _ in cc.throw_posts] + cc.havoc + cc.throw_havoc, 'frame-on-throw', fn, is_ctor, this)
                for lv, v in cc.throw_posts:
                    prove_eq(x, x.peek(lv), v, 'post-on-throw:%s' % lvname(lv), fn['line'])
            else:
                raise Unsupported('break/continue outside loop')
        o = Obl('%s/reachable' % fn['q'], 'vacuity', len(res) > 0, fn['line'])
        o.smt = 1
        x.obls[o.name] = o
    except Unsupported as e:
        r.error = '%s (near line %s)' % (e, x.curloc)
    except RecursionError:
        r.error = 'recursion limit'
    except z3.Z3Exception as e:
        if __import__('os').environ.get('VC_DEBUG'): __import__('traceback').print_exc()
        r.error = 'term construction: %s' % str(e)[:200]
    r.obls = list(x.obls.values())
    r.time = time.time() - t0
    r.used_std = x.used_std
    r.used_contracts = x.used_contracts
    r.inlined = x.inlined
    r.assumed = x.assumed
    return r


def prove_fn(x, f, fnspec, line):
    """calling the returned function object on any arguments does what the specification says"""
    shapes, spec = fnspec
    args = [x.fresh(s, 'fa%d' % i) for i, s in enumerate(shapes)]
    throws, want, free = spec(args)
    cell = x.newcell(f, 'fn')
    saved = (x.st.store, list(x.st.pc), list(x.st.dec), x.st.ctx)
    res = x.explore(lambda: x.call_value(cell, [x.newcell(a, 'arg') for a in args]), ('fn',))
    keep = x.st
    for st, out in res:
        x.st = st
        if out[0] == 'norm':
            x.prove(z3.Not(throws), 'call/must-throw', 'the operation returned although the specification requires an exception', line)
            rv = x.peek(out[1]) if isinstance(out[1], LV) else out[1]
            if isinstance(want, Struct):
                for k in want.f:
                    cond = free.get(k)
                    if cond is None:
                        prove_eq(x, rv.f[k], want.f[k], 'call/result.' + k, line)
                    else:
                        x.prove(z3.Or(cond, veq(rv.f[k], want.f[k])), 'call/result.' + k, 'equals the specified value', line)
            else:
                prove_eq(x, rv, want, 'call/result', line)
        else:
            x.prove(throws, 'call/throws-only-if', 'exception outside the specified error conditions', line)
    x.st = keep


def lvname(lv):
    return lv.cell.split('#')[0] + ''.join('.' + p[1] if p[0] == 'f' else '[]' for p in lv.path)


def prove_eq(x, got, want, label, line):
    """one obligation per component, so a failing obligation names the field that is wrong"""
    if isinstance(got, Uninit):
        x.prove(FALSE, label, 'value never set', line)
        return
    if got is None:
        x.prove(FALSE, label, 'no value', line)
        return
    if isinstance(got, Struct) and isinstance(want, Struct):
        for k in want.f:
            if k not in got.f:
                raise Unsupported('result lacks field %s' % k)
            prove_eq(x, got.f[k], want.f[k], '%s.%s' % (label, k), line)
        return
    if isinstance(got, Seq) and isinstance(want, Seq):
        if not got.n.eq(want.n):
            x.prove(got.n == want.n, label + '.size', 'sizes are equal', line)
        if is_num(want.n) and num(want.n) <= 64:
            for i in range(num(want.n)):
                prove_eq(x, got.at(I(i)), want.at(I(i)), '%s[%d]' % (label, i) if num(want.n) <= 8 else label + '[]', line)
            return
        k = qvar(INT, 'sk')
        saved = list(x.st.pc)
        x.st.pc.append(k >= 0)
        x.st.pc.append(k < want.n)
        prove_eq(x, got.at(k), want.at(k), label + '[]', line)
        x.st.pc = saved
        return
    if isinstance(got, Opaque) and isinstance(want, Opaque) and got.kind == want.kind:
        for k in want.d:
            a, b = got.d[k], want.d[k]
            if a is b:
                continue
            if isinstance(a, (z3.ExprRef, Struct, Seq, Opaque)):
                prove_eq(x, a, b, '%s.%s' % (label, k), line)
            elif hasattr(a, 'prove_eq'):
                a.prove_eq(x, b, '%s.%s' % (label, k), line)
            elif a != b:
                x.prove(FALSE, '%s.%s' % (label, k), 'values differ', line)
        return
    if isinstance(got, SetV) or isinstance(got, MapV):
        x.prove(veq(got, want), label, 'same contents', line)
        return
    if hasattr(got, 'prove_eq') and not isinstance(got, z3.ExprRef):
        got.prove_eq(x, want, label, line)
        return
    x.prove(veq(got, want), label, 'equals the specified value', line)


def frame(x, pre, mod, label, fn, is_ctor, this):
    logs = ('G:std::clog', 'G:std::cerr')      # what is logged is not specified
    for c, v in list(pre.items()) + [(c, v) for c, v in x.globals0.items() if c not in pre]:
        if c in logs or c.startswith('g:') or c.startswith('strlit') or c.startswith('tmp'):
            continue
        now = x.st.store.get(c)
        if now is v or now is None and c.startswith('G:'):
            continue
        ms = [lv for lv in mod if lv.cell == c]
        if any(not lv.path for lv in ms):
            continue
        if is_ctor and this is not None and c == this.cell:
            # every field of a constructed object must be specified or be left to the contract
            continue
        frame_val(x, v, now, [lv.path for lv in ms], label, c.split('#')[0], fn['line'])


def frame_val(x, a, b, paths, label, name, line):
    if a is b or any(not p for p in paths):
        return
    if isinstance(a, Struct) and isinstance(b, Struct):
        for k in a.f:
            frame_val(x, a.f[k], b.f[k], [p[1:] for p in paths if p[0] == ('f', k)], label, name + '.' + k, line)
        return
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind:
        for k in a.d:
            if a.d[k] is not b.d[k]:
                frame_val(x, a.d[k], b.d[k], [p[1:] for p in paths if p[0] == ('f', k)], label, name + '.' + k, line)
        return
    if hasattr(a, 'prove_eq') and not isinstance(a, z3.ExprRef):
        b.prove_eq(x, a, '%s:%s' % (label, name), line)
        return
    if isinstance(a, (int, str, bool, tuple)):
        if a != b:
            x.prove(FALSE, '%s:%s' % (label, name), 'unchanged', line)
        return
    if isinstance(a, Uninit):
        return
    prove_eq(x, b, a, '%s:%s' % (label, name), line)


# ------------------------------------------------------------------ lemmas
LEMMAS = {}


class Lemma:
    """a client program over real functions: they are called (their contracts, or bodies when they
    have none) on symbolic arguments, and facts about the results are proved"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


def lemma(name):
    def deco(f):
        LEMMAS[name] = Lemma(name, f)
        return f
    return deco


class LemmaCtx:
    def __init__(self, x, prog):
        self.x, self.prog, self.k = x, prog, None

    def shape(self, name):
        for i, t in enumerate(self.prog.types):
            if t and t['k'] == 'record' and t.get('name') == name:
                return self.prog.shape(i)
        raise Unsupported('no type %s' % name)

    def fresh(self, shape, hint='a'):
        return self.x.fresh(shape, hint)

    def cell(self, v, hint='c'):
        return self.x.newcell(v, hint)

    def find(self, q, params=None, nparams=None, pick=0):
        c = Contract(q, None, params=params, nparams=nparams)
        fs = [f for f in self.prog.by_q.get(q, []) if c.matches(self.prog, f)]
        if len(fs) <= pick:
            raise Unsupported('function %s not found' % q)
        return fs[pick]

    def call(self, q, args, this=None, params=None, nparams=None, pick=0):
        fn = q if isinstance(q, dict) else self.find(q, params, nparams, pick)
        r = self.x.call({'key': fn['key'], 'q': fn['q']}, this, args)
        return self.x.peek(r) if isinstance(r, LV) else r

    def assume(self, f):
        self.x.assume(f)

    def prove(self, f, label, detail='holds'):
        if z3.is_eq(f) and f.arg(0).sort() == INT:
            f = self.congruent(f, label)
        self.x.prove(f, label, detail, 0)

    def congruent(self, f, label):
        """rewrite an equation by the argument pairs that the solver shows equal (congruence)"""
        x, memo, pairs = self.x, {}, []
        for sp in self.x.specs:
            if sp.kind == 'rec' and not sp.ctx:
                for i in range(len(sp.fs)):
                    f = z3.substitute(f, (sp.h(i, I(0)), sp.init[i]))
                    if self.k is not None:
                        hs = [sp.h(j, self.k) for j in range(len(sp.fs))]
                        f = z3.substitute(f, (sp.h(i, z3.simplify(self.k + 1)), sp.stepf(self.k, hs)[i]))

        def go(s, t):
            if s.eq(t):
                return True
            k = (s.get_id(), t.get_id())
            if k not in memo:
                memo[k] = False
                n = len(pairs)
                same = z3.is_app(s) and z3.is_app(t) and s.num_args() > 0 and s.num_args() == t.num_args() and s.decl().eq(t.decl())
                if same and all([go(s.arg(i), t.arg(i)) for i in range(s.num_args())]):
                    memo[k] = True
                elif s.sort() == INT and solver.valid(x.st.pc, s == t, 2000):
                    del pairs[n:]
                    pairs.append((s, t))
                    memo[k] = True
            return memo[k]
        if not go(f.arg(0), f.arg(1)) or (len(pairs) == 1 and pairs[0][0].eq(f.arg(0))):
            return f
        l = f.arg(0)
        for s, t in pairs:
            x.prove(s == t, label + ': arguments agree', '%s and %s agree' % (str(s)[:60], str(t)[:60]), 0)
            l = z3.substitute(l, (s, t))
        return l == f.arg(1)

    def induct(self, f, n, label):
        """prove f(0), f(k) -> f(k+1) for 0 <= k < n; then f holds for 0..n"""
        x = self.x
        self.prove(f(I(0)), label + ' (base)')
        k = self.fresh(('int', 63, False), 'ind')
        saved = list(x.st.pc)
        x.assume(z3.And(k >= 0, k < n, f(k)))
        for sp in x.specs:
            if sp.kind == 'rec' and not sp.ctx:
                x.assume(sp.step(k))
        self.k = k
        self.prove(f(z3.simplify(k + 1)), label + ' (step)')
        self.k = None
        x.st.pc = saved
        j = z3.Int('j!ind')
        x.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= n), f(j))))
        x.assume(f(n))

    def folds(self, sort=INT):
        return [sp for sp in self.x.specs if sp.kind == 'rec' and len(sp.init) == 1 and not sp.ctx and sp.init[0].sort() == sort]

    def prove_eq(self, got, want, label):
        prove_eq(self.x, got, want, label, 0)


def verify_lemma(prog, lem, contracts, cfg=None):
    t0 = time.time()
    r = Result({'q': 'lemma:' + lem.name, 'line': 0, 'file': '', 'params': []}, None)
    x = Exec(prog, contracts, dict(cfg or {}, folds=True))
    x.fname = 'lemma:' + lem.name
    L = LemmaCtx(x, prog)
    try:
        def run():
            lem.fn(L)
        res = x.explore(run, ('top',))
        r.paths = len(res)
        for st, out in res:
            x.st = st
            if out[0] == 'throw':
                x.prove(FALSE, 'no-exception', 'exception %s (%s)' % (out[1].ty, out[1].why), 0)
        o = Obl('lemma:%s/reachable' % lem.name, 'vacuity', any(o[0] == 'norm' for _, o in res), 0)
        o.smt = 1
        x.obls[o.name] = o
    except Unsupported as e:
        r.error = '%s (near line %s)' % (e, x.curloc)
    except RecursionError:
        r.error = 'recursion limit'
    except z3.Z3Exception as e:
        if __import__('os').environ.get('VC_DEBUG'): __import__('traceback').print_exc()
        r.error = 'term construction: %s' % str(e)[:200]
    r.obls = list(x.obls.values())
    r.time = time.time() - t0
    r.used_std, r.used_contracts, r.inlined, r.assumed = x.used_std, x.used_contracts, x.inlined, x.assumed
    return r
