"""transform.h: apply, the loop that streams the records through the operations"""
from .common import *
from .lib_io import *
from .lib_zio import bad_header
from .apps import AU, TR, pr_shape, txtfun, text2int
from vc.contract import REGISTRY, CallCtx, prove_fn
from vc.engine import CppThrow
from vc.stdmodel import mkstr

U64 = ('int', 64, False)


@contract(AU + 'consume_ints', trusted='the numbers of a list are an unspecified function of the text (consume_int is verified)')
def _(c):
    s = c.arg(0)
    c.throw_if(Not(txtfun('text2int32.ok', s, BOOL)), 'not a number')
    n = txtfun('ints.n', s, INT)
    c.facts.append(And(n >= 1, n <= s.n))
    c.havoc.append(c.lv(0))
    c.ret(Seq(n, lambda k: txtfun('ints.at', s, INT, (k,)), ('int', 32, False)))


def spec_of(c, q, args):
    """what the contract of a function says about a call with these arguments"""
    x = c.x
    fn = x.prog.by_q[q][0]
    ctr = next(k for k in REGISTRY[q] if k.matches(x.prog, fn))
    cc = CallCtx(x, fn, None, [a if isinstance(a, LV) else x.newcell(a, 'tmp') if x.T(p['t'])['k'] == 'ref' else a for p, a in zip(fn['params'], args)], 'call')
    saved = list(x.templates)
    ctr.spec(cc)
    x.templates = saved    # (hints for the loops of that function)
    return cc


# name of the command, the function that makes the operation, the texts its parameters are made of
# (f: field name, d: number, i: integer, l: list of integers), and the arguments of that function
ZERO = dlit(0.0)
TABLE = {
    'copy-field': ('copy_field', 'ff', lambda v, ef, seed: v + [ef]),
    'quantize-xyz': ('quantize', 'd', lambda v, ef, seed: v),
    'replace': ('replace', 'fii', lambda v, ef, seed: v + [ef]),
    'replace-not': ('replace_not', 'fl', lambda v, ef, seed: v + [ef]),
    'set': ('set', 'fd', lambda v, ef, seed: v + [ef]),
}
for _f in DF:
    for _o in ('add', 'scale', 'rotate'):
        TABLE['%s-%s' % (_o, _f)] = ('%s_%s' % (_o, _f), 'd', lambda v, ef, seed: v)
for _o in ('gaussian', 'uniform'):
    TABLE[_o + '-noise'] = (_o + '_noise', 'd', lambda v, ef, seed: [seed, v[0], v[0], v[0]])
    for _i, _f in enumerate(DF):
        TABLE['%s-noise-%s' % (_o, _f)] = (_o + '_noise', 'd', lambda v, ef, seed, i=_i: [seed] + [v[0] if j == i else ZERO for j in range(3)])
PARSE = {'f': 'consume_field_name', 'd': 'consume_double', 'i': 'consume_int', 'l': 'consume_ints'}


def operation(c, name, params, ef, seed):
    """(condition under which the parameters are malformed, contract of the operation)"""
    maker, plan, args = TABLE[name]
    bad, vs, rest = [], [], params
    for p in plan:
        cell = c.x.newcell(rest, 'params')
        cc = spec_of(c, AU + PARSE[p], [cell])
        bad += [f for f, _, _ in cc.throws]
        vs.append(cc.retval)
        rest = cc.posts[0][1] if cc.posts else rest
    cc = spec_of(c, TR + 'get_%s_op' % maker, args(vs, ef, seed))
    return Or(*(bad + [f for f, _, _ in cc.throws])), cc.fnspec[1]


def named(s, lit):
    return veq(s, mkstr(lit))


class Operations:
    """The operations that the commands denote, and what they made of the records.

    H(i, j) is record i after the first j operations: a ghost function, whose value at (i, j + 1) is what
    operation j returned for record i.  It is called there with H(i, j) (an obligation), once."""

    def __init__(self, c, commands, ef, seed, rec):
        self.c, self.x, self.commands, self.ef, self.seed = c, c.x, commands, ef, seed
        self.shape = ('struct', 'operation', (('idx', U64),))
        self.prs = pr_shape(c)
        # malformed command
        self.badp = Fn('command.bad', INT, BOOL)
        self.badf = Fn('command.field', INT, BOOL)
        self.exb = S.ExistsSpec(lambda j: self.badp(j))
        self.exf = S.ExistsSpec(lambda j: self.badf(j))
        c.x.specs += [self.exb, self.exf]
        # records before the first operation
        i, e = z3.Int('rec!i'), z3.Int('rec!e')
        h, r = self.H(i, I(0)), rec(i)
        for f in FIELDS:
            add_fact(h[f].decl().name(), z3.ForAll([i], h[f] == r[f], patterns=[h[f]]))
        add_fact(h['extra'].at(e).decl().name(), z3.ForAll([i, e], Implies(And(e >= 0, e < ef), h['extra'].at(e) == r['extra'].at(e)), patterns=[h['extra'].at(e)]))

    def H(self, i, j):
        r = fresh(self.prs, 'after', (i, j))
        e = r['extra']
        return r.set('extra', Seq(self.ef, e.at, e.es))

    def bad(self, n, k):
        """when command k is malformed and when it names an extra field that there is not, given that its name is n"""
        cmd = self.commands.at(k)
        b, spec = operation(self.c, n, cmd['params'], self.ef, self.seed)
        t = spec([self.H(I(0), I(0))])[0]
        is_n = named(cmd['name'], n)
        return Implies(is_n, self.badp(k) == b), Implies(is_n, self.badf(k) == t)

    def known(self, k):
        """the name of command k on this path; the definitions of badp(k) and badf(k) are assumed for it"""
        x, name = self.x, self.commands.at(k)['name']
        known = set(z3.simplify(f).get_id() for f in x.st.pc)
        parts = {n: z3.simplify(named(name, n)) for n in TABLE}
        for n in sorted(TABLE):
            if all(f.get_id() in known for f in (parts[n].children() if z3.is_and(parts[n]) else [parts[n]])):
                for f in self.bad(n, k):
                    x.assume(f)
                return n
        x.assume(Implies(Not(Or(*[parts[n] for n in sorted(TABLE)])), And(self.badp(k), Not(self.badf(k)))))
        return None

    def at_throw(self):
        if len(self.x.st.ctx) == 1:
            self.known(self.x.st.ctx[0])

    # the vector of operations
    def push(self, seq, fv):
        x = self.x
        if len(x.st.ctx) != 1:
            raise Unsupported('operation added outside the loop over the commands')
        k = x.st.ctx[0]
        cmd = self.commands.at(k)
        n = self.known(k)
        if n is None:
            x.prove(FALSE, 'operation', 'an operation is added for a known command only')
            return Struct('operation', {'idx': k}, self.shape)
        if not x.quiet:
            _, spec = operation(self.c, n, cmd['params'], self.ef, self.seed)
            prove_fn(x, fv, ([self.prs], spec), x.curloc)
        return Struct('operation', {'idx': k}, self.shape)

    def call(self, v, args):
        x = self.x
        if len(x.st.ctx) != 2:
            raise Unsupported('operation applied outside the loops over the records and operations')
        i, j = x.st.ctx
        x.prove(v['idx'] == j, 'order', 'the operations are applied in the order of the commands')
        want = self.H(i, j)
        x.prove(And(*[args[0][f] == want[f] for f in FIELDS] + [veq(args[0]['extra'], want['extra'])]), 'record', 'the operation is applied to what the operations before it made of this record')
        if x.branch(self.badf(j)):
            raise CppThrow('std::runtime_error', None, 'operation')
        return self.H(i, x.addi(j, I(1)))


@contract(TR + 'apply', weak_throw=True)
def _(c):
    s, o, commands, seed = c.arg(0), c.arg(1), c.arg(2), c.arg(3)
    h, conds = bad_header(c, s)
    for f, l in conds:
        c.throw_if(f, l)
    c.throw_if(h['compressed'] != 0, 'a compressed file')
    c.throw_if(Or(s['fail'], s['eof'], o['fail'], o['eof']), 'unusable stream')
    C, n, ef = s['src'], h['total_points'], h['extra_fields']
    P = norm(s['pos'] + hdr_size(C, s['pos']))
    c.x.mulfacts(n, norm(recsize(ef)))
    recs = recs_of(C, P, n, ef)
    ops = Operations(c, commands, ef, seed, recs.at)
    m = commands.n
    c.throw_if(ops.exb.ex(m), 'unknown command or malformed parameters')
    c.throw_if(And(n > 0, ops.exf.ex(m)), 'no such extra field')
    c.throw_if(And(n > 0, P + n * recsize(ef) > C.n), 'input ends before the announced records')
    c.havoc_on_throw(c.lv(0))
    c.havoc_on_throw(c.lv(1))
    c.post(c.lv(0).f('pos'), norm(P + n * recsize(ef)))
    c.havoc.append(c.lv(0).f('gc'))
    out(c, 1, hdr_parts(h) + rep(n, lambda i: rec_parts(ops.H(i, m))))
    if c.mode == 'verify':
        c.x.fnlist = ops
        c.x.at_throw = ops.at_throw
        c.x.ground_branches = c.x.own_templates = True
        pos = (c.lv(0).cell, c.lv(0).path + (('f', 'pos'),))

        def phases(info):
            if info.ctx:
                return [(lambda vals, k: Not(ops.exf.ex(k)), ops.exf)]
            if pos in info.M:
                return [lambda vals, k: Implies(k > 0, Not(ops.exf.ex(m)))]
            return [(lambda vals, k: Not(ops.exb.ex(k)), ops.exb)]
        c.template(phases)

        def record(info):
            # the record in work is the record after the operations so far
            if len(info.ctx) != 1:
                return []
            ls = {}
            for l in info.M:
                if l[1] and l[1][-1][0] == 'f':
                    ls.setdefault((l[0], l[1][:-1]), {})[l[1][-1][1]] = l
            out = []
            for d in ls.values():
                if set(d) >= set(FIELDS):
                    for f in FIELDS:
                        out.append(lambda vals, k, f=f, d=d: vals[d[f]] == ops.H(info.ctx[0], k)[f])
                    if 'extra' in d:
                        out.append(lambda vals, k, d=d: vals[d['extra']].n == ef)
                        out.append(lambda vals, k, d=d: forall(I(0), ef, lambda e: vals[d['extra']].at(e) == ops.H(info.ctx[0], k)['extra'].at(e), lambda e: vals[d['extra']].at(e)))
            return out
        c.template(record)
