"""Streams, byte views of objects, and formatted text.

Output: the sequence of bytes a stream has received is kept as a rope, a list of
  ('s', w, v)        the w bytes of the scalar v (little endian, v an unsigned value or a double)
  ('rep', n, f)      f(0) f(1) ... f(n-1), each a list of parts
  ('txt', kind, v, fmt)  the decimal text of v under the format flags fmt
  ('pad', w, fill, parts) parts padded on the left
  ('ite', c, a, b)   either of two ropes
  ('ph', v)          everything written before
Input: the bytes of a stream are a function byte(t), 0 <= t < n; reads decode
scalars from them, so that decoding the bytes of v gives v."""
import z3
from .values import *
from . import values as V
from .engine import *
from .stdmodel import fn, ctor, OBJECTS, Call, GLOBALS, cstr, mkstr
from . import loops

CH = ('int', 8, True)


# ------------------------------------------------------------------ bytes of scalars
_u2s = Fn('u2s', INT, INT)
_s2u = Fn('s2u', INT, INT)
_b = z3.Int('bv')
add_fact('u2s', z3.ForAll([_b], z3.And(_u2s(_b) >= -128, _u2s(_b) <= 127, z3.Implies(z3.And(_b >= 0, _b <= 127), _u2s(_b) == _b), z3.Implies(z3.And(_b >= 128, _b <= 255), _u2s(_b) == _b - 256)), patterns=[_u2s(_b)]))
add_fact('s2u', z3.ForAll([_b], z3.And(_s2u(_b) >= 0, _s2u(_b) <= 255, z3.Implies(z3.And(_b >= 0, _b <= 127), _s2u(_b) == _b), z3.Implies(z3.And(_b >= -128, _b <= -1), _s2u(_b) == _b + 256)), patterns=[_s2u(_b)]))


def u2s(b):
    """unsigned byte -> signed char"""
    if is_num(b):
        return I(num(b) - 256 if num(b) >= 128 else num(b))
    if z3.is_app(b) and b.decl().eq(_s2u):
        return b.arg(0)
    return _u2s(b)


def s2u(v):
    if is_num(v):
        return I(num(v) % 256)
    if z3.is_app(v) and v.decl().eq(_u2s):
        return v.arg(0)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(v.arg(0), s2u(v.arg(1)), s2u(v.arg(2)))
    return _s2u(v)


def norm(t):
    return t if is_num(t) else z3.simplify(t, som=True)


def mk(kind, w, bs):
    """scalar from its bytes"""
    if kind == 'D':
        f0 = bs[0]
        if z3.is_app(f0) and f0.decl().eq(byteD):
            v = f0.arg(0)
            if all(z3.is_app(b) and b.decl().eq(byteD) and b.arg(0).eq(v) and is_num(b.arg(1)) and num(b.arg(1)) == i for i, b in enumerate(bs)):
                return v
        return mkD(*bs)
    if w == 1:
        return bs[0]
    f0 = bs[0]
    if z3.is_app(f0) and f0.decl().eq(byteI[w]):
        v = f0.arg(0)
        if all(z3.is_app(b) and b.decl().eq(byteI[w]) and b.arg(0).eq(v) and is_num(b.arg(1)) and num(b.arg(1)) == i for i, b in enumerate(bs)):
            return v
    if all(is_num(b) for b in bs):
        return I(sum(num(b) << (8 * i) for i, b in enumerate(bs)))
    return mkI[w](*bs)


def byte_of(kind, w, v, i):
    if kind == 'D':
        if z3.is_app(v) and v.decl().eq(mkD) and is_num(i):
            return v.arg(num(i))
        return byteD(v, i)
    if w == 1:
        return v
    if is_num(v) and is_num(i):
        return I((num(v) >> (8 * num(i))) & 255)
    if z3.is_app(v) and v.decl().eq(mkI[w]) and is_num(i):
        return v.arg(num(i))
    return byteI[w](v, i)


# ------------------------------------------------------------------ ropes
class Misaligned(Exception):
    pass


def rep(n, f):
    """n copies; counts that are known are written out"""
    if is_num(n):
        if num(n) <= 300:
            r = []
            for i in range(num(n)):
                r += f(I(i))
            return r
    return [('rep', n, f)]


class Rope:
    def __init__(self, parts):
        self.p = list(parts)

    def add(self, parts):
        return Rope(self.p + list(parts))

    def subst(self, pairs):
        return Rope(psubst(self.p, pairs))

    def syms(self):
        return psyms(self.p)

    def ite(self, c, o):
        if self is o:
            return self
        a, b = self.p, o.p
        i = 0
        while i < len(a) and i < len(b) and a[i] is b[i]:
            i += 1
        return Rope(a[:i] + pite(c, a[i:], b[i:]))

    def placeholder(self, x, name, ctx):
        return Rope([('ph', Fn(name, *([c.sort() for c in ctx] + [INT]))(*ctx))])

    def detect(self, x, v0, posts, gs, g, K, ctx):
        ph = self.p[0]
        tails = []
        for p in posts:
            if not p.p or p.p[0] is not ph:
                return None
            tails.append(p.p[1:])
        if all(not t for t in tails):
            return loops.Form('const', lambda k: v0)
        E = tails[-1]
        for t, gd in zip(reversed(tails[:-1]), reversed(gs[:-1])):
            E = pite(gd, t, E)
        if ph[1].decl().name() in psyms(E):
            return None

        def at(k):
            if is_num(k) and num(k) == 0:
                return v0
            return v0.add(rep(k, lambda j: psubst(E, [(K, j)])))
        return loops.Form('emit', at)

    def same_as(self, x, s, want, steps):
        try:
            return all(x_valid(list(s.pc) + list(steps) + h, f) for h, f in align(list(s.pc) + list(steps), self.p, want.p))
        except (Misaligned, Unsupported):
            return False

    def prove_eq(self, x, want, label, line):
        try:
            for h, f in align(list(x.st.pc), self.p, want.p):
                saved = list(x.st.pc)
                for q in h:
                    x.st.pc.append(q)
                x.prove(f, label, 'bytes written', line)
                x.st.pc = saved
        except Misaligned as e:
            x.prove(FALSE, label, 'the sequence of bytes written differs from the specified one: %s' % e, line)

    def eqf(self, o):
        if self is o or (len(self.p) == len(o.p) and all(a is b for a, b in zip(self.p, o.p))):
            return TRUE
        raise Unsupported('comparison of output')


def pite(c, a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] is b[i]:
        i += 1
    pre, a, b = a[:i], a[i:], b[i:]
    if not a and not b:
        return pre
    return pre + [('ite', c, a, b)]


def psubst(ps, pairs):
    out = []
    for p in ps:
        k = p[0]
        if k == 's':
            out.append(('s', p[1], z3.substitute(p[2], *pairs)))
        elif k == 'rep':
            f = p[2]

            def g(j, f=f):
                q = qvar(INT, 'r')
                return psubst(psubst(f(q), pairs), [(q, j)])
            out += rep(z3.simplify(z3.substitute(p[1], *pairs)), g)
        elif k == 'txt':
            out.append(('txt', p[1], z3.substitute(p[2], *pairs), tuple(z3.substitute(t, *pairs) for t in p[3])))
        elif k == 'pad':
            out.append(('pad', z3.substitute(p[1], *pairs), z3.substitute(p[2], *pairs), psubst(p[3], pairs)))
        elif k == 'ite':
            c = z3.simplify(z3.substitute(p[1], *pairs))
            if z3.is_true(c):
                out += psubst(p[2], pairs)
            elif z3.is_false(c):
                out += psubst(p[3], pairs)
            else:
                out.append(('ite', c, psubst(p[2], pairs), psubst(p[3], pairs)))
        else:
            out.append((k, z3.substitute(p[1], *pairs)))
    return out


def psyms(ps):
    r = frozenset()
    for p in ps:
        k = p[0]
        if k == 's':
            r |= syms(p[2])
        elif k == 'rep':
            r |= syms(p[1]) | psyms(p[2](Const('vs!k', INT)))
        elif k == 'txt':
            r |= syms(p[2])
            for t in p[3]:
                r |= syms(t)
        elif k == 'pad':
            r |= syms(p[1]) | syms(p[2]) | psyms(p[3])
        elif k == 'ite':
            r |= syms(p[1]) | psyms(p[2]) | psyms(p[3])
        else:
            r |= syms(p[1])
    return r


def show(p):
    def sh(q):
        if q[0] == 's':
            return '%s[%dB]' % (str(q[2]).replace('\n', ' ')[:60], q[1])
        if q[0] == 'rep':
            return 'repeat(%s){%s}' % (str(q[1])[:40], ' '.join(sh(z) for z in q[2](Const('k', INT))[:12]))
        if q[0] == 'ite':
            return 'if(%s){%s}else{%s}' % (str(q[1]).replace('\n', ' ')[:60], ' '.join(map(sh, q[2][:6])), ' '.join(map(sh, q[3][:6])))
        if q[0] == 'txt':
            return 'text(%s)' % str(q[2])[:60]
        return q[0]
    return ' '.join(sh(q) for q in p[:14])


def x_valid(hyps, f):
    return solver.valid(hyps, f, 4000)


def align(pc, a, b, depth=0):
    """[(extra hypotheses, formula)] whose validity makes the two ropes equal"""
    out = []
    a, b = list(a), list(b)
    H = []

    def val(f):
        d = z3.simplify(f)
        if z3.is_true(d):
            return True
        return x_valid(pc + H, f)
    while True:
        # drop empty heads
        if a and b and a[0] is b[0]:
            a.pop(0)
            b.pop(0)
            continue
        for l in (a, b):
            while l and l[0][0] == 'rep' and val(l[0][1] <= 0):
                l.pop(0)
        for l, o in ((a, b), (b, a)):
            if l and l[0][0] == 'ite':
                c, p, q = l[0][1], l[0][2], l[0][3]
                if o and o[0][0] == 'ite' and val(o[0][1] == c):
                    c2, p2, q2 = o[0][1:]
                    la, lb = (l[1:], o[1:]) if l is a else (o[1:], l[1:])
                    r1, r2 = (p, p2) if l is a else (p2, p)
                    s1, s2 = (q, q2) if l is a else (q2, q)
                    try:
                        for h, f in align(pc + H + [c], r1, r2, depth + 1):
                            out.append((H + [c] + h, f))
                        for h, f in align(pc + H + [z3.Not(c)], s1, s2, depth + 1):
                            out.append((H + [z3.Not(c)] + h, f))
                        for h, f in align(pc + H, la, lb, depth + 1):
                            out.append((H + h, f))
                        return out
                    except Misaligned:
                        out = []
                for cc, parts in ((c, p), (z3.Not(c), q)):
                    if solver.valid(pc + H, z3.Not(cc), 1500):
                        continue
                    la = list(parts) + l[1:]
                    x_, y_ = (la, o) if l is a else (o, la)
                    for h, f in align(pc + H + [cc], x_, y_, depth + 1):
                        out.append((H + [cc] + h, f))
                return out
        if not a and not b:
            return out
        if not a or not b:
            raise Misaligned('%s  versus  %s' % (show(a) or '(nothing)', show(b) or '(nothing)'))
        p, q = a[0], b[0]
        if p[0] == 'ph' and q[0] == 'ph':
            out.append((list(H), p[1] == q[1]))
        elif p[0] == 's' and q[0] == 's' and p[1] == q[1] and p[2].sort() == q[2].sort():
            if not p[2].eq(q[2]):
                out.append((list(H), p[2] == q[2]))
        elif p[0] == 's' and q[0] == 's' and p[1] != q[1]:
            # one scalar against several narrower ones
            l, o = (a, b) if p[1] > q[1] else (b, a)
            big = l[0]
            w = big[1]
            kind = 'D' if big[2].sort() == D else 'I'
            l[0:1] = [('s', 1, byte_of(kind, w, big[2], I(i))) for i in range(w)]
            sm = o[0]
            if sm[1] > 1:
                o[0:1] = [('s', 1, byte_of('D' if sm[2].sort() == D else 'I', sm[1], sm[2], I(i))) for i in range(sm[1])]
            continue
        elif p[0] == 'txt' and q[0] == 'txt' and p[1] == q[1] and p[2].sort() == q[2].sort() and len(p[3]) == len(q[3]):
            out.append((list(H), z3.And([p[2] == q[2]] + [s == t for s, t in zip(p[3], q[3])])))
        elif p[0] == 'pad' and q[0] == 'pad':
            out.append((list(H), z3.And(p[1] == q[1], p[2] == q[2])))
            for h, f in align(pc + H, p[3], q[3], depth + 1):
                out.append((H + h, f))
        elif p[0] == 'rep' and q[0] == 'rep':
            n, m = p[1], q[1]
            if n.eq(m) or val(n == m):
                pass
            elif val(m == n + 1):
                b[0:1] = [('rep', n, q[2])] + q[2](n)
                q = b[0]
            elif val(n == m + 1):
                a[0:1] = [('rep', m, p[2])] + p[2](m)
                p = a[0]
            elif val(n >= 1) and val(m >= 1) and len(a) != len(b):
                raise Misaligned('%s  versus  %s' % (show(a), show(b)))
            else:
                out.append((list(H), n == m))
            k = qvar(INT, 'sk')
            hk = [k >= 0, k < p[1]]
            for h, f in align(pc + H + hk, p[2](k), q[2](k), depth + 1):
                out.append((H + hk + h, f))
        elif p[0] == 'rep' or q[0] == 'rep':
            l = a if p[0] == 'rep' else b
            r = l[0]
            if val(r[1] >= 1):
                l[0:1] = r[2](I(0)) + [('rep', z3.simplify(r[1] - 1), lambda j, f=r[2]: f(z3.simplify(j + 1)))]
                continue
            raise Misaligned('%s  versus  %s' % (show(a), show(b)))
        else:
            raise Misaligned('%s  versus  %s' % (show(a), show(b)))
        a.pop(0)
        b.pop(0)


# ------------------------------------------------------------------ byte layout of objects
def record_type(x, name):
    for t in x.prog.types:
        if t.get('k') == 'record' and t.get('name') == name and 'fields' in t:
            return t
    return None


def scalar_info(x, t):
    """(kind, width, signed) of a scalar type"""
    ty = x.T(t)
    if ty['k'] == 'int':
        return ('I', ty['bits'] // 8, ty['signed'])
    if ty['k'] == 'float' and ty['bits'] == 64:
        return ('D', 8, False)
    if ty['k'] == 'bool':
        return ('B', 1, False)
    return None


def divide(n, w):
    """n / w when w divides every coefficient"""
    if w == 1:
        return n
    if is_num(n):
        return I(num(n) // w) if num(n) % w == 0 else None
    s = z3.simplify(n, som=True)
    terms = s.children() if z3.is_add(s) else [s]
    out = []
    for t in terms:
        if is_num(t):
            if num(t) % w:
                return None
            out.append(I(num(t) // w))
        elif z3.is_mul(t) and is_num(t.arg(0)):
            c = num(t.arg(0))
            if c % w:
                return None
            rest = t.children()[1:]
            r = rest[0]
            for y in rest[1:]:
                r = r * y
            out.append(r * I(c // w))
        else:
            return None
    r = out[0]
    for y in out[1:]:
        r = r + y
    return z3.simplify(r)


def regions(x, p, n):
    """the scalars covered by n bytes at pointer p: [('one', lv, kind, w, signed)] or
    [('many', seqlv, start, count, kind, w, signed)]"""
    if isinstance(p, Null):
        x.prove(n == 0, 'null', 'no access through a null pointer')
        return []
    if not isinstance(p, Ptr):
        raise Unsupported('byte access through %r' % type(p))
    lv, idx = p.lv, p.idx
    byte = p.byte if p.byte is not None else I(0)
    target = x.peek(lv)
    if idx is not None and isinstance(target, Seq):
        es = target.es
        if es is None:
            raise Unsupported('bytes of a sequence of unknown type')
        if es[0] in ('int', 'D', 'bool'):
            kind = 'D' if es[0] == 'D' else 'I' if es[0] == 'int' else 'B'
            w = 8 if es[0] == 'D' else es[1] // 8 if es[0] == 'int' else 1
            signed = es[0] == 'int' and es[2]
            cnt = divide(n, w)
            off = divide(byte, w)
            if cnt is None or off is None:
                raise Unsupported('byte access that splits elements')
            return [('many', lv, x.addi(idx, off), cnt, kind, w, signed)]
        if es[0] == 'arr' or es[0] == 'struct':
            return struct_regions(x, lv.i(idx), byte, n)
        raise Unsupported('bytes of a sequence of %s' % (es,))
    if isinstance(target, Seq):
        # pointer to a whole array
        es = target.es
        if es[0] in ('int', 'D'):
            kind, w, signed = ('D', 8, False) if es[0] == 'D' else ('I', es[1] // 8, es[2])
            cnt, off = divide(n, w), divide(byte, w)
            if cnt is None or off is None:
                raise Unsupported('byte access that splits elements')
            return [('many', lv, off, cnt, kind, w, signed)]
        raise Unsupported('bytes of an array')
    if isinstance(target, Struct):
        return struct_regions(x, lv, byte, n)
    # scalar object, possibly a field that is followed by other fields
    if lv.path and lv.path[-1][0] == 'f':
        parent = LV(lv.cell, lv.path[:-1])
        pv = x.peek(parent)
        if isinstance(pv, Struct):
            ty = record_type(x, pv.name)
            off = next((f['off'] for f in ty['fields'] if f['name'] == lv.path[-1][1]), None) if ty else None
            if off is not None:
                return struct_regions(x, parent, x.addi(byte, I(off)), n)
    if is_num(byte) and num(byte) == 0 and is_num(n):
        v = target
        if isinstance(v, z3.ExprRef):
            et = p.et[1] if p.et and p.et[0] == 'bytesof' else None
            si = scalar_info(x, et) if et is not None else ('I', 1, False)
            if num(n) == 0:
                return []
            if num(n) == si[1]:
                return [('one', lv) + si]
    raise Unsupported('byte access of %s bytes' % n)


def struct_regions(x, lv, byte, n):
    if not (is_num(byte) and is_num(n)):
        raise Unsupported('variable byte range inside a structure')
    st = x.peek(lv)
    ty = record_type(x, st.name)
    lo, hi = num(byte), num(byte) + num(n)
    x.prove(TRUE if 0 <= lo and hi <= ty['size'] else FALSE, 'bounds', 'byte range within the object')
    out = []
    cover = 0
    for f in ty['fields']:
        si = scalar_info(x, f['type'])
        size = si[1] if si else x.T(f['type']).get('size', 0)
        t = x.T(f['type'])
        if t['k'] == 'array':
            ei = scalar_info(x, t['to'])
            a, b = max(lo, f['off']), min(hi, f['off'] + ei[1] * t['n'])
            if a < b:
                if (a - f['off']) % ei[1] or (b - a) % ei[1]:
                    raise Unsupported('byte access that splits elements')
                out.append(('many', lv.f(f['name']), I((a - f['off']) // ei[1]), I((b - a) // ei[1])) + ei)
                cover += b - a
            continue
        if si is None:
            if lo < f['off'] + max(size, 1) and f['off'] < hi:
                x.prove(FALSE, 'bounds', 'raw byte access to the non-trivial member %s' % f['name'])
                raise Unsupported('raw byte access to member %s' % f['name'])
            continue
        if lo <= f['off'] and f['off'] + size <= hi:
            out.append(('one', lv.f(f['name'])) + si)
            cover += size
        elif lo < f['off'] + size and f['off'] < hi:
            raise Unsupported('byte access that splits member %s' % f['name'])
    if cover != hi - lo:
        raise Unsupported('byte access that covers padding')
    return out


def enc(kind, w, signed, v):
    """the unsigned value whose bytes represent v"""
    if kind == 'B':
        return zite(v, I(1), I(0))
    if kind == 'I' and signed:
        if w == 1:
            return s2u(v)
        return z3.simplify(z3.If(v >= 0, v, v + 2 ** (8 * w)))
    return v


def dec(kind, w, signed, bs):
    r = mk(kind, w, bs)
    if kind == 'B':
        return r != 0
    if kind == 'I' and signed:
        if w == 1:
            return u2s(r)
        return z3.If(r < 2 ** (8 * w - 1), r, r - 2 ** (8 * w))
    return r


def write_bytes(x, p, n):
    """rope parts for n bytes at p"""
    out = []
    for r in regions(x, p, n):
        if r[0] == 'one':
            _, lv, kind, w, sg = r
            out.append(('s', w, enc(kind, w, sg, x.read(lv))))
        else:
            _, lv, start, cnt, kind, w, sg = r
            s = x.read(lv)
            x.prove(z3.And(start >= 0, cnt >= 0, start + cnt <= s.n), 'bounds', 'bytes read within the object')
            out += rep(cnt, lambda j, s=s, start=start, kind=kind, w=w, sg=sg: [('s', w, enc(kind, w, sg, s.at(x.addi(start, j))))])
    return out


def read_into(x, p, n, byte, count=None):
    """store n bytes byte(0..n-1) at p; with count: only the first count (byte sequences only)"""
    off = I(0)
    for r in regions(x, p, n):
        if r[0] == 'one':
            _, lv, kind, w, sg = r
            x.write(lv, dec(kind, w, sg, [byte(norm(off + i)) for i in range(w)]))
            off = norm(off + w)
        else:
            _, lv, start, cnt, kind, w, sg = r
            s = x.peek(lv)
            x.prove(z3.And(start >= 0, cnt >= 0, start + cnt <= s.n), 'bounds', 'bytes written within the object')
            o = off
            lim = cnt
            if count is not None:
                if w != 1:
                    raise Unsupported('partial read')
                lim = count

            def val(j, o=o, start=start, kind=kind, w=w, sg=sg):
                base = norm(o + (j - start) * w)
                return dec(kind, w, sg, [byte(norm(base + i)) for i in range(w)])
            if is_num(start) and num(start) == 0 and lim.eq(s.n):
                new = Seq(s.n, val, s.es)
            elif is_num(s.n) and num(s.n) <= 16 and is_num(start) and is_num(lim):
                new = lit_seq([val(I(i)) if num(start) <= i < num(start) + num(lim) else s.at(I(i)) for i in range(num(s.n))], s.es)
            else:
                hi = z3.simplify(start + lim)
                new = Seq(s.n, lambda j, s=s, start=start, hi=hi, val=val: vite(simp_cond(z3.And(j >= start, j < hi)), val(j), s.at(j)), s.es)
                new.over = (s, start, hi, val)
            x.write(lv, new)
            off = norm(off + cnt * w)


def havoc_bytes(x, p, n):
    for r in regions(x, p, n):
        if r[0] == 'one':
            _, lv, kind, w, sg = r
            x.write(lv, x.fresh(('D',) if kind == 'D' else ('bool',) if kind == 'B' else ('int', 8 * w, sg), 'junk'))
        else:
            _, lv, start, cnt, kind, w, sg = r
            s = x.peek(lv)
            x.prove(z3.And(start >= 0, cnt >= 0, start + cnt <= s.n), 'bounds', 'bytes written within the object')
            nw = x.fresh(('seq', s.es), 'junk')
            x.write(lv, Seq(s.n, lambda j, s=s, nw=nw, start=start, cnt=cnt: vite(simp_cond(z3.And(j >= start, j < start + cnt)), nw.at(j), s.at(j)), s.es))


def resolve(x, t):
    """drop if-then-else whose condition is decided on this path"""
    n = 0
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and n < 6:
        n += 1
        c = t.arg(0)
        if x.valid(c):
            t = t.arg(1)
        elif x.valid(z3.Not(c)):
            t = t.arg(2)
        else:
            break
    return t


def load_bytes(x, p, n):
    """byte(k) of the n bytes at p (for copies)"""
    rs = regions(x, p, n)
    if len(rs) == 1 and rs[0][0] == 'many':
        _, lv, start, cnt, kind, w, sg = rs[0]
        s = x.read(lv)
        x.prove(z3.And(start >= 0, cnt >= 0, start + cnt <= s.n), 'bounds', 'bytes read within the object')
        while s.over is not None:
            old, lo, hi, val = s.over
            if x.valid(z3.And(start >= lo, start + cnt <= hi), 1500):
                s = Seq(s.n, val, s.es)
            elif x.valid(z3.Or(start + cnt <= lo, start >= hi), 1500):
                s = old
            else:
                break
        res = (lambda v: v) if s.over is not None else (lambda v: resolve(x, v))

        def byte(k):
            if w == 1:
                return enc(kind, w, sg, res(s.at(norm(start + k))))
            if is_num(k) and is_num(start):
                return byte_of(kind, w, enc(kind, w, sg, s.at(I(num(start) + num(k) // w))), I(num(k) % w))
            q, m = divmod_term(k, w)
            return byte_of(kind, w, enc(kind, w, sg, res(s.at(norm(start + q)))), m)
        return byte
    if all(r[0] == 'one' for r in rs):
        bs = []
        for _, lv, kind, w, sg in rs:
            v = enc(kind, w, sg, x.read(lv))
            bs += [byte_of(kind, w, v, I(i)) for i in range(w)]

        def byte(k):
            if not is_num(k):
                raise Unsupported('variable byte of a structure')
            return bs[num(k)]
        return byte
    raise Unsupported('byte copy of a mixed region')


def struct_layout(x, es):
    """[(field, offset, kind, width, signed)] of a structure of scalars without padding, and its size"""
    ty = record_type(x, es[1])
    out, at = [], 0
    for f in (ty['fields'] if ty else []):
        si = scalar_info(x, f['type'])
        if si is None or f['off'] != at:
            raise Unsupported('raw bytes of %s' % es[1])
        out.append((f['name'], at) + si)
        at += si[1]
    if not out or at != ty['size']:
        raise Unsupported('raw bytes of %s' % es[1])
    return out, at


def byte_range(x, a, b):
    """the bytes [a, b) of objects, as a sequence"""
    n = norm(b.byte - a.byte)
    s = x.peek(a.lv)
    es = ('int', 8, False)
    if isinstance(s, Seq) and a.idx is not None and s.es[0] == 'struct' and num_or(a.byte) == 0 and num_or(a.idx) == 0:
        lay, size = struct_layout(x, s.es)
        x.prove(z3.And(n >= 0, n <= s.n * size), 'bounds', 'bytes read within the object')
        return Seq(n, lambda k: struct_byte(s.at(z3.simplify(k / size)), z3.simplify(k % size), lay), es)
    byte = load_bytes(x, a, n)
    if is_num(n):
        return lit_seq([byte(I(k)) for k in range(num(n))], es)
    return Seq(n, byte, es)


def num_or(t):
    return num(t) if is_num(t) else None


def struct_byte(v, m, lay):
    """byte number m of a structure"""
    r = None
    for f, off, kind, w, sg in reversed(lay):
        b = byte_of(kind, w, enc(kind, w, sg, v.f[f]), z3.simplify(m - off))
        r = b if r is None else zite(simp_cond(m < off + w), b, r)
    return r


def view(x, p, n):
    """n objects stored in the byte sequence that p points into"""
    s = x.read(p.lv)
    es = x.prog.shape(p.et[1])
    if es[0] == 'struct':
        lay, size = struct_layout(x, es)
    else:
        lay, size = [(None, 0) + scalar_info(x, p.et[1])], V.shape_size(es)
    x.prove(z3.And(p.idx >= 0, p.idx + n * size <= s.n), 'bounds', 'object within the byte sequence')

    def at(k):
        base = norm(p.idx + k * size)
        fs = {f: dec(kind, w, sg, [s.at(norm(base + off + i)) for i in range(w)]) for f, off, kind, w, sg in lay}
        return fs[None] if None in fs else Struct(es[1], fs, es)
    return Seq(n, at, es)


def divmod_term(k, w):
    """k = w*q + m with constant m"""
    s = z3.simplify(k, som=True)
    terms = s.children() if z3.is_add(s) else [s]
    c = sum(num(t) for t in terms if is_num(t))
    rest = z3.simplify(s - c)
    q = divide(rest, w)
    if q is None:
        raise Unsupported('unaligned byte of an element')
    return z3.simplify(q + c // w), I(c % w)


def is_byteview(p):
    return isinstance(p, Ptr) and (p.byte is not None or (p.et is not None and p.et[0] in ('byte', 'bytesof')))


def byte_copy(x, a, b, out):
    """std::copy of bytes when either side is a byte view"""
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
        return None
    if not (is_byteview(a) or is_byteview(out)):
        return None
    if not a.lv.same(b.lv):
        raise Unsupported('byte range over two objects')
    if a.byte is not None:
        n = norm(b.byte - a.byte)
    else:
        n = norm(b.idx - a.idx)
    src = load_bytes(x, a, n)
    read_into(x, out, n, src)
    if out.byte is not None:
        return Ptr(out.lv, out.idx, norm(out.byte + n), out.et)
    if out.idx is not None:
        return Ptr(out.lv, norm(out.idx + n), None, out.et)
    return out


@fn('memcpy', 'std::memcpy', 'memmove', 'std::memmove')
def c_memcpy(c):
    out, a, n = c.v(0), c.v(1), c.v(2)
    src = load_bytes(c.x, a, n)
    read_into(c.x, out, n, src)
    return out


# ------------------------------------------------------------------ stream objects
class Content:
    """the bytes an input stream delivers"""

    def __init__(self, name, ctx=()):
        self.name = name
        self.ctx = tuple(ctx)      # numbers of the iterations in which it was opened
        b = z3.Int('bt')
        vs = [z3.Int('bc!%d' % i) for i in range(len(self.ctx))]
        g = Fn('byte:' + name, *([INT] * (len(vs) + 2)))
        self.f = (lambda t: g(*self.ctx, t)) if vs else g
        add_fact('byte:' + name, z3.ForAll(vs + [b], z3.And(g(*vs, b) >= 0, g(*vs, b) <= 255), patterns=[g(*vs, b)]))
        self.n = fresh(('int', 63, False), 'len:' + name, self.ctx)

    def byte(self, t):
        return self.f(norm(t))

    # whitespace separated text
    def tok(self, kind, t):
        if self.ctx:
            raise Unsupported('text extraction from a file opened in a loop')
        return Fn('tok%s:%s' % (kind, self.name), INT, D if kind == 'D' else INT)(t)

    def tok_ok(self, kind, t):
        return Fn('tokok%s:%s' % (kind, self.name), INT, BOOL)(t)

    def tok_last(self, t):
        """extracting token t hits the end of the input"""
        return Fn('toklast:%s' % self.name, INT, BOOL)(t)


FMT0 = dict(prec=I(6), fixed=FALSE, balpha=FALSE, width=I(0), fill=I(32))
IN0 = dict(pos=I(0), tk=I(0), gc=I(0))


def ostream_value(x, out=None, **kw):
    d = dict(FMT0)
    d.update(IN0)
    d.update(out=out or Rope([]), src=None, fail=FALSE, eof=FALSE)
    d.update(kw)
    return Opaque('stream', **d)


def sym_stream(x, name, t):
    """a stream passed by the caller: arbitrary earlier output, arbitrary position, arbitrary format state"""
    src = Content(name)
    pos = fresh(('int', 63, False), name + '.pos')
    fail, eof = fresh(('bool',), name + '.fail'), fresh(('bool',), name + '.eof')
    x.assume(pos <= src.n)
    return Opaque('stream', out=Rope([('ph', Fn('out:' + name, INT)())]), src=src, pos=pos, tk=fresh(('int', 63, False), name + '.tk'),
                  gc=fresh(('int', 63, False), name + '.gc'), fail=fail, eof=eof, prec=fresh(('int', 31, False), name + '.prec'), fixed=fresh(('bool',), name + '.fixed'),
                  balpha=fresh(('bool',), name + '.balpha'), width=I(0), fill=fresh(CH, name + '.fill'))


SNAMES = ['basic_ostream', 'basic_istream', 'basic_iostream', 'basic_stringstream', 'basic_ostringstream', 'basic_istringstream', 'basic_ifstream', 'basic_ofstream', 'basic_fstream']
for _n in SNAMES:
    OBJECTS['std::' + _n] = sym_stream


def _std_stream(x, name, g):
    return sym_stream(x, name, None)


for _n in ('std::cout', 'std::cerr', 'std::clog', 'std::cin'):
    GLOBALS[_n] = _std_stream


def stream(c):
    o = c.obj
    if o is None:
        o = c.args[0]
    return o


def sval(x, o):
    if not isinstance(o, LV):
        raise Unsupported('stream temporary')
    v = x.peek(o)
    if not (isinstance(v, Opaque) and v.kind == 'stream'):
        raise Unsupported('stream operation on %r' % type(v))
    if x.rlog is not None:
        x.access('r', o.cell, o.path)
    return v


def sset(x, o, **kw):
    for k, v in kw.items():
        x.write(o.f(k), v)


def emit(x, o, parts, formatted=False):
    """bytes are dropped when the stream has failed"""
    s = sval(x, o)
    if not z3.is_false(s['fail']):
        # an output device that fails is outside the properties: assumed good
        x.assumed.add('output streams do not fail')
    if formatted:
        w = s['width']
        if not (is_num(w) and num(w) == 0):
            parts = [('pad', w, s['fill'], list(parts))]
            sset(x, o, width=I(0))
    sset(x, o, out=s['out'].add(parts))
    return o


@ctor('std::basic_stringstream::basic_stringstream', 'std::basic_ostringstream::basic_ostringstream', 'std::basic_istringstream::basic_istringstream')
def ss_ctor(c):
    x = c.x
    if c.n() and not (isinstance(c.v(0), z3.ExprRef)):
        s = c.v(0)
        if isinstance(s, Seq):
            x.st.nfresh += 1
            return ostream_value(x, src=StrContent(s, 'str~%d' % x.st.nfresh))
        raise Unsupported('string stream constructor')
    return ostream_value(x)


class StrContent(Content):
    def __init__(self, s, name):
        self.s = s
        self.name = name
        self.n = s.n

    def byte(self, t):
        return s2u(self.s.at(norm(t)))


@fn('std::basic_stringstream::str', 'std::basic_ostringstream::str')
def ss_str(c):
    x = c.x
    if c.n():
        raise Unsupported('stringstream::str(s)')
    s = sval(x, c.obj)
    return rope_string(x, s['out'])


def rope_string(x, r):
    """the text of a rope as a string: exact when it is made of known characters"""
    ps = r.p
    if all(p[0] == 's' and p[1] == 1 for p in ps):
        return lit_seq([u2s(p[2]) for p in ps], CH)
    key = RopeStr.key(ps)
    n = Fn('strn:' + key[0], *([t.sort() for t in key[1]] + [INT]))(*key[1])
    a = lambda j: Fn('stra:' + key[0], *([t.sort() for t in key[1]] + [INT, INT]))(*(list(key[1]) + [j]))
    x.assume(z3.And(n >= 0, n < 2 ** 40))
    v = Seq(n, a, CH)
    STRROPE[n.get_id()] = (n, r)
    return v


STRROPE = {}


def str_parts(x, s):
    """parts for the characters of string s"""
    r = STRROPE.get(s.n.get_id()) if isinstance(s.n, z3.ExprRef) else None
    if r is not None:
        return list(r[1].p)
    return rep(s.n, lambda j: [('s', 1, s2u(s.at(j)))])


class RopeStr:
    @staticmethod
    def key(ps):
        """a name for the shape of the parts and the terms that determine the text"""
        name, terms = [], []
        for p in ps:
            if p[0] == 's':
                name.append('s%d' % p[1] + ('D' if p[2].sort() == D else ''))
                terms.append(p[2])
            elif p[0] == 'txt':
                name.append('t' + p[1])
                terms.append(p[2])
                terms += list(p[3])
            elif p[0] == 'pad':
                n2, t2 = RopeStr.key(p[3])
                name.append('p(' + n2 + ')')
                terms += [p[1], p[2]] + list(t2)
            elif p[0] == 'rep':
                body = p[2](Const('vs!k', INT))
                name.append('r%d' % z3.And([z3.BoolVal(True)] + [q[2] == q[2] if False else z3.BoolVal(True) for q in body]).hash() if False else 'r<%s>' % show(body))
                terms.append(p[1])
            else:
                raise Unsupported('string of an output with %s' % p[0])
        return '.'.join(name), terms


# ------------------------------------------------------------------ output
@fn('std::basic_ostream::write')
def os_write(c):
    x = c.x
    emit(x, c.obj, write_bytes(x, c.v(0), c.v(1)))
    return c.obj


@fn('std::basic_ostream::put')
def os_put(c):
    return emit(c.x, c.obj, [('s', 1, s2u(c.v(0)))])


@fn('std::basic_ostream::flush', 'std::flush')
def os_flush(c):
    return stream(c)


@fn('std::endl')
def std_endl(c):
    return emit(c.x, c.args[0], [('s', 1, I(10))])


@fn('std::setprecision', 'std::setw', 'std::setfill')
def manip(c):
    return Opaque('manip', what=c.f['q'], v=c.v(0))


@fn('std::fixed', 'std::scientific', 'std::boolalpha', 'std::noboolalpha', 'std::defaultfloat')
def manip2(c):
    x, o = c.x, c.args[0]
    apply_manip(x, o, c.f['q'])
    return o


def apply_manip(x, o, q):
    if q == 'std::fixed':
        sset(x, o, fixed=TRUE)
    elif q == 'std::defaultfloat':
        sset(x, o, fixed=FALSE)
    elif q == 'std::boolalpha':
        sset(x, o, balpha=TRUE)
    elif q == 'std::noboolalpha':
        sset(x, o, balpha=FALSE)
    elif q == 'std::endl':
        emit(x, o, [('s', 1, I(10))])
    elif q in ('std::flush', 'std::ends'):
        pass
    else:
        raise Unsupported('manipulator %s' % q)


def insert(x, o, v, pt):
    s = sval(x, o)
    if isinstance(v, Opaque) and v.kind == 'manip':
        w = v['what']
        if w == 'std::setprecision':
            sset(x, o, prec=v['v'])
        elif w == 'std::setw':
            sset(x, o, width=v['v'])
        else:
            sset(x, o, fill=v['v'])
        return o
    if isinstance(v, Opaque) and v.kind == 'stdfn':
        apply_manip(x, o, v['q'])
        return o
    if isinstance(v, Closure):
        return x.call_value(v, [o])
    if isinstance(v, Seq):
        return emit(x, o, str_parts(x, v), True)
    if isinstance(v, Ptr):
        return emit(x, o, str_parts(x, cstr(x, v)), True)
    if isinstance(v, z3.ExprRef):
        if v.sort() == D:
            return emit(x, o, [('txt', 'd', v, (s['prec'], s['fixed']))], True)
        if z3.is_bool(v):
            return emit(x, o, [('txt', 'b', v, (s['balpha'],))], True)
        if pt in ('char', 'signed char', 'unsigned char'):
            return emit(x, o, [('s', 1, s2u(v))], True)
        return emit(x, o, [('txt', 'i', v, ())], True)
    raise Unsupported('output of %r' % type(v))


@fn('std::basic_ostream::operator<<')
def os_member(c):
    return insert(c.x, c.obj, c.x.val(c.args[0]) if not isinstance(c.args[0], (Opaque, Closure)) else c.args[0], c.pt(0))


@fn('std::operator<<')
def os_free(c):
    x = c.x
    if not isinstance(c.args[0], LV):
        raise Unsupported('stream temporary')
    return insert(x, c.args[0], c.x.val(c.args[1]) if not isinstance(c.args[1], (Opaque, Closure)) else c.args[1], c.pt(1))


@fn('std::ios_base::precision')
def ios_precision(c):
    s = sval(c.x, c.obj)
    if c.n():
        sset(c.x, c.obj, prec=c.v(0))
    return s['prec']


# ------------------------------------------------------------------ state
@fn('std::basic_ios::good')
def ios_good(c):
    s = sval(c.x, c.obj)
    return z3.simplify(z3.And(z3.Not(s['fail']), z3.Not(s['eof'])))


@fn('std::basic_ios::fail', 'std::basic_ios::operator!', 'std::basic_ios::bad')
def ios_fail(c):
    if c.f['q'].endswith('bad'):
        raise Unsupported('bad()')
    return sval(c.x, c.obj)['fail']


@fn('std::basic_ios::operator bool')
def ios_bool(c):
    return z3.simplify(z3.Not(sval(c.x, c.obj)['fail']))


@fn('std::basic_ios::eof')
def ios_eof(c):
    return sval(c.x, c.obj)['eof']


@fn('std::basic_istream::gcount')
def is_gcount(c):
    return sval(c.x, c.obj)['gc']


# ------------------------------------------------------------------ input
@fn('std::basic_istream::read')
def is_read(c):
    x, o = c.x, c.obj
    s = sval(x, o)
    p, n = c.v(0), c.v(1)
    src = s['src']
    if src is None:
        raise Unsupported('read from a stream without contents')
    if x.branch(z3.Or(s['fail'], s['eof'])):
        regions(x, p, n) if not (isinstance(n, z3.ExprRef) and not is_num(n)) else None
        sset(x, o, fail=TRUE, gc=I(0))
        return o
    pos = s['pos']
    x.prove(n >= 0, 'precondition', 'byte count is not negative')
    left = norm(src.n - pos)
    if x.branch(norm(pos + n) <= src.n):
        read_into(x, p, n, lambda k: src.byte(norm(pos + k)))
        sset(x, o, pos=norm(pos + n), gc=n)
        return o
    try:
        read_into(x, p, n, lambda k: src.byte(norm(pos + k)), count=left)
    except Unsupported:
        havoc_bytes(x, p, n)
    sset(x, o, pos=src.n, gc=left, fail=TRUE, eof=TRUE)
    return o


@fn('std::basic_istream::operator>>', 'std::operator>>')
def is_extract(c):
    x = c.x
    if c.obj is not None:
        o, dst = c.obj, c.args[0]
    else:
        o, dst = c.args[0], c.args[1]
    s = sval(x, o)
    if not isinstance(dst, LV):
        raise Unsupported('extraction')
    old = x.peek(dst)
    src = s['src']
    if not isinstance(old, z3.ExprRef) or z3.is_bool(old) or src is None:
        raise Unsupported('extraction of this type')
    t = x.T(x.prog.deref(c.f['ps'][0 if c.obj is not None else 1]))
    kind = 'D' if t['k'] == 'float' and t['bits'] == 64 else '%s%d' % ('s' if t.get('signed') else 'u', t['bits']) if t['k'] == 'int' else None
    if kind is None or t['k'] == 'int' and t['bits'] == 8:
        raise Unsupported('extraction of this type')
    tk = s['tk']
    if x.branch(z3.Or(s['fail'], s['eof'])):
        sset(x, o, fail=TRUE)
        return o
    last = src.tok_last(tk)
    if x.branch(src.tok_ok(kind, tk)):
        v = src.tok(kind, tk)
        if kind != 'D':
            lo, hi = int_range(('int', t['bits'], t['signed']))
            x.assume(z3.And(v >= lo, v <= hi))
        x.write(dst, v)
        sset(x, o, tk=x.addi(tk, I(1)), eof=last)
    else:
        x.write(dst, dlit(0.0) if kind == 'D' else I(0))
        sset(x, o, tk=x.addi(tk, I(1)), eof=last, fail=TRUE)
    return o


# ------------------------------------------------------------------ files
def fstream_open(x, name, mode):
    x.st.nfresh += 1
    nm = 'file~%d' % x.st.nfresh
    ctx = tuple(x.st.ctx)
    ok = fresh(('bool',), nm + '.opened', ctx)
    src = Content(nm, ctx)
    if not ctx:
        x.st.store['g:opened'] = x.st.store.get('g:opened', ()) + (nm,)
    x.opens[nm] = (mode, ctx, name)
    if x.on_open is not None:
        x.on_open(mode, ctx, name)
    return ostream_value(x, src=src if mode == 'in' else None, fail=z3.Not(ok), file=(nm, mode, name))


def open_mode(c, mode):
    """the file is read from its start, or made new (binary makes no difference on POSIX)"""
    if c.n() > 1 and not (is_num(c.v(1)) and num(c.v(1)) & ~4 in ((8,) if mode == 'in' else (16, 48))):
        raise Unsupported('file opened in another mode')


def file_name(c, i):
    v = c.v(i)
    return v if isinstance(v, Seq) else None


@ctor('std::basic_ifstream::basic_ifstream', 'std::basic_ofstream::basic_ofstream')
def fs_ctor(c):
    mode = 'in' if 'ifstream' in c.f['q'] else 'out'
    if c.n() == 0:
        return ostream_value(c.x, src=Content('unopened') if mode == 'in' else None)
    open_mode(c, mode)
    return fstream_open(c.x, file_name(c, 0), mode)


@fn('std::basic_ifstream::open', 'std::basic_ofstream::open')
def fs_open(c):
    mode = 'in' if 'ifstream' in c.f['q'] else 'out'
    if sval(c.x, c.obj).d.get('file'):
        raise Unsupported('stream opened twice')
    open_mode(c, mode)
    c.x.write(c.obj, fstream_open(c.x, file_name(c, 0), mode))
    return None


@fn('std::basic_ifstream::close', 'std::basic_ofstream::close')
def fs_close(c):
    return None


@fn('std::basic_ifstream::is_open', 'std::basic_ofstream::is_open')
def fs_is_open(c):
    return z3.simplify(z3.Not(sval(c.x, c.obj)['fail']))
