"""Shared vocabulary of the contracts."""
import z3
from vc.values import *
from vc.contract import contract, CallCtx
from vc import specs as S

FIELDS = ('x', 'y', 'z', 'c', 'p', 'i', 'r', 'g', 'b')
DF = ('x', 'y', 'z')
IF = ('c', 'p', 'i', 'r', 'g', 'b')
BITS = {'c': 32, 'p': 32, 'i': 16, 'r': 16, 'g': 16, 'b': 16}


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    return TRUE if not a else a[0] if len(a) == 1 else z3.And(a)


def Or(*a):
    return FALSE if not a else a[0] if len(a) == 1 else z3.Or(list(a))


Not, Implies, If = z3.Not, z3.Implies, z3.If


def forall(lo, hi, f, pat=None):
    k = qvar(INT, 'k')
    b = f(k)
    if z3.is_true(b):
        return TRUE
    return z3.ForAll([k], Implies(z3.And(k >= lo, k < hi), b), patterns=pats(pat(k)) if pat else [])


def pats(*ts):
    """patterns, as far as the terms can be patterns"""
    ok = [t for t in ts if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and not S.has_bad(t)]
    return [ok[0] if len(ok) == 1 else z3.MultiPattern(*ok)] if ok and len(ok) == len(ts) else []


def deq(a, b):
    """C++ == on a scalar field"""
    return feq(a, b) if a.sort() == D else a == b


def cmap(seq, f, es=None):
    """the sequence f(seq[0]), f(seq[1]), ..."""
    return Seq(seq.n, lambda k: f(seq.at(k)), es)


def upd(s, **kw):
    for k, v in kw.items():
        s = s.set(k, v)
    return s
