"""What contracts are written with."""
import z3
from . import rt
from .rt import One, If, Many, SSeq, SList, SVal, SInt, SBool, SStr, Unsupported, wrap, term, Val  # noqa: F401

REG = {}
Int, Bool, Str = z3.IntSort(), z3.BoolSort(), z3.StringSort()
BoolVal = z3.BoolVal
And, Or, Not, Implies, ForAll, Exists, IntVal = z3.And, z3.Or, z3.Not, z3.Implies, z3.ForAll, z3.Exists, z3.IntVal


class Contract:
    def __init__(self, pids, title, fn, functions, bounded, tier, only=None):
        self.only = only
        self.pids, self.title, self.fn, self.functions, self.bounded, self.tier = pids, title, fn, functions, bounded, tier


def contract(pids, title, functions=(), bounded=None, tier="quick"):
    """Register a scenario: it assumes the precondition, runs the real function and states what must
    hold afterwards.  `functions`: dotted names of the functions it must have entered (the anchors).
    A property "P03:word" takes over only the obligations whose names contain the word."""

    def deco(fn):
        for p in pids.split(","):
            p, _, only = p.partition(":")
            REG.setdefault(p, []).append(Contract(pids, title, fn, tuple(functions), bounded, tier, only))
        return fn

    return deco


def sym(r, name, sort=Int):
    """an arbitrary value"""
    return rt.wrap_const(r.fresh(name, sort))


def seq(r, name, elt, n=None):
    """a sequence of arbitrary length with elements elt(i)"""
    n = r.fresh("len_" + name, Int) if n is None else n
    r.assume(n >= 0)
    return SSeq(n, elt, name)


def fn(name, *sorts):
    return z3.Function(name, *sorts)


def raises(exc, f, *a, **k):
    """the exception of class exc that f raises, else None (others escape)"""
    try:
        f(*a, **k)
    except exc as e:
        return e
    return None


def T(x):
    """formula of a Python truth value"""
    if isinstance(x, z3.ExprRef):
        return x
    if type(x) is SBool:
        return x.t
    if type(x) is bool:
        return z3.BoolVal(x)
    raise Unsupported(f"{type(x).__name__} where a boolean result is expected")


def flat(parts):
    """the values of a list of concrete length"""
    out = []
    for p in parts:
        if isinstance(p, One):
            out.append(p.v)
        else:
            raise Unsupported("a list of symbolic length")
    return out


def values(x):
    ps = rt.parts_of(x)
    return list(x) if ps is None else flat(ps)


_k = [0]


def member(xs, eq):
    """formula: an element v of the sequence with eq(v)"""
    ps = rt.parts_of(xs)
    if ps is None:
        return Or(BoolVal(False), *[eq(v) for v in xs])
    return _member(ps, eq)


def _member(ps, eq):
    out = [BoolVal(False)]
    for p in ps:
        if isinstance(p, One):
            out.append(eq(p.v))
        elif isinstance(p, If):
            out.append(And(p.cond, _member(p.parts, eq)))
        else:
            _k[0] += 1
            j = z3.Int(f"m!{_k[0]}")
            out.append(Exists([j], And(0 <= j, j < term(p.n), _member(p.fn(j), eq))))
    return Or(*out)
