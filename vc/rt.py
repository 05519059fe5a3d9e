"""Symbolic execution of the instrumented code under CPython: values, paths, loop cuts.

See DESIGN.md for the rules and their soundness argument.  `R` is the run in progress (one path);
without it everything behaves as plain Python.
"""
import builtins, copy, os, re, sys, types
import z3
from . import prove as P

R = None
OWN = re.compile(r"_v(l\d+x?|r\d+|ly\d+|c\d+|rt)")  # names that the instrumentation adds
Val = z3.DeclareSort("Val")
NONE = z3.Const("none", Val)
truth = z3.Function("truth", Val, z3.BoolSort())
py_eq = z3.Function("py_eq", Val, Val, z3.BoolSort())
entered = {}


class Unsupported(BaseException):
    """The code does something the verifier has no rule for."""


class PathEnd(BaseException):
    def __init__(self, kind, key=None, data=None):
        self.kind, self.key, self.data = kind, key, data


class Forked(BaseException):
    """a value that depends on more than one formula"""


class NeedLoop(BaseException):
    def __init__(self, key, loop):
        self.key, self.loop = key, loop


class Restart(BaseException):
    pass


def enter(q):
    if R is not None:
        entered[q] = entered.get(q, 0) + 1


# ------------------------------------------------------------------------------ symbolic values


class Poison:
    """A value the loop summary does not describe; any use is an error of the verifier."""

    def _no(self, *a, **k):
        raise Unsupported("use of a variable whose value after/at a cut loop is not described")

    __getattr__ = __call__ = __bool__ = __eq__ = __iter__ = __len__ = __getitem__ = __add__ = __lt__ = __gt__ = __le__ = __ge__ = __hash__ = _no


POISON = object.__new__(Poison)


class Sym:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<{self.t}>"

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


def term(x, sort=None):
    """z3 term of a value"""
    if isinstance(x, z3.ExprRef):
        return x
    ty = type(x)
    if isinstance(x, Sym) and ty in _symtypes:
        t = x.t
    elif ty is bool:
        t = z3.BoolVal(x)
    elif ty is int:
        t = z3.IntVal(x)
    elif ty is str:
        t = z3.StringVal(x)
    elif x is None:
        t = NONE
    elif hasattr(ty, "_vc_term"):
        t = x._vc_term()
    else:
        raise Unsupported(f"no term for {ty.__name__} value")
    if sort is not None and t.sort() != sort:
        t = coerce(t, sort)
    return t


_box = {}


def coerce(t, sort):
    if t.sort() == sort:
        return t
    if sort == z3.IntSort() and t.sort() == z3.BoolSort():
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if sort == Val:
        n = f"box_{t.sort().name()}"
        if n not in _box:
            _box[n] = z3.Function(n, t.sort(), Val)
        return _box[n](t)
    raise Unsupported(f"cannot use a {t.sort()} as {sort}")


def wrap(t):
    t = z3.simplify(t)
    s = t.sort()
    if s == z3.BoolSort():
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)
    if s == z3.IntSort():
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)
    if s == z3.StringSort():
        if z3.is_string_value(t):
            return t.as_string()
        return SStr(t)
    if s == Val:
        if t.eq(NONE):
            return None
        return SVal(t)
    raise Unsupported(f"sort {s}")


class SBool(Sym):
    __slots__ = ()
    __class__ = property(lambda s: bool)

    def __bool__(self):
        return R.fork(self.t)

    def _i(self):
        return coerce(self.t, z3.IntSort())

    def __and__(self, o):
        return wrap(z3.And(self.t, term(o, z3.BoolSort()))) if isb(o) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return wrap(z3.Or(self.t, term(o, z3.BoolSort()))) if isb(o) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return wrap(z3.Xor(self.t, term(o, z3.BoolSort())))

    def __eq__(self, o):
        if isb(o):
            return wrap(self.t == term(o))
        if isi(o):
            return wrap(self._i() == term(o))
        return False if o is None or isinstance(o, str) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __add__(self, o):
        return wrap(self._i() + term(o, z3.IntSort()))

    __radd__ = __add__

    def __mul__(self, o):
        return wrap(self._i() * term(o, z3.IntSort()))

    __rmul__ = __mul__

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def __lt__(self, o):
        return wrap(self._i() < term(o, z3.IntSort()))

    def __gt__(self, o):
        return wrap(self._i() > term(o, z3.IntSort()))

    def __le__(self, o):
        return wrap(self._i() <= term(o, z3.IntSort()))

    def __ge__(self, o):
        return wrap(self._i() >= term(o, z3.IntSort()))


def isb(x):
    return type(x) in (bool, SBool)


def isi(x):
    return type(x) in (int, SInt, bool, SBool)


def _pow2(n):
    return n > 0 and n & (n - 1) == 0


def _bit(t):
    """is the term known to be 0 or 1?"""
    return R.valid(z3.And(t >= 0, t <= 1))


class SInt(Sym):
    __slots__ = ()
    __class__ = property(lambda s: int)

    def _op(self, o, f):
        if not isi(o):
            return NotImplemented
        return wrap(f(self.t, term(o, z3.IntSort())))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.t >= 0, self.t, -self.t))

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return wrap(self.t / o)  # z3's integer division floors for a positive divisor
        raise Unsupported("// by a symbolic or non-positive divisor")

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return wrap(self.t % o)
        raise Unsupported("% by a symbolic or non-positive divisor")

    def __truediv__(self, o):
        raise Unsupported("float division")

    def __rshift__(self, o):
        if type(o) is int and o >= 0:
            return wrap(self.t / (2**o))
        return wrap(R.shr(self.t, term(o, z3.IntSort())))

    def __lshift__(self, o):
        if type(o) is int and o >= 0:
            return wrap(self.t * (2**o))
        return wrap(self.t * R.pow2(term(o, z3.IntSort())))

    def __rlshift__(self, o):
        return wrap(term(o, z3.IntSort()) * R.pow2(self.t))

    def __rpow__(self, o):
        if o == 2:
            return wrap(R.pow2(self.t))
        raise Unsupported("power")

    def __and__(self, o):
        if type(o) is int and _pow2(o + 1):
            return wrap(self.t % (o + 1))
        if type(o) is int and o == 0:
            return 0
        if type(o) is int and _pow2(o):
            return wrap(((self.t / o) % 2) * o)
        ot = term(o, z3.IntSort())
        if _bit(self.t) and _bit(ot):
            return wrap(self.t * ot)
        h = R.hooks.get("and")
        t = h(self.t, ot) if h else None
        if t is not None:
            return wrap(t)
        raise Unsupported("& of symbolic integers")

    __rand__ = __and__

    def __or__(self, o):
        ot = term(o, z3.IntSort())
        for k in (0, 1, 2, 3, 4, 5, 8, 16, 31, 32, 62, 63, 64):  # disjoint bits: a < 2^k and 2^k divides b
            for a, b in ((self.t, ot), (ot, self.t)):
                if R.valid(z3.And(a >= 0, a < 2**k, b % (2**k) == 0)):
                    return wrap(a + b)
        if _bit(self.t) and _bit(ot):
            return wrap(z3.If(self.t + ot > 0, z3.IntVal(1), z3.IntVal(0)))
        raise Unsupported("| of symbolic integers")

    __ror__ = __or__

    def __xor__(self, o):
        ot = term(o, z3.IntSort())
        if _bit(self.t) and _bit(ot):
            return wrap((self.t + ot) % 2)
        raise Unsupported("^ of symbolic integers")

    __rxor__ = __xor__

    def __eq__(self, o):
        if isi(o):
            f = self._some(0, o, True)
            return self._op(o, lambda a, b: a == b) if f is None else f
        if type(o) is SVal:
            return wrap(py_eq(coerce(self.t, Val), o.t))
        return False if o is None or type(o) in (str, SStr) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _some(self, k, o, neg):
        """this length compared with the number k: whether there is an element (None: not a length)"""
        if type(o) is not int or o != k or R is None or not R.lens:
            return None
        f = R.lens.get(self.t.sexpr())
        return None if f is None else wrap(z3.Not(f) if neg else f)

    def __lt__(self, o):
        f = self._some(1, o, True)
        return self._op(o, lambda a, b: a < b) if f is None else f

    def __gt__(self, o):
        f = self._some(0, o, False)
        return self._op(o, lambda a, b: a > b) if f is None else f

    def __le__(self, o):
        f = self._some(0, o, True)
        return self._op(o, lambda a, b: a <= b) if f is None else f

    def __ge__(self, o):
        f = self._some(1, o, False)
        return self._op(o, lambda a, b: a >= b) if f is None else f

    def __bool__(self):
        f = self._some(0, 0, False)
        return R.fork(self.t != 0) if f is None else builtins.bool(f)

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    def __index__(self):
        return R.concretize(self.t)

    __int__ = __index__


def str_value(t):
    """the Python string of a string literal"""
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), t.as_string())


class SParts:
    """the parts of a string between all separators: the first and the last one are known"""

    def __init__(self, s, sep):
        self.s, self.sep = s, sep

    def __getitem__(self, i):
        if i == 0:
            return self.s.split(self.sep, 1)[0]
        if i == -1:
            return list.__getitem__(self.s.rsplit(self.sep, 1), -1)
        raise Unsupported("a part in the middle of a split string")

    def __iter__(self):
        raise Unsupported("all parts of a split string")

    def __len__(self):
        raise Unsupported("the number of parts of a split string")


class SStr(Sym):
    __slots__ = ()
    __class__ = property(lambda s: str)

    def __eq__(self, o):
        if type(o) in (str, SStr):
            return wrap(self.t == term(o))
        return False if o is None or isi(o) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __add__(self, o):
        return wrap(z3.Concat(self.t, term(o)))

    def __radd__(self, o):
        return wrap(z3.Concat(term(o), self.t))

    def startswith(self, p):
        return wrap(z3.PrefixOf(term(p), self.t))

    def removeprefix(self, p):
        p = term(p)
        return wrap(z3.If(z3.PrefixOf(p, self.t), z3.SubString(self.t, z3.Length(p), z3.Length(self.t) - z3.Length(p)), self.t))

    def removesuffix(self, p):
        p = term(p)
        return wrap(z3.If(z3.SuffixOf(p, self.t), z3.SubString(self.t, z3.IntVal(0), z3.Length(self.t) - z3.Length(p)), self.t))

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None and k.stop is None:
            a = term(k.start, z3.IntSort())
            return wrap(z3.SubString(self.t, a, z3.Length(self.t) - a))
        if isinstance(k, slice) and k.step is None and k.start is None and type(k.stop) is int and k.stop < 0:
            cut, cs = -k.stop, list(self.t.children()) if z3.is_app(self.t) and self.t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [self.t]
            if z3.is_string_value(cs[-1]) and len(str_value(cs[-1])) >= cut:
                return wrap(z3.simplify(z3.Concat(*cs[:-1], z3.StringVal(str_value(cs[-1])[:-cut])))) if len(cs) > 1 else str_value(cs[-1])[:-cut]
            n = z3.Length(self.t)
            return wrap(z3.SubString(self.t, z3.IntVal(0), z3.If(n > cut, n - cut, z3.IntVal(0))))
        raise Unsupported("string indexing")

    def __symlen__(self):
        return wrap(z3.Length(self.t))

    def __bool__(self):
        return R.fork(self.t != z3.StringVal(""))

    def strip(self, *a):
        if a:
            raise Unsupported("strip")
        st = z3.StringSort()
        return wrap(z3.Function("str_strip", st, st)(self.t))

    def split(self, sep=None, maxsplit=-1):
        """split at the first separator: the parts are given by uninterpreted functions"""
        if type(sep) is not str or not sep:
            raise Unsupported("split")
        if maxsplit == -1:
            return SParts(self, sep)
        if maxsplit != 1:
            raise Unsupported("split")
        st = z3.StringSort()
        s = z3.StringVal(sep)
        if not R.fork(z3.Contains(self.t, s)):
            return SList([self])
        h, t = z3.Function("str_split_head", st, st, st)(self.t, s), z3.Function("str_split_tail", st, st, st)(self.t, s)
        R.assume(z3.And(self.t == z3.Concat(h, s, t), z3.Not(z3.Contains(h, s))))
        return SList([SStr(h), SStr(t)])

    def rsplit(self, sep=None, maxsplit=-1):
        """split at the last separator (of one character)"""
        if maxsplit == -1:
            return self.split(sep)
        if maxsplit != 1 or type(sep) is not str or len(sep) != 1:
            raise Unsupported("rsplit")
        st = z3.StringSort()
        s = z3.StringVal(sep)
        if not R.fork(z3.Contains(self.t, s)):
            return SList([self])
        h, t = z3.Function("str_rsplit_head", st, st, st)(self.t, s), z3.Function("str_rsplit_tail", st, st, st)(self.t, s)
        R.assume(z3.And(self.t == z3.Concat(h, s, t), z3.Not(z3.Contains(t, s))))
        return SList([SStr(h), SStr(t)])

    def replace(self, a, b):
        st = z3.StringSort()
        return wrap(z3.Function("str_replace_all", st, st, st, st)(self.t, term(a), term(b)))

    def __contains__(self, o):
        return bool(wrap(z3.Contains(self.t, term(o))))

    def __hash__(self):
        return 0

    def __str__(self):
        raise Unsupported("str() of a symbolic string")

    __format__ = None


class SBits(Sym):
    """a non-negative integer below 2**w, as a bit vector that widens as needed"""

    __slots__ = ()
    __class__ = property(lambda s: int)

    @staticmethod
    def _bv(o, w=None):
        if type(o) is SBits:
            t = o.t
        elif type(o) is SBool:
            t = z3.If(o.t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif isinstance(o, int) and type(o) in (int, bool) and o >= 0:
            t = z3.BitVecVal(int(o), max(1, int(o).bit_length()))
        else:
            raise Unsupported("bit operation with a negative or unbounded integer")
        return t if w is None or t.size() >= w else z3.ZeroExt(w - t.size(), t)

    def _two(self, o, extra=0):
        a, b = self.t, SBits._bv(o)
        w = max(a.size(), b.size()) + extra
        return SBits._bv(SBits(a), w), SBits._bv(SBits(b), w)

    def _op(self, o, f, extra=0):
        if not isinstance(o, int):
            return NotImplemented
        if type(o) is SInt:
            raise Unsupported("bit vector and unbounded integer")
        a, b = self._two(o, extra)
        return bits(f(a, b))

    def __and__(self, o):
        if type(o) is int and o < 0:
            o = o & ((1 << self.t.size()) - 1)
        return self._op(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._op(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._op(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b, 1)

    __radd__ = __add__

    def __mul__(self, o):
        b = SBits._bv(o)
        w = self.t.size() + b.size()
        return bits(SBits._bv(self, w) * SBits._bv(SBits(b), w))

    __rmul__ = __mul__

    def __rshift__(self, k):
        if type(k) is int and k >= 0:
            return bits(z3.Extract(self.t.size() - 1, k, self.t)) if k < self.t.size() else 0
        raise Unsupported("shift")

    def __lshift__(self, k):
        if type(k) is int and k >= 0:
            return bits(z3.Concat(self.t, z3.BitVecVal(0, k))) if k else self
        raise Unsupported("shift")

    def __mod__(self, o):
        if type(o) is int and o > 0:
            a, b = self._two(o)
            return bits(z3.URem(a, b))
        raise Unsupported("%")

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            a, b = self._two(o)
            return bits(z3.UDiv(a, b))
        raise Unsupported("//")

    def _rel(self, o, f):
        if type(o) is int and o < 0:
            return wrap(f(z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        a, b = self._two(o)
        return wrap(f(a, b))

    def __eq__(self, o):
        return self._rel(o, lambda a, b: a == b) if isinstance(o, int) else False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __lt__(self, o):
        return self._rel(o, z3.ULT)

    def __le__(self, o):
        return self._rel(o, z3.ULE)

    def __gt__(self, o):
        return self._rel(o, z3.UGT)

    def __ge__(self, o):
        return self._rel(o, z3.UGE)

    def __bool__(self):
        return R.fork(self.t != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    def __index__(self):
        raise Unsupported("a concrete number is needed")

    __int__ = __index__


def bits(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_bv_value(t) else SBits(t)


class SVal(Sym):
    """an arbitrary Python value"""

    __slots__ = ()

    def __eq__(self, o):
        if o is self:
            return wrap(py_eq(self.t, self.t))
        try:
            ot = term(o, Val)
        except Unsupported:
            return NotImplemented
        return wrap(py_eq(self.t, ot))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        return R.fork(truth(self.t))

    def _rel(self, o, name):
        f = z3.Function("py_" + name, Val, Val, z3.BoolSort())
        return wrap(f(self.t, term(o, Val)))

    def __lt__(self, o):
        return self._rel(o, "lt")

    def __gt__(self, o):
        return self._rel(o, "gt")

    def __le__(self, o):
        return self._rel(o, "le")

    def __ge__(self, o):
        return self._rel(o, "ge")

    def __hash__(self):
        return 0

    def __getattr__(self, n):
        if n.startswith("__") or n == "t":
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of an arbitrary value")


_symtypes = (SBool, SInt, SStr, SVal, SBits)


def issym(x):
    return type(x) in _symtypes


# --------------------------------------------------------------------- sequences as lists of parts


class One:
    def __init__(self, v):
        self.v = v


class If:
    def __init__(self, cond, parts):
        self.cond, self.parts = cond, parts


class Many:
    """the concatenation over i in 0..n-1 of fn(i), a list of parts"""

    def __init__(self, n, fn, unit=None, name=None):
        self.n, self.fn, self.unit, self.name = n, fn, unit, name


class Opaque:
    """an arbitrary prefix of a list at the head of a cut loop"""

    def __init__(self, tag):
        self.tag = tag


class SSeq:
    """an immutable sequence of symbolic length n with elements elt(i)"""

    def __init__(self, n, elt, name=None):
        self.n, self.elt, self.name = term(n, z3.IntSort()), elt, name

    def parts(self):
        return [Many(self.n, lambda i: [One(self.elt(i))], unit=self.elt, name=self.name)]

    def __symlen__(self):
        return wrap(self.n)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic sequence outside a loop")

    def __bool__(self):
        return R.fork(self.n > 0)

    def __len__(self):
        return R.concretize(self.n)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return part_of(self.n, self.elt, k)
        kt = term(k, z3.IntSort())
        if R.fork(z3.And(kt >= 0, kt < self.n)):
            return self.elt(kt)
        raise IndexError("list index out of range")

    def index(self, x):
        return lib.index(x, self)


def uniform(ps):
    """(length, element at an index) of a list whose elements are all of one sort"""
    off, pieces = z3.IntVal(0), []
    for q in ps:
        if isinstance(q, One):
            pieces.append((off, z3.IntVal(1), lambda i, q=q: term(q.v)))
        elif isinstance(q, Many) and q.unit is not None:
            pieces.append((off, term(q.n), lambda i, q=q: term(q.unit(i))))
        else:
            raise Unsupported("slice of a symbolic list")
        off = z3.simplify(off + pieces[-1][1])
    sorts = {f(z3.Int("elt!s")).sort() for _, _, f in pieces}
    if len(sorts) != 1:
        raise Unsupported("slice of a list of several sorts")

    def elt(i):
        o, n, f = pieces[-1]
        e = f(z3.simplify(i - o))
        for o, n, f in reversed(pieces[:-1]):
            e = z3.If(i < o + n, f(z3.simplify(i - o)), e)
        return wrap(z3.simplify(e))

    return off, elt


def part_of(n, elt, k):
    """a slice of a sequence"""
    if k.step is not None and k.step != 1:
        raise Unsupported("slice with a step")

    def bound(v, d):
        if v is None:
            return d
        t = term(v, z3.IntSort())
        t = z3.If(t < 0, n + t, t)
        return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))

    a, b = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
    m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
    f = lambda i: elt(z3.simplify(a + i))
    return SList(parts=[Many(m, lambda i: [One(f(i))], unit=f)])


class SRange(SSeq):
    def __init__(self, lo, hi):
        lo, hi = term(lo, z3.IntSort()), term(hi, z3.IntSort())
        super().__init__(z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), lambda i: wrap(lo + i))


class SSet:
    """a set given by its (distinct) elements"""

    def __init__(self, parts):
        self.ps = parts

    def _vc_parts(self):
        return list(self.ps)

    def __symlen__(self):
        return symlen(self.ps)

    def __bool__(self):
        return symsome(self.ps)

    def _no(self, *a, **k):
        raise Unsupported("changing a symbolic set")

    add = update = discard = remove = pop = union = intersection = difference = __or__ = __and__ = __sub__ = __ior__ = _no
    __iter__ = __eq__ = __contains__ = __hash__ = _no


class SymStar:
    def __init__(self, x):
        self.x = x


def straight(f, x):
    """f(x) if that is evaluated without a case distinction, else None"""
    old, R.nofork = R.nofork, True
    try:
        return f(x)
    except Forked:
        return None
    finally:
        R.nofork = old


class SymGen:
    """a generator expression over a symbolic iterable"""

    def __init__(self, where, it, conds, f):
        self.where, self.it, self.conds, self.f = where, it, conds, f


def parts_of(x):
    """the parts of a symbolic iterable, None if x is an ordinary one"""
    ty = type(x)
    if issubclass(ty, SSeq):
        return x.parts()
    if ty is SList:
        return list(x.p) if x.p is not None else None
    if ty is tuple or ty is list:
        if any(type(e) is SymStar for e in x):
            out = []
            for e in x:
                if type(e) is SymStar:
                    out += parts_of(e.x)
                else:
                    out.append(One(e))
            return out
        return None
    f = getattr(ty, "_vc_parts", None)
    if f is not None:
        return f(x)
    return None


def plen(parts):
    """length of a list of parts as a term"""
    tot = z3.IntVal(0)
    for p in parts:
        if isinstance(p, One):
            tot = tot + 1
        elif isinstance(p, If):
            tot = tot + z3.If(p.cond, plen(p.parts), z3.IntVal(0))
        elif isinstance(p, Many):
            if p.unit is not None:
                tot = tot + z3.If(term(p.n) > 0, term(p.n), z3.IntVal(0))
            else:
                tot = tot + R.sum_(p.n, lambda i, p=p: plen(p.fn(i)))
        else:
            raise Unsupported("length of a list inside the loop that extends it")
    return z3.simplify(tot)


def some_of(parts, d=0):
    """formula: there is an element"""
    out = [z3.BoolVal(False)]
    for p in parts:
        if isinstance(p, One):
            return z3.BoolVal(True)
        if isinstance(p, If):
            out.append(z3.And(p.cond, some_of(p.parts, d)))
        elif p.unit is not None:
            out.append(term(p.n) > 0)
        else:
            j = z3.Int(f"some!{d}")
            out.append(z3.Exists([j], z3.And(0 <= j, j < term(p.n), some_of(p.fn(j), d + 1))))
    return z3.Or(*out) if len(out) != 2 else out[1]


def counting(parts):
    """the length of the list is a sum"""
    return any(isinstance(p, Many) and p.unit is None or isinstance(p, If) and counting(p.parts) for p in parts)


def symlen(parts):
    t = plen(parts)
    if counting(parts):
        R.lens.setdefault(t.sexpr(), some_of(parts))
    return wrap(t)


def symsome(parts):
    return R.fork(some_of(parts) if counting(parts) else plen(parts) > 0)


class Busy:
    """the rest of a list that is being extended: not to be looked at"""

    def __getattr__(self, a):
        raise Unsupported("a list inside the generator that extends it")


class SList(list):
    """a list whose contents may be symbolic (p is the list of parts then)"""

    __slots__ = ("p",)

    def __init__(self, xs=(), parts=None):
        self.p = None
        if parts is not None:
            if all(isinstance(q, One) for q in parts):
                list.__init__(self, [q.v for q in parts])
            else:
                list.__init__(self, [POISON])  # what C code meets that reads the storage
                self.p = list(parts)
        else:
            list.__init__(self, xs)

    def norm(self):
        return self.p if self.p is not None else [One(v) for v in list.__iter__(self)]

    def _set(self, parts):
        list.clear(self)
        self.p = None
        if all(isinstance(q, One) for q in parts):
            list.extend(self, [q.v for q in parts])
        else:
            list.append(self, POISON)
            self.p = list(parts)

    def append(self, v):
        if self.p is None:
            list.append(self, v)
        else:
            self.p = self.p + [One(v)]

    def extend(self, xs):
        if type(xs) is SymGen:
            # what the generator makes may not depend on the list while it grows
            old = self.norm()
            self.p = old + [Busy()]
            try:
                xs = b_list(xs)
            finally:
                self._set(old)
        ps = parts_of(xs)
        if ps is None:
            for v in xs:
                self.append(v)
        else:
            self._set(self.norm() + ps)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        ps = parts_of(o)
        if self.p is None and ps is None:
            return SList(list.__add__(self, list(o)))
        return SList(parts=self.norm() + (ps if ps is not None else [One(v) for v in o]))

    def __radd__(self, o):
        return SList(parts=[One(v) for v in o] + self.norm())

    def __mul__(self, n):
        if type(n) is SInt:
            if self.p is None and list.__len__(self) == 1:
                v = list.__getitem__(self, 0)
                n = z3.simplify(z3.If(n.t > 0, n.t, z3.IntVal(0)))
                return SList(parts=[Many(n, lambda i: [One(v)], unit=lambda i: v)])
            raise Unsupported("repetition of a list")
        if self.p is None:
            return SList(list.__mul__(self, n))
        raise Unsupported("repetition of a symbolic list")

    __rmul__ = __mul__

    def __symlen__(self):
        return list.__len__(self) if self.p is None else symlen(self.p)

    def __len__(self):
        return list.__len__(self) if self.p is None else R.concretize(plen(self.p))

    def __bool__(self):
        return list.__len__(self) > 0 if self.p is None else symsome(self.p)

    def __iter__(self):
        if self.p is not None:
            raise Unsupported("iteration over a symbolic list outside a loop")
        return list.__iter__(self)

    def _shift(self):
        """make the first part a One (forking on emptiness); False if the list is empty"""
        while True:
            if self.p is None:
                return list.__len__(self) > 0
            q = self.p[0]
            if isinstance(q, One):
                return True
            if isinstance(q, Many) and q.unit is not None:
                n = term(q.n)
                if R.fork(n > 0):
                    u = q.unit
                    self.p = [One(u(z3.IntVal(0))), Many(z3.simplify(n - 1), lambda i, u=u: [One(u(z3.simplify(i + 1)))], unit=lambda i, u=u: u(z3.simplify(i + 1)))] + self.p[1:]
                    return True
                self._set(self.p[1:])
                continue
            if isinstance(q, If):
                self._set((list(q.parts) if R.fork(q.cond) else []) + self.p[1:])
                continue
            if isinstance(q, Many) and all(isinstance(x, If) and len(x.parts) == 1 and isinstance(x.parts[0], One) for x in q.fn(z3.IntVal(0))) and unsat(plen(q.fn(z3.IntVal(0))) != 1):
                # each step adds exactly one element, of several kinds
                n = term(q.n)
                if R.fork(n > 0):
                    self._set(list(q.fn(z3.IntVal(0))) + [Many(z3.simplify(n - 1), lambda i, f=q.fn: f(z3.simplify(i + 1)))] + self.p[1:])
                else:
                    self._set(self.p[1:])
                continue
            raise Unsupported("first element of a symbolic list")

    def pop(self, k=-1):
        if self.p is None:
            return list.pop(self, k)
        if type(k) is int and k == 0:
            if not self._shift():
                raise IndexError("pop from empty list")
            if self.p is None:
                return list.pop(self, 0)
            v = self.p[0].v
            self._set(self.p[1:])
            return v
        if type(k) is int and k == -1 and isinstance(self.p[-1], One):
            v = self.p[-1].v
            self._set(self.p[:-1])
            return v
        raise Unsupported("pop of a symbolic list")

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.p is None:
                return SList(list.__getitem__(self, k))
            if k.start is None and k.stop is None and k.step is None:
                return SList(parts=self.p)
            if len(self.p) == 1 and isinstance(self.p[0], Many) and self.p[0].unit is not None:
                return part_of(term(self.p[0].n), self.p[0].unit, k)
            if type(k.start) is int and k.start >= 0 and k.stop is None and k.step in (None, 1):
                rest = SList(parts=self.p)
                for _ in range(k.start):
                    if not rest._shift():
                        break
                    rest.pop(0)
                return rest
            if k.start is None and k.stop == -1 and k.step in (None, 1) and isinstance(self.p[-1], One):
                return SList(parts=self.p[:-1])
            return part_of(*uniform(self.norm()), k)
        if self.p is None and type(k) in (SInt, SBool):
            k = self._concrete_index(k)
        if self.p is None and not issym(k):
            return list.__getitem__(self, k)
        if not issym(k) and k == 0:
            if not self._shift():
                raise IndexError("list index out of range")
            return self[0] if self.p is None else self.p[0].v
        if not issym(k) and k < 0:
            tail = []
            for q in reversed(self.p):
                if not isinstance(q, One):
                    break
                tail.append(q.v)
            if -k <= len(tail):
                return tail[-k - 1]
            raise Unsupported("end of a symbolic list")
        return self.at(term(k, z3.IntSort()))

    def at(self, kt):
        if not R.fork(kt >= 0):
            kt = z3.simplify(kt + plen(self.norm()))
            if not R.fork(kt >= 0):
                raise IndexError("list index out of range")
        off = z3.IntVal(0)
        for q in self.norm():
            if isinstance(q, One):
                if R.fork(kt == off):
                    return q.v
                off = z3.simplify(off + 1)
            elif isinstance(q, Many) and q.unit is not None:
                if R.fork(kt < off + q.n):
                    return q.unit(z3.simplify(kt - off))
                off = z3.simplify(off + q.n)
            else:
                raise Unsupported("index into a symbolic list")
        raise IndexError("list index out of range")

    def _concrete_index(self, k):
        for j in range(list.__len__(self)):
            if R.fork(term(k, z3.IntSort()) == j):
                return j
        for j in range(1, list.__len__(self) + 1):
            if R.fork(term(k, z3.IntSort()) == -j):
                return -j
        raise IndexError("list index out of range")

    def __setitem__(self, k, v):
        if self.p is None and type(k) in (SInt, SBool):
            k = self._concrete_index(k)
        if self.p is None and not issym(k):
            if isinstance(k, slice):
                ps = parts_of(v)
                if ps is not None:
                    if k.start is None and k.stop is None:
                        return self._set(ps)
                    raise Unsupported("slice assignment")
            return list.__setitem__(self, k, v)
        raise Unsupported("element assignment in a symbolic list")

    def clear(self):
        list.clear(self)
        self.p = None

    def copy(self):
        return SList(parts=self.norm())

    def __contains__(self, x):
        return bool(in_(x, self))

    def index(self, x):
        if self.p is None:
            for i, v in enumerate(list.__iter__(self)):
                if v is x or v == x:
                    return i
            raise ValueError("not in list")
        return lib.index(x, self)

    def remove(self, x):
        if self.p is None:
            del self[self.index(x)]
            return
        raise Unsupported("remove from a symbolic list")

    def __delitem__(self, k):
        if self.p is None and not issym(k):
            return list.__delitem__(self, k)
        if not issym(k) and k in (0, -1):
            self.pop(k)
            return
        if isinstance(k, slice) and k.start is None and k.step in (None, 1) and type(k.stop) is int and k.stop >= 0:
            return self._set(parts_of(self[k.stop :]) or [One(v) for v in self[k.stop :]])
        if isinstance(k, slice) and k.start is None and k.stop is None:
            return self.clear()
        raise Unsupported("del of a symbolic list element")

    def insert(self, k, v):
        if self.p is None and not issym(k):
            return list.insert(self, k, v)
        if not issym(k) and k == 0:
            return self._set([One(v)] + self.p)
        raise Unsupported("insert")

    def __eq__(self, o):
        if self.p is None and not (type(o) is SList and o.p is not None):
            if not isinstance(o, list) or list.__len__(self) != list.__len__(o):
                return False
            return builtins.all(a is b or a == b for a, b in zip(list.__iter__(self), list.__iter__(o)))
        raise Unsupported("comparison of symbolic lists")

    def __ne__(self, o):
        return not self.__eq__(o)

    def sort(self, key=None, reverse=False):
        if self.p is None:
            xs = native_sorted(list(list.__iter__(self)), key, reverse)
            list.__init__(self, xs)
            return
        self._set(parts_of(R.sorted_contract(self, key, reverse)))

    def reverse(self):
        if self.p is None:
            return list.reverse(self)
        raise Unsupported("reverse")

    __hash__ = None


class SDict(dict):
    """a dict display; symbolic string keys are compared one by one (with forks)"""

    __slots__ = ()

    def _find(self, k):
        if not issym(k) and not (type(k) is tuple and builtins.any(issym(x) for x in k)):
            if not any_symkey(self):
                return k if dict.__contains__(self, k) else _missing
        for q in dict.keys(self):
            if q is k:
                return q
        for q in list(dict.keys(self)):
            try:
                e = q == k
            except TypeError:
                continue
            if e is NotImplemented:
                continue
            if e if type(e) is bool else builtins.bool(e):
                return q
        return _missing

    def __getitem__(self, k):
        q = self._find(k)
        if q is _missing:
            raise KeyError(k)
        return dict.__getitem__(self, q)

    def get(self, k, d=None):
        q = self._find(k)
        return d if q is _missing else dict.__getitem__(self, q)

    def __contains__(self, k):
        return self._find(k) is not _missing

    def __setitem__(self, k, v):
        q = self._find(k)
        dict.__setitem__(self, k if q is _missing else q, v)

    def __delitem__(self, k):
        q = self._find(k)
        if q is _missing:
            raise KeyError(k)
        dict.__delitem__(self, q)

    def pop(self, k, *d):
        q = self._find(k)
        if q is _missing:
            if d:
                return d[0]
            raise KeyError(k)
        return dict.pop(self, q)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def update(self, *a, **k):
        for x in a:
            f = getattr(type(x), "_vc_parts", None)
            if f is not None:
                raise Unsupported("update with a symbolic dict")
            for kk in list(x.keys()):
                self[kk] = x[kk]
        for kk, v in k.items():
            self[kk] = v

    def copy(self):
        return SDict(dict.items(self))

    __hash__ = None


_missing = object()


class SMap(dict):
    """a dict as the list of its assignments (key, value), in order: for contracts that state which
    assignments are made (hooks["dictlog"])"""

    def __init__(self, log=None):
        dict.__init__(self)
        self.log = SList() if log is None else log

    def __setitem__(self, k, v):
        self.log.append((k, v))

    def update(self, *a, **k):
        for x in a:
            if type(x) is SMap:
                self.log.extend(x.log)
            elif isinstance(x, dict):
                for kk in list(dict.keys(x)):
                    self[kk] = x[kk]
            else:
                raise Unsupported("update")
        for kk, v in k.items():
            self[kk] = v

    def _no(self, *a, **k):
        raise Unsupported("reading a dict that is known by its assignments only")

    def _keys(self):
        return lib.listcomp(self.items(), [], lambda e: e[0], "keys")

    def _vc_contains(self, k):
        return in_(k, self._keys())

    def __delitem__(self, k):
        if not R.fork(term(b_bool(in_(k, self._keys())), z3.BoolSort())):
            raise KeyError(k)
        self.log = lib.listcomp(self.items(), [lambda e: not_(e[0] == k)], lambda e: e, "del")

    __getitem__ = __contains__ = __len__ = __iter__ = __bool__ = __eq__ = __ne__ = _no
    get = pop = setdefault = clear = popitem = _no

    def items(self):
        """the entries: the assignments, if no key was assigned twice (an obligation)"""
        ps = parts_of(self.log)
        if ps is None or len(ps) != 1 or not isinstance(ps[0], Many):
            raise Unsupported("reading a dict that is known by its assignments only")
        i, j = R.fresh("entry", z3.IntSort()), R.fresh("entry", z3.IntSort())
        one = [guarded(ps[0].fn(x)) for x in (i, j)]
        n = term(ps[0].n)
        out = [z3.And(g, h, term(v[0]) == term(w[0])) for g, v in one[0] for h, w in one[1]]
        if builtins.any(type(p) is Many for p in ps[0].fn(i)):
            raise Unsupported("a dict of this form")
        R.prove("no key of the dict is assigned twice", z3.Not(z3.And(0 <= i, i < j, j < n, z3.Or(*out))))
        return SList(parts=ps)

    def keys(self):
        return listcomp("keys", self.items(), [], lambda e: e[0])

    def values(self):
        return listcomp("values", self.items(), [], lambda e: e[1])

    __hash__ = None
    _vc_track = True


def dictlog():
    return R is not None and R.hooks.get("dictlog")


def any_symkey(d):
    return builtins.any(type(k) is SStr for k in dict.keys(d))


# ------------------------------------------------------------------------------ rewritten operators


def mklist(xs):
    if R is None:
        return SList(xs)
    ps = parts_of(xs)
    return SList(parts=ps) if ps is not None else SList(xs)


def mkdict(*pairs):
    d = SMap() if dictlog() else SDict()
    for k, v in pairs:
        d[k] = v
    return d


def mergedict(*parts):
    d = SMap() if dictlog() else SDict()
    for f, k, v in parts:
        if f is None and type(d) is SMap:
            d.update(v)
        elif f is None:
            if hasattr(type(v), "_vc_parts"):
                raise Unsupported("** of a symbolic dict")
            for kk in list(v.keys()):
                d[kk] = v[kk]
        else:
            d[k] = v
    return d


def star(x):
    if R is not None and parts_of(x) is not None:
        return (SymStar(x),)
    if type(x) is SymGen:
        return (SymStar(b_list(x)),)
    return x


def is_(a, b):
    if R is None:
        return a is b
    ta, tb = type(a), type(b)
    if ta is Poison or tb is Poison:
        POISON._no()
    if a is b:
        return True
    f = getattr(ta, "_vc_is", None) or getattr(tb, "_vc_is", None)
    if f is not None:
        return f(a, b)
    if ta is SVal or tb is SVal:
        if a is None or b is None or (ta is SVal and tb is SVal):
            return wrap(term(a, Val) == term(b, Val))
        return False if ta not in _symtypes or tb not in _symtypes else wrap(term(a, Val) == term(b, Val))
    if ta is SBool or tb is SBool:
        if isb(a) and isb(b):
            return wrap(term(a) == term(b))
    for T, py in ((SInt, int), (SStr, str), (SBits, int)):
        if T in (ta, tb) and {ta, tb} <= {T, py}:
            raise Unsupported("identity of numbers or texts: equal ones need not be the same object")
    if ta in _symtypes and tb in _symtypes and ta is tb:
        return wrap(a.t == b.t)
    return False


def is_not(a, b):
    return not_(is_(a, b))


def not_(x):
    if type(x) is SBool:
        return wrap(z3.Not(x.t))
    return not x


def in_(x, c):
    if R is None:
        return x in c
    f = getattr(type(c), "_vc_contains", None)
    if f is not None:
        return f(c, x)
    if isinstance(c, SSeq) or (type(c) is SList and c.p is not None):
        if type(x) in (SStr, str):
            try:
                ws = straight(lambda c: list(elements(parts_of(c))), c)
            except Unsupported:
                ws = None
            if ws is not None and builtins.all(t.sort() == z3.StringSort() for _, _, t in ws):
                return wrap(z3.Or(*[z3.Exists(vs, z3.And(g, t == term(x))) if vs else z3.And(g, t == term(x)) for vs, g, t in ws]))
        return lib.contains(x, c)
    if type(c) in (SList, list, tuple):
        if type(c) is tuple and parts_of(c) is not None:
            return lib.contains(x, c)
        if issym(x) or builtins.any(issym(e) for e in list.__iter__(c) if True) if isinstance(c, list) else (issym(x) or builtins.any(issym(e) for e in c)):
            ts = []
            for e in (list.__iter__(c) if isinstance(c, list) else c):
                r = True if e is x else (e == x)
                if type(r) is SBool:
                    ts.append(r.t)
                elif r is not NotImplemented and r:
                    return True
            return wrap(z3.Or(*ts)) if ts else False
        return list.__contains__(c, x) if isinstance(c, list) else x in c
    if issym(x) and isinstance(c, range):
        return wrap(z3.And(term(x, z3.IntSort()) >= c.start, term(x, z3.IntSort()) < c.stop)) if c.step == 1 else _uns("range step")
    if type(c) is SStr or (type(x) is SStr and isinstance(c, str)):
        return wrap(z3.Contains(term(c), term(x)))
    if isinstance(c, dict) and type(c) is not SDict and issym(x):
        for k in c:
            if k == x:
                return True
        return False
    if isinstance(c, (set, frozenset)) and (issym(x)):
        for k in c:
            if k == x:
                return True
        return False
    if type(c) is SVal:
        return wrap(z3.Function("py_in", Val, Val, z3.BoolSort())(term(x, Val), c.t))
    return x in c


def _uns(m):
    raise Unsupported(m)


def not_in(x, c):
    return not_(in_(x, c))


def fstr(*parts):
    out = ""
    for p in parts:
        if type(p) is not tuple:
            out = out + p
            continue
        v, conv, spec = p
        if R is not None and (type(v) in (SStr, SInt, SVal, SBool) or isinstance(v, Poison) or hasattr(type(v), "_vc_str") or parts_of(v) is not None):
            if hasattr(type(v), "_vc_str"):
                out = out + v._vc_str()
            elif type(v) is SStr and conv in (-1, 115):
                out = out + v
            elif type(v) is SInt:
                out = out + SStr(z3.Function("str_int", z3.IntSort(), z3.StringSort())(v.t))
            else:
                out = out + SStr(z3.Function("str_val", Val, z3.StringSort())(term(v, Val) if issym(v) else z3.FreshConst(Val)))
            continue
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        elif conv == 97:
            v = ascii(v)
        try:
            out = out + format(v, spec)
        except Unsupported:
            out = out + SStr(R.fresh("fmt", z3.StringSort()))
        except TypeError:
            if R is None:
                raise
            out = out + SStr(R.fresh("fmt", z3.StringSort()))
    return out


def modfmt(f, args):
    if R is None:
        return f % args
    xs = args if type(args) is tuple else (args,)
    if not builtins.any(type(v) in _symtypes or isinstance(v, Poison) or hasattr(type(v), "_vc_str") or parts_of(v) is not None for v in xs):
        return f % args
    ps = f.split("%s")
    if len(ps) == len(xs) + 1 and "%" not in "".join(ps):
        out = [ps[0]]
        for v, q in zip(xs, ps[1:]):
            out += [(v, -1, ""), q]
        return fstr(*out)
    return SStr(R.fresh("fmt", z3.StringSort()))


def join(sep, *a, **k):
    """sep.join(a): of a text with symbolic parts"""
    if R is None or not isinstance(sep, (str, SStr)) or k or len(a) != 1:
        return sep.join(*a, **k)
    xs = a[0]
    if is_symiter(xs):
        h = R.hooks.get("join")
        if h is None:
            raise Unsupported("join of a symbolic list")
        return h(sep, b_list(xs))
    xs = list(xs)
    if type(sep) is not SStr and not builtins.any(type(x) is SStr for x in xs):
        return sep.join(xs)
    out = ""
    for n, x in enumerate(xs):
        if not isinstance(x, (str, SStr)):
            raise TypeError("sequence item: expected str instance")
        out = x if n == 0 else out + sep + x
    return out


class unpacking:
    def __init__(self, n, f):
        self.n, self.f = n, f

    def __call__(self, x):
        return self.f(*x)


def _native_iter(it):
    if isinstance(it, (SSeq, SymGen)):
        raise Unsupported("symbolic iterable")
    return it


def listcomp(where, it, conds, f):
    if R is not None and (is_symiter(it)):
        h = getattr(type(it), "_vc_listcomp", None)
        r = h(it, conds, f) if h is not None else None
        if r is not None:
            return r
        return lib.listcomp(it, conds, f, where)
    out = SList()
    for x in it:
        if builtins.all(c(x) for c in conds):
            out.append(f(x))
    return out


def setcomp(where, it, conds, f):
    if R is not None and (is_symiter(it)):
        mark = object()
        if f(mark) is not mark:
            raise Unsupported("set over a symbolic iterable")
        return SSet(lib.listcomp(it, conds, f, where).norm())  # distinct if the iterable's elements are
    out = set()
    for x in it:
        if builtins.all(c(x) for c in conds):
            out.add(f(x))
    return out


def genexp(where, it, conds, f):
    if R is not None and is_symiter(it):
        return SymGen(where, it, conds, f)
    return (f(x) for x in it if builtins.all(c(x) for c in conds))


def dictcomp(where, it, conds, kf, vf):
    if R is not None and is_symiter(it):
        h = getattr(type(it), "_vc_dictcomp", None)
        if h is not None and (not conds or getattr(type(it), "_vc_dictcomp_conds", False)):
            return h(it, kf, vf, *([conds] if conds else []))
        if dictlog():
            return SMap(lib.listcomp(it, conds, lambda x: (kf(x), vf(x)), where))
        raise Unsupported("dict over a symbolic iterable")
    out = SMap() if dictlog() else SDict()
    for x in it:
        if builtins.all(c(x) for c in conds):
            out[kf(x)] = vf(x)
    return out


def fromkeys(o, it, v=None):
    if R is not None and o is dict and is_symiter(it):
        return dictcomp("fromkeys", it, (), lambda k: k, lambda k: v)
    if R is None or o is not dict:
        return o.fromkeys(it, v)
    d = SDict()
    for k in it:
        d[k] = v
    return d


def is_symiter(x):
    if type(x) is SymGen:
        return True
    if isinstance(x, types.GeneratorType) and R is not None and x.gi_code in R.ex.collect:
        return True
    return parts_of(x) is not None


# builtins ------------------------------------------------------------------------------------


def bi(name, f):
    if R is None or f is not getattr(builtins, name):
        return f
    return globals().get("b_" + name, f)


def b_len(x):
    f = getattr(type(x), "__symlen__", None)
    if f is not None:
        return f(x)
    if type(x) is tuple and parts_of(x) is not None:
        return symlen(parts_of(x))
    return len(x)


def b_range(*a):
    if builtins.any(issym(x) for x in a):
        if len(a) == 1:
            return SRange(0, a[0])
        if len(a) == 2:
            return SRange(a[0], a[1])
        raise Unsupported("range step")
    return range(*a)


def b_all(x):
    if type(x) is SymGen:
        return lib.all_gen(x)
    if parts_of(x) is not None:
        return lib.all_seq(x)
    return builtins.all(x)


def b_any(x):
    if type(x) is SymGen:
        h = getattr(type(x.it), "_vc_any", None)
        r = h(x.it, x.conds, x.f) if h is not None else None
        if r is not None:
            return r
        return lib.any_gen(x)
    if parts_of(x) is not None:
        return lib.any_seq(x)
    return builtins.any(x)


def b_sum(x, start=0):
    if type(x) is SymGen:
        return lib.sum_gen(x, start)
    if parts_of(x) is not None:
        return lib.sum_seq(x, start)
    return builtins.sum(x, start)


def b_list(x=()):
    if type(x) is SymGen:
        return lib.listcomp(x.it, x.conds, x.f, x.where)
    if hasattr(type(x), "_vc_list"):
        return x._vc_list()
    ps = parts_of(x)
    if ps is not None:
        return SList(parts=ps)
    if isinstance(x, types.GeneratorType):
        return lib.collect(x)
    return SList(x)


def b_set(x=()):
    """set(x): of a symbolic list the distinct elements in some order (an enumeration about which
    only that is known)"""
    if type(x) is SymGen:
        x = lib.listcomp(x.it, x.conds, x.f, x.where)
    if hasattr(type(x), "_vc_list"):
        x = x._vc_list()
        if hasattr(type(x), "_vc_list"):
            return x
    ps = parts_of(x)
    if ps is None:
        if type(x) is SSet:
            return x
        xs = list(x)
        if not builtins.any(issym(v) for v in xs):
            return set(xs)
        out = []
        for v in xs:
            if not builtins.any(builtins.bool(v == w) for w in out):
                out.append(v)
        return SSet([One(v) for v in out])
    if isinstance(x, SSet):
        return x
    leaves = list(elements(ps))
    if not leaves:
        return set()
    so = leaves[0][2].sort()
    if builtins.any(t.sort() != so for _, _, t in leaves):
        raise Unsupported("a set of elements of several sorts")
    n = R.fresh("set_size", z3.IntSort())
    at, pos, mem = fresh_fn("set_element", z3.IntSort(), so), fresh_fn("set_position", so, z3.IntSort()), fresh_fn("in_set", so, z3.BoolSort())
    k, v = z3.Int("set!k"), z3.Const("set!v", so)
    R.assume(n >= 0)
    R.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(pos(at(k)) == k, mem(at(k))))))
    R.assume(z3.ForAll([v], z3.Implies(mem(v), z3.And(0 <= pos(v), pos(v) < n, at(pos(v)) == v))))
    ways = []
    for vs, g, t in leaves:
        R.assume(z3.ForAll(vs, z3.Implies(g, mem(t))) if vs else z3.Implies(g, mem(t)))
        ways.append(z3.Exists(vs, z3.And(g, t == v)) if vs else z3.And(g, t == v))
    R.assume(z3.ForAll([v], z3.Implies(mem(v), z3.Or(*ways))))
    u = lambda i: wrap_const(at(i))
    return SSet([Many(n, lambda i: [One(u(i))], unit=u)])


def fresh_fn(name, a, b):
    """a function that is chosen anew here (in a loop: for every iteration)"""
    R.fresh(name, z3.BoolSort())  # counts the uses
    key = tuple(x.sexpr() for x in R.idx)
    f = z3.Function(f"{name}!{R.counters[(name, key)]}", *[z3.IntSort()] * len(R.idx), a, b)
    idx = list(R.idx)
    return lambda x: f(*idx, x)


def elements(ps, vs=(), g=(), d=0):
    """the kinds of elements: (variables, condition, term)"""
    for p in ps:
        if isinstance(p, One):
            yield list(vs), z3.And(*g), term(p.v)
        elif isinstance(p, If):
            yield from elements(p.parts, vs, (*g, p.cond), d)
        else:
            j = z3.Int(f"elt!{d}")
            yield from elements(p.fn(j), (*vs, j), (*g, 0 <= j, j < term(p.n)), d + 1)


def b_tuple(x=()):
    if hasattr(type(x), "_vc_list"):
        x = x._vc_list()
        if hasattr(type(x), "_vc_list"):
            return x
    ps = parts_of(x)
    if ps is not None or type(x) is SymGen:
        return (SymStar(b_list(x)),)
    return tuple(x)


def b_dict(*a, **k):
    if a and hasattr(type(a[0]), "_vc_copy"):
        return a[0]._vc_copy()
    d = SDict()
    if a:
        d.update(a[0]) if hasattr(a[0], "keys") else [d.__setitem__(x, y) for x, y in a[0]]
    d.update(k)
    return d


def b_min(*a, **k):
    if len(a) == 2 and not k and builtins.any(type(x) is SInt for x in a):
        x, y = (term(v, z3.IntSort()) for v in a)
        return wrap(z3.If(y < x, y, x))
    return builtins.min(*a, **k)


def b_max(*a, **k):
    if len(a) == 2 and not k and builtins.any(type(x) is SInt for x in a):
        x, y = (term(v, z3.IntSort()) for v in a)
        return wrap(z3.If(y > x, y, x))
    return builtins.max(*a, **k)


class _Key:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return builtins.bool(self.k < o.k)


def native_sorted(xs, key=None, reverse=False):
    return builtins.sorted(xs, key=lambda v: _Key(key(v) if key else v), reverse=reverse)


def b_sorted(x, key=None, reverse=False):
    if type(x) is SymGen:
        x = b_list(x)
    if parts_of(x) is not None:
        return R.sorted_contract(x, key, reverse)
    return SList(native_sorted(list(x), key, reverse))


class SEnum:
    def __init__(self, x, start=0):
        self.x, self.start = x, start

    def _vc_parts(self):
        ps = parts_of(self.x)
        off = term(self.start, z3.IntSort())
        out = []
        for q in ps:
            if isinstance(q, One):
                out.append(One((wrap(off), q.v)))
                off = z3.simplify(off + 1)
            elif isinstance(q, Many) and q.unit is not None:
                out.append(Many(q.n, lambda i, q=q, off=off: [One((wrap(off + i), q.unit(i)))], unit=lambda i, q=q, off=off: (wrap(off + i), q.unit(i))))
                off = z3.simplify(off + q.n)
            else:
                raise Unsupported("enumerate of a filtered sequence")
        return out


def b_enumerate(x, start=0):
    if parts_of(x) is not None:
        return SEnum(x, start)
    return enumerate(x, start)


class SZip:
    def __init__(self, xs):
        self.xs = xs

    def _vc_parts(self):
        pss = [parts_of(x) for x in self.xs]
        if builtins.any(p is None or len(p) != 1 or not isinstance(p[0], Many) or p[0].unit is None for p in pss):
            raise Unsupported("zip")
        n = pss[0][0].n
        for p in pss[1:]:
            n = z3.If(p[0].n < n, p[0].n, n)
        u = lambda i: tuple(p[0].unit(i) for p in pss)
        return [Many(z3.simplify(n), lambda i: [One(u(i))], unit=u)]


def b_zip(*xs):
    if builtins.any(parts_of(x) is not None for x in xs):
        return SZip(xs)
    return zip(*xs)


def b_bool(x=False):
    if type(x) is SBool:
        return x
    if type(x) is SInt:
        return wrap(x.t != 0)
    if type(x) is SVal:
        return wrap(truth(x.t))
    f = getattr(type(x), "_vc_bool", None)
    if f:
        return f(x)
    return bool(x)


def b_int(x=0, *a):
    if type(x) is SInt:
        return x
    if type(x) is SBool:
        return wrap(x._i())
    return int(x, *a)


def b_str(x=""):
    if issym(x) or hasattr(type(x), "_vc_str"):
        return fstr((x, -1, ""))
    return str(x)


def b_getattr(o, n, *d):
    f = getattr(type(o), "_vc_getattr", None)
    if f is not None and (issym(n) or not isinstance(n, str)):
        return f(o, n, *d)
    if type(n) is SStr:
        raise Unsupported("getattr with a symbolic name")
    h = getattr(type(o), "_vc_hasattr", None)
    if d and h is not None and not b_bool(h(o, n)):
        return d[0]
    return getattr(o, n, *d)


def b_hasattr(o, n):
    if type(o) in (SInt, SBool, SStr):
        return hasattr(0 if type(o) is SInt else "", n)
    if type(o) is SVal:
        raise Unsupported("hasattr of an arbitrary value")
    f = getattr(type(o), "_vc_hasattr", None)
    if f is not None:
        return f(o, n)
    if type(n) is SStr:
        raise Unsupported("hasattr with a symbolic name")
    return hasattr(o, n)


def b_setattr(o, n, v):
    f = getattr(type(o), "_vc_setattr", None)
    if f is not None:
        return f(o, n, v)
    if type(n) is SStr:
        raise Unsupported("setattr with a symbolic name")
    return setattr(o, n, v)


def b_delattr(o, n):
    f = getattr(type(o), "_vc_delattr", None)
    if f is not None:
        return f(o, n)
    if type(n) is SStr:
        raise Unsupported("delattr with a symbolic name")
    return delattr(o, n)


def b_isinstance(o, t):
    if type(o) is SVal:
        f = R.isinst.get(o.t.sexpr()) if R is not None else None
        if f is not None:
            return f(t)
        raise Unsupported("isinstance of an arbitrary value")
    if hasattr(type(o), "_vc_isinstance"):
        return o._vc_isinstance(t)
    return isinstance(o, t)


def b_callable(o):
    f = getattr(type(o), "_vc_callable", None)
    return f(o) if f is not None else callable(o)


def b_dir(*a):
    if a and hasattr(type(a[0]), "_vc_dir"):
        return a[0]._vc_dir()
    return SList(dir(*a))


def b_next(it, *d):
    return next(it, *d)


def b_abs(x):
    return abs(x)


# -------------------------------------------------------------------------------------- state


def _track(o):
    """is the object part of the heap the verifier looks at?"""
    ty = type(o)
    if ty in (SList, SDict):
        return True
    if ty in (int, str, bool, float, bytes, types.ModuleType, type) or o is None or ty in _symtypes or ty is Poison:
        return False
    if hasattr(ty, "_vc_track"):
        return True
    m = getattr(ty, "__module__", "") or ""
    return m.startswith("toffee") or m.startswith("vc.contracts") or m.startswith("bundle_code")


def own_dict(o):
    """the attributes of an object, also if its class puts something else in the place of __dict__"""
    for c in type(o).__mro__:
        d = c.__dict__.get("__dict__")
        if isinstance(d, types.GetSetDescriptorType):
            return d.__get__(o)
    return None


def tracked_module(m):
    return m.startswith("toffee") or m.startswith("vc.contracts") or m == "vc.lib" or m.startswith("bundle_code")


def heap(roots):
    """location -> value for everything reachable; location -> owner"""
    locs, owner = {}, {}
    seen = {}
    todo = list(roots)  # (path, object)

    def visit(path, v):
        todo.append((path, v))

    while todo:
        path, o = todo.pop(0)
        ty = type(o)
        if ty in (int, str, bool, float, type(None)) or ty in _symtypes:
            continue
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if ty is tuple:
            for i, x in enumerate(o):
                visit(f"{path}({i})", x)
            continue
        if ty is types.MethodType:
            visit(path + ".self", o.__self__)
            continue
        if ty is types.FunctionType:
            m = getattr(o, "__module__", "") or ""
            if (m.startswith("toffee") or m.startswith("vc.contracts")) and o.__closure__:
                for n, c in zip(o.__code__.co_freevars, o.__closure__):
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    l = ("cell", f"{path}/{n}")
                    if id(c) not in seen:
                        seen[id(c)] = c
                        locs[l] = v
                        owner[l] = c
                        visit(f"{path}/{n}", v)
            continue
        if not _track(o):
            continue
        if ty is SList:
            l = ("list", path)
            locs[l] = list(o.p) if o.p is not None else [One(v) for v in list.__iter__(o)]
            owner[l] = o
            for i, q in enumerate(locs[l]):
                if isinstance(q, One):
                    visit(f"{path}[{i}]", q.v)
            continue
        if isinstance(o, dict):
            l = ("keys", path)
            locs[l] = list(dict.keys(o))
            owner[l] = o
            for i, k in enumerate(dict.keys(o)):
                v = dict.__getitem__(o, k)
                kl = ("item", path, i)
                locs[kl] = v
                owner[kl] = (o, k)
                visit(f"{path}<{i}>", v)
                if not issym(k):
                    visit(f"{path}<k{i}>", k)
        if hasattr(ty, "_vc_state"):
            l = ("state", path)
            locs[l] = o._vc_get_state()
            owner[l] = o
            continue
        d = own_dict(o)
        if isinstance(d, dict) and ty is not type:
            for k in list(d):
                if k.startswith("_vcx"):
                    continue
                l = ("attr", path, k)
                locs[l] = d[k]
                owner[l] = (o, k)
                visit(f"{path}.{k}", d[k])
            l = ("attrs", path)
            locs[l] = list(d)
            owner[l] = o
    return locs, owner


def same(a, b):
    if a is b:
        return True
    if issym(a) and issym(b):
        return type(a) is type(b) and a.t.eq(b.t)
    if issym(a) or issym(b):
        return False
    if type(a) is type(b) and type(a) in (int, str, bool, float):
        return a == b
    if type(a) is list and type(b) is list:
        return len(a) == len(b) and builtins.all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, One) and isinstance(b, One):
        return same(a.v, b.v)
    if isinstance(a, If) and isinstance(b, If):
        return a.cond.eq(b.cond) and same(a.parts, b.parts)
    if isinstance(a, Many) and isinstance(b, Many):
        j = z3.Int("same!j")
        return term(a.n).eq(term(b.n)) and same(a.fn(j), b.fn(j))
    if type(a) is SList and type(b) is SList:
        return same(a.norm(), b.norm())
    if type(a) is SDict and type(b) is SDict:
        return same(list(dict.items(a)), list(dict.items(b)))
    if getattr(type(a), "_vc_data", False) and type(a) is type(b):
        return same(list(a.__dict__.items()), list(b.__dict__.items()))
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return builtins.all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


class HList:
    """the arbitrary contents of a list at a loop head"""

    def __init__(self, tag):
        self.tag = tag


def _ment(t, consts, funs):
    return builtins.any(P._contains(t, c) for c in consts) or builtins.any(uses(t, f) for f in funs)


def mentions(o, consts, funs=(), depth=0, seen=None):
    """does a value mention one of the z3 constants?"""
    seen = seen if seen is not None else set()
    if isinstance(o, z3.ExprRef):
        return _ment(o, consts, funs)
    if issym(o):
        return _ment(o.t, consts, funs)
    if id(o) in seen or depth > 12:
        return False
    seen.add(id(o))
    ty = type(o)
    if ty in (int, str, bool, float, type(None)):
        return False
    if ty is SList and o.p is not None:
        return builtins.any(mentions(q, consts, funs, depth + 1, seen) for q in o.p)
    if isinstance(o, One):
        return mentions(o.v, consts, funs, depth + 1, seen)
    if isinstance(o, If):
        return mentions(o.cond, consts, funs) or builtins.any(mentions(q, consts, funs, depth + 1, seen) for q in o.parts)
    if isinstance(o, Many):
        j = z3.Int("mention!j")
        return mentions(term(o.n), consts, funs) or builtins.any(mentions(q, consts, funs, depth + 1, seen) for q in o.fn(j))
    if ty in (tuple, list, SList):
        return builtins.any(mentions(x, consts, funs, depth + 1, seen) for x in o)
    if ty is SSeq or ty is SRange:
        j = z3.Int("mention!j")
        return mentions(o.n, consts, funs) or mentions(o.elt(j), consts, funs, depth + 1, seen)
    if isinstance(o, dict):
        return builtins.any(mentions(v, consts, funs, depth + 1, seen) for v in dict.values(o)) or builtins.any(mentions(k, consts, funs, depth + 1, seen) for k in dict.keys(o))
    if ty is types.FunctionType:
        for c in o.__closure__ or ():
            try:
                if mentions(c.cell_contents, consts, funs, depth + 1, seen):
                    return True
            except ValueError:
                pass
        return False
    if ty is types.MethodType:
        return mentions(o.__self__, consts, funs, depth + 1, seen)
    d = getattr(o, "__dict__", None)
    if isinstance(d, dict) and not isinstance(o, (type, types.ModuleType)):
        return builtins.any(mentions(v, consts, funs, depth + 1, seen) for v in d.values())
    return False


def subst(o, pairs, depth=0):
    """replace constants in a value (data only)"""
    if isinstance(pairs, list):
        pairs = Subst(pairs)
    if isinstance(o, z3.ExprRef):
        return pairs(o)
    if issym(o):
        return wrap(pairs(o.t))
    ty = type(o)
    if ty in (int, str, bool, float, type(None)) or depth > 12:
        return o
    if isinstance(o, One):
        return One(subst(o.v, pairs, depth + 1))
    if isinstance(o, If):
        return If(subst(o.cond, pairs), [subst(q, pairs, depth + 1) for q in o.parts])
    if isinstance(o, Many):
        return Many(subst(term(o.n), pairs), lambda i, o=o: [subst(q, pairs, depth + 1) for q in o.fn(i)], unit=None if o.unit is None else (lambda i, o=o: subst(o.unit(i), pairs, depth + 1)), name=o.name)
    if not mentions(o, [p[0] for p in pairs.consts], [f[0] for f in pairs.funs]):
        return o
    if ty is tuple:
        return tuple(subst(x, pairs, depth + 1) for x in o)
    if ty is SList:
        return SList(parts=[subst(q, pairs, depth + 1) for q in o.norm()])
    if ty is SSeq or ty is SRange:
        return SSeq(subst(o.n, pairs), lambda i: subst(o.elt(i), pairs, depth + 1), o.name)
    if ty is SDict:
        return SDict([(subst(k, pairs, depth + 1), subst(v, pairs, depth + 1)) for k, v in dict.items(o)])
    if getattr(ty, "_vc_data", False):
        c = copy.copy(o)
        for k, v in list(o.__dict__.items()):
            c.__dict__[k] = subst(v, pairs, depth + 1)
        return c
    if ty is types.MethodType:
        return types.MethodType(o.__func__, subst(o.__self__, pairs, depth + 1))
    raise Unsupported(f"a {ty.__name__} made in an iteration of a cut loop outlives it")


# --------------------------------------------------------------------------------------- loops


def loop(where, names, it):
    if R is None:
        return PlainLoop(where, names, it)
    return R.make_loop(where, names, it, sys._getframe(1))


def wloop(where, names):
    if R is None:
        return PlainLoop(where, names, None)
    return WLoop(R, where, names, sys._getframe(1))


class PlainLoop:
    def __init__(self, where, names, it):
        self.names, self.it = names, it
        self.frame = sys._getframe(2)

    def __iter__(self):
        if self.it is None:
            while True:
                yield None
        else:
            yield from self.it

    def _cur(self):
        if not self.names:
            return ()
        l = self.frame.f_locals
        return tuple(local(l, n) for n in self.names)

    def pre(self):
        return self._cur()

    exit = pre

    def brk(self):
        pass

    ret = cond_false = brk


def local(l, n):
    if n in l:
        return l[n]
    if n.startswith("__"):
        for k in l:
            if k.endswith(n) and k.startswith("_"):
                return l[k]
    return POISON


class Loop:
    """a for loop during verification"""

    def __init__(self, run, where, names, it, frame):
        self.r, self.where, self.names, self.it, self.frame = run, where, names, it, frame
        self.pending = {}
        self.cuts = []  # active cuts: (key, mode, idx)

    def cur(self):
        if not self.names:
            return ()
        l = self.frame.f_locals
        return tuple(local(l, n) for n in self.names)

    def pre(self):
        c = list(self.cur())
        for k, n in enumerate(self.names):
            if n in self.pending:
                c[k] = self.pending[n]
        self.pending = {}
        return tuple(c)

    exit = pre

    def brk(self):
        self.leave("break")

    def ret(self):
        self.leave("return")

    def cond_false(self):
        self.leave("cond")

    def leave(self, kind):
        for key, mode, cut in reversed(self.cuts):
            if mode == "body":
                raise PathEnd("leave", key, kind)
            if mode == "step":
                raise PathEnd("killed")
        for _ in self.cuts:
            self.r.idx.pop()
        self.cuts = []

    def __iter__(self):
        it = self.it
        if isinstance(it, types.GeneratorType) and it.gi_code in self.r.ex.collect:
            it = lib.collect(it)
        if type(it) is SymGen:
            it = b_list(it)
        ps = parts_of(it)
        if ps is None:
            for x in it:
                yield x
            return
        for q in ps:
            yield from self.part(q)

    def part(self, q):
        if isinstance(q, One):
            yield q.v
        elif isinstance(q, If):
            if self.r.fork(q.cond):
                for p in q.parts:
                    yield from self.part(p)
        elif isinstance(q, Many):
            yield from self.cut(term(q.n, z3.IntSort()), q.fn, q)
        else:
            raise Unsupported("iteration over a list inside the loop that extends it")

    def cut(self, n, fn, q=None):
        r = self.r
        if self.frame.f_code.co_flags & 0x20 and self.frame.f_code not in r.ex.collect:  # generator
            r.ex.collect.add(self.frame.f_code)
            raise Restart()
        st = CutState(self, n)
        mode = r.choose_loop(st)
        if mode == "exit":
            st.assign(n)
            r.assume(n >= 0) if n is not None else None
            st.assume_previous(n)
            return
        i = st.index
        r.idx.append(i)
        self.cuts.append((st.key, mode, st))
        r.assume(i >= 0)
        r.assume(i < n)
        st.begin(mode)
        for p in fn(i):
            yield from self.part(p)
        st.finish(mode)  # never returns

    def locals(self):
        l = self.frame.f_locals
        return {n: self.pending.get(n, local(l, n)) for n in self.names}


class WLoop(Loop):
    def __init__(self, run, where, names, frame):
        super().__init__(run, where, names, None, frame)

    def __iter__(self):
        r = self.r
        key = (self.where, tuple(r.trail[: r.pos]))
        if key not in r.ex.cut_while:
            forks0 = r.twoway
            for count in range(500):
                if count >= 1 and r.twoway > forks0 and not r.hooks.get("unroll"):
                    r.ex.cut_while.add(key)
                    raise Restart()
                yield None
            raise Unsupported(f"{self.where}: 500 iterations")
        st = CutState(self, None)
        mode = r.choose_loop(st)
        if mode == "exit":
            raise PathEnd("killed")  # a while loop is left through its condition, break or return
        if mode == "leave" and r.idx:
            # the number of iterations of this loop is a function of the iteration of the loops around it
            st.at = r.fresh("left!" + self.where, z3.IntSort())
        i = st.at
        r.idx.append(i)
        self.cuts.append((st.key, mode, st))
        r.assume(i >= 0)
        st.begin(mode)
        progress = r.hooks.get("progress")
        v0 = progress() if progress and mode == "step" else None
        yield None
        if v0 is not None:
            s = r.ex.summaries[st.key]
            again = z3.BoolVal(True) if s.previous is None else z3.substitute(s.previous, (st.index, st.index + 1))
            r.prove(f"loop {self.where.rsplit(':', 1)[0]}: every iteration makes progress", z3.Or(progress() > v0, z3.Not(again)))
        st.finish(mode)


class CutState:
    """one cut of a loop: its state at the head and at the end of an iteration"""

    def __init__(self, loop, n):
        r = loop.r
        self.loop, self.n, self.r = loop, n, r
        self.key = (loop.where,) + tuple(r.trail[: r.pos])
        self.index = self.at = z3.Int(f"i!{r.ex.name_of(self.key)}")
        self.init, self.owner = self.snapshot()

    def snapshot(self):
        loop = self.loop
        roots = []
        loc = {("local", n): v for n, v in loop.locals().items()}
        for (_, n), v in loc.items():
            roots.append((f"L.{n}", v))
        f = loop.frame
        if not tracked_module(f.f_globals.get("__name__", "")):
            raise Unsupported("a loop in a module that is not tracked")
        depth = 0
        while f is not None and depth < 40:
            m = f.f_globals.get("__name__", "")
            if tracked_module(m):
                for n, v in f.f_locals.items():
                    if OWN.fullmatch(n) or isinstance(v, types.ModuleType):
                        continue
                    if f is loop.frame and ("local", n) in loc:
                        continue
                    roots.append((f"F{depth}.{n}", v))
            if f.f_code.co_name == "_vc_scenario_frame":
                break
            f = f.f_back
            depth += 1
        for n, v in self.r.roots:
            roots.append((f"R.{n}", v))
        for mn in sorted(k for k in sys.modules if k.startswith("toffee")):
            for n, v in vars(sys.modules[mn]).items():
                if type(v) in (SList, SDict):
                    roots.append((f"G.{mn}.{n}", v))
        locs, owner = heap(roots)
        locs.update(loc)
        return locs, owner

    # -- assignments
    def put(self, l, v):
        k = l[0]
        if k == "local":
            self.loop.pending[l[1]] = v
            return
        o = self.owner[l]
        if k == "attr":
            own_dict(o[0])[o[1]] = v
        elif k == "item":
            dict.__setitem__(o[0], o[1], v)
        elif k == "cell":
            o.cell_contents = v
        elif k == "list":
            o._set(v)
        elif k == "state":
            o._vc_set_state(v)
        else:
            raise Unsupported(f"change of {l} in a cut loop")

    def havoc(self, l):
        """fresh head value of a location"""
        v = self.init[l]
        nm = f"h!{self.r.ex.name_of(self.key)}!{self.r.ex.locname(l)}"
        if l[0] == "list":
            return [Opaque(nm)]
        if l[0] == "state":
            return self.owner[l]._vc_havoc(nm)
        kind = self.r.ex.kinds.get((self.key, l)) or sort_of(v)
        if kind is None:
            return POISON
        return wrap_const(z3.Const(nm, kind))

    def begin(self, mode):
        r = self.r
        if mode == "body":
            self.head = dict(self.init)
            for l in r.ex.havoc.get(self.key, ()):
                if l in self.init or l[0] == "local":
                    v = self.havoc(l)
                    self.put(l, v)
                    self.head[l] = v
        else:
            s = r.ex.summaries[self.key]
            self.assign(self.at)
            self.assume_previous(self.at)
            self.head = dict(self.init)
            for l in s.closed:
                self.head[l] = s.value(l, self.at, self)
        self.mark = len(r.pc)

    def finish(self, mode):
        r = self.r
        if mode == "leave":
            raise PathEnd("killed")
        # the state objects are those found at the head
        post = {}
        loc = self.loop.locals()
        for l in self.head:
            k = l[0]
            if k == "local":
                post[l] = loc[l[1]]
                continue
            o = self.owner[l]
            if k == "attr":
                post[l] = own_dict(o[0]).get(o[1], POISON)
            elif k == "item":
                post[l] = dict.__getitem__(o[0], o[1]) if dict.__contains__(o[0], o[1]) else POISON
            elif k == "cell":
                post[l] = o.cell_contents
            elif k == "list":
                post[l] = list(o.norm())
            elif k == "state":
                post[l] = o._vc_get_state()
            elif k == "keys":
                post[l] = list(dict.keys(o))
            elif k == "attrs":
                post[l] = list(own_dict(o))
        changed = {l: v for l, v in post.items() if not same(v, self.head[l])}
        raise PathEnd("next" if mode == "body" else "stepped", self.key, ([G(z3.simplify(t), k + self.mark in r.forks) for k, t in enumerate(r.pc[self.mark :])], changed, self))

    # -- the summary
    def assign(self, at):
        s = self.r.ex.summaries[self.key]
        for l in s.closed:
            self.put(l, s.value(l, at, self))
        for l in s.poison:
            self.put(l, POISON)

    def assume_previous(self, at):
        s = self.r.ex.summaries[self.key]
        if s.previous is not None:
            j = z3.Int(f"j!{self.r.ex.name_of(self.key)}")
            self.r.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < at), z3.substitute(s.previous, (self.index, j)))))


class HeadFn:
    """a field of a state object at the head of a cut loop: uninterpreted"""

    def __init__(self, decl):
        self.decl = decl

    def __call__(self, *xs):
        return self.decl(*xs)


class Store:
    """ghost heap: fields indexed by terms, e.g. the counts of all bins of all points"""

    _vc_state = True
    _vc_track = True

    def __init__(self):
        self.f, self.so = {}, {}

    def field(self, name, sorts, init):
        self.so[name] = list(sorts)
        self.f[name] = init

    def sorts(self, name):
        return self.so[name]

    def read(self, name, *xs):
        return z3.simplify(self.f[name](*xs))

    def write(self, name, xs, v):
        old = self.f[name]
        self.f = dict(self.f)
        self.f[name] = lambda *ys: z3.If(z3.And(*[a == b for a, b in zip(xs, ys)]) if len(xs) > 1 else xs[0] == ys[0], v, old(*ys)) if xs else v

    def _vc_get_state(self):
        return tuple(sorted(self.f.items()))

    def _vc_set_state(self, st):
        self.f = dict(st)

    def _vc_havoc(self, nm):
        out = []
        for n in sorted(self.f):
            v = self.f[n](*[z3.Const(f"a!{k}", so) for k, so in enumerate(self.so[n])])
            out.append((n, HeadFn(z3.Function(f"hS!{nm}!{n}", *self.so[n], v.sort()))))
        return tuple(out)


def sort_of(v):
    ty = type(v)
    if ty in (bool, SBool):
        return z3.BoolSort()
    if ty in (int, SInt):
        return z3.IntSort()
    if ty in (str, SStr):
        return z3.StringSort()
    if ty is SVal:
        return Val
    return None


def wrap_const(t):
    return {z3.BoolSort(): SBool, z3.IntSort(): SInt, z3.StringSort(): SStr, Val: SVal}[t.sort()](t)


class Summary:
    """closed forms of everything a cut loop changes"""

    def __init__(self):
        self.closed = {}  # location -> (kind, data)
        self.poison = []
        self.previous = None
        self.has_leave = False
        self.index = None
        self.init = None

    def value(self, l, at, st):
        kind, d = self.closed[l]
        if kind == "scalar":
            return wrap(z3.simplify(z3.substitute(d, (self.index, at))))
        if kind == "list":
            init, seg = d
            init = st.init[l]  # of this run: the parts are those of the list before the loop
            i = self.index
            return list(init) + [Many(at, lambda j: [subst(q, [(i, j)]) for q in seg], unit=(lambda j: subst(seg[0].v, [(i, j)])) if len(seg) == 1 and isinstance(seg[0], One) else None)]
        if kind == "state":
            return tuple((n, f(at)) for n, f in d)
        raise AssertionError(kind)


# ----------------------------------------------------------------------------------------- runs


class Run:
    def __init__(self, ex, trail):
        self.ex, self.trail, self.pos = ex, list(trail), 0
        self.pc = list(ex.base)
        self.twoway = 0
        self.forks = set()
        self.idx = []
        self.counters = {}
        self.roots = []
        self.obls = []
        self.isinst = {}
        self.analysis = any(isinstance(d, tuple) and d[0] == "loop" and d[2] == "body" for d in trail)
        self.trace = SList()
        self.roots.append(("trace", self.trace))
        self.notes = []
        self.nofork = False
        self.hooks = {}
        self.lens = {}

    # -- names and assumptions
    def root(self, name, o):
        self.roots.append((name, o))

    def fresh(self, name, sort):
        loopkeys = tuple(x.sexpr() for x in self.idx)
        c = self.counters.get((name, loopkeys), 0)
        self.counters[(name, loopkeys)] = c + 1
        base = f"{name}" + (f"!{c}" if c else "")
        if self.idx:
            base += "@" + ",".join(loopkeys)
            return z3.Function(base, *[z3.IntSort()] * len(self.idx), sort)(*self.idx)
        return z3.Const(base, sort)

    def assume(self, t):
        t = term(t) if not isinstance(t, z3.ExprRef) else t
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        self.pc.append(t)

    def valid(self, t):
        k = t.sexpr()
        c = self.ex.validcache.get((k, len(self.pc)))
        r, _ = P.check([f for f in self.pc if not P.has_quant(f)] + [z3.Not(t)], 1500)
        return r == z3.unsat

    def fork(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.nofork:
            raise Forked()
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            assert d[0] == "b", (d, "replay out of step")
            if not d[2]:
                self.twoway += 1
            self.forks.add(len(self.pc))
            self.pc.append(c if d[1] else z3.Not(c))
            return d[1]
        t = P.feasible(self.pc + [c])
        f = P.feasible(self.pc + [z3.simplify(z3.Not(c))])
        if not t and not f:
            raise PathEnd("infeasible")
        if t and f:
            self.ex.push(self.trail + [("b", False, False)])
            self.trail.append(("b", True, False))
            self.twoway += 1
            v = True
        else:
            v = t
            self.trail.append(("b", v, True))
        self.pos += 1
        if self.pos > self.ex.max_decisions:
            raise Unsupported("too many decisions on one path")
        self.forks.add(len(self.pc))
        self.pc.append(c if v else z3.Not(c))
        return v

    def concretize(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for k in range(0, 40):
            if self.valid(t == k):
                return k
        raise Unsupported(f"a concrete number is needed for {t}")

    # -- loops
    def make_loop(self, where, names, it, frame):
        return Loop(self, where, names, it, frame)

    def choose_loop(self, st):
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            assert d[0] == "loop", d
            self.pos += 1
            return d[2]
        if st.key not in self.ex.summaries:
            raise NeedLoop(st.key, tuple(self.trail))
        s = self.ex.summaries[st.key]
        if st.n is None:
            self.trail.append(("loop", st.loop.where, "leave"))
            self.pos += 1
            return "leave"
        if s.has_leave:
            self.ex.push(self.trail + [("loop", st.loop.where, "leave")])
        self.trail.append(("loop", st.loop.where, "exit"))
        self.pos += 1
        return "exit"

    def sum_(self, n, fn):
        """sum of fn(j) for 0 <= j < n: a function defined by recursion"""
        return self.ex.sum_term(self, n, fn)

    def pow2(self, t):
        return self.ex.pow2_term(self, t)

    def shr(self, a, k):
        h = self.hooks.get("shr")
        t = h(a, k) if h else None
        if t is not None:
            return t
        raise Unsupported("shift by a symbolic amount")

    def sorted_contract(self, xs, key, reverse):
        h = self.hooks.get("sorted")
        if h is None:
            raise Unsupported("sorted of a symbolic list")
        return h(xs, key, reverse)

    # -- obligations
    def prove(self, name, t, **info):
        if self.analysis:
            return
        t = z3.BoolVal(t) if isinstance(t, bool) else term(t) if not isinstance(t, z3.ExprRef) else t
        self.obls.append((name, list(self.pc), t, info))

    def fail(self, name, why=""):
        self.prove(name, z3.BoolVal(False), why=why)

    def log(self, *event):
        self.trace.append(tuple(event))


def stub_limit(e):
    """the code uses a stub in a way that its contract does not provide for (e.g. after a private
    function was renamed): nothing is known then"""
    if not isinstance(e, (AttributeError, TypeError, NameError, ImportError)):
        return None
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is not None and (tb.tb_frame.f_globals.get("__name__") or "").startswith("vc."):
        return "the contract does not fit the code"
    o = getattr(e, "obj", None)
    if o is not None and (type(o).__module__ or "").startswith("vc."):
        return "a stub does not provide it"
    if isinstance(o, type) and (o.__module__ or "").startswith("vc."):
        return "a stub class does not provide it"
    if isinstance(e, TypeError):
        words = set(re.findall(r"[A-Za-z_]\w*", str(e)))
        for mn, m in list(sys.modules.items()):
            if mn.startswith("vc.contracts."):
                for n, v in list(vars(m).items()):
                    if n in words and isinstance(v, type) and v.__module__ == mn:
                        return "a stub does not provide it"
    return None


class Explorer:
    """all paths of one scenario"""

    max_decisions = 400
    max_paths = 30000

    def __init__(self, name, scenario):
        self.name, self.scenario = name, scenario
        self.restarts = 0
        self.collect = set()
        self.cut_while = set()
        self.reset()

    def reset(self):
        self.base = []
        self.summaries = {}
        self.havoc = {}
        self.kinds = {}
        self.names = {}
        self.locnames = {}
        self.work = []
        self.paths = 0
        self.obls = []
        self.complete = []
        self.validcache = {}
        self.sums = {}
        self.axioms = []
        self.recs = {}
        self.loops = []

    def name_of(self, key):
        if key not in self.names:
            self.names[key] = f"{key[0].rsplit('.', 1)[-1].replace(':', '_')}#{len(self.names)}"
        return self.names[key]

    def locname(self, l):
        if l not in self.locnames:
            self.locnames[l] = f"{l[-1] if isinstance(l[-1], str) else l[0]}~{len(self.locnames)}"
        return self.locnames[l]

    def push(self, trail):
        self.work.append(trail)

    def run(self):
        while True:
            try:
                self.reset()
                self._explore_main()
                return self
            except Restart:
                self.restarts += 1
                if self.restarts > 60:
                    raise Unsupported("too many restarts")

    def _explore_main(self):
        for kind, data, run in self.explore([]):
            if kind == "done":
                self.complete.append(run)
                self.obls += run.obls
            elif kind == "raised":
                self.complete.append(run)
                self.obls += run.obls
                self.obls.append(("no exception leaves the contract", list(run.pc), z3.BoolVal(False), {"why": f"{type(data).__name__}: {data}"}))
            elif kind in ("killed",):
                self.obls += run.obls

    def explore(self, prefix):
        """outcomes of all paths that start with the decisions in prefix"""
        saved, self.work = self.work, [list(prefix)]
        out = []
        while self.work:
            trail = self.work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported("too many paths")
            run, kind, data = self.one(trail)
            if os.environ.get("VC_PATHS"):
                print(self.paths, kind, [(d[1] if d[0] == "b" else (d[1].rsplit(":")[-1] + d[2])) for d in run.trail if not (d[0] == "b" and d[2])])
            if kind == "needloop":
                key, tr = data
                self.summarize(key, tr)
                self.work.append(list(tr))
                continue
            if kind == "infeasible":
                continue
            out.append((kind, data, run))
        self.work = saved
        return out

    def one(self, trail):
        global R
        run = Run(self, trail)
        old, R = R, run
        try:
            self._vc_scenario_frame(run)
            return run, "done", None
        except PathEnd as e:
            return run, e.kind, (e.key, e.data)
        except NeedLoop as e:
            return run, "needloop", (e.key, e.loop)
        except (Unsupported, Restart):
            raise
        except Exception as e:
            import os, re, traceback

            if isinstance(e, TypeError) and re.search(r"\bS(Int|Bool|Str|Val|List|Dict|Seq|Set|Range|ymStar|ymGen)\b|\bPoison\b|integer is required|integer argument expected|must be (real|str|int|a number)", str(e)):
                raise Unsupported(f"a symbolic value where Python needs a concrete one: {e}") from e

            why = stub_limit(e)
            if why:
                raise Unsupported(f"{why}: {e}") from e
            if os.environ.get("VC_TB"):
                traceback.print_exc()
            return run, "raised", e
        finally:
            R = old

    def _vc_scenario_frame(self, run):
        self.scenario(run)

    # -- loop summaries
    def summarize(self, key, trail):
        where = key[0]
        pre = list(trail) + [("loop", where, "body")]
        self.havoc.setdefault(key, [])
        for _ in range(12):
            for k in [k for k in self.summaries if k[1 : len(pre) + 1] == tuple(pre)]:
                del self.summaries[k]  # summaries of inner loops depend on this loop's head
            outs = self.explore(pre)
            mine = [(d, run) for k, d, run in outs if k == "next" and d[0] == key]
            other = [(k, d, run) for k, d, run in outs if not (k == "next" and d[0] == key)]
            new = []
            for (k, (guards, changed, st)), run in mine:
                for l, v in changed.items():
                    if l not in self.havoc[key]:
                        if l not in new:
                            new.append(l)
                    # a location whose head kind cannot hold the value
                    s0 = self.kinds.get((key, l)) or (sort_of(st.init[l]) if l[0] not in ("list", "state", "keys", "attrs") else None)
                    s1 = sort_of(v) if l[0] not in ("list", "state", "keys", "attrs") else None
                    if s0 is not None and s1 is not None and s0 != s1:
                        s = z3.IntSort() if {s0.name(), s1.name()} == {"Int", "Bool"} else Val
                        if self.kinds.get((key, l)) != s:
                            self.kinds[(key, l)] = s
                            new.append(l) if l not in self.havoc[key] and l not in new else None
                            if l in self.havoc[key]:
                                new.append(None)
            if not new:
                break
            self.havoc[key] += [l for l in new if l is not None]
        else:
            raise Unsupported(f"{where}: the set of changed locations does not settle: {new}")
        self.build(key, mine, other)
        # the inductive step, as obligations
        s = self.summaries[key]
        steps = self.explore(list(trail) + [("loop", where, "step")])
        n = 0
        for k, d, run in steps:
            if k == "stepped" and d[0] == key:
                guards, changed, st = d[1]
                n += 1
                self.obls += run.obls if not run.analysis else []
                if run.analysis:
                    continue
                for l, (kind, _) in s.closed.items():
                    want = s.value(l, z3.simplify(st.index + 1), st)
                    got = changed.get(l, st.head[l])
                    self.obls.append((f"loop {where}: {self.locname(l)} keeps its closed form", list(run.pc), equal_value(run, got, want, kind, s, st.owner.get(l)), {"kind": "invariant"}))
                for l in changed:
                    if l not in s.closed and l not in s.poison:
                        self.obls.append((f"loop {where}: frame", list(run.pc), z3.BoolVal(False), {"kind": "invariant", "why": f"{l} changes"}))
            elif k in ("killed",):
                pass
        self.loops.append((where, len(s.closed), n))

    def build(self, key, mine, other):
        s = Summary()
        s.has_leave = any(k not in ("killed",) for k, d, r in other)
        if not mine:
            # no iteration ever reaches its end: only the first one can be left
            s.index = z3.Int(f"i!{self.name_of(key)}")
            s.previous = z3.BoolVal(False)
            self.summaries[key] = s
            return
        st = mine[0][0][1][2]
        i = s.index = st.index
        trans = [(ex_close(z3.simplify(z3.And(*[x.t for x in g])) if g else z3.BoolVal(True), [i] + list(run.idx[:-1])), ch, stt) for (k, (g, ch, stt)), run in mine]
        locs = self.havoc[key]
        scal, lists, states = [], [], []
        for l in locs:
            if l[0] == "list":
                lists.append(l)
            elif l[0] == "state":
                states.append(l)
            elif l[0] in ("keys", "attrs"):
                raise Unsupported(f"{key[0]}: a dictionary gets new keys in a cut loop")
            else:
                kind = self.kinds.get((key, l)) or sort_of(st.init.get(l))
                vals = [ch.get(l, stt.head[l]) for g, ch, stt in trans]
                if kind is None or any(sort_of(v) is None and v is not None or isinstance(v, Poison) for v in vals):
                    s.poison.append(l)
                elif any(v is None for v in vals) and kind != Val:
                    s.poison.append(l)
                elif any(issym(v) and foreign(v.t, [i] + list(mine[0][1].idx[:-1])) for v in vals):
                    s.poison.append(l)
                else:
                    scal.append((l, kind, vals))

        own = [i] + list(mine[0][1].idx[:-1])
        paths = [g for (k, (g, ch, stt)), run in mine]

        def merge(vals):
            t = decide([(g, v) for g, v in zip(paths, vals)], lambda a, b: a.eq(b), own)
            return z3.simplify(fold(t, lambda c, a, b: z3.If(c, a, b)))

        def same_again(l, kind, vals):
            """every way through the body gives the variable the value it has anyway"""
            h = st.head[l]
            if not issym(h) or any(v is not h and (v is None or P._contains(term(v, kind), h.t)) for v in vals) or all(v is h for v in vals):
                return False
            for v, g in zip(vals, paths):
                if v is h:
                    continue
                q = z3.Solver()
                q.set("rlimit", 300000)
                q.add(*[x.t for x in g], term(v, kind) != h.t)
                if q.check() != z3.unsat:
                    return False
            return True

        # unknowns: scalars and the fields of state objects
        heads, nexts, inits = {}, {}, {}
        for l, kind, vals in scal:
            heads[l] = st.head[l].t if issym(st.head[l]) else z3.Const(f"h!{self.name_of(key)}!{self.locname(l)}", kind)
            nexts[l] = heads[l] if same_again(l, kind, vals) else merge([term(v, kind) for v in vals])
            inits[l] = coerce(term(st.init[l]), kind)
        fheads, fargs, fnexts, finits = {}, {}, {}, {}
        for l in states:
            for k, (fname, hf) in enumerate(st.head[l]):
                u = (l, fname)
                fargs[u] = [z3.Const(f"a!{fname}!{n}", so) for n, so in enumerate(st.owner[l].sorts(fname))]
                fheads[u] = hf.decl
                vals = [dict(ch.get(l, stt.head[l]))[fname](*fargs[u]) for g, ch, stt in trans]
                fnexts[u] = raised(vals, paths, hf.decl(*fargs[u]), own) if z3.is_bool(vals[0]) else None
                if fnexts[u] is None:
                    fnexts[u] = merge(vals)
                finits[u] = dict(st.init[l])[fname]
        S = Subst()
        todo = list(heads) + list(fheads)
        fclosed = {}
        self.last_steps(s, key, st, trans, scal, heads, inits, fheads, paths, own, nexts, S, todo)
        while todo:
            progress = False
            for u in list(todo):
                sc = u in heads
                e = S(nexts[u] if sc else fnexts[u])
                deps = [m for m in todo if (m in heads and P._contains(e, heads[m])) or (m in fheads and uses(e, fheads[m]))]
                if any(m != u for m in deps):
                    continue
                if sc:
                    c = self.closed_scalar(key, u, e, heads[u], inits[u], i, bool(deps))
                    s.closed[u] = ("scalar", c)
                    S.consts.append((heads[u], c))
                else:
                    f = self.closed_field(key, u, e, fheads[u], fargs[u], finits[u], i, common([run for _, run in mine]))
                    fclosed[u] = f
                    S.funs.append((fheads[u], fargs[u], f(i)(*fargs[u])))
                todo.remove(u)
                progress = True
            if not progress:
                if any(u in fheads for u in todo):
                    import os

                    if os.environ.get("VC_TB"):
                        for u in todo:
                            print(u, "\n    ", S(nexts[u] if u in nexts else fnexts[u]))
                    raise Unsupported(f"{key[0]}: state and variables depend on each other")
                # mutual recursion: define the sequences by their recursion equations
                es = {l: S(nexts[l]) for l in todo}
                ps = params([e for e in es.values()] + [inits[l] for l in todo], [i] + [heads[l] for l in todo])
                fs = {l: z3.Function(f"rec!{self.name_of(key)}!{self.locname(l)}", *[q.sort() for q in ps], z3.IntSort(), heads[l].sort()) for l in todo}
                sub2 = [(heads[l], fs[l](*ps, i)) for l in todo]
                for l in todo:
                    self.define(fs[l], ps, i, inits[l], z3.substitute(es[l], *sub2))
                    s.closed[l] = ("scalar", fs[l](*ps, i))
                S.consts += sub2
                todo = []
        for l in states:
            s.closed[l] = ("state", [(n, fclosed[(l, n)]) for n, _ in st.head[l]])
        gs = [S(g) for g, _, _ in trans]
        for g in gs:
            if any(P._contains(g, h) for h in heads.values()):
                raise Unsupported(f"{key[0]}: guards depend on an unsummarised variable")
        prev = z3.simplify(z3.Or(*gs))
        s.previous = None if not s.has_leave else prev
        # lists: only appending
        for l in lists:
            segs = []
            for (g, ch, stt), gg in zip(trans, gs):
                head = stt.head[l]
                post = ch.get(l, head)
                if len(post) < len(head) or any(a is not b for a, b in zip(post, head)):
                    raise Unsupported(f"{key[0]}: a list is not only appended to")
                segs.append((gg, [S.value(q) for q in post[len(head) :]]))
            t = decide([([G(S(x.t), x.fork) for x in g], sg) for g, (_, sg) in zip(paths, segs)], lambda x, y: len(x) == len(y) and all(same_part(p, q) for p, q in zip(x, y)), own)
            seg = fold(t, lambda c, x, y: ([If(c, x)] if x else []) + ([If(z3.simplify(z3.Not(c)), y)] if y else []))
            s.closed[l] = ("list", (list(st.init[l]), seg))
        self.summaries[key] = s

    def last_steps(self, s, key, st, trans, scal, heads, inits, fheads, paths, own, nexts, S, todo):
        """Some ways through the body end the loop (no iteration follows: a flag is set): the scalars
        have the closed form of the other ways up to the iteration before."""
        i = st.index
        flags = [l for l, kind, vals in scal if kind == z3.BoolSort() and all(issym(v) or type(v) is bool for v in vals)]
        if not s.has_leave or not flags or len(paths) < 2:
            return
        vals = {l: [term(v, kind) for v in vs] for l, kind, vs in scal}
        guards = [g for g, _, _ in trans]
        if any(uses(z3.And(*g_and(guards, vals)), f) for f in fheads.values()):
            return
        final = []
        for p in range(len(paths)):
            to = [(heads[l], vals[l][p]) for l in heads] + [(i, i + 1)]
            final.append(unsat(z3.And(guards[p], z3.Or(*[z3.substitute(g, *to) for g in guards]))))
        if not any(final) or all(final):
            return
        stay = [p for p in range(len(paths)) if not final[p]]

        def merged(l, ps):
            t = decide([(paths[p], vals[l][p]) for p in ps], lambda a, b: a.eq(b), own)
            return z3.simplify(fold(t, lambda c, a, b: z3.If(c, a, b)))

        S1, rest, closed = Subst(), list(heads), {}
        while rest:
            for u in list(rest):
                e = S1(merged(u, stay))
                deps = [m for m in rest if P._contains(e, heads[m])]
                if any(m != u for m in deps):
                    continue
                closed[u] = self.closed_scalar(key, u, e, heads[u], inits[u], i, bool(deps))
                S1.consts.append((heads[u], closed[u]))
                rest.remove(u)
                break
            else:
                return
        for u in heads:
            e = z3.substitute(S1(merged(u, range(len(paths)))), (i, i - 1))
            c = z3.simplify(z3.If(i == 0, inits[u], e))
            s.closed[u] = ("scalar", c)
            S.consts.append((heads[u], c))
            todo.remove(u)

    def define(self, f, ps, i, v0, step):
        """f(ps, 0) = v0, f(ps, i+1) = step"""
        for e in (v0, step):
            if any(n.startswith("hS!") for n in P.fun_names(e)):
                raise Unsupported("recursion over the state of a cut loop")
        z = f(*ps, z3.IntVal(0)) == v0
        self.axioms.append((f.name(), z3.ForAll(ps, z) if ps else z))
        self.axioms.append((f.name(), z3.ForAll(ps + [i], z3.Implies(i >= 0, f(*ps, i + 1) == step))))

    def closed_field(self, key, u, e, decl, args, init, i, base):
        """the closed form of one field of a state object: index -> function of the arguments"""
        h = decl(*args)
        if e.eq(h):
            return lambda at: init
        pos = None
        for c, a in enumerate(args):
            if a.sort() == z3.IntSort() and P.prove([a != i], e == h, timeout=1500, rounds=1)[0] == "discharged":
                pos = c
                break
        if pos is None and z3.is_bool(h) and unsat(z3.Not(Subst([], [(decl, args, z3.BoolVal(True))])(e))):
            # only ever raised: raised before or in some iteration
            up = Subst([], [(decl, args, z3.BoolVal(False))])(e)
            j = z3.Int(f"u!{u[1]}")  # one name, so that equal summaries are the same term; never free
            up = z3.simplify(z3.substitute(up, (i, j)))
            out, inn = [], []
            for c in conjuncts(up):
                (inn if P._contains(c, j) else out).append(c)

            def ever(at, xs):
                s = lambda c: z3.substitute(c, *zip(args, xs))
                return z3.And(*map(s, out), z3.Exists([j], z3.And(0 <= j, j < at, *map(s, inn))))

            return lambda at: (lambda *xs: z3.Or(init(*xs), ever(at, xs)))
        if pos is None and not P.has_quant(e):
            # with what is assumed throughout (e.g. that names are distinct)
            for c, a in enumerate(args):
                if a.sort() == z3.IntSort() and P.prove(base + [a != i], e == h, timeout=1500, rounds=2)[0] == "discharged":
                    pos = c
                    break
        if pos is None:
            # written as a whole, the same in every iteration?
            if not P._contains(e, i) and not uses(e, decl):
                return lambda at: (lambda *xs: z3.If(at > 0, z3.substitute(e, *zip(args, xs)), init(*xs)))
            raise Unsupported(f"{key[0]}: {u[1]} is written at places that do not follow the loop: {e}")
        cell = z3.simplify(z3.substitute(e, (i, args[pos])))
        cell = Subst([], [(decl, args, init(*args))])(cell)

        def closed(at):
            def f(*xs):
                inside = z3.And(xs[pos] >= 0, xs[pos] < at)
                return z3.simplify(z3.If(inside, z3.substitute(cell, *zip(args, xs)), init(*xs)))

            return f

        return closed

    def closed_scalar(self, key, l, e, h, v0, i, selfdep):
        if not selfdep:
            return z3.simplify(z3.If(i == 0, v0, z3.substitute(e, (i, i - 1))))
        if e.eq(h):
            return v0
        if h.sort() == z3.IntSort():
            d = z3.simplify(e - h)
            if P._contains(d, h):
                d = push_add(e, h)
            if d is not None:
                if not P._contains(d, i):
                    return z3.simplify(v0 + d * i)
                return z3.simplify(v0 + self.sum_fn(d, i)(i))
        if h.sort() == z3.BoolSort():
            t = z3.simplify(z3.substitute(e, (h, z3.BoolVal(True))))
            f = z3.simplify(z3.substitute(e, (h, z3.BoolVal(False))))
            j = z3.Int(f"b!{self.name_of(key)}")
            rng = lambda x: z3.And(0 <= j, j < x)
            if unsat(f):
                return z3.And(v0, z3.ForAll([j], z3.Implies(rng(i), z3.substitute(t, (i, j)))))
            if unsat(z3.Not(t)):
                return z3.Or(v0, z3.Exists([j], z3.And(rng(i), z3.substitute(f, (i, j)))))
        (e, v0), back = lift([e, v0], [i, h])
        ps = params([e, v0], [i, h])
        formal = [z3.Const(f"rec!p{k}!{q.sort()}", q.sort()) for k, q in enumerate(ps)]
        x, y = z3.Int("rec!i"), z3.Const(f"rec!h!{h.sort()}", h.sort())
        e, v0 = (z3.simplify(z3.substitute(t, (i, x), (h, y), *zip(ps, formal))) for t in (e, v0))
        k = f"{v0.sexpr()}|{e.sexpr()}|" + ",".join(map(str, formal))
        if k not in self.recs:  # equal recursions share the function
            f = z3.Function(f"rec!{self.name_of(key)}!{self.locname(l)}", *[q.sort() for q in formal], z3.IntSort(), h.sort())
            self.define(f, formal, x, v0, z3.substitute(e, (y, f(*formal, x))))
            self.recs[k] = (f, formal, x, v0, e, y)
        f = self.recs[k][0]
        return f(*[z3.substitute(a, *back) if back else a for a in ps], i)

    # -- sums: S(0) = 0, S(i+1) = S(i) + d(i); equal summands share the function
    def sum_fn(self, d, i):
        x = z3.Int("sum!i")
        (d,), back = lift([d], [i])
        actual = params([d], [i])
        formal = [z3.Const(f"sum!p{k}!{q.sort()}", q.sort()) for k, q in enumerate(actual)]
        body = z3.simplify(z3.substitute(d, (i, x), *zip(actual, formal)))
        k = body.sexpr() + "|" + ",".join(str(q) for q in formal)
        if k not in self.sums:
            hit = None
            for f2, b2, fo2 in self.sums.values():
                if [str(q) for q in fo2] == [str(q) for q in formal] and not P.has_quant(body) and not P.has_quant(b2):
                    r, _ = P.check([x >= 0, body != b2], 1500)
                    if r == z3.unsat:
                        hit = (f2, b2, fo2)
                        break
            if hit is None:
                f = z3.Function(f"sum!{len(self.sums)}", *[q.sort() for q in formal], z3.IntSort(), z3.IntSort())
                hit = (f, body, formal)
                self.define(f, formal, x, z3.IntVal(0), f(*formal, x) + body)
                r, _ = P.check([x >= 0, body < 0], 500) if not P.has_quant(body) else (None, None)
                if r == z3.unsat:  # lemma by induction: a sum of non-negative numbers
                    self.axioms.append((f.name(), z3.ForAll(formal + [x], z3.Implies(x >= 0, f(*formal, x) >= 0))))
            self.sums[k] = hit
        f = self.sums[k][0]
        actual = [z3.substitute(a, *back) if back else a for a in actual]
        return lambda at: f(*actual, at)

    def sum_term(self, run, n, fn):
        self.depth = getattr(self, "depth", 0) + 1
        i = z3.Int(f"i!sum_arg{self.depth}")
        d = z3.simplify(fn(i))
        self.depth -= 1
        n = term(n)
        if z3.is_app(d) and d.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_ITE) and not P.has_quant(d) and P.check([d != 1], 500)[0] == z3.unsat:
            d = z3.IntVal(1)
        if z3.is_int_value(d):
            return z3.simplify(d * z3.If(n > 0, n, z3.IntVal(0)))
        return self.sum_fn(d, i)(n)

    def relevant(self, formulas):
        """the definitional axioms that the formulas need"""
        names, out, used = set(), [], set()
        for f in formulas:
            names |= P.fun_names(f)
        while True:
            more = [k for k, (n, f) in enumerate(self.axioms) if k not in used and n in names]
            if not more:
                return out
            for k in more:
                used.add(k)
                out.append(self.axioms[k][1])
                names |= P.fun_names(self.axioms[k][1])

    def pow2_term(self, run, t):
        """2**t by its recursion equations (and the lemma that it is positive, by induction)"""
        f = z3.Function("pow2", z3.IntSort(), z3.IntSort())
        if not builtins.any(n == "pow2" for n, _ in self.axioms):
            n = z3.Int("pow2!n")
            self.axioms.append(("pow2", f(0) == 1))
            self.axioms.append(("pow2", z3.ForAll([n], z3.Implies(n >= 0, f(n + 1) == 2 * f(n)))))
            self.axioms.append(("pow2", z3.ForAll([n], z3.Implies(n >= 0, f(n) >= 1))))
        return f(t)


def params(es, without):
    """loop indices and loop-head values that the terms mention, other than `without`"""
    out, seen = {}, set()
    todo = list(es)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name()[:2] in ("i!", "h!") and not any(x.eq(w) for w in without):
            out[x.sexpr()] = x
        todo.extend(x.children())
    return [out[k] for k in sorted(out)]


def lift(es, without):
    """Numbers that loops before have computed, as parameters: a loop whose sums or recursions start at
    the number that another loop has left is the same function of that number at every such place."""
    out, seen, todo = {}, set(), list(es)
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.sort() == z3.IntSort() and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(("sum!", "rec!")) and params([x], []) and not any(P._contains(x, w) for w in without):
            out.setdefault(x.sexpr(), x)
            continue
        todo.extend(x.children())
    pairs = [(x, z3.Int(f"h!lifted{k}")) for k, (_, x) in enumerate(sorted(out.items()))]
    return [z3.substitute(e, *pairs) if pairs else e for e in es], [(c, x) for x, c in pairs]


def foreign(e, own):
    """loop indices in e other than the given ones"""
    return [c for c in params([e], own) if c.decl().name().startswith("i!")]


def ex_close(e, own):
    cs = foreign(e, own)
    return z3.Exists(cs, e) if cs else e


class G:
    """a guard on a path: a decision, or something that a loop cut assumed"""

    __slots__ = ("t", "fork")

    def __init__(self, t, fork):
        self.t, self.fork = t, fork


def decide(items, eq, own, d=0):
    """decision tree over paths (guards in order, value): ('leaf', v) or ('node', cond, a, b)"""
    v0 = items[0][1]
    if all(eq(v0, v) for _, v in items[1:]):
        return ("leaf", v0)
    while all(len(g) > d for g, _ in items) and all(g[d].t.eq(items[0][0][d].t) for g, _ in items):
        d += 1
    groups = {}
    for g, v in items:
        groups.setdefault(g[d].t.sexpr() if len(g) > d else "", []).append((g, v))
    gl = list(groups.values())
    if len(gl) == 1:
        raise Unsupported("paths that cannot be told apart")
    if len(gl) == 2:
        a, b = gl
        ca, cb = (x[0][0][d].t if len(x[0][0]) > d else None for x in (a, b))
        if ca is not None and cb is not None and z3.simplify(z3.Not(ca)).eq(cb):
            return node(ca, decide(a, eq, own, d + 1), decide(b, eq, own, d + 1), eq)
        if ca is not None and cb is not None and z3.simplify(z3.Not(cb)).eq(ca):
            return node(cb, decide(b, eq, own, d + 1), decide(a, eq, own, d + 1), eq)

    def cond(grp):
        # what distinguishes the group: what its loop cut assumed, up to its first decision
        g = grp[0][0]
        e = d
        while e < len(g) and (not g[e].fork or e == d):
            e += 1
        while e < len(g) and foreign(z3.And(*[x.t for x in g[d:e]]) if e > d else z3.BoolVal(True), own) and all(len(h) > e and h[e].t.eq(g[e].t) for h, _ in grp):
            e += 1
        return z3.simplify(ex_close(z3.And(*[x.t for x in g[d:e]]) if e > d else z3.BoolVal(True), own))

    gl.sort(key=lambda grp: bool(foreign(cond(grp), own)) or any(foreign(x.t, own) for x in grp[0][0][d:]))
    t = decide(gl[-1], eq, own, d)
    for grp in reversed(gl[:-1]):
        t = node(cond(grp), decide(grp, eq, own, d), t, eq)
    return t


def conjuncts(e):
    """formulas whose conjunction is e; what both branches of a case distinction say is taken out"""
    if z3.is_and(e):
        return [x for c in e.children() for x in conjuncts(c)]
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        xs, ys = conjuncts(a), conjuncts(b)
        both = [x for x in xs if any(x.eq(y) for y in ys)]
        if both:
            rest = lambda l: z3.And(*[x for x in l if not any(x.eq(y) for y in both)])
            return both + [z3.If(c, rest(xs), rest(ys))]
    return [e]


def common(runs):
    """what all paths assume"""
    out = list(runs[0].pc)
    for run in runs[1:]:
        ids = {f.get_id() for f in run.pc}
        out = [f for f in out if f.get_id() in ids]
    return out


def raised(vals, paths, h, own):
    """the next value of a truth value that is only ever raised, at places that depend on inner
    indices (None if it is not like that)"""
    if not builtins.any(foreign(v, own) for v in vals) and not builtins.any(foreign(x.t, own) for g in paths for x in g):
        return None
    ups = []
    for v, g in zip(vals, paths):
        if not unsat(z3.Not(z3.substitute(v, (h, z3.BoolVal(True))))):
            return None
        ups.append(ex_close(z3.And(*[x.t for x in g], z3.simplify(z3.substitute(v, (h, z3.BoolVal(False))))), own))
    return z3.Or(h, *ups)


def node(c, a, b, eq):
    return a if tree_equal(a, b, eq) else ("node", c, a, b)


def tree_equal(a, b, eq):
    if a[0] != b[0]:
        return False
    if a[0] == "leaf":
        return eq(a[1], b[1])
    return a[1].eq(b[1]) and tree_equal(a[2], b[2], eq) and tree_equal(a[3], b[3], eq)


def fold(t, f):
    return t[1] if t[0] == "leaf" else f(t[1], fold(t[2], f), fold(t[3], f))


def uses(e, decl):
    return decl.name() in P.fun_names(e)


class Subst:
    """replacement of constants by terms and of functions by expressions"""

    def __init__(self, consts=(), funs=()):
        self.consts, self.funs = list(consts), list(funs)

    def __call__(self, e):
        for k in range(6):
            old = e
            if self.consts:
                e = z3.substitute(e, *self.consts)
            if self.funs:
                e = z3.substitute_funs(e, *[(d, z3.substitute(b, *[(a, z3.Var(n, a.sort())) for n, a in enumerate(args)])) for d, args, b in self.funs])
            if e.eq(old):
                break
        return z3.simplify(e)

    def value(self, o):
        return subst(o, self) if self.consts or self.funs else o


def g_and(guards, vals):
    return list(guards) + [v == v for vs in vals.values() for v in vs]


def push_add(e, h):
    """e == h + d with d free of h, looking through ite"""
    if e.eq(h):
        return z3.IntVal(0)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if P._contains(c, h):
            return None
        x, y = push_add(a, h), push_add(b, h)
        if x is None or y is None:
            return None
        return z3.If(c, x, y)
    d = z3.simplify(e - h)
    return None if P._contains(d, h) else d


def unsat(f):
    f = z3.simplify(f)
    if z3.is_false(f):
        return True
    return P.prove([f], z3.BoolVal(False), timeout=1500, rounds=1)[0] == "discharged"


def same_part(a, b):
    return same(a, b)


def equal_value(run, got, want, kind, s, owner=None):
    """formula: two values of a location are equal"""
    if kind == "scalar":
        a, b = term(got), term(want)
        if a.sort() != b.sort():
            so = z3.IntSort() if {a.sort().name(), b.sort().name()} == {"Int", "Bool"} else Val
            a, b = coerce(a, so), coerce(b, so)
        return a == b
    if kind == "list":
        # got = init ++ Many(i) ++ seg and want = init ++ Many(i+1), by construction; check the segment
        n = len(want) - 1
        seg = got[n + 1 :]
        i = run.idx[-1] if run.idx else None
        exp = want[-1].fn(s.index)
        return z3.And(*parts_equal(run, seg, exp)) if True else z3.BoolVal(False)
    if kind == "state":
        return state_equal(got, want, owner)
    raise AssertionError(kind)


def state_equal(a, b, owner):
    fs = []
    for (n, x), (m, y) in zip(a, b):
        xs = [z3.Const(f"state!{k}", so) for k, so in enumerate(owner.sorts(n))]
        u, v = x(*xs), y(*xs)
        fs.append(z3.ForAll(xs, u == v) if xs else u == v)
    return z3.And(*fs)


def parts_equal(run, a, b):
    """conditions under which two lists of parts have the same contents (sound, incomplete)"""
    fa, fb = guarded(a), guarded(b)
    # drop what is impossible on this path
    fa = [(g, v) for g, v in fa if not unsat(z3.And(*([g] + [p for p in run.pc if not P.has_quant(p)])))]
    fb = [(g, v) for g, v in fb if not unsat(z3.And(*([g] + [p for p in run.pc if not P.has_quant(p)])))]
    if len(fa) != len(fb):
        fa, fb = ([(g, v) for g, v in f if P.prove(run.pc, z3.Not(g), timeout=1500, rounds=1)[0] != "discharged"] for f in (fa, fb))
    if len(fa) != len(fb):
        return [z3.BoolVal(False)]
    out = []
    for (g, v), (h, w) in zip(fa, fb):
        out.append(g == h)
        out.append(z3.Implies(g, value_equal(v, w)))
    return out


def guarded(parts, g=None):
    out = []
    for p in parts:
        if isinstance(p, If):
            out += guarded(p.parts, p.cond if g is None else z3.And(g, p.cond))
        elif isinstance(p, One):
            out.append((z3.BoolVal(True) if g is None else g, p.v))
        else:
            out.append((z3.BoolVal(True) if g is None else g, p))
    return out


def value_equal(v, w):
    """formula: two data values are equal"""
    if v is w:
        return z3.BoolVal(True)
    if isinstance(v, Many) and isinstance(w, Many):
        j = z3.Int("many!j")
        a, b = guarded(v.fn(j)), guarded(w.fn(j))
        if len(a) != len(b):
            return z3.BoolVal(False)
        inner = z3.And(*[z3.And(g == h, z3.Implies(g, value_equal(x, y))) for (g, x), (h, y) in zip(a, b)])
        return z3.And(term(v.n) == term(w.n), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < term(v.n)), inner)))
    if type(v) is tuple and type(w) is tuple:
        return z3.And(*[value_equal(x, y) for x, y in zip(v, w)]) if len(v) == len(w) else z3.BoolVal(False)
    if getattr(type(v), "_vc_data", False) and type(v) is type(w):
        ks = set(v.__dict__) | set(w.__dict__)
        return z3.And(*[value_equal(v.__dict__.get(k), w.__dict__.get(k)) for k in sorted(ks)])
    if type(v) is SDict and type(w) is SDict:
        a, b = list(dict.items(v)), list(dict.items(w))
        if len(a) != len(b) or builtins.any(k is not m and not (type(k) is str and k == m) for (k, _), (m, _) in zip(a, b)):
            return z3.BoolVal(False)
        return z3.And(*[value_equal(x, y) for (_, x), (_, y) in zip(a, b)])
    if type(v) is SList and type(w) is SList:
        a, b = guarded(v.norm()), guarded(w.norm())
        return z3.And(*[z3.And(g == h, z3.Implies(g, value_equal(x, y))) for (g, x), (h, y) in zip(a, b)]) if len(a) == len(b) else z3.BoolVal(False)
    try:
        a, b = term(v), term(w)
    except Unsupported:
        return z3.BoolVal(type(v) in (str, int, bool) and v == w)
    if a.sort() != b.sort():
        return z3.BoolVal(False)
    return a == b


from . import lib  # noqa: E402  (instrumented library code)
