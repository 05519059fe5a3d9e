"""funcov.py: attributing functions to bins (mark_function)"""
from collections.abc import Callable as ABCCallable

from vc.api import *
from vc.contracts.ghost import Partial, ghost, patched
from toffee import funcov as fc

M = "toffee.funcov.CovGroup."
nbin, nfun, npat = z3.Const("number_of_bins", Int), z3.Const("number_of_functions", Int), z3.Const("number_of_patterns", Int)
bname, at_bin = fn("bin_name", Int, Str), fn("position_of_bin", Str, Int)
pat = fn("pattern", Int, Str)
strip = fn("str_strip", Str, Str)
glob, rex = fn("matches_wildcard", Str, Str, Bool), fn("matches_expression", Str, Str, Bool)
fstr_, fname, full = fn("given_by_name", Int, Bool), fn("given_name", Int, Str), fn("full_name", Int, Str)
HAS0, F0 = fn("marked_before", Str, Bool), fn("function_before", Str, Str, Bool)


def rng(x, n):
    return And(0 <= x, x < n)


class Bins(SSeq):
    """the names of the bins of the point (the keys of a dictionary: distinct)"""

    def __init__(self):
        super().__init__(nbin, lambda b: SStr(bname(b)))

    def _vc_contains(self, x):
        k = at_bin(term(x, Str))
        return wrap(And(rng(k, nbin), bname(k) == term(x, Str)))

    def _vc_list(self):
        return self

    def keys(self):
        return self

    def items(self):
        return SSeq(nbin, lambda b: (SStr(bname(b)), None))


class Fns:
    """the set of functions recorded for a bin"""

    _vc_data = True

    def __init__(self, b):
        self.b = b

    def add(self, v):
        if type(v) is Fn:
            v = v._name()
        g = ghost()
        g.st.write("fns", [self.b, term(v, Str)], BoolVal(True))

    def update(self, vs):
        for v in vs:
            self.add(v)


class Functions:
    """point["functions"]"""

    _vc_data = True

    def _vc_contains(self, b):
        return wrap(ghost().st.read("has", term(b, Str)))

    def __getitem__(self, b):
        if not self._vc_contains(b):
            raise KeyError(b)
        return Fns(term(b, Str))

    def get(self, b, d=None):
        return Fns(term(b, Str)) if self._vc_contains(b) else d

    def setdefault(self, b, d=None):
        if not self._vc_contains(b):
            self[b] = d
        return Fns(term(b, Str))

    def __setitem__(self, b, v):
        g = ghost()
        t = term(b, Str)
        if isinstance(v, set) and not v:
            # no entry: no functions (an entry is needed to add one, and none is removed)
            if self._vc_contains(b):
                old = g.st.f["fns"]
                g.st.f = dict(g.st.f)
                g.st.f["fns"] = lambda x, y: And(x != t, old(x, y))
        elif type(v) is Fns and v.b.eq(t):
            pass
        else:
            raise Unsupported("the functions of a bin are set to something else")
        g.st.write("has", [t], BoolVal(True))


class Fn:
    """function i of the given list: a callable or a name"""

    _vc_data = True

    def __init__(self, i):
        self.i = i

    def _vc_isinstance(self, t):
        ts = t if isinstance(t, tuple) else (t,)
        out = []
        for x in ts:
            if x is str:
                out.append(fstr_(self.i))
            elif x is ABCCallable or getattr(x, "__origin__", None) is ABCCallable:
                out.append(Not(fstr_(self.i)))
            elif x not in (list, tuple, set, dict):
                raise Unsupported(f"isinstance(function, {x})")
        return wrap(Or(BoolVal(False), *out))

    def _vc_callable(self):
        return wrap(Not(fstr_(self.i)))

    def _name(self):
        if not rt.R.fork(fstr_(self.i)):
            raise Unsupported("a function object is recorded")
        return SStr(fname(self.i))


def full_name(f):
    if type(f) is not Fn:
        raise Unsupported("the name of something else")
    if rt.R.fork(fstr_(f.i)):
        raise ValueError("func must be a callable object")
    return SStr(full(f.i))


class G:
    """the ghost state: what is recorded"""

    _vc_track = True

    def __init__(self):
        self.st = rt.Store()
        self.st.field("has", [Str], lambda b: HAS0(b))
        self.st.field("fns", [Str, Str], lambda b, f: F0(b, f))
        self.point = {"bins": Bins(), "functions": Functions()}


class Rex:
    """re, compiled: whether a bin name matches is uninterpreted"""

    _vc_data = True

    def __init__(self, p):
        self.p = term(p, Str)

    def match(self, b, *a, **k):
        return wrap(rex(term(b, Str), self.p))


class Re(metaclass=Partial):
    @staticmethod
    def compile(p, *a):
        return Rex(p)

    @staticmethod
    def match(p, b, *a):
        return Rex(p).match(b)


class Fnm(metaclass=Partial):
    @staticmethod
    def fnmatch(b, p):
        return wrap(glob(term(b, Str), term(p, Str)))


def selects(p, b):
    """pattern p selects bin b"""
    s, n = strip(pat(p)), bname(b)
    is_name = And(rng(at_bin(s), nbin), bname(at_bin(s)) == s)
    wild = Or(z3.Contains(s, z3.StringVal("*")), z3.Contains(s, z3.StringVal("?")))
    return z3.If(is_name, n == s, z3.If(wild, glob(n, s), rex(n, s)))


p_, b_, i_, s_, f_ = z3.Int("p"), z3.Int("b"), z3.Int("i"), z3.String("s"), z3.String("f")


def selected(b):
    return Exists([p_], And(rng(p_, npat), selects(p_, b)))


def setting(r):
    for n in (nbin, nfun, npat):
        r.assume(n >= 0)
    r.assume(ForAll([b_], Implies(rng(b_, nbin), at_bin(bname(b_)) == b_)))
    # a bin without an entry has no functions; entries are those of bins
    r.assume(ForAll([s_, f_], Implies(Not(HAS0(s_)), Not(F0(s_, f_)))))
    r.assume(ForAll([s_], Implies(HAS0(s_), And(rng(at_bin(s_), nbin), bname(at_bin(s_)) == s_))))
    g = G()
    r.root("ghost", g)
    return g


def given(f):
    return Exists([i_], And(rng(i_, nfun), f == z3.If(fstr_(i_), fname(i_), full(i_))))


class Group(fc.CovGroup):
    pass


def group(known=True):
    me = object.__new__(fc.CovGroup)
    me.name = "g"

    def cover_point(n):
        if not known:
            raise ValueError("no such point")
        return ghost().point

    me.cover_point = cover_point
    return me


def env():
    return patched((fc, "fnmatch", Fnm), (fc, "re", Re), (fc, "get_func_full_name", full_name))


def _patterns(single):
    if single:
        rt.R.assume(npat == 1)
        return SStr(pat(IntVal(0)))
    return SList(parts=SSeq(npat, lambda p: SStr(pat(p))).parts())


def _mark(single, onefn=False):
    def scenario(r):
        g = setting(r)
        some = ForAll([p_], Implies(rng(p_, npat), Exists([b_], And(rng(b_, nbin), selects(p_, b_)))))
        names = _patterns(single)
        funcs = SList(parts=SSeq(nfun, lambda i: Fn(i)).parts())
        me = group()
        with env():
            e = raises(AssertionError, lambda: me.mark_function("p", funcs, names))
        st = g.st
        if e is not None:
            r.prove("only a pattern that selects nothing is rejected", Or(npat == 0, Not(some)))
            r.prove("a rejected call records nothing", And(
                ForAll([s_], st.f["has"](s_) == HAS0(s_)), ForAll([s_, f_], st.f["fns"](s_, f_) == F0(s_, f_))))
            return
        r.prove("a pattern that selects no bin is rejected", And(npat > 0, some))
        b, f = r.fresh("some_bin", Int), r.fresh("some_function", Str)
        r.assume(rng(b, nbin))
        # case distinctions, to keep the obligations small
        sel, was, giv = r.fork(selected(b)), r.fork(HAS0(bname(b))), r.fork(given(f))
        p0, i0 = r.fresh("selecting_pattern", Int), r.fresh("given_function", Int)
        if sel:
            r.assume(And(rng(p0, npat), selects(p0, b)))
        if giv:
            r.assume(And(rng(i0, nfun), f == z3.If(fstr_(i0), fname(i0), full(i0))))
        tag = f" ({'selected' if sel else 'not selected'}, {'marked before' if was else 'not marked before'})"
        r.prove("exactly the given functions are added to exactly the selected bins, earlier marks are kept" + tag,
                st.f["fns"](bname(b), f) == Or(F0(bname(b), f), BoolVal(sel and giv)))
        r.prove("exactly the selected bins have an entry, earlier ones are kept" + tag, st.f["has"](bname(b)) == BoolVal(was or sel))
        s = r.fresh("some_name", Str)
        r.prove("nothing else has one", Implies(st.f["has"](s), Or(HAS0(s), rng(at_bin(s), nbin))))

    return scenario


for _s in (False, True):
    contract("P28", f"mark_function: {'one pattern' if _s else 'any number of patterns'}, any number of bins, functions and earlier marks", [M + "mark_function"])(_mark(_s))


@contract("P28", "mark_function: an unknown point")
def _unknown(r):
    g = setting(r)
    flag = sym(r, "raise_error", Bool)
    me = group(False)
    with env():
        e = raises(ValueError, lambda: me.mark_function("p", SList(parts=SSeq(nfun, lambda i: Fn(i)).parts()), SList(parts=SSeq(npat, lambda p: SStr(pat(p))).parts()), raise_error=flag))
    r.prove("is a value error unless errors are disabled", flag.t == BoolVal(e is not None))
    r.prove("records nothing", And(
        ForAll([s_], g.st.f["has"](s_) == HAS0(s_)), ForAll([s_, f_], g.st.f["fns"](s_, f_) == F0(s_, f_))))


@contract("P28", "mark_function: a single function, by name or as an object", [M + "mark_function"], bounded="a point with two bins, one of them marked before")
def _single(r):
    g = setting(r)
    r.assume(And(nbin == 2, npat == 1, nfun == 1, bname(IntVal(0)) == z3.StringVal("a"), bname(IntVal(1)) == z3.StringVal("b")))
    r.assume(And(HAS0(z3.StringVal("a")), Not(HAS0(z3.StringVal("b")))))
    g.point["bins"] = {"a": None, "b": None}
    me = group()
    which = r.fork(r.fresh("the_second_pattern", Bool))
    byname = r.fork(fstr_(IntVal(0)))
    f = SStr(fname(IntVal(0))) if byname else (lambda: None)
    with patched((fc, "fnmatch", Fnm), (fc, "re", Re), (fc, "get_func_full_name", lambda f: SStr(full(IntVal(0))))):
        r.assume(And(glob(z3.StringVal("a"), z3.StringVal("*")), glob(z3.StringVal("b"), z3.StringVal("*"))))
        me.mark_function("p", f, *(["*"] if which else []))
    n = fname(IntVal(0)) if byname else full(IntVal(0))
    for b in "ab":
        b = z3.StringVal(b)
        r.prove("both bins have it, and what they had", ForAll([f_], g.st.f["fns"](b, f_) == Or(F0(b, f_), f_ == n)))
