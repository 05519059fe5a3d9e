"""bundle.py: signals of any number, levels by induction over the nesting.

A level has any number of signals, signal lists, sub-bundles and bundle lists; what happens inside
a sub-bundle is given by the contract of the same function (induction over the nesting).  Names are
strings.  Preconditions: the names of signals are distinct, also those of a signal list, and differ
from the names of lists and sub-bundles (they are attributes of one object).
"""
from vc.api import *
from vc.contracts.ghost import *
from toffee import bundle as BU

B, PM = BU.Bundle, "toffee.bundle.Bundle."
X, Y, Z = z3.Ints("x y z")
ZERO, ONE = IntVal(0), IntVal(1)
S_ = z3.String("s")


def rng(x, n):
    return And(0 <= x, x < n)


P_contains = rt.P._contains


class Ghost:
    pass


def root(r):
    g = Ghost()
    g.st = rt.Store()
    r.root("ghost", g)
    return g


def st():
    return ghost().st


# ---------------------------------------------------------------- counting connections


class XD:
    """the data of a pin: the number of connections may be absent"""

    def __init__(self, has, n):
        self.has, self.n = has, n

    def _vc_hasattr(self, a):
        if a == "number_of_bundles_connected_to":
            return self.has
        raise Unsupported("hasattr " + str(a))

    @property
    def number_of_bundles_connected_to(self):
        rt.R.prove("the number is read only if it is there", T(rt.b_bool(self.has)))
        return self.n

    @number_of_bundles_connected_to.setter
    def number_of_bundles_connected_to(self, v):
        self.has, self.n = True, v

    @number_of_bundles_connected_to.deleter
    def number_of_bundles_connected_to(self):
        self.has = False

    def count(self):
        return z3.If(T(self.has), term(self.n, Int), ZERO)


class APin:
    """a pin of the device"""

    def __init__(self, r, name="pin"):
        self.xdata = XD(sym(r, name + "_counted", Bool), sym(r, name + "_count"))
        r.assume(Implies(T(self.xdata.has), term(self.xdata.n) >= 1))
        self.event = Ghost()


class Level(B):
    """one bundle; its attributes that hold signals are ghost slots"""

    def __init__(self):
        pass


def level(cls=Level):
    b = object.__new__(cls)
    return b


for _ev in ("no", "an"):

    @contract("P03:clock,P04:clock,P21", f"a new connection raises the count of its pin by one ({_ev} earlier clock)", [PM + "__update_signal_info"])
    def _update(r, ev=_ev):
        root(r)
        b, p, q = level(), APin(r), APin(r, "other")
        e = Ghost()
        b._Bundle__clock_event = None if ev == "no" else e
        n, m = p.xdata.count(), q.xdata.count()
        b._Bundle__update_signal_info(p)
        r.prove("one more", p.xdata.count() == n + 1)
        r.prove("the count is there", T(rt.b_bool(p.xdata.has)))
        r.prove("other pins keep theirs", q.xdata.count() == m)
        r.prove("the clock is that of the first pin", BoolVal(b._Bundle__clock_event is (p.event if ev == "no" else e)))


@contract("P21", "a released connection lowers the count of its pin by one", [PM + "__release_signal"])
def _release(r):
    root(r)
    p, q = APin(r), APin(r, "other")
    n, m, had = p.xdata.count(), q.xdata.count(), T(p.xdata.has)
    B._Bundle__release_signal(p)
    r.prove("one less, if it was counted", p.xdata.count() == z3.If(had, n - 1, ZERO))
    r.prove("no count of zero stays", Implies(T(rt.b_bool(p.xdata.has)), term(p.xdata.n) >= 1))
    r.prove("other pins keep theirs", q.xdata.count() == m)
    for s in (None, BU.DummySignal(), BU.Signal(), 5):
        B._Bundle__release_signal(s)


# ---------------------------------------------------------------- reports

natt = z3.Int("attributes_of_device")
dname = fn("name_of_device_attribute", Int, Str)
isfun = fn("attribute_can_be_called", Int, Bool)
hasx, hase = fn("has_xdata", Int, Bool), fn("has_event", Int, Bool)
ispin = lambda i: And(hasx(i), hase(i))
has0 = fn("pin_has_count", Int, Bool)
cnt0 = fn("count_of_pin", Int, Int)


class DAttr:
    """an attribute of the device"""

    _vc_data = True

    def __init__(self, i):
        self.i = i

    def _vc_callable(self):
        return wrap(isfun(self.i))

    def _vc_isinstance(self, t):
        if t in (BU.DummySignal, BU.UnconnectedSignal, BU.Signal):
            return False
        raise Unsupported("isinstance of a pin")

    def _vc_hasattr(self, n):
        if n in ("xdata", "event"):
            return wrap((hasx if n == "xdata" else hase)(self.i))
        if n == "number_of_bundles_connected_to":
            return wrap(has0(self.i))
        raise Unsupported("hasattr " + str(n))

    @property
    def number_of_bundles_connected_to(self):
        rt.R.prove("the number is read only if it is there", has0(self.i))
        return wrap(cnt0(self.i))


class Dut:
    def _vc_dir(self):
        return SSeq(natt, lambda i: wrap(dname(i)), "attributes")

    def _vc_getattr(self, n, *d):
        if type(n) is not SStr or n.t.decl().name() != dname.name():
            raise Unsupported("an attribute looked up by a name that is not one of those listed")
        return DAttr(n.t.arg(0))


def device(r):
    r.assume(natt >= 0)
    r.assume(ForAll([X, Y], Implies(And(0 <= X, X < Y, Y < natt), dname(X) != dname(Y))))
    return Dut()


def is_pin(i):
    return And(ispin(i), Not(isfun(i)))


@contract("P16,P21,P22", "the pins of a device are listed once each, with their names", [PM + "dut_all_signals"])
def _pins(r):
    root(r)
    v = rt.b_list(B.dut_all_signals(device(r)))
    i, n = sym(r, "i").t, sym(r, "n", Str).t
    r.prove("exactly the pins", member(v, lambda o: And(o["signal"].i == i, rng(i, natt))) == And(rng(i, natt), is_pin(i)))
    r.prove("by their names", Not(member(v, lambda o: Or(term(o["name"]) != dname(o["signal"].i), term(o["org_name"]) != dname(o["signal"].i)))))
    r.prove("each once", term(rt.b_len(v), Int) == r.sum_(natt, lambda i: z3.If(is_pin(i), ONE, ZERO)))


for _f, _spec in (("detect_unconnected_signals", lambda i: Or(Not(has0(i)), cnt0(i) == 0)), ("detect_multiple_connections", lambda i: And(has0(i), cnt0(i) > 1))):

    @contract("P21", f"{_f} lists exactly those pins, once each", [PM + _f, PM + "dut_all_signals"])
    def _report(r, f=_f, spec=_spec):
        root(r)
        v = getattr(B, f)(device(r))
        n = sym(r, "n", Str).t
        i = sym(r, "i").t
        hit = And(is_pin(i), spec(i))
        r.prove("every such pin is listed", Implies(And(rng(i, natt), hit), member(v, lambda o: term(o) == dname(i))))
        r.prove("and nothing else", Implies(And(rng(i, natt), Not(hit)), Not(member(v, lambda o: term(o) == dname(i)))))
        r.prove("each once", term(rt.b_len(v), Int) == r.sum_(natt, lambda i: z3.If(And(is_pin(i), spec(i)), ONE, ZERO)))


# ---------------------------------------------------------------- all signals at once

nall = z3.Int("number_of_signals")
path_of = fn("path_of_signal", Int, Str)
kind_of = fn("kind_of_signal", Int, Int)  # what the slot holds
KINDS = ("pin", "dummy", "unconnected", "nothing")
isout = fn("pin_is_output", Int, Bool)
width = fn("width_of_pin", Int, Int)
rand = fn("random_value", Int, Int, Int, Int)
excl = fn("name_is_excluded", Str, Bool)


class Slot:
    """what all_signals yields for the k-th signal"""

    _vc_data = True

    def __init__(self, k, past=False):
        self.k, self.past = k, past

    def _of(self, f):
        return (fn("earlier_" + f.name(), Int, f.range()) if self.past else f)(self.k)

    def _is(self, *ks):
        return wrap(Or(*[self._of(kind_of) == KINDS.index(x) for x in ks]))

    def _f(self, f):
        return "earlier_" + f if self.past else f

    @staticmethod
    def _vc_is(a, b):
        if isinstance(b, Slot) and not isinstance(a, Slot):
            a, b = b, a
        if b is None:
            return a._is("nothing")
        raise Unsupported("is")

    def _vc_isinstance(self, t):
        if t is BU.DummySignal:
            return self._is("dummy")
        if t in (BU.UnconnectedSignal, BU.Signal):
            return self._is("unconnected")
        raise Unsupported("isinstance of a signal")

    def _vc_hasattr(self, n):
        if n in ("xdata", "event"):
            return self._is("pin", "dummy")  # a DummySignal yields None for every attribute
        raise Unsupported("hasattr " + str(n))

    def _pin(self):
        rt.R.prove("only pins are accessed", T(self._is("pin")))

    def IsOutIO(self):
        self._pin()
        return wrap(self._of(isout))

    def W(self):
        self._pin()
        return wrap(self._of(width))

    def _write(self, v):
        self._pin()
        w = self._f("writes")
        st().write(w, [self.k], st().read(w, self.k) + 1)
        st().write(self._f("last"), [self.k], term(v, Int))

    value = property(None, _write)

    def _mode(self, m):
        self._pin()
        w = self._f("modes")
        st().write(w, [self.k], st().read(w, self.k) + 1)
        st().write(self._f("mode"), [self.k], IntVal(m))

    def AsImmWrite(self):
        self._mode(0)

    def AsRiseWrite(self):
        self._mode(1)

    def AsFallWrite(self):
        self._mode(2)


class Signals(B):
    """a bundle with the contract of all_signals (proved below)"""

    def __init__(self):
        pass

    past = False  # while it is bound to another device, with other pins

    def all_signals(self, level_string=""):
        past = self.past
        if past:
            return SSeq(z3.Int("earlier_number_of_signals"), lambda k: (wrap(fn("earlier_path_of_signal", Int, Str)(k)), Slot(k, True)), "signals")
        return SSeq(nall, lambda k: (wrap(path_of(k)), Slot(k)), "signals")


def earlier(b, op):
    """the operation was used before, while the bundle had other pins"""
    b.past = True
    op()
    b.past = False


def signals(r):
    g = root(r)
    for p in ("", "earlier_"):
        for f in ("writes", "modes"):
            g.st.field(p + f, [Int], lambda k: ZERO)
        for f in ("last", "mode"):
            g.st.field(p + f, [Int], fn(p + "former_" + f, Int, Int))
    r.assume(nall >= 0)
    r.assume(z3.Int("earlier_number_of_signals") >= 0)
    r.assume(ForAll([X], rng(fn("earlier_kind_of_signal", Int, Int)(X), len(KINDS))))
    r.assume(ForAll([X], fn("earlier_width_of_pin", Int, Int)(X) >= 0))
    r.assume(ForAll([X], rng(kind_of(X), len(KINDS))))
    r.assume(ForAll([X], width(X) >= 0))
    r.assume(ForAll([X, Y, Z], Implies(Y <= Z, rng(rand(X, Y, Z) - Y, Z - Y + 1))))  # a random value is in its range
    return g, object.__new__(Signals)


def is_input(k):
    return And(kind_of(k) == 0, Not(isout(k)))


def untouched(r, g, k, cond, *fs):
    for f in fs:
        count, val = ("writes", "last") if f == "write" else ("modes", "mode")
        r.prove(f"no {f} elsewhere", Implies(cond, And(g.st.f[count](k) == 0, g.st.f[val](k) == fn("former_" + val, Int, Int)(k))))


@contract("P18,P20", "set_all writes the value to every input pin once, and to nothing else", [PM + "set_all"])
def _set_all(r):
    g, b = signals(r)
    v = sym(r, "value")
    earlier(b, lambda: b.set_all(sym(r, "earlier_value")))
    out = b.set_all(v)
    k = sym(r, "k").t
    hit = And(rng(k, nall), is_input(k))
    r.prove("every input pin is written once, with the value", Implies(hit, And(g.st.f["writes"](k) == 1, g.st.f["last"](k) == v.t)))
    untouched(r, g, k, Not(hit), "write")
    untouched(r, g, k, BoolVal(True), "mode")
    r.prove("the bundle is returned", BoolVal(out is b))


class Excluded:
    def _vc_contains(self, n):
        return wrap(excl(term(n, Str)))


class Random:
    """a source of random values; it remembers what it was asked for"""

    def __call__(self, lo, hi):
        r = rt.R
        g = ghost()
        g.asked(lo, hi)
        return wrap(rand(r.fresh("draw", Int), term(lo, Int), term(hi, Int)))


for _rg in ("given", "of the pin"):

    @contract("P20", f"randomize_all writes every input pin that is not excluded once, within the range {_rg}", [PM + "randomize_all"])
    def _rand(r, rg=_rg):
        g, b = signals(r)
        lo, hi = sym(r, "lo"), sym(r, "hi")
        p2 = r.pow2
        if rg == "given":
            r.assume(lo.t <= hi.t)
            g.asked = lambda a, c: rt.R.prove("the source is asked for the range", And(term(a, Int) == lo.t, term(c, Int) == hi.t))
            earlier(b, lambda: b.randomize_all((lo, hi), exclude_signals=Excluded(), random_func=Random()))
            b.randomize_all((lo, hi), exclude_signals=Excluded(), random_func=Random())
            top = lambda k: hi.t
            bot = lo.t
        else:
            w = lambda k: z3.If(width(k) == 0, ONE, width(k))
            g.asked = lambda a, c: rt.R.prove("the source is asked for a range from zero", term(a, Int) == 0)
            earlier(b, lambda: b.randomize_all(exclude_signals=Excluded(), random_func=Random()))
            b.randomize_all(exclude_signals=Excluded(), random_func=Random())
            top = lambda k: rt.R.pow2(w(k)) - 1
            bot = ZERO
        k = sym(r, "k").t
        hit = And(rng(k, nall), is_input(k), Not(excl(path_of(k))))
        r.prove("every input pin that is not excluded is written once", Implies(hit, g.st.f["writes"](k) == 1))
        r.prove("within the range", Implies(hit, And(bot <= g.st.f["last"](k), g.st.f["last"](k) <= top(k))))
        untouched(r, g, k, Not(hit), "write")
        untouched(r, g, k, BoolVal(True), "mode")


MODES = (BU.WriteMode.Imme, BU.WriteMode.Rise, BU.WriteMode.Fall)
for _m, _f in zip(MODES, ("set_write_mode_as_imme", "set_write_mode_as_rise", "set_write_mode_as_fall")):

    @contract("P20", f"{_f} configures every input pin, and nothing else", [PM + _f, PM + "set_write_mode", PM + "__set_all_signals_write_mode"])
    def _mode(r, m=_m, f=_f):
        g, b = signals(r)
        b.write_mode = None
        earlier(b, getattr(b, f))
        b.write_mode = None
        out = getattr(b, f)()
        k = sym(r, "k").t
        hit = And(rng(k, nall), is_input(k))
        r.prove("every input pin has the mode", Implies(hit, And(g.st.f["modes"](k) >= 1, g.st.f["mode"](k) == m.value)))
        untouched(r, g, k, Not(hit), "mode")
        untouched(r, g, k, BoolVal(True), "write")
        r.prove("the mode is kept for later binds", BoolVal(b.write_mode is m))
        r.prove("the bundle is returned", BoolVal(out is b))


@contract("P20", "any other write mode is rejected if there is an input pin", [PM + "set_write_mode"])
def _badmode(r):
    g, b = signals(r)
    e = raises(ValueError, b.set_write_mode, "other")
    k = sym(r, "k").t
    if e is None:
        r.prove("accepted only if there is none", Implies(rng(k, nall), Not(is_input(k))))
    r.prove("nothing is configured", g.st.f["modes"](k) == 0)


# ---------------------------------------------------------------- one level

nsig = z3.Int("signals_of_level")
sname = fn("name_of_signal", Int, Str)
at_sig = fn("position_of_signal", Str, Int)
nattr = z3.Int("attributes_of_level")
aname = fn("name_of_attribute", Int, Str)
at_attr = fn("position_of_attribute", Str, Int)
akind = fn("kind_of_attribute", Int, Int)
LIST, SUB, BLIST, OTHER = range(4)
llen = fn("length_of_list", Int, Int)
lname = fn("name_in_list", Int, Int, Str)
at_l = fn("position_in_list", Int, Str, Int)
sval, lval = fn("value_of_signal", Int, rt.Val), fn("value_in_list", Int, Int, rt.Val)
blen = fn("length_of_bundle_list", Int, Int)
MINUS = IntVal(-1)
DOT = z3.StringVal(".")
str_int = fn("str_int", Int, Str)


class Listed(SSeq):
    """a list of distinct strings: `in` and `index` by their contracts"""

    def __init__(self, n, f, pos):
        self.f, self.pos = f, pos
        super().__init__(n, lambda j: wrap(f(j)))

    def _vc_contains(self, x):
        if x is None:
            return False
        k = self.pos(term(x, Str))
        return wrap(And(0 <= k, k < self.n, self.f(k) == term(x, Str)))

    def _vc_list(self):
        return self

    def index(self, x):
        if self._vc_contains(x):
            return wrap(self.pos(term(x, Str)))
        raise ValueError("not in list")


def is_sig(n):
    return And(rng(at_sig(n), nsig), sname(at_sig(n)) == n)


def is_attr(n, k=None):
    f = And(rng(at_attr(n), nattr), aname(at_attr(n)) == n)
    return f if k is None else And(f, akind(at_attr(n)) == k)


def in_list(i, n):
    return And(rng(at_l(i, n), llen(i)), lname(i, at_l(i, n)) == n)


class LSlot:
    """the attribute of signal x"""

    _vc_data = True

    def __init__(self, x):
        self.x = x

    @property
    def value(self):
        return wrap(sval(self.x))

    @value.setter
    def value(self, v):
        ghost().write(self.x, v)


class LElem:
    """element j of signal list i"""

    _vc_data = True

    def __init__(self, i, j):
        self.i, self.j = i, j

    @property
    def value(self):
        return wrap(lval(self.i, self.j))

    @value.setter
    def value(self, v):
        ghost().lwrite(self.i, self.j, v)


class Elems(SSeq):
    def __init__(self, i):
        self.i = i
        super().__init__(llen(i), lambda j: LElem(i, j))

    def __setitem__(self, j, v):
        ghost().lput(self.i, term(j, Int), v)


class Child:
    """a sub-bundle (j = -1) or a bundle of a bundle list: the contracts of the level below"""

    _vc_data = True

    def __init__(self, i, j):
        self.i, self.j = i, j

    @staticmethod
    def _vc_is(a, b):
        if not (isinstance(a, Child) and isinstance(b, Child)):
            return False
        same = lambda x, y: (IntVal(x) if type(x) is int else x) == (IntVal(y) if type(y) is int else y)
        return wrap(z3.simplify(And(same(a.i, b.i), same(a.j, b.j))))

    def all_signals(self, level_string=""):
        i, j = self.i, self.j
        return SSeq(csn(i, j), lambda k: (wrap(join(term(level_string), cpath(i, j, k))), CSig(i, j, k)))

    def as_dict(self, multilevel=True):
        return CDict(self.i, self.j, multilevel)

    def assign(self, item, multilevel=True, level_string=""):
        ghost().cassign(self.i, self.j, item, multilevel)

    def set_name(self, n):
        ghost().named(self.i, self.j, n)
        return self

    def _Bundle__unbind_all(self):
        ghost().cunbind(self.i, self.j)

    def _Bundle__unbind_bound(self):
        ghost().cunbind_bound(self.i, self.j)

    def _Bundle__bind_from_signal_list(self, *a):
        return ghost().cbind(self.i, self.j, *a)

    @property
    def _Bundle__clock_event(self):
        if not ghost().det:
            rt.R.prove("it was bound before its clock is asked for", T(st().read("ASKED", self.i, self.j)))
        return CLK if rt.R.fork(clocked(self.i, self.j)) else None


csn = fn("signals_below", Int, Int, Int)
cpath = fn("path_below", Int, Int, Int, Str)
cval = fn("value_below", Int, Int, Int, rt.Val)
clocked = fn("clock_of_bundle_below", Int, Int, Bool)


class CSig:
    _vc_data = True

    def __init__(self, i, j, k):
        self.i, self.j, self.k = i, j, k


class CDict:
    """what as_dict of the level below returns: paths and values of its signals"""

    _vc_data = True

    def __init__(self, i, j, multilevel):
        self.i, self.j, self.multilevel = i, j, multilevel

    def items(self):
        rt.R.prove("the level below is read in the same form", T(rt.not_(self.multilevel)))
        i, j = self.i, self.j
        return SSeq(csn(i, j), lambda k: (wrap(cpath(i, j, k)), wrap(cval(i, j, k))))


class LAttr(Child):
    """an attribute of the level that is not a signal"""

    _vc_data = True

    def __init__(self, i):
        self.i, self.j = i, MINUS

    def _vc_isinstance(self, t):
        for c, k in ((BU.SignalList, LIST), (BU.Bundle, SUB), (BU.BundleList, BLIST)):
            if t is c:
                return wrap(akind(self.i) == k)
        if t in (BU.Signal, BU.UnconnectedSignal):
            return False
        raise Unsupported("isinstance")

    @property
    def signals(self):
        rt.R.prove("a signal list", akind(self.i) == LIST)
        return Elems(self.i)

    @property
    def names(self):
        rt.R.prove("a signal list", akind(self.i) == LIST)
        i = self.i
        return Listed(llen(i), lambda j: lname(i, j), lambda n: at_l(i, n))

    @property
    def bundles(self):
        rt.R.prove("a bundle list", akind(self.i) == BLIST)
        i = self.i
        return SSeq(blen(i), lambda j: Child(i, j))

    def _vc_parts(self):
        if rt.R.fork(akind(self.i) == LIST):
            return Elems(self.i).parts()
        return self.bundles.parts()

    def assign(self, value, *a, **k):
        if rt.R.fork(akind(self.i) == LIST):
            return ghost().lassign(self.i, value)
        if rt.R.fork(akind(self.i) == BLIST):
            return ghost().bassign(self.i, value, *a, **k)
        return Child.assign(self, value, *a, **k)


class GLevel(Level):
    """a level with any number of signals and other attributes"""

    def _vc_dir(self):
        return SSeq(nattr, lambda i: wrap(aname(i)), "attributes")

    def _vc_getattr(self, n, *d):
        t = term(n, Str)
        if t.decl().name() == aname.name():
            return LAttr(t.arg(0))
        if t.decl().name() == sname.name():
            return LSlot(t.arg(0))
        if rt.R.fork(is_sig(t)):
            return LSlot(at_sig(t))
        if rt.R.fork(is_attr(t)):
            return LAttr(at_attr(t))
        if d:
            return d[0]
        raise Unsupported("an attribute that is not there")

    def _vc_setattr(self, n, v):
        if not issym_(n):
            return object.__setattr__(self, n, v)
        t = term(n, Str)
        x = t.arg(0) if t.decl().name() == sname.name() else at_sig(t)
        rt.R.prove("the attribute of a signal is set", And(rng(x, nsig), sname(x) == t))
        ghost().put(x, v)


issym_ = rt.issym


def join(l, n):
    return z3.If(l == z3.StringVal(""), n, z3.Concat(l, DOT, n))


def of_list(n, j):
    return z3.Concat(n, z3.StringVal("["), str_int(j), z3.StringVal("]"))


def a_level(r, cls=GLevel):
    g = root(r)
    b = object.__new__(cls)
    b.current_level_signals = Listed(nsig, sname, at_sig)
    r.assume(And(nsig >= 0, nattr >= 0))
    r.assume(ForAll([X], And(llen(X) >= 0, blen(X) >= 0, rng(akind(X), 4))))
    r.assume(ForAll([X], Implies(rng(X, nsig), at_sig(sname(X)) == X)))  # distinct
    r.assume(ForAll([X], Implies(rng(X, nattr), at_attr(aname(X)) == X)))
    r.assume(ForAll([X, Y], Implies(And(rng(X, nattr), rng(Y, nsig)), aname(X) != sname(Y))))
    r.assume(ForAll([X, Y], Implies(rng(Y, llen(X)), at_l(X, lname(X, Y)) == Y)))
    r.assume(ForAll([X, Y], csn(X, Y) >= 0))
    return g, b


for _g, _k in (("__all_sub_bundles", SUB), ("__all_signal_lists", LIST), ("__all_bundle_lists", BLIST)):

    @contract("P16,P17,P18,P19,P20,P22", f"{_g}: exactly the attributes of that kind, once each", [PM + _g])
    def _gen(r, f=_g, kd=_k):
        g, b = a_level(r)
        v = rt.b_list(getattr(b, "_Bundle" + f)())
        i = sym(r, "i").t
        r.prove("exactly them", member(v, lambda o: o[1].i == i) == And(rng(i, nattr), akind(i) == kd))
        r.prove("under their names", Not(member(v, lambda o: term(o[0]) != aname(o[1].i))))
        r.prove("each once", term(rt.b_len(v), Int) == r.sum_(nattr, lambda i: z3.If(akind(i) == kd, ONE, ZERO)))


def of(cls, f):
    """a condition on the values of one class"""
    return lambda o: f(*o) if type(o[1]) is cls else BoolVal(False)


@contract("P18,P19,P20", "all_signals: every signal at every level once, under its path, and nothing else", [PM + "all_signals"])
def _all(r):
    g, b = a_level(r)
    l = sym(r, "level", Str)
    v = rt.b_list(b.all_signals(l))
    x, i, j, k = (sym(r, n).t for n in "xijk")
    r.prove("the signals of the level", member(v, of(LSlot, lambda p, s: s.x == x)) == rng(x, nsig))
    r.prove("under their paths", Not(member(v, of(LSlot, lambda p, s: term(p) != join(l.t, sname(s.x))))))
    r.prove("the elements of signal lists", member(v, of(LElem, lambda p, s: And(s.i == i, s.j == j))) == And(rng(i, nattr), akind(i) == LIST, rng(j, llen(i))))
    r.prove("under their paths", Not(member(v, of(LElem, lambda p, s: term(p) != join(l.t, of_list(aname(s.i), s.j))))))
    below = Or(And(akind(i) == SUB, j == -1), And(akind(i) == BLIST, rng(j, blen(i))))
    r.prove("the signals below", member(v, of(CSig, lambda p, s: And(s.i == i, s.j == j, s.k == k))) == And(rng(i, nattr), below, rng(k, csn(i, j))))
    r.prove("under their paths", Not(member(v, of(CSig, lambda p, s: term(p) != join(join(l.t, z3.If(s.j == -1, aname(s.i), of_list(aname(s.i), s.j))), cpath(s.i, s.j, s.k))))))
    total = nsig + r.sum_(nattr, lambda i: z3.If(akind(i) == LIST, clip(llen(i)), ZERO)) + r.sum_(nattr, lambda i: z3.If(akind(i) == SUB, clip(csn(i, MINUS)), ZERO))
    total = total + r.sum_(nattr, lambda i: z3.If(akind(i) == BLIST, r.sum_(blen(i), lambda j: clip(csn(i, j))), ZERO))
    r.prove("each once", term(rt.b_len(v), Int) == total)


# ---------------------------------------------------------------- reading


def no_signal(g):
    """nothing is written while reading"""
    for f in ("write", "lwrite", "lput", "put"):
        setattr(g, f, lambda *a: rt.R.fail("reading changes nothing"))


def list_is(v, n, f):
    """formula: v is the list of f(j) for j < n (a sequence of single values)"""
    ps = rt.parts_of(v)
    if ps is None or len(ps) != 1 or not isinstance(ps[0], rt.Many) or ps[0].unit is None:
        raise Unsupported("a list of another form")
    j = z3.Int("in_list")
    return And(term(ps[0].n) == n, ForAll([j], Implies(rng(j, n), f(ps[0].unit(j), j))))


def entries(v):
    """the assignments that make up a mapping"""
    if type(v) is not rt.SMap:
        raise Unsupported("a mapping of another form")
    return v.log


for _multi in (True, False):

    @contract("P19", f"as_dict {'nested' if _multi else 'flat'}: one entry for every signal at every level, with its value, and nothing else", [PM + "as_dict"])
    def _as_dict(r, multi=_multi):
        g, b = a_level(r)
        no_signal(g)
        r.hooks["dictlog"] = True
        v = entries(b.as_dict() if multi else b.as_dict(multilevel=False))
        x, i, j, k = (sym(r, n).t for n in "xijk")
        val = lambda o: term(o, rt.Val)
        own = lambda o: type(o[1]) is rt.SVal and o[1].t.decl().name() == sval.name()
        lst = lambda o: type(o[1]) is rt.SList or isinstance(o[1], SSeq)
        r.prove("the signals of the level", member(v, lambda o: o[1].t.arg(0) == x if own(o) else BoolVal(False)) == rng(x, nsig))
        r.prove("under their names", Not(member(v, lambda o: term(o[0]) != sname(o[1].t.arg(0)) if own(o) else BoolVal(False))))
        child = lambda o: multi and type(o[1]) is CDict
        many = lambda o: multi and lst(o) and "CDict" in str(type(rt.parts_of(o[1])[0].unit(j)))
        vals = lambda o: lst(o) and not many(o)
        islist = And(rng(i, nattr), akind(i) == LIST)
        r.prove("the signal lists", Implies(islist, member(v, lambda o: And(term(o[0]) == aname(i), list_is(o[1], llen(i), lambda e, j: val(e) == lval(i, j))) if vals(o) else BoolVal(False))))
        r.prove("only them", Implies(And(rng(i, nattr), akind(i) != LIST), Not(member(v, lambda o: term(o[0]) == aname(i) if vals(o) else BoolVal(False)))))
        n = nsig + r.sum_(nattr, lambda i: z3.If(akind(i) == LIST, ONE, ZERO))
        if multi:
            sub = And(rng(i, nattr), akind(i) == SUB)
            r.prove("the sub-bundles, in the same form", member(v, lambda o: And(term(o[0]) == aname(i), o[1].i == i, o[1].j == -1, T(o[1].multilevel)) if child(o) else BoolVal(False)) == sub)
            bl = And(rng(i, nattr), akind(i) == BLIST)
            r.prove("the bundle lists, in the same form", Implies(bl, member(v, lambda o: And(term(o[0]) == aname(i), list_is(o[1], blen(i), lambda e, j: And(e.i == i, e.j == j, T(e.multilevel)))) if many(o) else BoolVal(False))))
            r.prove("and only them", Implies(And(rng(i, nattr), akind(i) != BLIST), Not(member(v, lambda o: term(o[0]) == aname(i) if many(o) else BoolVal(False)))))
            n = n + r.sum_(nattr, lambda i: z3.If(akind(i) == SUB, ONE, ZERO)) + r.sum_(nattr, lambda i: z3.If(akind(i) == BLIST, ONE, ZERO))
        else:
            below = Or(And(akind(i) == SUB, j == -1), And(akind(i) == BLIST, rng(j, blen(i))))
            name = lambda i, j, k: z3.Concat(z3.If(j == -1, aname(i), of_list(aname(i), j)), DOT, cpath(i, j, k))
            deep = lambda o: type(o[1]) is rt.SVal and o[1].t.decl().name() == cval.name()
            r.prove("the signals below, by their paths", member(v, lambda o: And(o[1].t.arg(0) == i, o[1].t.arg(1) == j, o[1].t.arg(2) == k) if deep(o) else BoolVal(False)) == And(rng(i, nattr), below, rng(k, csn(i, j))))
            r.prove("under their paths", Not(member(v, lambda o: term(o[0]) != name(*o[1].t.children()) if deep(o) else BoolVal(False))))
            n = n + r.sum_(nattr, lambda i: z3.If(akind(i) == SUB, clip(csn(i, MINUS)), ZERO)) + r.sum_(nattr, lambda i: z3.If(akind(i) == BLIST, r.sum_(blen(i), lambda j: clip(csn(i, j))), ZERO))
        r.prove("no other entries", term(rt.b_len(v), Int) == n)


# ---------------------------------------------------------------- writing

nent = z3.Int("entries_of_mapping")
mkey = fn("key_of_entry", Int, Str)
mval = fn("value_of_entry", Int, rt.Val)
at_map = fn("position_of_key", Str, Int)
STAR = z3.StringVal("*")
bl_i, bl_j = fn("list_of_item", Str, Int), fn("index_of_item", Str, Int)


def has_key(s):
    return And(rng(at_map(s), nent), mkey(at_map(s)) == s)


class GMap:
    """a mapping with any number of entries"""

    _vc_data = True

    def _vc_isinstance(self, t):
        if t is dict:
            return True
        raise Unsupported("isinstance of a mapping")

    def _vc_contains(self, k):
        return wrap(has_key(term(k, Str)))

    def __getitem__(self, k):
        rt.R.prove("only present entries are read", has_key(term(k, Str)))
        return wrap(mval(at_map(term(k, Str))))

    def get(self, k, d=None):
        return self[k] if rt.R.fork(has_key(term(k, Str))) else d

    def _vc_copy(self):
        return CopiedMap(self)

    copy = _vc_copy

    def items(self):
        return SSeq(nent, lambda k: (wrap(mkey(k)), wrap(mval(k))), "entries")

    def _changed(self, *a, **k):
        rt.R.fail("the mapping is not modified")

    pop = __setitem__ = __delitem__ = update = clear = popitem = setdefault = _changed


class CopiedMap(rt.SMap):
    """a copy of the mapping"""

    def __init__(self, src):
        self.src = src
        super().__init__(rt.SList(parts=rt.parts_of(src.items())))

    def __getitem__(self, k):
        return self.src[k]

    def __setitem__(self, k, v):
        raise Unsupported("changing a copy of a mapping")

    def pop(self, k, *d):
        if not rt.R.fork(T(rt.b_bool(rt.in_(k, self)))):
            if d:
                return d[0]
            raise KeyError(k)
        v = self.src[k]
        del self[k]
        return v


def entry_of(v):
    """the entry whose value this is"""
    if type(v) is rt.SVal and v.t.decl().name() == mval.name():
        return v.t.arg(0)
    rt.R.fail("a value of the mapping is assigned")


class Named(SSeq):
    """the attributes of one kind with their names: the contract of the generators (proved above).
    As the names are distinct, a search by name is decided by the position of the name."""

    def __init__(self, kind):
        self.kind = kind
        super().__init__(nattr, lambda i: (wrap(aname(i)), LAttr(i)))

    def parts(self):
        return [Many(self.n, lambda i: [If(akind(i) == self.kind, [One((wrap(aname(i)), LAttr(i)))])])]

    def _name(self, f):
        """f looks at the name only: the names (None if it looks at something else)"""
        k = rt.R.fresh("attribute", Int)
        return k, rt.straight(f, (wrap(aname(k)), LAttr(k)))

    def _vc_any(self, conds, f):
        if conds:
            return None
        k, c = self._name(f)
        if type(c) is not SBool or not z3.is_eq(c.t):
            return None
        a, b = c.t.children()
        if b.eq(aname(k)):
            a, b = b, a
        if not a.eq(aname(k)) or P_contains(b, k):
            return None
        return wrap(is_attr(b, self.kind))

    def _vc_listcomp(self, conds, f):
        if conds:
            return None
        k, v = self._name(f)
        if type(v) is SStr and v.t.eq(aname(k)):
            return Names(self.kind)
        return None


class Names(SSeq):
    """the names of the attributes of one kind"""

    def __init__(self, kind):
        self.kind = kind
        super().__init__(nattr, lambda i: wrap(aname(i)))

    def parts(self):
        return [Many(self.n, lambda i: [If(akind(i) == self.kind, [One(wrap(aname(i)))])])]

    def _vc_contains(self, x):
        return False if x is None else wrap(is_attr(term(x, Str), self.kind))


@contract("P18,P19", "an attribute of a kind has a name exactly if the position of the name says so")
def _named(r):
    a_level(r)
    s, k = sym(r, "s", Str).t, sym(r, "kind").t
    i = z3.Int("attribute")
    r.prove("found by its position", Exists([i], And(rng(i, nattr), akind(i) == k, aname(i) == s)) == is_attr(s, k))


class WLevel(GLevel):
    """the level while it is written; set_all by its contract (proved above)"""

    def _Bundle__all_signal_lists(self):
        return Named(LIST)

    def _Bundle__all_sub_bundles(self):
        return Named(SUB)

    def _Bundle__all_bundle_lists(self):
        return Named(BLIST)

    def set_all(self, v):
        st().write("all", [entry_of(v)], True)
        a, b, c = rt.R.fresh("wx", Int), rt.R.fresh("wy", Int), rt.R.fresh("wk", Int)
        s = st()
        rt.R.prove("the wildcard comes first", Not(Or(T(s.read("W", a, c)), T(s.read("L", a, c)), T(s.read("C", a, b, c)))))
        return self

    def _Bundle__find_bundle_list_item(self, name):
        t = term(name, Str)
        if rt.R.fork(is_item(t)):
            return Child(bl_i(t), bl_j(t))
        return None


def is_item(s):
    return And(rng(bl_i(s), nattr), akind(bl_i(s)) == BLIST, rng(bl_j(s), blen(bl_i(s))), s == of_list(aname(bl_i(s)), bl_j(s)))


def items_distinct(r):
    """names of attributes have no brackets, so that name[index] tells which bundle it is"""
    r.assume(ForAll([X, Y], Implies(And(rng(X, nattr), akind(X) == BLIST, rng(Y, blen(X))), And(bl_i(of_list(aname(X), Y)) == X, bl_j(of_list(aname(X), Y)) == Y))))


def a_written_level(r):
    g, b = a_level(r, WLevel)
    for f, n in (("W", 2), ("L", 2), ("C", 3), ("E", 1), ("all", 1)):
        g.st.field(f, [Int] * n, lambda *a: BoolVal(False))
    g.write = lambda x, v: st().write("W", [x, entry_of(v)], True)
    g.lwrite = lambda *a: rt.R.fail("elements are assigned by their list")
    g.lassign = lambda i, v: st().write("L", [i, entry_of(v)], True)
    g.put = g.lput = lambda *a: rt.R.fail("the signals stay in place")
    items_distinct(r)
    r.assume(nent >= 0)
    r.assume(ForAll([X], Implies(rng(X, nent), at_map(mkey(X)) == X)))
    r.hooks["dictlog"] = True
    return g, b


def report(msg):
    """an unknown name is reported: the message names the entry"""
    ks = [e for e in subterms(term(msg)) if z3.is_app(e) and e.decl().name() == mkey.name()] if rt.issym(msg) else []
    if not ks:
        return
    for e in ks:
        st().write("E", [e.arg(0)], True)


def subterms(e):
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(x.children())
    return out


def written(r, g, spec):
    """what is written where: spec(k) -> conditions on entry k (signal, list, child, child index)"""
    x, i, j, k = (sym(r, n).t for n in "xijk")
    named = And(rng(k, nent), mkey(k) != STAR)
    sig, lst, child, ci, cj = spec(k)
    r.prove("a signal gets the value of its own entry, and no other", g.st.f["W"](x, k) == And(named, sig, at_sig(mkey(k)) == x))
    r.prove("a signal list gets the value of its own entry, and no other", g.st.f["L"](i, k) == And(named, lst, at_attr(mkey(k)) == i))
    r.prove("a bundle below gets the value of its own entry, and no other", g.st.f["C"](i, j, k) == And(named, child, ci == i, cj == j))
    r.prove("a name is reported exactly if it is unknown", g.st.f["E"](k) == And(named, Not(Or(sig, lst, child))))
    r.prove("a wildcard sets everything first", g.st.f["all"](k) == And(rng(k, nent), mkey(k) == STAR))


@contract("P18,P19", "assign a nested mapping: every entry goes to the signal of its name, nothing else is written", [PM + "assign"])
def _assign_nested(r):
    g, b = a_written_level(r)

    def cassign(i, j, item, multi):
        rt.R.prove("the same form below", T(rt.b_bool(multi)))
        st().write("C", [i, j, entry_of(item)], True)

    def bassign(i, v, multilevel=True):
        rt.R.prove("the same form below", T(rt.b_bool(multilevel)))
        st().write("C", [i, MINUS, entry_of(v)], True)

    g.cassign, g.bassign = cassign, bassign
    with patched((BU, "error", report)):
        b.assign(GMap(), level_string=sym(r, "level", Str))

    def spec(k):
        n = mkey(k)
        other = lambda c: And(Not(is_sig(n)), is_attr(n, c))
        return is_sig(n), other(LIST), Or(other(SUB), other(BLIST)), at_attr(n), MINUS

    written(r, g, spec)


head, tail = z3.Function("str_split_head", Str, Str, Str), z3.Function("str_split_tail", Str, Str, Str)


@contract("P18,P19", "assign a single-level mapping: dotted names go to the bundle they name, the rest of the name below", [PM + "assign"])
def _assign_flat(r):
    g, b = a_written_level(r)

    def cassign(i, j, item, multi):
        rt.R.prove("the same form below", T(rt.not_(multi)))
        ps = entries(item).parts() if hasattr(entries(item), "parts") else rt.parts_of(entries(item))
        vs = values(entries(item))
        if len(vs) != 1:
            rt.R.fail("one name is passed on")
        n, v = vs[0]
        k = entry_of(v)
        rt.R.prove("the rest of the name is passed on", And(z3.Contains(mkey(k), DOT), term(n, Str) == tail(mkey(k), DOT)))
        st().write("C", [i, j, k], True)

    def bassign(i, v, multilevel=True):
        rt.R.prove("the same form below", T(rt.not_(multilevel)))
        st().write("C", [i, MINUS, entry_of(v)], True)

    g.cassign, g.bassign = cassign, bassign
    with patched((BU, "error", report)):
        b.assign(GMap(), multilevel=False, level_string=sym(r, "level", Str))

    def spec(k):
        n = mkey(k)
        dot = z3.Contains(n, DOT)
        h = head(n, DOT)
        lst = And(Not(is_sig(n)), is_attr(n, LIST))
        free = And(Not(is_sig(n)), Not(lst))
        sub = And(free, dot, is_attr(h, SUB))
        item = And(free, Not(sub), dot, is_item(h))
        bl = And(free, Not(sub), Not(item), is_attr(n, BLIST))
        return is_sig(n), lst, Or(sub, item, bl), z3.If(sub, at_attr(h), z3.If(item, bl_i(h), at_attr(n))), z3.If(item, bl_j(h), MINUS)

    written(r, g, spec)


def a_list(r, i):
    """signal list i itself"""
    sl = object.__new__(BU.SignalList)
    sl.signals = Elems(i)
    sl.names = Listed(llen(i), lambda j: lname(i, j), lambda n: at_l(i, n))
    return sl


eval_ = fn("element_of_value", Int, rt.Val)


@contract("P18,P19", "assigning a signal list writes each element with the value at its position", ["toffee.bundle.SignalList.assign"])
def _list_assign(r):
    g, b = a_level(r)
    g.st.field("LW", [Int, Int], lambda j, k: BoolVal(False))
    i = sym(r, "list").t

    def lwrite(i2, j, v):
        if type(v) is not rt.SVal or v.t.decl().name() != eval_.name():
            rt.R.fail("an element of the value is written")
        st().write("LW", [j, v.t.arg(0)], True)

    g.lwrite = lwrite
    n = sym(r, "length").t
    r.assume(n >= 0)
    e = raises(AssertionError, a_list(r, i).assign, SSeq(n, lambda k: wrap(eval_(k)), "value"))
    j, k = sym(r, "j").t, sym(r, "k").t
    r.prove("a value of another length is rejected", BoolVal(e is not None) == (n != llen(i)))
    r.prove("each element gets the value at its position, once the lengths agree", g.st.f["LW"](j, k) == And(BoolVal(e is None), rng(j, llen(i)), k == j))


for _m in (True, False):

    @contract("P18,P19", f"assigning a bundle list assigns each bundle the value at its position ({'nested' if _m else 'single-level'})", ["toffee.bundle.BundleList.assign"])
    def _blist_assign(r, m=_m):
        g, b = a_level(r)
        g.st.field("CW", [Int, Int], lambda j, k: BoolVal(False))
        i = sym(r, "list").t

        def cassign(i2, j, v, multi):
            if type(v) is not rt.SVal or v.t.decl().name() != eval_.name():
                rt.R.fail("an element of the value is assigned")
            rt.R.prove("in the same form", T(rt.b_bool(multi)) == BoolVal(m))
            st().write("CW", [j, v.t.arg(0)], True)

        g.cassign = cassign
        bl = object.__new__(BU.BundleList)
        bl.bundles = SSeq(blen(i), lambda j: Child(i, j))
        bl.assign(SSeq(blen(i), lambda k: wrap(eval_(k)), "value"), m)
        j, k = sym(r, "j").t, sym(r, "k").t
        r.prove("each bundle gets the value at its position", g.st.f["CW"](j, k) == And(rng(j, blen(i)), k == j))


@contract("P18,P19", "the name of an element of a bundle list finds that element, any other name none", [PM + "__find_bundle_list_item"])
def _find_item(r):
    g, b = a_level(r)
    items_distinct(r)
    s = sym(r, "s", Str)
    v = b._Bundle__find_bundle_list_item(s)
    if v is None:
        r.prove("no element has the name", Not(is_item(s.t)))
    else:
        r.prove("it is the element of the name", And(is_item(s.t), v.i == bl_i(s.t), v.j == bl_j(s.t)))


@contract("P18", "anything but a mapping is left to its own assignment, or rejected", [PM + "assign"])
def _assign_other(r):
    g, b = a_written_level(r)
    calls = []
    for has in (True, False):
        class Item:
            pass

        if has:
            Item.__bundle_assign__ = lambda self, x: calls.append((self, x))
        it = Item()
        with patched((BU, "critical", lambda m: calls.append(m))):
            b.assign(it)
        if has:
            r.prove("it gets the bundle, once", BoolVal(len(calls) == 1 and calls[0][0] is it and calls[0][1] is b))
        else:
            r.prove("it is rejected", BoolVal(len(calls) == 1 and isinstance(calls[0], str)))
        del calls[:]


# ---------------------------------------------------------------- the three kinds of rules

npin = z3.Int("pins_given")
pname, porg = fn("name_of_pin", Int, Str), fn("device_name_of_pin", Int, Str)
at_li = fn("list_with_element", Str, Int)


class GPin:
    """pin k"""

    _vc_data = True

    def __init__(self, k):
        self.k = k


def pins(n=None, nm=None):
    n, nm = npin if n is None else n, pname if nm is None else nm
    return SSeq(n, lambda k: rt.mkdict(("name", wrap(nm(k))), ("org_name", wrap(porg(k))), ("signal", GPin(k))), "pins")


def is_elem(n):
    i = at_li(n)
    return And(rng(i, nattr), akind(i) == LIST, in_list(i, n))


def elems_distinct(r):
    """no two signal lists of a level have an element of the same name"""
    r.assume(ForAll([X, Y], Implies(And(rng(X, nattr), akind(X) == LIST, rng(Y, llen(X))), at_li(lname(X, Y)) == X)))


class BList(LAttr):
    """a signal list that pins are bound to: the contract of bind_signal (proved below)"""

    def bind_signal(self, bundle, signal_name, signal, *a, **k):
        n = term(signal_name, Str)
        rt.R.prove("an element of this list is connected", And(akind(self.i) == LIST, in_list(self.i, n)))
        rt.R.prove("with the bundle itself", BoolVal(bundle is ghost().bundle))
        st().write("CE", [self.i, at_l(self.i, n), signal.k], True)


class Target:
    """the bundle that a rule is asked about"""

    def __init__(self):
        self.current_level_signals = Listed(nsig, sname, at_sig)

    def _Bundle__all_signal_lists(self):
        return Named(LIST)

    def _Bundle__add_signal_attr(self, signal_name, signal, info_bundle_name=None, info_dut_name=None):
        n = term(signal_name, Str)
        rt.R.prove("a signal of the level is connected", is_sig(n))
        st().write("CS", [at_sig(n), signal.k], True)


def list_with(bundle, name):
    """the contract of get_matching_signal_list (proved below)"""
    t = term(name, Str)
    if rt.R.fork(is_elem(t)):
        return wrap(aname(at_li(t))), BList(at_li(t))
    return None


@contract("P16,P22", "the signal list of an element is found by its name", ["toffee.bundle.BindMethod.get_matching_signal_list"])
def _matching_list(r):
    g, b = a_level(r)
    elems_distinct(r)
    s = sym(r, "s", Str)
    v = BU.BindMethod.get_matching_signal_list(b, s)
    if v is None:
        r.prove("no list has it", Not(is_elem(s.t)))
    else:
        r.prove("its list", And(is_elem(s.t), v[1].i == at_li(s.t), term(v[0]) == aname(v[1].i)))


prefix = z3.String("prefix")
regex_hit = fn("regex_matches", Str, Bool)
regex_at0 = fn("match_is_at_the_beginning", Str, Bool)
ngroups = fn("groups_of_match", Str, Int)
gnone, gtext = fn("group_is_absent", Str, Int, Bool), fn("text_of_group", Str, Int, Str)
joined = fn("joined_groups", Str, Str)
ndict = z3.Int("entries_of_dictionary")
dkey, dval, at_dval = fn("key_in_dictionary", Int, Str), fn("value_in_dictionary", Int, Str), fn("position_of_value", Str, Int)


class Match:
    _vc_data = True

    def __init__(self, n):
        self.n = n

    def groups(self, default=None):
        n = self.n
        return SSeq(ngroups(n), lambda j: default if rt.R.fork(gnone(n, j)) else wrap(gtext(n, j)), "groups")


class Rx:
    _vc_data = True

    def __init__(self, pat):
        self.pat = pat

    def search(self, s):
        return Re.search(self.pat, s)

    def match(self, s):
        return Re.match(self.pat, s)


class Re(metaclass=Partial):
    """the module re: a search tells whether there is a match, and its groups"""

    @staticmethod
    def compile(pat, *a):
        return Rx(pat)

    @staticmethod
    def search(pat, s, *a):
        rt.R.prove("the expression of the rule is searched", BoolVal(pat is REGEX))
        n = term(s, Str)
        return Match(n) if rt.R.fork(regex_hit(n)) else None

    @staticmethod
    def match(pat, s, *a):
        """a match at the beginning is the first one that a search finds"""
        rt.R.prove("the expression of the rule is searched", BoolVal(pat is REGEX))
        n = term(s, Str)
        return Match(n) if rt.R.fork(And(regex_hit(n), regex_at0(n))) else None


REGEX = object()


def join_groups(sep, xs):
    """the name is made of the groups in order, absent ones are empty"""
    ps = rt.parts_of(xs)
    if not isinstance(sep, str) or sep != "" or ps is None or len(ps) != 1 or not isinstance(ps[0], Many):
        raise Unsupported("join")
    j = rt.R.fresh("group", Int)
    found = [e for e in subterms(term(ps[0].n)) if z3.is_app(e) and e.decl().name() == ngroups.name()]
    if not found:
        raise Unsupported("join of something else")
    n = found[0].arg(0)
    alts = rt.guarded(ps[0].fn(j))
    rt.R.prove("all groups are joined", term(ps[0].n) == ngroups(n))
    empty, absent = z3.StringVal(""), gnone(n, j)
    here = rng(j, ngroups(n))
    rt.R.prove("absent groups add nothing", Implies(And(here, absent), And(*[Implies(c, term(v, Str) == empty) for c, v in alts if v is not None], *[Not(c) for c, v in alts if v is None])))
    rt.R.prove("the others their text", Implies(And(here, Not(absent)), Or(*[And(c, term(v, Str) == gtext(n, j)) for c, v in alts if v is not None])))
    rt.R.prove("each group once", Implies(here, And(*[Not(And(a, b)) for x, (a, _) in enumerate(alts) for b, _ in alts[:x]])))
    return wrap(joined(n))


class GDictRule:
    _vc_data = True

    def _vc_parts(self):
        return self.keys().parts()

    def _vc_contains(self, k):
        raise Unsupported("a lookup in the dictionary of the rule")

    get = __getitem__ = _vc_contains

    def keys(self):
        return SSeq(ndict, lambda k: wrap(dkey(k)), "keys")

    def values(self):
        return Listed(ndict, dval, at_dval)

    def items(self):
        return SSeq(ndict, lambda k: (wrap(dkey(k)), wrap(dval(k))), "entries")


def rule(kind):
    """the rule, whether it accepts a name, and the name it makes of it"""
    if kind == "prefix":
        return BU.PrefixBindMethod(wrap(prefix)), lambda n: z3.PrefixOf(prefix, n), lambda n: z3.SubString(n, z3.Length(prefix), z3.Length(n) - z3.Length(prefix))
    if kind == "regex":
        return BU.RegexBindMethod(REGEX), regex_hit, joined
    hit = lambda n: And(rng(at_dval(n), ndict), dval(at_dval(n)) == n)
    return BU.DictBindMethod(GDictRule()), hit, lambda n: dkey(at_dval(n))


@contract("P16,P22", "a prefix rule makes a name shorter by the prefix")
def _prefix(r):
    n = z3.String("n")
    m, hit, rest = rule("prefix")
    r.prove("prefix and rest make up the name", Implies(hit(n), z3.Concat(prefix, rest(n)) == n))


for _kind, _c in (("prefix", "Prefix"), ("regex", "Regex"), ("dict", "Dict")):
    for _det in (False, True):

        @contract("P16,P22" if not _det else "P22", f"a {_kind} rule connects exactly the pins it maps to a signal or list element" + (" (asked only: nothing is connected)" if _det else ""), [f"toffee.bundle.{_c}BindMethod.bind"])
        def _bind_rule(r, kind=_kind, det=_det):
            g, _ = a_level(r)
            elems_distinct(r)
            b = g.bundle = Target()
            g.st.field("CS", [Int, Int], lambda x, k: BoolVal(False))
            g.st.field("CE", [Int, Int, Int], lambda i, j, k: BoolVal(False))
            m, hit, rest = rule(kind)
            r.assume(And(npin >= 0, ndict >= 0))
            r.assume(ForAll([X], Implies(rng(X, ndict), at_dval(dval(X)) == X)))
            r.assume(ForAll([S_], ngroups(S_) >= 0))
            r.hooks["join"] = join_groups
            with patched((BU, "re", Re), (BU.BindMethod, "get_matching_signal_list", staticmethod(list_with)), (BU, "info", lambda *a: None)):
                con, mat, rem = m.bind(b, pins(), sym(r, "level", Str), det)
            x, i, j, k = (sym(r, n).t for n in "xijk")
            s = sym(r, "name", Str).t
            ok = And(rng(k, npin), hit(pname(k)))
            sk = rest(pname(k))
            elem = And(ok, Not(is_sig(sk)), is_elem(sk))
            no = BoolVal(not det)
            r.prove("signals get the pins that the rule names, and no others", g.st.f["CS"](x, k) == And(no, ok, is_sig(sk), at_sig(sk) == x))
            r.prove("list elements get the pins that the rule names, and no others", g.st.f["CE"](i, j, k) == And(no, elem, i == at_li(sk), j == at_l(i, sk)))
            known = lambda n: Or(is_sig(n), is_elem(n))
            r.prove("what is connected is named", member(con, lambda o: term(o, Str) == s) == Exists([X], And(rng(X, npin), hit(pname(X)), known(rest(pname(X))), rest(pname(X)) == s)))
            r.prove("the pins for the levels below", member(mat, lambda o: o["signal"].k == k) == And(ok, Not(known(sk))))
            r.prove("go there by the rest of their names", Not(member(mat, lambda o: Or(term(o["name"]) != rest(pname(o["signal"].k)), term(o["org_name"]) != porg(o["signal"].k)))))
            r.prove("all others remain", member(rem, lambda o: o["signal"].k == k) == And(rng(k, npin), Not(hit(pname(k)))))
            r.prove("as they are", Not(member(rem, lambda o: Or(term(o["name"]) != pname(o["signal"].k), term(o["org_name"]) != porg(o["signal"].k)))))


# ---------------------------------------------------------------- connecting and releasing


def once(name, *idx):
    """an event that happens once at most"""
    idx = [term(x, Int) for x in idx]
    rt.R.prove(f"{name}: once at most", Not(T(st().read(name, *idx))))
    st().write(name, idx, True)


def released(s):
    """the contract of releasing a pin (proved above), for what a slot holds"""
    if type(s) is LSlot:
        once("REL", s.x)
    elif type(s) is LElem:
        once("LREL", s.i, s.j)
    else:
        rt.R.fail("what a slot holds is released")


def counted(s):
    if type(s) is not GPin:
        rt.R.fail("the new pin is counted")
    once("CNT", s.k)


class NameSet:
    """the names that the present bind has connected"""

    def _vc_contains(self, n):
        x = at_sig(term(n, Str))
        return wrap(And(is_sig(term(n, Str)), T(st().read("CN", x))))

    def add(self, n):
        st().write("CN", [at_sig(term(n, Str))], True)

    def clear(self):
        ghost().cleared = True


class OwnDict:
    """the attributes that the instance itself has"""

    def _vc_contains(self, n):
        return wrap(own(at_sig(term(n, Str))))

    def _vc_parts(self):
        raise Unsupported("iteration over the attributes")


own = fn("slot_is_connected", Int, Bool)


class CLevel(GLevel):
    """the level while pins are connected and released"""

    @property
    def __dict__(self):
        return OwnDict()

    def _Bundle__all_signal_lists(self):
        return Named(LIST)

    def _Bundle__all_sub_bundles(self):
        return Named(SUB)

    def _Bundle__all_bundle_lists(self):
        return Named(BLIST)

    def _Bundle__update_signal_info(self, s):
        counted(s)

    def _vc_delattr(self, n):
        t = term(n, Str)
        rt.R.prove("the attribute of a connected signal is removed", And(is_sig(t), own(at_sig(t))))
        once("DEL", at_sig(t))


def a_connected_level(r):
    g, b = a_level(r, CLevel)
    g.bundle = b
    g.cleared = False
    for f, n in (("REL", 1), ("LREL", 2), ("CNT", 1), ("DEL", 1), ("PUT", 2), ("LPUT", 3), ("CLR", 2), ("CUN", 2), ("CN", 1), ("DUM", 1), ("LDUM", 2)):
        g.st.field(f, [Int] * n, fn("connected_by_this_bind", Int, Bool) if f == "CN" else (lambda *a: BoolVal(False)))
    object.__setattr__(b, "_Bundle__connected_names", NameSet())
    g.write = g.lwrite = lambda *a: rt.R.fail("no values are written")
    return g, b


def quiet(g, r, *but):
    """no other events"""
    for f in ("REL", "LREL", "CNT", "DEL", "PUT", "LPUT", "CLR", "CUN", "DUM", "LDUM"):
        if f not in but:
            n = len(g.st.sorts(f))
            r.prove(f"no {f} event", Not(T(g.st.f[f](*[r.fresh("any", Int) for _ in range(n)]))))


@contract("P16,P17,P21", "connecting a signal puts the pin in its place, counts it, and releases a pin of the same bind that it replaces", [PM + "__add_signal_attr"])
def _add(r):
    g, b = a_connected_level(r)
    x, k, y, l = (sym(r, n).t for n in "xkyl")
    r.assume(And(rng(x, nsig)))
    cn = T(g.st.read("CN", x))

    def put(x2, v):
        rt.R.prove("the pin is put in place", BoolVal(type(v) is GPin))
        st().write("PUT", [x2, v.k], True)

    g.put = put
    with patched((B, "_Bundle__release_signal", staticmethod(released)), (BU, "info", lambda *a: None)):
        b._Bundle__add_signal_attr(wrap(sname(x)), GPin(k), info_dut_name=sym(r, "d", Str), info_bundle_name=sym(r, "b", Str))
    r.prove("the signal refers to the pin, no other signal is touched", g.st.f["PUT"](y, l) == And(y == x, l == k))
    r.prove("the pin is counted once", g.st.f["CNT"](l) == (l == k))
    r.prove("a pin of the same bind is released, nothing else", g.st.f["REL"](y) == And(y == x, cn))
    r.prove("the name is remembered", And(g.st.f["CN"](x), Implies(y != x, g.st.f["CN"](y) == fn("connected_by_this_bind", Int, Bool)(y))))
    quiet(g, r, "PUT", "CNT", "REL")


@contract("P16,P17,P21", "connecting a list element puts the pin in its place, counts it, and releases the former one", ["toffee.bundle.SignalList.bind_signal"])
def _add_elem(r):
    g, b = a_connected_level(r)
    i, j, k, m, l = (sym(r, n).t for n in "ijkml")
    s = sym(r, "s", Str)

    def lput(i2, j2, v):
        rt.R.prove("the pin is put in place", BoolVal(type(v) is GPin))
        st().write("LPUT", [i2, j2, v.k], True)

    g.lput = lput
    sl = a_list(r, i)
    with patched((B, "_Bundle__release_signal", staticmethod(released)), (BU, "info", lambda *a: None)):
        e = raises(AssertionError, sl.bind_signal, b, s, GPin(k), info_dut_name=sym(r, "d", Str), info_bundle_name=sym(r, "b", Str))
    ok = in_list(i, s.t)
    j0 = at_l(i, s.t)
    r.prove("a name that is not in the list is rejected", BoolVal(e is None) == ok)
    r.prove("the element of that name refers to the pin, no other", g.st.f["LPUT"](i, m, l) == And(ok, m == j0, l == k))
    r.prove("the pin is counted once", g.st.f["CNT"](l) == And(ok, l == k))
    r.prove("the former pin is released, nothing else", g.st.f["LREL"](i, m) == And(ok, m == j0))
    quiet(g, r, "LPUT", "CNT", "LREL")


@contract("P03:clock,P04:clock,P17,P21", "unbinding releases and clears every place once, at every level, and forgets the clock", [PM + "__unbind_all", PM + "__remove_signal_attr"])
def _unbind(r):
    g, b = a_connected_level(r)
    b._Bundle__clock_event = Ghost()

    def lput(i, j, v):
        rt.R.prove("the place is cleared", BoolVal(type(v) is BU.Signal))
        rt.R.prove("after its pin was released", T(st().read("LREL", i, j)))
        once("CLR", i, j)

    g.lput = lput
    g.cunbind = lambda i, j: once("CUN", i, j)
    with patched((B, "_Bundle__release_signal", staticmethod(released))):
        b._Bundle__unbind_all()
    x, i, j = (sym(r, n).t for n in "xij")
    conn = And(rng(x, nsig), own(x))
    r.prove("every connected signal is released", g.st.f["REL"](x) == conn)
    r.prove("and removed", g.st.f["DEL"](x) == conn)
    elem = And(rng(i, nattr), akind(i) == LIST, rng(j, llen(i)))
    r.prove("every list element is released", g.st.f["LREL"](i, j) == elem)
    r.prove("and cleared", g.st.f["CLR"](i, j) == elem)
    below = And(rng(i, nattr), Or(And(akind(i) == SUB, j == -1), And(akind(i) == BLIST, rng(j, blen(i)))))
    r.prove("every bundle below is unbound", g.st.f["CUN"](i, j) == below)
    r.prove("the clock is forgotten", BoolVal(b._Bundle__clock_event is None))
    r.prove("the names of the last bind are forgotten", BoolVal(g.cleared is True))
    quiet(g, r, "REL", "LREL", "DEL", "CLR", "CUN")


nconn = z3.Int("names_connected")
conn_name, at_conn = fn("connected_name", Int, Str), fn("position_of_connected_name", Str, Int)


def is_conn(n):
    return And(rng(at_conn(n), nconn), conn_name(at_conn(n)) == n)


def connected_list():
    return Listed(nconn, conn_name, at_conn)


for _acc in (True, False):

    @contract("P16", f"signals without a pin " + ("become harmless" if _acc else "stay as they are if access is disallowed") + "; connected ones are not touched", [PM + "__detect_missing_signals"])
    def _missing(r, acc=_acc):
        g, b = a_connected_level(r)
        r.assume(nconn >= 0)

        def put(x, v):
            rt.R.prove("a signal that does nothing is put in place", BoolVal(type(v) is BU.DummySignal))
            st().write("DUM", [x], True)

        def lput(i, j, v):
            rt.R.prove("a signal that does nothing is put in place", BoolVal(type(v) is BU.DummySignal))
            st().write("LDUM", [i, j], True)

        g.put, g.lput = put, lput
        lvl = sym(r, "level", Str)
        g.st.field("WARN", [Int], lambda a: BoolVal(False))
        g.st.field("LWARN", [Int, Int], lambda a, c: BoolVal(False))
        sig_path, elem_path = fn("path_of_the_signal", Int, Str), fn("path_of_the_element", Int, Int, Str)

        def appended(level, name):
            rt.R.prove("the path of a signal starts at the level", term(level) == lvl.t)
            t = term(name)
            if t.decl().name() == sname.name():
                return wrap(sig_path(t.arg(0)))
            lists = [e.arg(0) for e in subterms(t) if z3.is_app(e) and e.decl().name() == aname.name()]
            places = [e.arg(0) for e in subterms(t) if z3.is_app(e) and e.decl().name() == str_int.name()]
            if len(lists) != 1 or len(places) != 1 or not z3.simplify(t).eq(z3.simplify(of_list(aname(lists[0]), places[0]))):
                raise Unsupported("the name of a signal of a level")
            return wrap(elem_path(lists[0], places[0]))

        def warned(msg, *a):
            of = {e.get_id(): e for e in subterms(term(msg, Str)) if z3.is_app(e) and e.decl().name() in (sig_path.name(), elem_path.name())}
            if len(of) != 1:
                raise Unsupported("the message names no or several signals")
            (e,) = of.values()
            once("WARN" if e.num_args() == 1 else "LWARN", *e.children())

        with patched((B, "_Bundle__get_rule_string", staticmethod(lambda *a: "the rule")), (B, "_Bundle__appended_level_string", staticmethod(appended)), (BU, "warning", warned)):
            b._Bundle__detect_missing_signals(connected_list(), lvl, [b], acc)
        x, i, j = (sym(r, n).t for n in "xij")
        r.prove("each signal without a pin is reported once, under its path", g.st.f["WARN"](x) == And(rng(x, nsig), Not(is_conn(sname(x)))))
        r.prove("each list element without a pin is reported once, under its path", g.st.f["LWARN"](i, j) == And(rng(i, nattr), akind(i) == LIST, rng(j, llen(i)), Not(is_conn(lname(i, j)))))
        yes = BoolVal(acc)
        r.prove("exactly the signals without a pin", g.st.f["DUM"](x) == And(yes, rng(x, nsig), Not(is_conn(sname(x)))))
        r.prove("exactly the list elements without a pin", g.st.f["LDUM"](i, j) == And(yes, rng(i, nattr), akind(i) == LIST, rng(j, llen(i)), Not(is_conn(lname(i, j)))))
        quiet(g, r, "DUM", "LDUM")


# ---------------------------------------------------------------- a bind, level by level

mt, rem_ = fn("goes_below", Int, Bool), fn("rejected_by_rule", Int, Bool)
rest_, takes = fn("rest_of_name", Int, Str), fn("taken_below", Int, Int, Int, Bool)
own_clock = z3.Bool("clock_of_own_signal")
at_org = fn("position_of_device_name", Str, Int)
CLK = Ghost()


class RPin:
    """an entry of a list of pins: its name changes on the way"""

    _vc_data = True

    def __init__(self, k):
        self.k = k

    def __getitem__(self, key):
        if key == "name":
            return wrap(st().read("NM", self.k))
        if key == "org_name":
            return wrap(porg(self.k))
        if key == "signal":
            return GPin(self.k)
        raise Unsupported(str(key))

    def __setitem__(self, key, v):
        if key != "name":
            rt.R.fail("only names are changed")
        st().write("NM", [self.k], term(v, Str))


class Sel:
    """the pins k with cond(k)"""

    _vc_data = True

    def __init__(self, cond, pin=RPin):
        self.cond, self.pin = cond, pin

    def _vc_parts(self):
        return [Many(npin, lambda k: [If(self.cond(k), [One(self.pin(k))])])]


class OPin:
    """an entry of the list of pins that the level was given"""

    _vc_data = True

    def __init__(self, k):
        self.k = k

    def __getitem__(self, key):
        return {"name": wrap(pname(self.k)), "org_name": wrap(porg(self.k)), "signal": GPin(self.k)}[key]

    def __setitem__(self, key, v):
        rt.R.fail("the pins given to the level stay as they are")


@contract("P16,P22", "the pins that were not taken get back the names they came with", [PM + "__revert_signal_name"])
def _revert(r):
    g = root(r)
    r.assume(npin >= 0)
    r.assume(ForAll([X], at_org(porg(X)) == X))
    g.st.field("NM", [Int], rest_)
    BU.Bundle._Bundle__revert_signal_name(Sel(mt), SSeq(npin, OPin))
    k = sym(r, "k").t
    r.prove("their names are those they came with", Implies(And(rng(k, npin), mt(k)), g.st.f["NM"](k) == pname(k)))


class Free(Sel):
    """the pins that no level below has taken yet"""

    def __init__(self):
        self.pin = RPin
        self.cond = lambda k: And(mt(k), Not(T(st().read("TAKEN", k))))

    def __add__(self, other):
        return Both(self, other)


class Both:
    _vc_data = True

    def __init__(self, *ls):
        self.ls = ls

    def _vc_parts(self):
        return [p for l in self.ls for p in l._vc_parts()]


class ConnectMethod:
    """the contract of the three rules (proved above)"""

    def bind(self, bundle, all_signals, level_string, detection_mode):
        g = ghost()
        rt.R.prove("the rule is applied to all pins given", BoolVal(bundle is g.bundle and all_signals is g.given))
        rt.R.prove("in the same mode", BoolVal(detection_mode is g.det))
        if not g.det:
            st().write("CLOCK", [], Or(T(st().read("CLOCK")), own_clock))
        return connected_list(), g.free, Sel(rem_, OPin)


class BLevel(CLevel):
    """the level while it is bound"""

    @property
    def _Bundle__clock_event(self):
        return CLK if rt.R.fork(T(st().read("CLOCK"))) else None

    @_Bundle__clock_event.setter
    def _Bundle__clock_event(self, v):
        rt.R.prove("the clock is that of the device", BoolVal(v is CLK or v is None))
        st().write("CLOCK", [], BoolVal(v is CLK))


class Paths:
    """what the paths of the signals are collected in"""

    def extend(self, ps):
        if type(ps) is not PathsOf:
            raise Unsupported("extend by something else")
        st().write("OP", [ps.x], True)


class PathsOf:
    _vc_data = True

    def __init__(self, x):
        self.x = x


def one_level(r, g, det, paths):
    """bind or ask one level; the fields say what happened"""
    g.det, g.given, g.free = det, SSeq(npin, OPin), Free()
    lvl = sym(r, "level", Str)
    stack, acc = [], Ghost()
    for f, n in (("TAKEN", 1), ("GETS", 3), ("ASKED", 2), ("OP", 1), ("CLOCK", 0)):
        g.st.field(f, [Int] * n, lambda *a: BoolVal(False))
    if det:
        g.st.field("CLOCK", [], lambda: z3.Bool("clock_before"))
    g.st.field("NM", [Int], rest_)
    b = g.bundle = g.b
    object.__setattr__(b, "_Bundle__connect_method", ConnectMethod())
    missing = []
    b.bound = "as before"

    def cbind(i, j, pins, level, stk, access, detect, pth, rule):
        rt.R.prove("each level below gets the pins that are left", BoolVal(pins is g.free))
        rt.R.prove("in the same mode", BoolVal(detect is det and (det or access is acc)))
        rt.R.prove("paths are collected in the same list", BoolVal(pth is paths))
        if paths is not None:
            rt.R.prove("below its own path", term(level) == join(lvl.t, z3.If(j == -1, aname(i), of_list(aname(i), j))))
        once("ASKED", i, j)
        f = g.st.f
        old, gets = f["TAKEN"], f["GETS"]
        g.st.f = dict(f)
        g.st.f["TAKEN"] = lambda k: Or(old(k), takes(i, j, k))
        g.st.f["GETS"] = lambda a, b, k: Or(gets(a, b, k), And(a == i, b == j, mt(k), Not(old(k)), takes(i, j, k)))
        return g.free

    def own_paths(level, name):
        rt.R.prove("its own path", term(level) == lvl.t)
        t = term(name)
        return PathsOf(t.arg(0) if t.decl().name() == conn_name.name() else at_conn(t))

    def note_missing(con, level, stk, access):
        rt.R.prove("the signals without a pin are those not connected", BoolVal(type(con) is Listed and con.f is conn_name))
        rt.R.prove("access as asked for", BoolVal(access is acc))
        missing.append(1)

    g.cbind = cbind
    for n, f in (("signal_paths", own_paths), ("detect_missing_signals", note_missing)):
        object.__setattr__(b, "_Bundle__" + n, f)
    out = b._Bundle__bind_from_signal_list(g.given, lvl, stack, acc, det, paths, None)
    return out, len(missing)


below_ = lambda i, j: And(rng(i, nattr), Or(And(akind(i) == SUB, j == -1), And(akind(i) == BLIST, rng(j, blen(i)))))


def bind_setup(r):
    g, b = a_level(r, BLevel)
    g.b = b
    r.assume(And(npin >= 0, nconn >= 0))
    r.assume(ForAll([X], at_org(porg(X)) == X))
    r.assume(ForAll([X], Implies(rng(X, nconn), at_conn(conn_name(X)) == X)))
    return g


for _det in (False, True):

    @contract("P22" if _det else "P03:clock,P04:clock,P16,P17,P22", "asking a level goes through it like a bind, changes nothing, and collects the path of each signal that would be connected" if _det else "binding a level hands each pin on to at most one level below, and returns exactly those that nobody took", [PM + "__bind_from_signal_list", PM + "__revert_signal_name"])
    def _bind_level(r, det=_det):
        g = bind_setup(r)
        with patched((BU, "error", lambda *a: rt.R.fail("no error"))):
            out, nmiss = one_level(r, g, det, Paths() if det else None)
        i, j, k, i2, j2, k2 = (sym(r, n).t for n in ("i", "j", "k", "i2", "j2", "k2"))
        f = g.st.f
        r.prove("every bundle below is asked", f["ASKED"](i, j) == below_(i, j))
        r.prove("a pin goes only to a bundle that takes it", Implies(f["GETS"](i, j, k), And(below_(i, j), mt(k), takes(i, j, k))))
        r.prove("and to one only", Implies(And(f["GETS"](i, j, k), f["GETS"](i2, j2, k)), And(i == i2, j == j2)))
        someone = Exists([X, Y], And(below_(X, Y), takes(X, Y, k)))
        r.prove("the pins that nobody takes are returned", member(out, lambda o: o.k == k) == And(rng(k, npin), Or(And(mt(k), Not(someone)), rem_(k))))
        r.prove("under the names they came with", Not(member(out, lambda o: term(o["name"]) != pname(o.k))))
        some_clock = Exists([X, Y], And(below_(X, Y), clocked(X, Y)))
        if det:
            r.prove("the clock stays as it was", f["CLOCK"]() == z3.Bool("clock_before"))
            r.prove("paths of exactly the signals that would be connected", f["OP"](k) == rng(k, nconn))
            r.prove("nothing is made harmless, nothing is marked as bound", BoolVal(nmiss == 0 and g.b.bound == "as before"))
        else:
            r.prove("the bundle has a clock if it, or one below, is connected", f["CLOCK"]() == Or(own_clock, some_clock))
            r.prove("signals without a pin are seen to", BoolVal(nmiss == 1))
            r.prove("it counts as bound", BoolVal(g.b.bound is True))


@contract("P22", "asking and binding give each pin to the same bundle below", [PM + "__bind_from_signal_list"])
def _both_modes(r):
    g = bind_setup(r)
    i, j, k = (sym(r, n).t for n in "ijk")
    got = []
    for det in (True, False):
        one_level(r, g, det, Paths() if det else None)
        got.append(g.st.f["GETS"](i, j, k))
    r.prove("the same pins", got[0] == got[1])


class TopLevel(CLevel):
    """a bundle whose levels below, and the binding itself, are given by their contracts"""

    def _Bundle__bind_from_signal_list(self, *a):
        return ghost().bind_from(*a)

    def _Bundle__unbind_all(self):
        ghost().log.append("unbind")

    def _Bundle__unbind_bound(self):
        ghost().log.append("unbind bound")


def a_top(r, cls=TopLevel):
    g, b = a_connected_level(r)
    g.bundle = b = object.__new__(cls)
    b.current_level_signals = Listed(nsig, sname, at_sig)
    b.name = sym(r, "name", Str)
    g.log = []
    return g, b


def one_pin(r, g, all_signals, s):
    v = values(all_signals)
    rt.R.prove("asked for this one pin", BoolVal(len(v) == 1))
    rt.R.prove("under its name", And(term(v[0]["name"]) == s.t, term(v[0]["org_name"]) == s.t))


@contract("P22", "a pin could be connected exactly if nothing of it is left when it is asked for", [PM + "detect_connectivity"])
def _detect(r):
    g, b = a_top(r)
    s, left = sym(r, "s", Str), r.fresh("pins_left", Int)
    r.assume(And(left >= 0, left <= 1))

    def ask(pins, level, stack, access, det, paths, rule):
        g.log.append("ask")
        one_pin(r, g, pins, s)
        r.prove("asked only", BoolVal(det is True and rule is None))
        return SSeq(left, lambda i: Ghost())

    g.bind_from = ask
    v = b.detect_connectivity(s)
    r.prove("yes exactly if nobody leaves it", T(v) == (left == 0))
    r.prove("asked once, nothing is unbound", BoolVal(g.log == ["ask"]))


npath = z3.Int("paths_of_connected_signals")
path_name, at_path = fn("path_of_connected_signal", Int, Str), fn("position_of_path", Str, Int)


@contract("P22", "a pin could be connected to a signal exactly if the signal's path is among those it would be connected to", [PM + "detect_specific_connectivity"])
def _detect_specific(r):
    g, b = a_top(r)
    s, t, left = sym(r, "s", Str), sym(r, "t", Str), r.fresh("pins_left", Int)
    r.assume(And(left >= 0, left <= 1, npath >= 0))
    r.assume(ForAll([X], Implies(rng(X, npath), at_path(path_name(X)) == X)))

    def ask(pins, level, stack, access, det, paths, rule):
        g.log.append("ask")
        one_pin(r, g, pins, s)
        r.prove("asked only, from the top", BoolVal(det is True and rule is None and term(level).eq(z3.StringVal(""))))
        paths.extend(Listed(npath, path_name, at_path))
        return SSeq(left, lambda i: Ghost())

    g.bind_from = ask
    v = b.detect_specific_connectivity(s, t)
    r.prove("yes exactly if it is one of them", T(v) == And(rng(at_path(t.t), npath), path_name(at_path(t.t)) == t.t))
    r.prove("asked once, nothing is unbound", BoolVal(g.log == ["ask"]))


@contract("P22", "the paths of a signal or list element", [PM + "__signal_paths"])
def _signal_paths(r):
    g, b = a_level(r)
    elems_distinct(r)
    l, s = sym(r, "level", Str), sym(r, "s", Str)
    r.assume(Or(is_sig(s.t), is_elem(s.t)))
    with patched((BU.BindMethod, "get_matching_signal_list", staticmethod(list_with))):
        v = values(b._Bundle__signal_paths(l, s))
    i = at_li(s.t)
    elem = And(Not(is_sig(s.t)), is_elem(s.t))
    t = r.fresh("t", Str)
    r.prove("its path, and for a list element also the one by its position", Or(BoolVal(False), *[t == term(x, Str) for x in v]) == Or(t == join(l.t, s.t), And(elem, t == join(l.t, of_list(aname(i), at_l(i, s.t))))))


for _bound in (True, False):
    for _acc in (True, False):

        @contract("P16,P17,P20,P21", f"bind: former connections are released, then all pins of the device are offered (bundle {'bound' if _bound else 'not bound'} before, access {'allowed' if _acc else 'disallowed'})", [PM + "bind"])
        def _bind(r, bound=_bound, acc=_acc):
            for mode in (None, *MODES):
                g, b = a_top(r)
                b.bound, b.write_mode = bound, mode
                dut, pins = Ghost(), object()

                def named(i, j, n):
                    r.prove("it is named after its attribute", And(akind(i) == SUB, j == -1, term(n) == aname(i)))

                g.named = named

                def bind_from(all_signals, level, stack, access, det, paths, rule):
                    g.log.append("bind")
                    r.prove("all pins of the device", BoolVal(all_signals is pins))
                    r.prove("at its own level", term(level) == b.name.t)
                    r.prove("access as asked for", BoolVal(access is acc))
                    r.prove("it is a bind", BoolVal(det is False and paths is None))
                    b.bound = True
                    return []

                g.bind_from = bind_from
                object.__setattr__(b, "dut_all_signals", lambda d: Offered(d, pins) if d is dut else rt.R.fail("the device's pins"))
                object.__setattr__(b, "_Bundle__set_all_signals_write_mode", lambda m: g.log.append(m))
                object.__setattr__(b, "make_requset_response_for", lambda d: g.log.append("requests" if d is dut else "?"))
                with patched((BU, "warning", lambda *a: None)):
                    out = b.bind(dut, acc)
                pos = lambda x: [n for n, y in enumerate(g.log) if y == x]
                one = all(len(pos(x)) == 1 for x in ["bind", "requests"] + ([mode] if mode else []))
                r.prove("bound once, served once, configured once if a mode is set", BoolVal(one and not pos("?")))
                r.prove("former connections are released before", BoolVal(one and any(x < pos("bind")[0] for x in pos("unbind bound") + (pos("unbind") if bound else [])) and not any(x > pos("bind")[0] for x in pos("unbind bound") + pos("unbind"))))
                r.prove("the mode is set after", BoolVal(one and (mode is None or pos(mode) > pos("bind"))))
                r.prove("it counts as bound", BoolVal(b.bound is True))
                r.prove("the bundle itself", BoolVal(out is b))


class Offered:
    """the generator of all pins"""

    def __init__(self, dut, pins):
        self.dut, self.pins = dut, pins

    def _vc_list(self):
        return self.pins


for _bound in (True, False):

    @contract("P17,P21", f"a bundle that is {'bound: it is unbound as a whole' if _bound else 'not bound: those below that are bound are unbound'}", [PM + "__unbind_bound"])
    def _unbind_bound(r, bound=_bound):
        g, b = a_top(r, CLevel)
        object.__setattr__(b, "bound", bound)
        object.__setattr__(b, "_Bundle__unbind_all", lambda: g.log.append("unbind"))
        g.cunbind_bound = lambda i, j: once("CUN", i, j)
        B._Bundle__unbind_bound(b)
        i, j = (sym(r, n).t for n in "ij")
        r.prove("as a whole", BoolVal(g.log == (["unbind"] if bound else [])))
        r.prove("every bundle below", g.st.f["CUN"](i, j) == And(BoolVal(not bound), below_(i, j)))
        quiet(g, r, "CUN")


# ---------------------------------------------------------------- instances


class New:
    """something made for this instance only, after attribute (or list element) i of the class"""

    _vc_data = True

    def __init__(self, i, kind):
        self.i, self.kind = i, kind


class Part:
    """something that belongs to attribute (or list element) i of the class"""

    _vc_data = True

    def __init__(self, i, what):
        self.i, self.what = i, what


class IAttr(LAttr):
    """an attribute of the class"""

    @property
    def __class__(self):
        i = self.i
        return lambda *a: New(i, SUB)

    @property
    def current_level_signals(self):
        return Part(self.i, "signals")

    @property
    def _Bundle__connect_method(self):
        return Part(self.i, "rule")

    def _vc_isinstance(self, t):
        if t is BU.Signal:
            return wrap(akind(self.i) == OTHER)
        return LAttr._vc_isinstance(self, t)


class ILevel(CLevel):
    def _vc_getattr(self, n, *d):
        v = GLevel._vc_getattr(self, n, *d)
        return IAttr(v.i) if type(v) is LAttr else v

    def _vc_setattr(self, n, v):
        if not issym_(n):
            return object.__setattr__(self, n, v)
        t = term(n, Str)
        i = t.arg(0) if t.decl().name() == aname.name() else at_attr(t)
        rt.R.prove("an attribute of the class is replaced", And(rng(i, nattr), aname(i) == t))
        if type(v) is not New:
            return rt.R.fail("by one of its own")
        rt.R.prove("made after that of the class", And(v.i == i, akind(i) == v.kind))
        if v.kind == SUB:
            for a, w in (("current_level_signals", "signals"), ("_Bundle__connect_method", "rule")):
                x = getattr(v, a, None)
                if type(x) is not Part or x.what != w:
                    rt.R.fail(f"with its {w}")
                else:
                    rt.R.prove(f"with the {w} of that of the class", x.i == i)
        once("MADE", i)

    def _Bundle__all_signal_lists(self):
        return Kinds(LIST)

    def _Bundle__all_sub_bundles(self):
        return Kinds(SUB)

    def _Bundle__all_bundle_lists(self):
        return Kinds(BLIST)

    def _Bundle__set_current_level_signal(self):
        self.current_level_signals = Listed(nsig, sname, at_sig)


class Kinds:
    _vc_data = True

    def __init__(self, k):
        self.k = k

    def _vc_parts(self):
        return [Many(nattr, lambda i: [If(akind(i) == self.k, [One((wrap(aname(i)), IAttr(i)))])])]


@contract("P17", "a new bundle has its own sub-bundles, signal lists and bundle lists, no clock, no connections and no requests", [PM + "__init__"])
def _init(r):
    g, b = a_level(r, ILevel)
    g.st.field("MADE", [Int], lambda i: BoolVal(False))
    made = lambda k: classmethod(lambda cls, old: New(old.i, k) if type(old) is IAttr else rt.R.fail("made after that of the class"))
    with patched((BU.SignalList, "from_signallist", made(LIST)), (BU.BundleList, "from_bundlelist", made(BLIST))):
        B.__init__(b)
        n1 = (b._Bundle__connected_names, b._Bundle__registered_duts, b.__dut_requests__) if hasattr(b, "_Bundle__connected_names") else None
        g.st.field("MADE", [Int], lambda i: BoolVal(False))
        c = object.__new__(ILevel)
        B.__init__(c)
    i = sym(r, "i").t
    r.prove("each of them is made, once", g.st.f["MADE"](i) == And(rng(i, nattr), akind(i) != OTHER))
    r.prove("nothing is bound", BoolVal(b.bound is False and b._Bundle__clock_event is None and b.write_mode is None))
    r.prove("what is remembered is the instance's own", BoolVal(n1 is not None and c._Bundle__connected_names is not n1[0] and c._Bundle__registered_duts is not n1[1] and c.__dut_requests__ is not n1[2]))


class OldList:
    """a list that must not be shared"""

    _vc_data = True

    def __init__(self, i, what, seq=None):
        self.i, self.what, self.seq = i, what, seq

    def __getitem__(self, k):
        if isinstance(k, slice) and k == slice(None):
            return Part(self.i, "own copy of " + self.what)
        if self.seq is None:
            raise Unsupported("an element of the list")
        return self.seq[k]

    def copy(self):
        return Part(self.i, "own copy of " + self.what)

    def _vc_list(self):
        return Part(self.i, "own copy of " + self.what)

    def _vc_parts(self):
        if self.seq is None:
            raise Unsupported("the elements of the list")
        return self.seq.parts()


class OldBundle:
    _vc_data = True

    def __init__(self, i):
        self.i = i

    @property
    def __class__(self):
        i = self.i
        return lambda *a: New(i, SUB)

    current_level_signals = property(lambda self: Part(self.i, "signals"))
    _Bundle__connect_method = property(lambda self: Part(self.i, "rule"))


def own_copy(x, what):
    return BoolVal(type(x) is Part and x.what == "own copy of " + what)


@contract("P17", "a signal list made after another shares no list with it", ["toffee.bundle.SignalList.from_signallist"])
def _from_signallist(r):
    root(r)
    old = Ghost()
    old.format, old.signals, old.names = "x#", OldList(ZERO, "signals"), OldList(ZERO, "names")
    v = BU.SignalList.from_signallist(old)
    r.prove("a signal list", BoolVal(type(v) is BU.SignalList))
    r.prove("its own signals", own_copy(v.signals, "signals"))
    r.prove("the names", Or(own_copy(v.names, "names"), BoolVal(v.names is old.names)))


@contract("P17", "a bundle list made after another has its own bundles, one for each", ["toffee.bundle.BundleList.from_bundlelist"])
def _from_bundlelist(r):
    root(r)
    n = r.fresh("n", Int)
    r.assume(n >= 1)
    old = Ghost()

    class First(OldBundle):
        @staticmethod
        def from_prefix(name, *a):
            return Ghost()

    class Seq(SSeq):
        def __getitem__(self, k):
            return First(IntVal(k)) if isinstance(k, int) else SSeq.__getitem__(self, k)

    old.format, old.names, old.bundles = "x#", OldList(ZERO, "names"), Seq(n, OldBundle)
    v = BU.BundleList.from_bundlelist(old)
    r.prove("a bundle list", BoolVal(type(v) is BU.BundleList))
    ok = lambda o, j: And(o.i == j, *[And(BoolVal(type(getattr(o, a, None)) is Part and getattr(o, a).what == w), getattr(o, a).i == j) for a, w in (("current_level_signals", "signals"), ("_Bundle__connect_method", "rule"))]) if type(o) is New else BoolVal(False)
    r.prove("its own bundles, each made after the one in its place", list_is(v.bundles, n, ok))
    r.prove("the names", Or(own_copy(v.names, "names"), BoolVal(v.names is old.names)))


@contract("P16,P17", "the signals of a level: those listed and those that are attributes of the class", [PM + "__set_current_level_signal"])
def _set_level(r):
    g, b = a_level(r, ILevel)
    b.signals = Listed(nsig, sname, at_sig)
    B._Bundle__set_current_level_signal(b)
    s = sym(r, "s", Str).t
    r.prove("exactly them", member(b.current_level_signals, lambda o: term(o, Str) == s) == Or(Exists([X], And(rng(X, nsig), sname(X) == s)), Exists([X], And(rng(X, nattr), akind(X) == OTHER, aname(X) == s))))
    r.prove("a list of its own", BoolVal(b.current_level_signals is not b.signals))


# ---------------------------------------------------------------- what instances share

RULES = {"prefix": ("from_prefix", "set_prefix", "c_"), "regex": ("from_regex", "set_regex", "c_(.*)"), "dict": ("from_dict", "set_dict", {"a": "c_a"})}


def _rule_shared(was, to):
    @contract("P17", f"a {to} rule set for one instance leaves the {was} rule of the others alone", [PM + RULES[to][1]])
    def scenario(r):
        class C(BU.Bundle):
            a = BU.Signal()

        class A(BU.Bundle):
            c = getattr(C, RULES[was][0])(*([] if was == "no" else [RULES[was][2]])) if was != "no" else C()

        x, y = A(), A()
        below = [y.c, A.c]
        if any("_Bundle__connect_method" not in vars(o) for o in below):
            raise Unsupported("the rule of a bundle is kept elsewhere")
        rules = [o._Bundle__connect_method for o in below]
        before = [dict(vars(m)) for m in rules]
        dicts = [[(v, dict(v)) for v in b.values() if isinstance(v, dict)] for b in before]
        new = {"a": sym(r, "pin", Str)} if to == "dict" else sym(r, "rule", Str)
        r.prove("the bundle is given back", BoolVal(getattr(x.c, RULES[to][1])(new) is x.c))
        for o, m, b, ds in zip(below, rules, before, dicts):
            r.prove("it has the same rule", BoolVal(o._Bundle__connect_method is m))
            r.prove("which is as it was", BoolVal(set(vars(m)) == set(b) and all(vars(m)[k] is v for k, v in b.items())))
            r.prove("with the same entries", BoolVal(all(set(v) == set(d) and all(v[k] is w for k, w in d.items()) for v, d in ds)))

    return scenario


RULES["no"] = (None, None, None)
for _was in RULES:
    for _to in ("prefix", "regex", "dict"):
        _rule_shared(_was, _to)
