"""funcov.py"""
from vc.api import *
from toffee import funcov as fc

M = "toffee.funcov."


class Target:
    _vc_track = True

    def __init__(self, v):
        self.value = v


def _target(r, v, wrapped):
    return Target(v) if wrapped else v


RELS = {
    "CovEq": (lambda c, v: v == c),
    "CovNe": (lambda c, v: v != c),
    "CovGt": (lambda c, v: v > c),
    "CovLt": (lambda c, v: v < c),
    "CovGe": (lambda c, v: v >= c),
    "CovLe": (lambda c, v: v <= c),
}


def _rel(name, wrapped):
    def scenario(r):
        c, v = sym(r, "c"), sym(r, "v")
        got = getattr(fc, name)(c)(_target(r, v, wrapped))
        r.prove("holds exactly when the relation holds", T(got) == RELS[name](c.t, v.t))

    return scenario


def _relval(name, op):
    def scenario(r):
        c, v = sym(r, "c", Val), sym(r, "v", Val)
        got = getattr(fc, name)(c)(Target(v))
        if op == "eq":
            want = rt.py_eq(v.t, c.t)
        elif op == "ne":
            want = Not(rt.py_eq(v.t, c.t))
        else:
            want = fn("py_" + op, Val, Val, Bool)(v.t, c.t)
        r.prove("is the relation of the values", T(got) == want)

    return scenario


for _n in RELS:
    for _w in (False, True):
        contract("P25", f"{_n} on {'a target with a value' if _w else 'a value'} (all integers)", [M + _n + ".__check__", M + "CovCondition.__call__"])(_rel(_n, _w))
for _n, _o in (("CovEq", "eq"), ("CovNe", "ne"), ("CovGt", "gt"), ("CovLt", "lt"), ("CovGe", "ge"), ("CovLe", "le")):
    contract("P25", f"{_n} on arbitrary values", [M + _n + ".__check__"])(_relval(_n, _o))


def _member(name, wrapped, neg):
    def scenario(r):
        f = fn("elt", Int, Int)
        xs = seq(r, "xs", lambda i: wrap(f(i)))
        v = sym(r, "v")
        got = getattr(fc, name)(xs)(_target(r, v, wrapped))
        j = z3.Int("j")
        inside = Exists([j], And(0 <= j, j < xs.n, f(j) == v.t))
        r.prove("membership in a collection of any length", T(got) == (Not(inside) if neg else inside))

    return scenario


for _n, _neg in (("CovIn", False), ("CovNotIn", True)):
    for _w in (False, True):
        contract("P25", f"{_n} on {'a target with a value' if _w else 'a value'}", [M + _n + ".__check__"])(_member(_n, _w, _neg))


class Collection:
    """anything that answers whether something is in it"""

    def _vc_contains(self, x):
        return wrap(fn("is_in", Int, Bool)(term(x, Int)))


for _n, _neg in (("CovIn", False), ("CovNotIn", True)):

    @contract("P25", f"{_n} asks the collection itself, whatever it is", [M + _n + ".__check__"])
    def _ask(r, n=_n, neg=_neg):
        v = sym(r, "v")
        got = T(getattr(fc, n)(Collection())(v))
        inside = fn("is_in", Int, Bool)(v.t)
        r.prove("the collection's own answer", got == (Not(inside) if neg else inside))


def _range(wrapped):
    def scenario(r):
        lo, hi, v = sym(r, "lo"), sym(r, "hi"), sym(r, "v")
        got = fc.CovIsInRange(lo, hi)(_target(r, v, wrapped))
        r.prove("inclusive range", T(got) == And(lo.t <= v.t, v.t <= hi.t))

    return scenario


for _w in (False, True):
    contract("P25", f"CovIsInRange on {'a target with a value' if _w else 'a value'}", [M + "CovIsInRange.__check__"])(_range(_w))


@contract("P25", "the short names are the conditions of that name")
def _alias(r):
    for n in ("Eq", "Gt", "Lt", "Ge", "Le", "Ne", "In", "NotIn", "IsInRange"):
        r.prove(f"{n} is Cov{n}", getattr(fc, n) is getattr(fc, "Cov" + n))


# ------------------------------------------------------------------ groups of any size
# A group with n points; point p has nb(p) bins; a bin is a callable or a list of nc(p,b) conditions.
# The counts and the covered flags live in a ghost store; every other fact is a rigid function.

nb, nc = fn("nb", Int, Int), fn("nc", Int, Int, Int)
kind, once = fn("bin_is_callable", Int, Int, Bool), fn("once", Int, Bool)
holds = fn("holds", Int, Int, Int, Bool)  # bin p,b applied to the target of point t
holdsc = fn("holds_cond", Int, Int, Int, Int, Bool)
pname = fn("point_name", Int, Str)
P_, B_, C_ = z3.Int("p"), z3.Int("b"), z3.Int("c")


def H(p, b):
    c = z3.Int("hc")
    return z3.If(kind(p, b), holds(p, b, p), ForAll([c], Implies(And(0 <= c, c < nc(p, b)), holdsc(p, b, c, p))))


class Tgt:
    def __init__(self, p):
        self.p = p


class Cond:
    _vc_callable = lambda self: True

    def __init__(self, p, b, c):
        self.p, self.b, self.c = p, b, c

    def __call__(self, target):
        return wrap(holdsc(self.p, self.b, self.c, target.p))


class Bin:
    def __init__(self, p, b):
        self.p, self.b = p, b

    def _vc_callable(self):
        return wrap(kind(self.p, self.b))

    def _vc_isinstance(self, t):
        if t is list or t is tuple or (isinstance(t, tuple) and set(t) <= {list, tuple}):
            return wrap(Not(kind(self.p, self.b)))
        if t is dict:
            return False
        raise Unsupported(f"isinstance(bin, {t})")

    def __call__(self, target):
        if not rt.R.fork(kind(self.p, self.b)):
            raise TypeError("'list' object is not callable")
        return wrap(holds(self.p, self.b, target.p))

    def _vc_parts(self):
        u = lambda c: Cond(self.p, self.b, c)
        rt.R.assume(nc(self.p, self.b) >= 0)
        return [Many(nc(self.p, self.b), lambda c: [One(u(c))], unit=u)]


class Key:
    _vc_data = True

    def __init__(self, p, b):
        self.p, self.b = p, b

    __hash__ = None


class Fam:
    """a mapping over the bins of point p"""

    def __init__(self, p):
        self.p = p

    def _at(self, k):
        if type(k) is not Key:
            raise Unsupported("a key that is not a bin name")
        rt.R.prove("every bin name is looked up in its own point", k.p == self.p)
        return k.b

    def _vc_isinstance(self, t):
        return t is dict or (isinstance(t, tuple) and dict in t)

    def _seq(self, u):
        rt.R.assume(nb(self.p) >= 0)
        return SSeq(nb(self.p), u)

    def items(self):
        return self._seq(lambda b: (Key(self.p, b), self.get_at(b)))

    def keys(self):
        return Keys(self.p)

    def values(self):
        return self._seq(lambda b: self.get_at(b))

    def __getitem__(self, k):
        return self.get_at(self._at(k))

    def _vc_parts(self):
        return Keys(self.p)._vc_parts()

    def _vc_dictcomp(self, kf, vf):
        return Keys(self.p)._vc_dictcomp(kf, vf)

    def __symlen__(self):
        return wrap(nb(self.p))

    def _vc_contains(self, k):
        self._at(k)
        return True


class Keys:
    def __init__(self, p):
        self.p = p

    def _vc_parts(self):
        rt.R.assume(nb(self.p) >= 0)
        u = lambda b: Key(self.p, b)
        return [Many(nb(self.p), lambda b: [One(u(b))], unit=u)]

    def _vc_dictcomp(self, kf, vf):
        b = z3.Int("new!b")
        k = Key(self.p, b)
        if kf(k) is not k:
            raise Unsupported("dict comprehension with other keys")
        v = vf(k)
        return KeyMap(self.p, lambda x: z3.substitute(term(v, Int), (b, x)))

    def _vc_str(self):
        return "keys"

    def __symlen__(self):
        return wrap(nb(self.p))


class KeyMap(Fam):
    """a new dictionary over the bins of a point"""

    def __init__(self, p, f):
        self.p, self.f = p, f

    def get_at(self, b):
        return wrap(self.f(b))


class Bins(Fam):
    def get_at(self, b):
        return Bin(self.p, b)


class Hits(Fam):
    def __init__(self, p, store):
        self.p, self.store = p, store

    def get_at(self, b):
        return wrap(self.store.read("hits", self.p, b))

    def __setitem__(self, k, v):
        self.store.write("hits", (self.p, self._at(k)), term(v, Int))


class Point:
    """the record of one point"""

    def __init__(self, p, store):
        self.p, self.store = p, store

    def __getitem__(self, k):
        if k == "taget":
            return Tgt(self.p)
        if k == "bins":
            return Bins(self.p)
        if k == "hints":
            return Hits(self.p, self.store)
        if k == "hinted":
            return wrap(self.store.read("covered", self.p))
        if k == "once":
            return wrap(once(self.p))
        if k == "functions":
            return rt.SDict()
        if k == "dynamic_bin":
            return wrap(fn("dynamic", Int, Bool)(self.p))
        raise Unsupported(f"point record field {k}")

    def __setitem__(self, k, v):
        if k == "hinted":
            self.store.write("covered", (self.p,), T(v))
        elif k == "hints" and type(v) is KeyMap and v.p.eq(self.p):
            old, f, p = self.store.f["hits"], v.f, self.p
            self.store.f = dict(self.store.f, hits=lambda a, b: z3.If(a == p, f(b), old(a, b)))
        else:
            raise Unsupported(f"point record field {k} written")

    def get(self, k, d=None):
        return self[k]


class Points:
    """the ordered mapping from names to point records"""

    _vc_track = True

    def __init__(self, n, store):
        self.store, self.n = store, n
        self.segs = (("fam", IntVal(0), n),)
        self.memo = {}

    def _find(self, key):
        """(is it a point of the family?, its index)"""
        t = term(key, Str)
        k = t.sexpr()
        if k not in self.memo:
            r = rt.R
            c, q = r.fresh("known", Bool), r.fresh("q", Int)
            r.assume(Implies(c, And(0 <= q, q < self.n, pname(q) == t)))
            r.assume(Implies(Not(c), ForAll([P_], Implies(And(0 <= P_, P_ < self.n), pname(P_) != t))))
            self.memo[k] = (c, q)
        c, q = self.memo[k]
        return And(c, Or(*[And(q >= s[1], q < s[2]) for s in self.segs if s[0] == "fam"])), q

    def has(self, key):
        c, _ = self._find(key)
        return z3.simplify(Or(c, *[term(s[1], Str) == term(key, Str) for s in self.segs if s[0] == "one"]))

    def _vc_contains(self, key):
        return wrap(self.has(key))

    def __getitem__(self, key):
        for s in self.segs:
            if s[0] == "one" and rt.R.fork(term(s[1], Str) == term(key, Str)):
                return s[2]
        c, q = self._find(key)
        if not rt.R.fork(c):
            raise KeyError(key)
        return Point(q, self.store)

    def get(self, key, d=None):
        return self[key] if rt.R.fork(self.has(key)) else d

    def __setitem__(self, key, v):
        if rt.R.fork(self.has(key)):
            raise Unsupported("an existing point is replaced")
        self.segs = self.segs + (("one", key, v),)

    def __delitem__(self, key):
        if not rt.R.fork(self.has(key)):
            raise KeyError(key)
        c, q = self._find(key)
        out = []
        for s in self.segs:
            if s[0] == "fam":
                out += [("fam", s[1], q), ("fam", z3.simplify(q + 1), s[2])]
            else:
                raise Unsupported("deletion after an addition")
        self.segs = tuple(out)

    def pop(self, key, *d):
        v = self[key] if not d else self.get(key, *d)
        if rt.R.fork(self.has(key)):
            del self[key]
        return v

    def _parts(self, f):
        out = []
        for s in self.segs:
            if s[0] == "one":
                out.append(One(f(s[1], s[2])))
            else:
                n = z3.simplify(s[2] - s[1])
                u = lambda i, s=s: f(wrap(pname(z3.simplify(s[1] + i))), Point(z3.simplify(s[1] + i), self.store))
                out.append(Many(n, lambda i, u=u: [One(u(i))], unit=u))
        return out

    def items(self):
        return SList(parts=self._parts(lambda k, v: (k, v)))

    def values(self):
        return SList(parts=self._parts(lambda k, v: v))

    def keys(self):
        return SList(parts=self._parts(lambda k, v: k))

    def _vc_parts(self):
        return self._parts(lambda k, v: k)

    def __symlen__(self):
        return wrap(rt.plen(self._vc_parts()))

    def clear(self):
        self.segs = ()


FLAGS = ("hinted", "all_once", "_sample_stopped")


class W:
    """a group with arbitrarily many points in an arbitrary state"""

    def __init__(self, r, inv=True):
        g = self.g = fc.CovGroup("g")
        d = vars(g)
        for k in FLAGS + ("cov_points", "sample_count", "sample_calln"):
            if k not in d:
                raise Unsupported(f"the group has no attribute {k}: its representation is another one")
        probe = fc.CovGroup("probe")
        probe.add_watch_point(Tgt(IntVal(0)), {"b": lambda t: True}, name="x")
        if not set(dict.keys(probe.cov_points["x"])) <= {"taget", "bins", "hints", "hinted", "once", "functions", "dynamic_bin"}:
            raise Unsupported("the record of a point is another one")
        self.n = r.fresh("points", Int)
        r.assume(self.n >= 0)
        self.store = rt.Store()
        self.hits0, self.cov0 = fn("hits0", Int, Int, Int), fn("covered0", Int, Bool)
        self.store.field("hits", [Int, Int], self.hits0)
        self.store.field("covered", [Int], self.cov0)
        r.root("store", self.store)
        r.assume(ForAll([P_, B_], self.hits0(P_, B_) >= 0))
        r.assume(ForAll([P_], nb(P_) >= 0))
        r.assume(ForAll([P_, B_], nc(P_, B_) >= 0))
        q = z3.Int("q")
        r.assume(ForAll([P_, q], Implies(And(0 <= P_, P_ < self.n, 0 <= q, q < self.n, pname(P_) == pname(q)), P_ == q)))
        r.assume(ForAll([P_], Implies(And(0 <= P_, P_ < self.n), pname(P_) != z3.StringVal(""))))
        g.cov_points = Points(self.n, self.store)
        self.H0, self.A0, self.S0 = r.fresh("hinted0", Bool), r.fresh("all_once0", Bool), r.fresh("stopped0", Bool)
        g.hinted, g.all_once, g._sample_stopped = SBool(self.H0), SBool(self.A0), SBool(self.S0)
        self.cnt0, self.call0 = r.fresh("sample_count0", Int), r.fresh("sample_calln0", Int)
        g.sample_count, g.sample_calln = SInt(self.cnt0), SInt(self.call0)
        if not inv:
            return
        # invariant of a group: a group that says it is covered is covered
        r.assume(Implies(self.H0, ForAll([P_], Implies(And(0 <= P_, P_ < self.n), self.cov0(P_)))))
        # invariant of a point: a point that says it is covered has no bin without a hit
        r.assume(ForAll([P_, B_], Implies(And(0 <= P_, P_ < self.n, self.cov0(P_), 0 <= B_, B_ < nb(P_)), self.hits0(P_, B_) > 0)))

    def inp(self, p):
        return And(0 <= p, p < self.n)

    def inb(self, p, b):
        return And(0 <= b, b < nb(p))

    def hits(self, p, b):
        return self.store.read("hits", p, b)

    def cov(self, p):
        return self.store.read("covered", p)

    def unchanged(self):
        return And(ForAll([P_, B_], Implies(And(self.inp(P_), self.inb(P_, B_)), self.hits(P_, B_) == self.hits0(P_, B_))), ForAll([P_], Implies(self.inp(P_), self.cov(P_) == self.cov0(P_))))

    def stopped(self):
        return T(self.g.sample_stoped())

    def invariants(self, r):
        r.prove("invariant: a covered point has a hit in every bin", ForAll([P_, B_], Implies(And(self.inp(P_), self.cov(P_), self.inb(P_, B_)), self.hits(P_, B_) > 0)))
        r.prove("invariant: a group that says it is covered is covered", Implies(T(self.g.hinted), ForAll([P_], Implies(self.inp(P_), self.cov(P_)))))


G = M + "CovGroup."


@contract("P24", "a sample counts every bin of every point exactly once if its condition holds", [G + "sample", G + "__check__"])
def _sample(r):
    w = W(r)
    active = Not(Or(w.S0, And(w.H0, w.A0)))
    r.prove("sample_stoped says whether the group is stopped or has ended", w.stopped() == Not(active))
    w.g.sample()
    p, b = r.fresh("p", Int), r.fresh("b", Int)
    r.assume(And(w.inp(p), w.inb(p, b)))
    r.prove("the count of a bin grows by one exactly if it holds in an active sample", w.hits(p, b) == w.hits0(p, b) + z3.If(And(active, H(p, b)), 1, 0))
    r.prove("counts of an inactive group stay", Implies(Not(active), w.unchanged()))


@contract("P24", "after a sample a point is covered exactly if all its bins are hit, a group if all its points are", [G + "sample"])
def _covered(r):
    w = W(r)
    active = Not(Or(w.S0, And(w.H0, w.A0)))
    w.g.sample()
    r.assume(active)
    p = r.fresh("p", Int)
    r.assume(w.inp(p))
    allhit = ForAll([B_], Implies(w.inb(p, B_), w.hits(p, B_) > 0))
    r.prove("point covered exactly if every bin is hit", w.cov(p) == allhit)
    r.prove("is_point_covered agrees", T(w.g.is_point_covered(wrap(pname(p)))) == allhit)
    every = ForAll([P_], Implies(w.inp(P_), w.cov(P_)))
    r.prove("group covered exactly if every point is", T(w.g.hinted) == every)
    w.invariants(r)


@contract("P24", "is_all_covered answers whether every point is covered", [G + "is_all_covered"])
def _allcov(r):
    w = W(r)
    every = ForAll([P_], Implies(w.inp(P_), w.cov0(P_)))
    r.prove("exactly if every point is covered", T(w.g.is_all_covered()) == every)


@contract("P24", "a group that samples only until covered ends exactly when everything is covered", [G + "sample", G + "sample_stoped"])
def _ends(r):
    w = W(r)
    r.assume(Not(Or(w.S0, And(w.H0, w.A0))))
    r.assume(ForAll([P_], nb(P_) >= 1))
    w.g.sample()
    want = ForAll([P_], Implies(w.inp(P_), And(w.cov(P_), once(P_))))
    r.prove("ended exactly if every point is covered and samples only until then", w.stopped() == want)


# ------------------------------------------------------------------------------------------ P26


@contract("P26", "a stopped group counts nothing and says so; resumed, it counts again", [G + "stop_sample", G + "resume_sample"])
def _stop(r):
    w = W(r)
    w.g.stop_sample()
    r.prove("sample_stoped after stop_sample", w.stopped())
    w.g.sample()
    r.prove("nothing is counted while stopped", w.unchanged())
    w.g.resume_sample()
    r.prove("not stopped after resume_sample", Not(w.stopped()))
    w.g.sample()
    p, b = r.fresh("p", Int), r.fresh("b", Int)
    r.assume(And(w.inp(p), w.inb(p, b)))
    r.prove("counts again after resume_sample", w.hits(p, b) == w.hits0(p, b) + z3.If(H(p, b), 1, 0))


@contract("P26", "resumed from whatever state, it counts again", [G + "resume_sample"])
def _resume(r):
    w = W(r)
    out = w.g.resume_sample()
    r.prove("the group itself", BoolVal(out is w.g))
    r.prove("not stopped after resume_sample", Not(w.stopped()))
    r.prove("resuming counts nothing", w.unchanged())
    w.g.sample()
    p, b = r.fresh("p", Int), r.fresh("b", Int)
    r.assume(And(w.inp(p), w.inb(p, b)))
    r.prove("counts again after resume_sample", w.hits(p, b) == w.hits0(p, b) + z3.If(H(p, b), 1, 0))


@contract("P26", "resetting a point zeroes that point only", [G + "reset_point"])
def _reset(r):
    w = W(r)
    name = sym(r, "name", Str)
    known = w.g.cov_points.has(name)
    exc = raises(ValueError, w.g.reset_point, name)
    r.prove("an unknown name is a value error, a known one is not", (BoolVal(exc is not None)) == Not(known))
    segs = w.g.cov_points.segs
    r.prove("no point comes or goes", len(segs) == 1 and segs[0][1].eq(IntVal(0)) and segs[0][2].eq(w.n))
    if exc is not None:
        r.prove("an unknown name changes nothing", And(w.unchanged(), T(w.g.hinted) == w.H0, T(w.g.all_once) == w.A0, T(w.g._sample_stopped) == w.S0))
        return
    p, b = r.fresh("p", Int), r.fresh("b", Int)
    r.assume(And(w.inp(p), w.inb(p, b)))
    me = pname(p) == name.t
    r.prove("the counts of the point are zero", Implies(me, w.hits(p, b) == 0))
    r.prove("the point is not covered", Implies(me, Not(T(w.g.is_point_covered(wrap(pname(p)))))))
    r.prove("other points keep their counts", Implies(Not(me), And(w.hits(p, b) == w.hits0(p, b), w.cov(p) == w.cov0(p))))
    r.prove("the group samples again unless it was stopped", w.stopped() == w.S0)
    w.invariants(r)


@contract("P26", "deleting a point removes that point only", [G + "del_point"])
def _del(r):
    w = W(r)
    name = sym(r, "name", Str)
    pts = w.g.cov_points
    known = pts.has(name)
    exc = raises(ValueError, w.g.del_point, name)
    r.prove("an unknown name is a value error, a known one is not", BoolVal(exc is not None) == Not(known))
    r.prove("no count changes", w.unchanged())
    if exc is not None:
        r.prove("an unknown name changes nothing", And(BoolVal(len(pts.segs) == 1), T(w.g.hinted) == w.H0, T(w.g.all_once) == w.A0, T(w.g._sample_stopped) == w.S0))
        return
    if w.g.cov_points is not pts:
        raise Unsupported("deletion makes a new mapping")
    p = r.fresh("p", Int)
    r.assume(w.inp(p))
    there = Or(*[And(s[1] <= p, p < s[2]) for s in pts.segs])
    r.prove("exactly the named point is gone", there == (pname(p) != name.t))
    q = r.fresh("q", Int)
    order = [And(s[1] <= p, p < s[2], t[1] <= q, q < t[2]) for i, s in enumerate(pts.segs) for t in pts.segs[i + 1 :]]
    r.prove("the others keep their order", Implies(Or(*order), p < q) if order else True)


@contract("P26", "clear removes every point and starts from the beginning", [G + "clear"])
def _clear(r):
    w = W(r)
    w.g.clear()
    r.prove("no points", len(w.g.cov_points) == 0)
    r.prove("not stopped", Not(w.stopped()))
    r.prove("nothing sampled", T(wrap(And(term(w.g.sample_count) == 0, term(w.g.sample_calln) == 0))))
    r.prove("the name stays", w.g.name == "g")


raw_kind = fn("raw_kind", Int, Int)  # 0 a condition, 1 a list, else something that is no condition
raw_len = fn("raw_len", Int, Int)
raw_ok = fn("raw_cond_callable", Int, Int, Bool)


class RawCond:
    def __init__(self, b, c):
        self.b, self.c = b, c

    def _vc_callable(self):
        return wrap(raw_ok(self.b, self.c))


class RawBin:
    def __init__(self, b):
        self.b = b

    def _vc_callable(self):
        return wrap(raw_kind(self.b) == 0)

    def _vc_isinstance(self, t):
        if t is list or t is tuple or (isinstance(t, tuple) and set(t) <= {list, tuple}):
            return wrap(raw_kind(self.b) == 1)
        if t is dict:
            return False
        raise Unsupported(f"isinstance(bin, {t})")

    def _vc_parts(self):
        rt.R.assume(raw_len(self.b) >= 0)
        u = lambda c: RawCond(self.b, c)
        return [Many(raw_len(self.b), lambda c: [One(u(c))], unit=u)]

    def _vc_str(self):
        return "bin"


class RawBins(Fam):
    def get_at(self, b):
        return RawBin(b)


@contract("P26", "adding a point: rejected with a value error and no change, or added with zero counts", [G + "add_watch_point"])
def _add(r):
    w = W(r)
    pts = w.g.cov_points
    name = sym(r, "name", Str)
    r.assume(name.t != z3.StringVal(""))
    new = r.fresh("new", Int)
    r.assume(new >= w.n)
    r.assume(ForAll([B_], raw_len(B_) >= 0))
    dup = pts.has(name)
    bins = RawBins(new)
    exc = raises(ValueError, w.g.add_watch_point, Tgt(new), bins, name)
    ok = ForAll([B_], Implies(w.inb(new, B_), Or(raw_kind(B_) == 0, And(raw_kind(B_) == 1, ForAll([C_], Implies(And(0 <= C_, C_ < raw_len(B_)), raw_ok(B_, C_)))))))
    r.prove("rejected exactly if the name is taken or something is not a condition", BoolVal(exc is not None) == Or(dup, Not(ok)))
    r.prove("no count of another point changes", w.unchanged())
    if exc is not None:
        r.prove("a rejected point changes nothing", And(BoolVal(len(pts.segs) == 1), T(w.g.hinted) == w.H0, T(w.g.all_once) == w.A0, T(w.g._sample_stopped) == w.S0))
        return
    segs = pts.segs
    r.prove("the point is the last one", len(segs) == 2 and segs[1][0] == "one")
    r.prove("it has the given name", term(segs[1][1], Str) == name.t)
    rec = segs[1][2]
    b = r.fresh("b", Int)
    r.assume(w.inb(new, b))
    r.prove("its counts are zero", term(rec["hints"].get_at(b)) == 0)
    r.prove("it is not covered", Not(T(rec["hinted"])))
    r.prove("it keeps the given bins", rec["bins"] is bins)
    r.prove("it watches the given target", term(rec["taget"].p) == new)
    r.prove("the group samples again unless it was stopped", w.stopped() == w.S0)


@contract("P26", "a lone bin that is not a condition is rejected", [G + "add_watch_point"])
def _add1(r):
    w = W(r)
    pts = w.g.cov_points
    bad = RawBin(IntVal(7))
    exc = raises(ValueError, w.g.add_watch_point, Tgt(IntVal(0)), bad, sym(r, "name", Str))
    r.prove("a lone bin must be callable", Implies(raw_kind(7) != 0, BoolVal(exc is not None)))
    if exc is not None:
        r.prove("nothing changes", And(w.unchanged(), BoolVal(len(pts.segs) == 1), T(w.g.hinted) == w.H0, T(w.g.all_once) == w.A0))
    else:
        rec = pts.segs[1][2]
        r.prove("the lone bin is the point's only bin", len(rec["bins"]) == 1 and list(rec["bins"].values())[0] is bad)
        r.prove("its count is zero", list(rec["hints"].values()) == [0] and list(rec["hints"]) == list(rec["bins"]))


for _f in ("del_point", "reset_point", "cover_point", "is_point_covered"):

    def _unknown(r, _f=_f):
        w = W(r)
        name = sym(r, "name", Str)
        known = w.g.cov_points.has(name)
        exc = raises(ValueError, getattr(w.g, _f), name)
        r.prove("a value error exactly if there is no such point", BoolVal(exc is not None) == Not(known))

    contract("P26", f"{_f} of an unknown point is a value error", [G + _f])(_unknown)


# ------------------------------------------------------------------------------------------ P27


@contract("P27", "the report lists every point with every bin and its count, and its totals add up", [G + "as_dict"])
def _report(r):
    w = W(r, inv=False)
    d = w.g.as_dict()
    pts = d["points"]
    r.prove("one entry per point", rt.plen(rt.parts_of(pts)) == w.n if rt.parts_of(pts) is not None else w.n == len(pts))
    p, b = r.fresh("p", Int), r.fresh("b", Int)
    r.assume(And(w.inp(p), w.inb(p, b)))
    e = pts.at(p)
    r.prove("the name of the point", term(e["name"], Str) == pname(p))
    r.prove("whether the point is covered", T(e["hinted"]) == w.cov0(p))
    r.prove("whether the point samples only until covered", T(e["once"]) == once(p))
    r.prove("one entry per bin", rt.plen(rt.parts_of(e["bins"])) == nb(p))
    x = e["bins"].at(b)
    r.prove("the name of the bin", And(term(x["name"].p) == p, term(x["name"].b) == b))
    r.prove("the count of the bin", term(x["hints"]) == w.hits0(p, b))
    tot = term(d["bin_num_total"])  # (nb is never negative: the two sums are the same number)
    r.prove("total of bins", Or(tot == r.sum_(w.n, lambda i: nb(i)), tot == r.sum_(w.n, lambda i: z3.If(nb(i) > 0, nb(i), IntVal(0)))))
    r.prove("total of hit bins", term(d["bin_num_hints"]) == r.sum_(w.n, lambda i: r.sum_(nb(i), lambda j: z3.If(w.hits0(i, j) > 0, IntVal(1), IntVal(0)))))
    r.prove("total of points", term(d["point_num_total"]) == w.n)
    r.prove("total of covered points", term(d["point_num_hints"]) == r.sum_(w.n, lambda i: z3.If(w.cov0(i), IntVal(1), IntVal(0))))
    r.prove("whether any point samples only until covered", T(d["has_once"]) == Exists([P_], And(w.inp(P_), once(P_))))
    r.prove("how often it was sampled", And(term(d["__sample_count__"]) == w.cnt0, term(d["__sample_calln__"]) == w.call0))
    r.prove("reading changes nothing", And(w.unchanged(), T(w.g.hinted) == w.H0, T(w.g.all_once) == w.A0, T(w.g._sample_stopped) == w.S0, term(w.g.sample_count) == w.cnt0))


@contract("P27", "the number of samples counts exactly the active ones", [G + "sample"])
def _count(r):
    w = W(r)
    active = Not(Or(w.S0, And(w.H0, w.A0)))
    w.g.sample()
    r.prove("sample_count grows by one in an active sample", term(w.g.sample_count) == w.cnt0 + z3.If(active, 1, 0))
    r.prove("sample_calln grows by one", term(w.g.sample_calln) == w.call0 + 1)
