"""utils/"""
from vc.api import *
from vc.contracts.ghost import *
from toffee import utils as U

L = "toffee.utils.lfsr_64.LFSR_64."


def same_state(r, what, a, b):
    """two objects have the same attributes with equal values"""
    da, db = vars(a), vars(b)
    r.prove(f"{what}: same attributes", sorted(da) == sorted(db))
    for k in sorted(set(da) & set(db)):
        r.prove(f"{what}: same value", eq(da[k], db[k]))


def eq(x, y):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return And(BoolVal(len(x) == len(y)), *[eq(a, b) for a, b in zip(x, y)])
    if rt.issym(x) or rt.issym(y):
        return T(x == y)
    return BoolVal(x == y)


@contract("P29", "LFSR_64 keeps the lowest 64 bits of any seed", [L + "__init__"])
def _seed(r):
    s = sym(r, "seed")
    l = U.LFSR_64(s)
    v = term(l.rand, Int)
    r.prove("in the 64-bit range", And(0 <= v, v < 2**64))
    r.prove("the seed modulo 2**64", v == s.t % 2**64)


@contract("P29", "LFSR_64 steps from every state by the feedback of bits 0, 1, 3 and 4", [L + "step"])
def _step(r):
    s = rt.SBits(z3.BitVec("state", 64))
    l = U.LFSR_64(s)
    r.prove("the state is the seed", T(l.rand == s))
    l.step()
    bit = lambda k: z3.Extract(k, k, s.t)
    want = z3.Concat(bit(0) ^ bit(1) ^ bit(3) ^ bit(4), z3.Extract(63, 1, s.t))
    got = l.rand
    r.prove("shifted right, feedback in the highest bit", T(got == rt.SBits(want)))
    r.prove("never leaves the 64-bit range", T(got < 2**64))
    same_state(r, "after a step it is a register in that state", l, U.LFSR_64(got))


C = "toffee.utils.two_bits_counter.TwoBitsCounter."


@contract("P29", "TwoBitsCounter saturates and predicts in its upper half", [C + "update", C + "get_prediction"])
def _counter(r):
    v, taken = sym(r, "value"), sym(r, "taken", Bool)
    r.assume(And(0 <= v.t, v.t <= 3))
    c = U.TwoBitsCounter(v)
    r.prove("predicts taken exactly in the upper half", T(rt.b_bool(c.get_prediction())) == (v.t >= 2))
    r.prove("the prediction is 0 or 1", (lambda p: Or(p == 0, p == 1))(term(c.get_prediction(), Int)))
    c.update(taken)
    up = z3.If(v.t == 3, IntVal(3), v.t + 1)
    down = z3.If(v.t == 0, IntVal(0), v.t - 1)
    n = z3.If(taken.t, up, down)
    r.prove("counts up to 3 and down to 0", term(c.counter, Int) == n)
    r.prove("predicts by the new value", T(rt.b_bool(c.get_prediction())) == (n >= 2))
    same_state(r, "after an update it is a counter with that value", c, U.TwoBitsCounter(wrap(n)))


def _plru(ways, state):
    def scenario(r):
        p = U.PLRU(ways)
        if not hasattr(p, "bits"):
            raise Unsupported("the tree is kept in another form")
        if state:
            p.bits = SList([SList([wrap(z3.If(r.fresh("bit", Bool), IntVal(1), IntVal(0))) for _ in l]) for l in p.bits])
        v = term(p.get(), Int)
        r.prove("names a valid way", And(0 <= v, v < ways))
        w = sym(r, "way")
        r.assume(And(0 <= w.t, w.t < ways))
        p.update(w)
        v2 = term(p.get(), Int)
        r.prove("names a valid way after an access", And(0 <= v2, v2 < ways))
        if ways > 1:
            r.prove("never the way just used", v2 != w.t)
        for l in p.bits:
            for b in l:
                r.prove("the tree holds bits only", And(0 <= term(b, Int), term(b, Int) <= 1))

    return scenario


for _w, _t in ((1, "quick"), (2, "quick"), (4, "quick"), (8, "quick"), (16, "thorough")):
    contract("P29", f"PLRU with {_w} ways, any tree contents, any access", ["toffee.utils.plru.PLRU.update", "toffee.utils.plru.PLRU.get"], bounded=f"{_w} ways", tier=_t)(_plru(_w, True))


# ---------------------------------------------------------------- PLRU, any number of ways 2**k

layers = z3.Int("layers")
bit = fn("bit_of_way", Int, Int)  # of layer i, i.e. bit k-1-i
prefix = fn("prefix_of_way", Int, Int)  # way >> (k-i)
cell = fn("bit_of_tree", Int, Int, Int)
pow2 = z3.Function("pow2", Int, Int)
I_, J_ = z3.Ints("i j")


class Ghost:
    pass


class Row:
    _vc_data = True

    def __init__(self, i):
        self.i = i

    def at(self, p):
        p = term(p, Int)
        g = ghost()
        g.st.write("outside", [], Or(g.st.read("outside"), Not(And(0 <= self.i, self.i < layers, 0 <= p, p < pow2(self.i)))))
        return p

    def __getitem__(self, p):
        return wrap(ghost().st.read("cell", self.i, self.at(p)))

    def __setitem__(self, p, v):
        ghost().st.write("cell", [self.i, self.at(p)], term(v, Int))

    def __iter__(self):
        raise Unsupported("a level is walked through")

    __len__ = __iter__


def tree(r):
    """a tree of any height with any contents; the places outside of it that are touched are noted"""
    g = Ghost()
    r.root("ghost", g)
    g.st = rt.Store()
    g.st.field("cell", [Int, Int], lambda i, j: cell(i, j))
    g.st.field("outside", [], lambda: BoolVal(False))
    r.assume(layers >= 0)
    r.pow2(layers)
    r.assume(ForAll([I_, J_], And(0 <= cell(I_, J_), cell(I_, J_) <= 1)))
    p = object.__new__(U.PLRU)
    like = U.PLRU(4)
    if sorted(vars(like)) != ["bits", "bits_layer_num", "ways_num"]:
        raise Unsupported("the tree is kept in another form")
    p.ways_num, p.bits_layer_num, p.bits = wrap(pow2(layers)), wrap(layers), SSeq(layers, lambda i: Row(i), "tree")
    return p


def walk(v):
    """the position of a walk down the tree after i levels, from its position at the end"""
    v = z3.simplify(term(v, Int))
    if not (z3.is_app(v) and v.num_args() == 1 and v.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        raise Unsupported("the walk is not described")
    return v.decl()


def induct(r, what, f):
    """f(i) for all 0 <= i <= layers, by induction"""
    i = r.fresh("level", Int)
    r.prove(f"{what}: at the root", f(IntVal(0)))
    r.prove(f"{what}: at the next level", Implies(And(0 <= i, i < layers, f(i)), f(i + 1)))
    r.assume(ForAll([I_], Implies(And(0 <= I_, I_ <= layers), f(I_))))


def walked(e):
    """the position of the walk along which the tree was written"""
    out, todo, seen = {}, [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
            if z3.is_app(x) and x.num_args() == 1 and x.decl().name().startswith("rec!"):
                out[x.decl().name()] = x.decl()
    if len(out) != 1:
        raise Unsupported("the walk is not described")
    return next(iter(out.values()))


def inside(w):
    return lambda i: And(0 <= w(i), w(i) < pow2(i))


@contract("P29", "PLRU names a valid way, for any number of ways and any tree", ["toffee.utils.plru.PLRU.get"])
def _plru_get(r):
    p = tree(r)
    v = p.get()
    induct(r, "the walk stays in its level", inside(walk(v)))
    v = term(v, Int)
    r.prove("names a valid way", And(0 <= v, v < pow2(layers)))
    r.prove("reads the tree only", Not(ghost().st.read("outside")))
    r.prove("changes nothing", ghost().st.f["cell"](I_, J_) == cell(I_, J_))


@contract("P29", "PLRU never names the way just used, for any number of ways and any tree", ["toffee.utils.plru.PLRU.get", "toffee.utils.plru.PLRU.update"])
def _plru_update(r):
    p = tree(r)
    w = sym(r, "way")
    # binary notation: the prefixes of the way, highest bit first
    r.assume(And(0 <= w.t, w.t < pow2(layers), prefix(0) == 0, prefix(layers) == w.t))
    r.assume(ForAll([I_], Implies(And(0 <= I_, I_ < layers), And(prefix(I_ + 1) == 2 * prefix(I_) + bit(I_), 0 <= bit(I_), bit(I_) <= 1))))

    def single(a, b):
        for x, y in ((a, b), (b, a)):
            if x.eq(w.t) and z3.is_app(y) and y.decl().eq(pow2):
                return z3.If(bit(z3.simplify(layers - 1 - y.arg(0))) == 1, y, IntVal(0))

    r.hooks["and"] = single
    r.hooks["shr"] = lambda a, e: prefix(z3.simplify(layers - e)) if a.eq(w.t) else None
    p.update(w)
    g = ghost()
    u = walked(z3.simplify(g.st.f["cell"](I_, J_)))
    induct(r, "the walk follows the way", lambda i: u(i) == prefix(i))
    induct(r, "the walk stays in its level", inside(u))
    r.prove("writes the tree only", Not(g.st.read("outside")))
    c = g.st.f["cell"](I_, J_)
    r.prove("the tree holds bits only", And(0 <= c, c <= 1))
    r.prove("each node on the path of the way points to its other side", Implies(And(0 <= I_, I_ < layers, J_ == prefix(I_)), c == 1 - bit(I_)))
    r.prove("no other bit is changed", Implies(Not(And(0 <= I_, I_ < layers, J_ == prefix(I_))), c == cell(I_, J_)))
    v = p.get()
    q = walk(v)
    v = term(v, Int)
    induct(r, "the walk that reads stays in its level", inside(q))
    r.prove("names a valid way", And(0 <= v, v < pow2(layers)))
    induct(r, "it leaves the path of the way", lambda i: Or(i == 0, q(i) != prefix(i)))
    r.prove("never the way just used", Implies(layers > 0, v != w.t))


class GMath(metaclass=Partial):
    """log2 of a power of two is exact (IEEE 754, up to 2**1023)"""

    @staticmethod
    def log2(x):
        if type(x) is SInt and x.t.eq(pow2(layers)):
            return wrap(layers)
        raise Unsupported("log2 of something else")

    @staticmethod
    def ceil(x):
        if type(x) in (int, SInt):
            return x
        raise Unsupported("ceil of something else")


@contract("P29", "a PLRU has a tree of bits for any number of ways", ["toffee.utils.plru.PLRU.__init__"])
def _plru_init(r):
    r.assume(layers >= 0)
    r.pow2(layers)
    m = sys.modules["toffee.utils.plru"]
    with patched((m, "math", GMath)):
        p = U.PLRU(wrap(pow2(layers)))
    r.prove("as many levels as the ways have bits", term(p.bits_layer_num, Int) == layers)
    rows = rt.parts_of(p.bits)
    if len(rows) != 1 or type(rows[0]) is not Many:
        raise Unsupported("the levels are not described")
    r.prove("one list per level", term(rows[0].n, Int) == layers)
    i, j = r.fresh("level", Int), r.fresh("place", Int)
    r.assume(And(0 <= i, i < layers))
    row = flat(rows[0].fn(i))
    r.prove("one list for each level", len(row) == 1)
    bits = rt.parts_of(row[0])
    if len(bits) != 1 or type(bits[0]) is not Many:
        raise Unsupported("the bits are not described")
    r.prove("level i has 2**i bits", term(bits[0].n, Int) == pow2(i))
    r.assume(And(0 <= j, j < pow2(i)))
    b = flat(bits[0].fn(j))
    r.prove("each of them is a bit", And(BoolVal(len(b) == 1), 0 <= term(b[0], Int), term(b[0], Int) <= 1))
