"""delay.py: the Delayer.

Specification: after k samples w(0) .. w(k-1) a delayer of d cycles shows w(k-1-d) if k > d, else
nothing.  `execute_all_coros` (P01/P06) calls each end-of-cycle callback once per cycle, when
everything has settled; the callback samples each delayer once.
"""
from vc.api import *
from vc.contracts.ghost import *
from vc.contracts.c_async import World, AM
from toffee import asynchronous as A
from toffee import delay as D

DM = "toffee.delay."
wave = fn("signal_at_sample", Int, Int)
sampled = fn("sampled", Int, Int, Int)


class Counted:
    """a signal whose value is that of the k-th sample"""

    def __init__(self):
        self.k = 0

    @property
    def value(self):
        return wrap(wave(term(self.k, Int)))


class Loop:
    pass


class Aio:
    def __init__(self):
        self.loop = Loop()

    def get_event_loop(self):
        return self.loop


def shows(r, d, v, k, delay):
    """v is what a delayer shows after k samples"""
    if v is None:
        r.prove("nothing is shown only before d+1 samples", Not(term(k, Int) > term(delay, Int)))
    else:
        r.prove("something is shown only after d+1 samples", term(k, Int) > term(delay, Int))
        r.prove("the value of d samples before the last one", term(v, Int) == wave(term(k, Int) - 1 - term(delay, Int)))


@contract("P06", "a sample moves the values of a delayer by one, for every delay", [DM + "Delayer.sample", DM + "Delayer.value"])
def _sample(r):
    """data structure invariant: after k samples the last min(k, d+1) ones, oldest first"""
    s = Counted()
    with patched((D, "asyncio", Aio())):
        probe = D.Delayer(s, 2)
        for k in range(5):
            s.k = k
            probe.sample()
        lst = values(getattr(probe, "value_list", ()))
        if len(lst) != 3 or not all(rt.R.valid(term(x, Int) == wave(IntVal(2 + j))) for j, x in enumerate(lst)):
            raise Unsupported("the delayer stores its values in another way")
        delay, k = sym(r, "d"), sym(r, "k")
        r.assume(And(delay.t >= 0, k.t >= 0))
        d = D.Delayer(s, delay)
        r.prove("initially", T(rt.b_len(d.value_list) == 0))
        n = z3.If(k.t > delay.t, delay.t + 1, k.t)
        d.value_list = SList(parts=[Many(n, lambda j: [One(wrap(wave(k.t - n + j)))], unit=lambda j: wrap(wave(k.t - n + j)))])
        s.k = k
        shows(r, d, d.value, k, delay)
        d.sample()
        n2 = z3.If(k.t + 1 > delay.t, delay.t + 1, k.t + 1)
        r.prove("the last min(k+1, d+1) samples are kept", T(rt.b_len(d.value_list) == wrap(n2)))
        j = sym(r, "j")
        r.assume(And(0 <= j.t, j.t < n2))
        r.prove("oldest first", term(d.value_list[j], Int) == wave(k.t + 1 - n2 + j.t))
        shows(r, d, d.value, k + 1, delay)


for _d in range(6):

    @contract("P06", f"a delayer of {_d} cycles over 14 samples", [DM + "Delayer.sample", DM + "Delayer.value", DM + "Delayer.__init__"], bounded="delay up to 5, 14 samples")
    def _black(r, _d=_d):
        s = Counted()
        with patched((D, "asyncio", Aio())):
            d = D.Delayer(s, _d)
            for k in range(14):
                shows(r, d, d.value, k, _d)
                shows(r, d, d.value, k, _d)  # looking changes nothing
                s.k = k
                d.sample()


class Dl:
    def __init__(self, i):
        self.i = i

    def sample(self):
        g = ghost()
        g.count.write("samples", [self.i], g.count.read("samples", self.i) + 1)


class Ghost:
    pass


X = z3.Int("x")


@contract("P06", "each delayer is sampled exactly once at the end of a cycle", [DM + "__process_delayer"])
def _all(r):
    g = Ghost()
    g.count = rt.Store()
    g.count.field("samples", [Int], lambda i: IntVal(0))
    r.root("ghost", g)
    n = r.fresh("delayers", Int)
    aio = Aio()
    with patched((D, "asyncio", aio)):
        aio.loop.delayer_list = seq(r, "delayers", Dl, n)
        vars(D)["__process_delayer"]()
    r.prove("each once", ForAll([X], Implies(And(0 <= X, X < n), g.count.f["samples"](X) == 1)))


@contract("P06", "delayers of one event loop follow their own signals, cycle by cycle", [DM + "__process_delayer", DM + "Delayer.__init__", AM + "execute_all_coros"], bounded="three delayers of delay 0, 1 and 2, 6 cycles")
def _cycles(r):
    w = World(r)
    w.loop.test_done = False
    r.hooks["progress"] = None
    again = [0]

    async def settle():
        pass

    async def callbacks():
        again[0] += 1
        return again[0] % 2 == 1  # another round of hooks in every cycle

    async def cancel():
        r.fail("not cancelled")

    class S:
        def __init__(self, i):
            self.i, self.k = i, 0

        @property
        def value(self):
            return wrap(sampled(IntVal(self.i), IntVal(self.k)))

    with patched((A, "asyncio", w), (D, "asyncio", w), (A, "__other_tasks_done", settle), (A, "__execute_callback", callbacks), (A, "cancel_all_tasks", cancel)):
        s = [S(0), S(1)]
        spec = [(0, 0), (1, 1), (0, 2)]
        ds = [D.Delayer(s[i], d) for i, d in spec[:2]]
        late = 2  # the third one is created after two cycles
        for c in range(6):
            if c == late:
                ds.append(D.Delayer(s[0], 2))
            for q in s:
                q.k = c
            finish(A.execute_all_coros())
            for d, (i, dl), b in zip(ds, spec, (0, 0, late)):
                if c - b >= dl:
                    r.prove("the value of d cycles before", term(d.value, Int) == sampled(IntVal(i), IntVal(c - dl)))
                else:
                    r.prove("nothing yet", d.value is None)
