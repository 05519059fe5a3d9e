"""Triggers: waiting for a number of cycles, a value, an edge."""
from vc.api import *
from vc.contracts.ghost import *
import toffee
from toffee import triggers as TR

TM = "toffee.triggers."


def nows(c):
    return term(c.now, Int)


class Device:
    """a device that is waited for itself"""

    def __init__(self, clock):
        self.clock = clock

    async def wait(self):
        await self.clock.wait()


def bundle_of(r, pin, shape):
    """a bundle bound to a device with the given pin, directly or through sub-bundles and lists"""

    class Sub(toffee.Bundle):
        a = toffee.Signal()

    class ViaSub(toffee.Bundle):
        s = Sub.from_prefix("s_")

    class ViaList(toffee.Bundle):
        l = toffee.BundleList(Sub, "s_#", 2)

    class ViaSignals(toffee.Bundle):
        l = toffee.SignalList("a#", 2)

    class Deep(toffee.Bundle):
        l = toffee.BundleList(ViaSub, "l#_", 1)

    class D:
        def StepRis(self, f):
            pass

    d = D()
    cls, name = {"signal": (Sub, "a"), "sub-bundle": (ViaSub, "s_a"), "bundle list": (ViaList, "s_1a"), "signal list": (ViaSignals, "a1"), "list of bundles with sub-bundles": (Deep, "l0_s_a")}[shape]
    setattr(d, name, pin)
    b = cls()
    b.bind(d)
    r.hooks["shared"] = [(o, dict(vars(o))) for o, _ in r.hooks["shared"]]
    shared(r, b, d)
    return b


class XData:
    pass


def full_pin(c, wave):
    p = Pin(c, wave)
    p.xdata, p.mIOType = XData(), 0
    return p


def _cycles(make, title, functions, bounded=None):
    @contract("P03", title, functions, bounded=bounded)
    def scenario(r):
        c, t0 = start(r)
        n = sym(r, "n")
        finish(make(r, c, n))
        r.prove("returns after exactly n cycles", nows(c) == t0 + clip(n.t))
        t1 = nows(c)
        n2 = sym(r, "m")
        finish(make(r, c, n2))
        r.prove("again exactly n cycles", nows(c) == t1 + clip(n2.t))


W = fn("W", Int, Int)
_cycles(lambda r, c, n: TR.ClockCycles(Pin(c, W), n), "ClockCycles on a pin", [TM + "ClockCycles"])
_cycles(lambda r, c, n: TR.ClockCycles(Device(c), n), "ClockCycles on a device", [TM + "ClockCycles"])


@contract("P03", "ClockCycles waits one cycle when no number is given", [TM + "ClockCycles"])
def _default(r):
    c, t0 = start(r)
    finish(TR.ClockCycles(Pin(c, W)))
    r.prove("one cycle", nows(c) == t0 + 1)


for _shape in ("signal", "signal list", "sub-bundle", "bundle list", "list of bundles with sub-bundles"):
    _cycles(lambda r, c, n, s=_shape: TR.ClockCycles(bundle_of(r, full_pin(c, W), s), n), f"ClockCycles on a bundle bound through a {_shape}", [TM + "ClockCycles", "toffee.bundle.Bundle.step"], bounded=f"bundle shape: {_shape}")
    _cycles(lambda r, c, n, s=_shape: bundle_of(r, full_pin(c, W), s).step(n), f"step of a bundle bound through a {_shape}", ["toffee.bundle.Bundle.step"], bounded=f"bundle shape: {_shape}")


def clocked_bundle(c):
    """a bundle whose clock is c: what binding leaves there, for any structure of sub-bundles and lists,
    is the event of a pin of the device (contracts of __bind_from_signal_list and __update_signal_info)"""
    b = toffee.Bundle()
    if not hasattr(b, "_Bundle__clock_event"):
        raise Unsupported("the clock of a bundle is kept elsewhere")
    b._Bundle__clock_event = c
    return b


@contract("P03", "step of a bundle with any clock waits exactly n cycles", ["toffee.bundle.Bundle.step"])
def _step(r):
    c, t0 = start(r)
    n = sym(r, "n")
    b = clocked_bundle(c)
    shared(r, b)
    finish(b.step(n))
    r.prove("returns after exactly n cycles", nows(c) == t0 + clip(n.t))


_cycles(lambda r, c, n: TR.ClockCycles(a_clocked(r, c), n), "ClockCycles on a bundle with any clock", [TM + "ClockCycles", "toffee.bundle.Bundle.step"])


def a_clocked(r, c):
    b = clocked_bundle(c)
    shared(r, b)
    return b


def first(r, c, t_from, holds):
    """the trigger has returned at the first cycle from t_from on in which it holds"""
    t = z3.Int("t")
    now = nows(c)
    r.prove("not before the first cycle allowed", now >= t_from)
    r.prove("the condition holds when it returns", holds(now))
    r.prove("the condition held in no cycle before", ForAll([t], Implies(And(t_from <= t, t < now), Not(holds(t)))))


@contract("P04", "Value returns at the first cycle with the value", [TM + "Value"])
def _value(r):
    c, t0 = start(r)
    d, v = sym(r, "delay"), sym(r, "v")
    finish(TR.Value(Pin(c, W), v, delay=d))
    first(r, c, t0 + clip(d.t), lambda t: W(t) == v.t)


@contract("P04", "Value looks one cycle later when no delay is given", [TM + "Value"])
def _value1(r):
    c, t0 = start(r)
    v = sym(r, "v")
    finish(TR.Value(Pin(c, W), v))
    first(r, c, t0 + 1, lambda t: W(t) == v.t)


@contract("P04", "AllValid returns at the first cycle in which every pin is valid", [TM + "AllValid"])
def _allvalid(r):
    c, t0 = start(r)
    d = sym(r, "delay")
    WP = fn("WP", Int, Int, Int)
    n = r.fresh("pins", Int)
    pins = seq(r, "pins", lambda i: Pin(c, lambda t: WP(i, t)), n)
    finish(TR.AllValid(Pin(c, W), rt.SymStar(pins), delay=d))
    k = z3.Int("k")
    first(r, c, t0 + clip(d.t), lambda t: And(W(t) != 0, ForAll([k], Implies(And(0 <= k, k < n), WP(k, t) != 0))))


@contract("P04", "AllValid of one pin, default delay", [TM + "AllValid"])
def _allvalid1(r):
    c, t0 = start(r)
    finish(TR.AllValid(Pin(c, W)))
    first(r, c, t0 + 1, lambda t: W(t) != 0)


C = fn("C", Int, Bool)


def _cond(make, title, bounded=None, default=False):
    @contract("P04", title, [TM + "Condition"], bounded=bounded)
    def scenario(r):
        c, t0 = start(r)
        d = sym(r, "delay")
        item = make(r, c)

        def cond(x):
            r.prove("the condition is asked about the item", rt.is_(x, item))
            return wrap(C(nows(c)))

        if default:
            finish(TR.Condition(item, cond))
            first(r, c, t0 + 1, C)
        else:
            finish(TR.Condition(item, cond, delay=d))
            first(r, c, t0 + clip(d.t), C)


_cond(lambda r, c: Pin(c, W), "Condition on a pin returns at the first cycle in which it holds")
_cond(lambda r, c: Pin(c, W), "Condition looks one cycle later when no delay is given", default=True)
_cond(lambda r, c: Device(c), "Condition on a device returns at the first cycle in which it holds")
_cond(lambda r, c: a_clocked(r, c), "Condition on a bundle with any clock returns at the first cycle in which it holds")
_cond(lambda r, c: bundle_of(r, full_pin(c, W), "sub-bundle"), "Condition on a bundle returns at the first cycle in which it holds", bounded="bundle with one sub-bundle")


@contract("P05", "Change returns at the first later cycle with another value", [TM + "Change"])
def _change(r):
    c, t0 = start(r)
    finish(TR.Change(Pin(c, W)))
    first(r, c, t0 + 1, lambda t: W(t) != W(t0))


@contract("P05", "RisingEdge returns at the first later cycle that is non-zero after a zero", [TM + "RisingEdge"])
def _rise(r):
    c, t0 = start(r)
    finish(TR.RisingEdge(Pin(c, W)))
    first(r, c, t0 + 1, lambda t: And(W(t - 1) == 0, W(t) != 0))


@contract("P05", "FallingEdge returns at the first later cycle that is zero after a non-zero", [TM + "FallingEdge"])
def _fall(r):
    c, t0 = start(r)
    finish(TR.FallingEdge(Pin(c, W)))
    first(r, c, t0 + 1, lambda t: And(W(t - 1) != 0, W(t) == 0))
