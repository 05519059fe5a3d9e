"""Ghost devices: a clock that counts cycles and pins that follow arbitrary waveforms.

Assumed contract of an event that the clock sets (P01 and asyncio.Event): a coroutine that awaits
`event.wait()` goes on exactly one clock cycle later.
"""
import contextlib, sys

from vc.api import *


@contextlib.contextmanager
def patched(*triples):
    """replace attributes (or items of dicts) by stubs that carry assumed contracts"""
    old = []
    for o, n, v in triples:
        if isinstance(o, dict):
            old.append((o, n, o.get(n, patched)))
            o[n] = v
        else:
            if n not in vars(o) and not hasattr(o, n):
                raise Unsupported(f"{n} is not there")
            # the raw entry (a staticmethod stays one); an inherited one is uncovered again
            raw = vars(o).get(n, patched)
            old.append((o, n, raw))
            setattr(o, n, v)
    try:
        yield
    finally:
        for o, n, v in reversed(old):
            if isinstance(o, dict):
                if v is patched:
                    o.pop(n, None)
                else:
                    o[n] = v
            elif v is patched:
                delattr(o, n)
            else:
                setattr(o, n, v)


class Partial(type):
    """a stub of a module: what it does not know is out of reach, not an error of the program"""

    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{cls.__name__}.{n} has no contract")


def ghost(name="ghost"):
    """the ghost state of the present run (values that outlive a loop must not refer to it: a
    summary of the loop keeps them from another run)"""
    return dict(rt.R.roots)[name]


def same(a, b):
    """one value: the same object or the same term (a list that was built in a loop makes the
    wrappers of its elements anew)"""
    if a is b:
        return BoolVal(True)
    if rt.issym(a) and type(a) is type(b) and a.t.sort() == b.t.sort():
        return a.t == b.t
    return BoolVal(False)


class Clock:
    """the clock event of a device; `now` is the number of cycles that have ended"""

    def __init__(self, now=0):
        self.now = now

    async def wait(self):
        self.now = self.now + 1
        interfere()


def shared(r, *objs):
    """other coroutines may run the same code on these objects while this one waits"""
    r.hooks.setdefault("shared", []).extend((o, dict(vars(o))) for o in objs)


def interfere():
    """what the code under verification keeps in shared objects may have any value after a wait"""
    for o, before in rt.R.hooks.get("shared", ()):
        for k, v in list(vars(o).items()):
            if k in before and before[k] is v or k.startswith("__"):
                continue
            if type(v) in (int, SInt):
                setattr(o, k, wrap(rt.R.fresh("shared_" + k, Int)))
            elif type(v) in (bool, SBool):
                setattr(o, k, wrap(rt.R.fresh("shared_" + k, Bool)))
            else:
                raise Unsupported(f"{k} is kept in an object that others use while this coroutine waits")


class Pin:
    """a pin whose value in cycle t is wave(t)"""

    def __init__(self, clock, wave):
        self.event, self.wave = clock, wave
        if rt.R is not None:
            shared(rt.R, self)

    @property
    def value(self):
        return wrap(self.wave(term(self.event.now, Int)))


def finish(coro):
    """run a coroutine that never has to wait for anything but ghost clocks"""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise Unsupported("the coroutine waits for something else")


def start(r):
    """an arbitrary moment"""
    t0 = r.fresh("t0", Int)
    r.assume(t0 >= 0)
    c = Clock(wrap(t0))
    r.root("clock", c)
    shared(r, *[sys.modules[m] for m in ("toffee.triggers", "toffee.bundle") if m in sys.modules])
    r.hooks["progress"] = lambda: term(c.now, Int)
    return c, t0


def clip(t):
    return z3.If(t > 0, t, IntVal(0))
