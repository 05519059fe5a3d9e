"""Property-level harness: random cases against the real code under CPython.

A case is JSON data; `check(case)` runs the real code and compares with an oracle written from
the property's text alone.  It returns None or a message describing the disagreement.
Used (a) to replay / find a concrete witness for a failed proof obligation and (b) as a
cross-check of the contracts under CPython.  Only the public interface of toffee is used.
"""
import asyncio, io, json, logging, os, random, signal, sys, time, traceback, warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import toffee  # noqa: E402

logging.getLogger("TOFFEE").setLevel(100)
logging.getLogger("asyncio").setLevel(100)
logging.raiseExceptions = False


class CaseTimeout(BaseException):
    pass


def quiet():
    toffee.get_logger().setLevel(100)


# --------------------------------------------------------------------------------------
# A device as picker generates it: pins with .value/.event that forward everything else to
# their data object; the device has .event, Step and StepRis.


class XData:
    def __init__(self, w=8, out=False):
        self.__dict__.update(w=w, out=out, val=0, writes=[], mode=None, modes=[])

    def W(self):
        return self.w

    def IsOutIO(self):
        return self.out

    def AsImmWrite(self):
        self.mode = "imme"
        self.modes.append("imme")

    def AsRiseWrite(self):
        self.mode = "rise"
        self.modes.append("rise")

    def AsFallWrite(self):
        self.mode = "fall"
        self.modes.append("fall")


class XPin:
    def __init__(self, event, w=8, out=False, name="", wave=None, dut=None):
        d = self.__dict__
        d["xdata"] = XData(w, out)
        d["event"] = event
        d["pname"] = name
        d["wave"] = wave
        d["dut"] = dut

    def __getattr__(self, n):
        d = self.__dict__
        if n == "value":
            v = d["wave"](d["dut"].cyc) if d["wave"] is not None else d["xdata"].val
            # like a real device: every reading is a new number
            return int(str(v)) if type(v) is int else v
        if n == "xdata":
            raise AttributeError(n)
        return getattr(d["xdata"], n)

    def __setattr__(self, n, v):
        if n == "value":
            self.xdata.val = v
            self.xdata.writes.append(v)
        elif n == "event":
            self.__dict__["event"] = v
        else:
            setattr(self.xdata, n, v)

    def __repr__(self):
        return f"<pin {self.__dict__['pname']}>"


class DUT:
    """names: list of str or (str, width, out)"""

    def __init__(self, names=(), waves=None, on_step=None):
        self.event = asyncio.Event()
        self.cyc = 0
        self.cbs = []
        self.steps = []
        self.on_step = on_step
        for n in names:
            w, out = 8, False
            if not isinstance(n, str):
                n, w, out = n
            setattr(self, n, XPin(self.event, w, out, n))
        for n, f in (waves or {}).items():
            setattr(self, n, XPin(self.event, 8, False, n, f, self))

    def StepRis(self, f, *a, **k):
        self.cbs.append(f)

    def Step(self, n=1):
        self.steps.append((self.cyc, n))
        for _ in range(n):
            self.cyc += 1
            for f in list(self.cbs):
                f(self.cyc)
        if self.on_step:
            self.on_step(self.cyc)
        if self.cyc > 20000:
            raise CaseTimeout("device ran 20000 cycles")


def pins(dut):
    return {k: v for k, v in vars(dut).items() if isinstance(v, XPin)}


class LogGrab(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, r):
        self.records.append(r)


class grab:
    """Collect toffee log records of at least WARNING."""

    def __enter__(self):
        self.h = LogGrab()
        lg = toffee.get_logger()
        self.old = (lg.level, lg.handlers[:], lg.propagate)
        for h in lg.handlers[:]:
            lg.removeHandler(h)
        lg.setLevel(logging.WARNING)
        lg.propagate = False
        lg.addHandler(self.h)
        return self.h

    def __exit__(self, *a):
        lg = toffee.get_logger()
        lg.removeHandler(self.h)
        lvl, hs, prop = self.old
        for h in hs:
            lg.addHandler(h)
        lg.setLevel(lvl)
        lg.propagate = prop


def run_async(test, timeout_cycles=None):
    """Run a test with toffee's own runner."""
    return toffee.run(test)


def errstr(e):
    return f"{type(e).__name__}: {e}"[:300]


class Harness:
    """Subclass per property: gen(rng, i, size) -> case, check(case) -> None | message."""

    pid = None
    fixed = ()  # always-run cases

    def gen(self, rng, i):
        raise NotImplementedError

    def check(self, case):
        raise NotImplementedError

    def nontrivial(self, case):
        return True

    def shrink(self, case):
        """Yield smaller cases (optional)."""
        return ()
