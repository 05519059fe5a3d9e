import asyncio
from .base import *
import toffee
from toffee import (AllValid, Bundle, BundleList, Change, ClockCycles, Condition, Delayer,
                    FallingEdge, RisingEdge, Signal, SignalList, Value)
from toffee import Agent, Env, Model, driver_hook, driver_method, monitor_hook, monitor_method

INF = 10 ** 9


HOWS = ["gather", "nested", "wait", "shield", "wait_for", "own"]


class P01(Harness):
    """Random confluent task programs; the oracle is a max-plus fixpoint of completion cycles."""

    pid = "P01"
    fixed = [
        {"tasks": [[["set", 0], ["clk"]], [["wait", 0], ["set", 1]], [["wait", 1], ["clk"], ["clk"]]],
         "monitor": [], "n": 6, "runs": 2},
        {"tasks": [[["victim"]], [["join", 0], ["set", 0]], [["clk"], ["cancel", 0], ["clk"]],
                   [["join", 1], ["clk"]], [["wait", 0]]], "monitor": [], "n": 6, "runs": 1},
        {"tasks": [[["wait", 9], ["set", 3]], [["wait", 3], ["clk"]]], "monitor": [[3, 9]], "n": 8, "runs": 1},
        {"tasks": [[["all", h, [0, 1]], ["set", 2 + k]] for k, h in enumerate(HOWS)] + [[["wait", 2 + k], ["clk"]] for k in range(len(HOWS))]
         + [[["clk"], ["clk"], ["set", 0], ["clk"], ["set", 1]]], "monitor": [], "n": 8, "runs": 1},
    ]

    def gen(self, rng, i):
        nt = rng.randint(1, 8)
        tasks, ev, qn = [], 0, 0
        nev = rng.randint(1, 5)
        nq = rng.randint(0, 2)
        setters = {}
        chain = rng.random() < 0.2
        if chain:
            n = rng.randint(5, 40) if rng.random() < 0.8 else rng.randint(60, 180)
            how = rng.choice([["set"], ["drive"], ["set", "drive"]])
            step = lambda k: ["set", k] if rng.choice(how) == "set" else ["drive", k, rng.choice([1, 50])]
            tasks = [[["wait", k], step(k + 1)] for k in range(n)]
            rng.shuffle(tasks)
            tasks.append([["clk"]] * rng.randint(0, 3) + [["set", 0], ["clk"], ["set", 999]])
            tasks.append([["wait", n], ["clk"]])
            tasks.append([["wait", 999], ["clk"]])
            return {"tasks": tasks, "monitor": [], "n": 10, "runs": 1}
        victims = rng.sample(range(nt), rng.randint(0, min(2, nt - 1)))
        consumers = {}
        for t in range(nt):
            if t in victims:
                tasks.append([["victim"]])
                continue
            acts = []
            for _ in range(rng.randint(1, 6)):
                k = rng.random()
                if k < 0.3:
                    acts.append(["clk"])
                elif k < 0.39:
                    acts.append(["set", rng.randrange(nev)])
                elif k < 0.42:
                    acts.append(["drive", rng.randrange(nev), rng.choice([0, 5, 99])])
                elif k < 0.5:
                    acts.append(["wait", rng.randrange(nev)])
                elif k < 0.54:
                    acts.append(["all", rng.choice(HOWS), [rng.randrange(nev) for _ in range(rng.randint(1, 3))]])
                elif k < 0.62:
                    acts.append(["yield", rng.randint(1, 4) if rng.random() < 0.9 else rng.randint(5, 300)])
                elif k < 0.72 and nq:
                    acts.append(["put", rng.randrange(nq)])
                elif k < 0.82 and nq:
                    q = rng.randrange(nq)
                    if consumers.setdefault(q, t) == t:
                        acts.append(["get", q])
                elif k < 0.9 and t > 0:
                    acts.append(["join", rng.randrange(t)])
                elif victims:
                    v = rng.choice(victims)
                    if rng.random() < 0.5:
                        acts.append(["clk"])
                        acts.append(["cancel", v])
                    elif v < t:
                        acts.append(["join", v])
                else:
                    acts.append(["spawn", [["yield", rng.randint(0, 2)], ["set", rng.randrange(nev)]]])
            tasks.append(acts)
        mon = []
        if rng.random() < 0.4:
            mon = [[rng.randint(1, 6), rng.randrange(nev)] for _ in range(rng.randint(1, 3))]
        return {"tasks": tasks, "monitor": mon, "n": rng.randint(3, 12) if rng.random() < 0.9 else rng.randint(40, 150), "runs": rng.choice([1, 1, 1, 2])}

    def oracle(self, case):
        tasks = case["tasks"]
        comp = {}
        sett = {}
        puts = {}
        endt = {}
        cancel = {}

        def evalseq(key, acts, start):
            t = start
            out = []
            getc = {}
            for j, a in enumerate(acts):
                if t >= INF:
                    break
                k = a[0]
                if k == "clk":
                    t += 1
                elif k in ("set", "drive"):
                    new_set.setdefault(a[1], []).append(t)
                elif k == "wait":
                    t = max(t, sett.get(a[1], INF))
                elif k == "all":
                    t = max([t] + [sett.get(e, INF) for e in a[2]])
                elif k == "put":
                    new_put.setdefault(a[1], []).append(t)
                elif k == "get":
                    n = getc.get(a[1], 0)
                    getc[a[1]] = n + 1
                    ps = puts.get(a[1], [])
                    t = max(t, ps[n] if n < len(ps) else INF)
                elif k == "join":
                    t = max(t, endt.get(a[1], INF))
                elif k == "victim":
                    t = max(t, cancel.get(key, INF))
                elif k == "cancel":
                    new_cancel.setdefault(a[1], []).append(t)
                elif k == "spawn":
                    evalseq((key, j), a[1], t)
                out.append(t)
            comp[key] = out
            endt[key] = out[-1] if len(out) == len(acts) and out else (start if not acts else INF)

        for _ in range(400):
            before = (dict(comp), dict(sett), {k: list(v) for k, v in puts.items()}, dict(endt), dict(cancel))
            new_set, new_put, new_cancel = {}, {}, {}
            for c, e in case["monitor"]:
                new_set.setdefault(e, []).append(c)
            for k, acts in enumerate(tasks):
                evalseq(k, acts, 0)
            sett = {k: min(v) for k, v in new_set.items()}
            puts = {k: sorted(v) for k, v in new_put.items()}
            cancel = {k: min(v) for k, v in new_cancel.items()}
            if before == (comp, sett, puts, endt, cancel):
                break
        return comp

    def once(self, case):
        log = {}
        dut = DUT(["a"])

        async def test():
            events, queues = {}, {}

            def E(k):
                return events.setdefault(k, toffee.Event())

            def Q(k):
                return queues.setdefault(k, toffee.Queue())

            toffee.start_clock(dut)
            drives = any(a[0] == "drive" for t in case["tasks"] for a in t)
            env = None
            if case["monitor"] or drives:
                cyc = sorted(case["monitor"])

                class A(Agent):
                    @monitor_method()
                    async def mon(self):
                        hits = [e for c, e in cyc if c == dut.cyc]
                        return hits or None

                    @driver_method()
                    async def go(self, e):
                        return None

                class M(Model):
                    @driver_hook("ag.go")
                    def g(self, e):
                        E(e).set()

                    @monitor_hook("ag.mon")
                    def h(self, es):
                        for e in es:
                            E(e).set()

                class B(Bundle):
                    a = Signal()

                class EnvX(Env):
                    def __init__(self):
                        super().__init__()
                        self.ag = A(B().bind(dut))

                env = EnvX().attach(M())
            objs = {}
            asked = set()

            async def together(how, cs):
                if how == "gather":
                    await asyncio.gather(*cs)
                elif how == "nested":
                    await asyncio.gather(asyncio.gather(*cs), asyncio.gather(asyncio.gather(asyncio.sleep(0))))
                elif how == "wait":
                    await asyncio.wait([asyncio.ensure_future(c) for c in cs])
                elif how == "shield":
                    for f in [asyncio.shield(c) for c in cs]:
                        await f
                elif how == "wait_for":
                    for c in cs:
                        await asyncio.wait_for(c, 3600)
                else:
                    await toffee.gather(*cs)

            async def runner(key, acts):
                out = log.setdefault(key, [])
                for j, a in enumerate(acts):
                    k = a[0]
                    if k == "clk":
                        await dut.event.wait()
                    elif k == "set":
                        E(a[1]).set()
                    elif k == "drive":
                        async with toffee.Executor(exit="none") as ex:
                            ex(env.ag.go(a[1]), priority=a[2])
                    elif k == "wait":
                        await E(a[1]).wait()
                    elif k == "all":
                        await together(a[1], [E(e).wait() for e in a[2]])
                    elif k == "put":
                        await Q(a[1]).put(1)
                    elif k == "get":
                        await Q(a[1]).get()
                    elif k == "yield":
                        for _ in range(a[1]):
                            await asyncio.sleep(0)
                    elif k == "join":
                        try:
                            await objs[a[1]]
                        except asyncio.CancelledError:
                            if a[1] not in asked:
                                raise
                    elif k == "victim":
                        try:
                            await asyncio.Event().wait()
                        except asyncio.CancelledError:
                            out.append(dut.cyc)
                            raise
                    elif k == "cancel":
                        if not objs[a[1]].done():
                            asked.add(a[1])
                            objs[a[1]].cancel()
                    elif k == "spawn":
                        toffee.create_task(runner((key, j), a[1]))
                    out.append(dut.cyc)

            for k, acts in enumerate(case["tasks"]):
                objs[k] = toffee.create_task(runner(k, acts))
            for c in range(case["n"]):
                await dut.event.wait()
                if dut.cyc != c + 1:
                    raise AssertionError(f"waiter woken in cycle {dut.cyc}, expected {c + 1}")

        toffee.run(test)
        return log, dut

    def check(self, case):
        exp = self.oracle(case)
        n = case["n"]
        for _ in range(case["runs"]):
            try:
                log, dut = self.once(case)
            except Exception as e:
                return f"run failed: {errstr(e)}"
            if any(k != 1 for _, k in dut.steps):
                return "the device was stepped by more than one cycle at once"
            if not n <= dut.cyc <= n + 3:
                return f"device ran {dut.cyc} cycles for a test of {n}"
            for key, e in exp.items():
                # the last two cycles may be cut by the end of the test
                want = [c for c in e if c < n]
                got = [c for c in log.get(key, []) if c < n]
                if want != got:
                    return f"task {key} {case['tasks'][key] if isinstance(key, int) else ''}: actions ended in cycles {got}, expected {want}"
        return None


def _tup(v):
    """the value of a case; ["#t", ...] stands for a tuple"""
    return tuple(v[1:]) if isinstance(v, list) and v and v[0] == "#t" else v


class _Several(tuple):
    """a tuple of a class of its own, as a named tuple is"""


class P02(Harness):
    pid = "P02"
    fixed = [
        {"kind": "run", "ret": 5, "factory": None, "clock": False, "exc": False, "wait": 0},
        {"kind": "run", "ret": None, "factory": [1, [2, 3]], "clock": True, "exc": False, "wait": 2},
        {"kind": "run", "ret": 0, "factory": [], "clock": True, "exc": False, "wait": 1},
        {"kind": "tail", "yields": 3, "chain": 4, "wait": 2},
        {"kind": "gather", "durs": [3, 1, 2], "rets": [None, 0, "x"]},
        {"kind": "gather", "durs": [], "rets": []},
        {"kind": "gather", "durs": [1, 0, 2, 0], "rets": [["#t", 1, 2], ["#t"], [3], ["#t", 4]]},
        {"kind": "run", "ret": ["#t", 1, 2], "factory": ["single", ["#t", 3]], "clock": False, "exc": False, "wait": 0},
        {"kind": "gather", "durs": [j % 3 for j in range(150)], "rets": list(range(150)), "last": True},
    ]

    def gen(self, rng, i):
        k = rng.random()
        if k < 0.45:
            f = rng.choice([None, "single", "list", "n", "n"])
            fac = None
            if f == "single":
                fac = ["single", rng.randint(0, 99)]
            elif f == "list":
                fac = ["single", [rng.randint(0, 9) for _ in range(rng.randint(0, 3))]]
            elif f == "n":
                fac = [rng.randint(0, 99) for _ in range(rng.randint(0, 4))]
                if rng.random() < 0.4:
                    fac = ["named", *fac]
            return {"kind": "run", "ret": rng.choice([None, 0, 1, "", "s", [], [1, 2], False, 7.5, ["#t"], ["#t", 1, 2]]),
                    "factory": fac, "clock": rng.random() < 0.6, "exc": rng.random() < 0.3, "wait": rng.randint(0, 4),
                    "coro": fac is None and rng.random() < 0.5}
        if k < 0.65:
            big = rng.random() < 0.15
            return {"kind": "tail", "yields": rng.randint(0, 60 if big else 5), "chain": rng.randint(0, 50 if big else 8), "wait": rng.randint(0, 4)}
        n = rng.randint(0, 7) if rng.random() < 0.9 else rng.randint(8, 200)
        return {"kind": "gather", "last": rng.random() < 0.3, "durs": [rng.randint(0, 4) for _ in range(n)],
                "rets": [rng.choice([None, 0, j, "r%d" % j, [j], ["#t", j], ["#t", j, 0], ["#t"]]) for j in range(n)],
                "ev": rng.random() < 0.3}

    def check(self, case):
        k = case["kind"]
        if k == "run":
            seen = []
            fac = case["factory"]

            class Boom(Exception):
                pass

            async def body():
                if case["clock"]:
                    dut = DUT(["a"])
                    toffee.start_clock(dut)
                    for _ in range(case["wait"]):
                        await dut.event.wait()
                if case["exc"]:
                    raise Boom("x")
                return _tup(case["ret"])

            async def test(*a):
                seen.append(a)
                return await body()

            handle = None
            if fac is not None:
                if fac and fac[0] == "single":
                    handle = lambda: fac[1]
                    want = (fac[1],)
                elif fac and fac[0] == "named":
                    want = tuple(fac[1:])
                    handle = lambda: _Several(want)
                else:
                    want = tuple(fac)
                    handle = lambda: want
            else:
                want = ()
            arg = test() if case.get("coro") and handle is None else test
            try:
                r = toffee.run(arg, handle) if handle else toffee.run(arg)
            except Boom:
                return None if case["exc"] else "the test's exception appeared from nowhere"
            except Exception as e:
                return f"run raised {errstr(e)}"
            if case["exc"]:
                return "an exception of the test did not reach the caller"
            if seen != [want]:
                return f"test called with {seen}, expected {[want]}"
            ret = _tup(case["ret"])
            if r != ret or type(r) is not type(ret):
                return f"run returned {r!r}, the test returned {ret!r}"
            return None
        if k == "tail":
            done = []
            dut = DUT(["a"])

            async def test():
                toffee.start_clock(dut)
                for _ in range(case["wait"]):
                    await dut.event.wait()
                evs = [toffee.Event() for _ in range(case["chain"] + 1)]

                async def link(j):
                    await evs[j].wait()
                    for _ in range(case["yields"]):
                        await asyncio.sleep(0)
                    done.append((j, dut.cyc))
                    if j + 1 < len(evs):
                        evs[j + 1].set()

                for j in reversed(range(len(evs))):
                    toffee.create_task(link(j))
                evs[0].set()
                return "r"

            try:
                r = toffee.run(test)
            except Exception as e:
                return f"run raised {errstr(e)}"
            if r != "r":
                return f"run returned {r!r}"
            want = [(j, case["wait"]) for j in range(case["chain"] + 1)]
            if done != want:
                return f"work possible in the last cycle: done {done}, expected {want}"
            return None
        starts, out = [], []
        rets = [_tup(x) for x in case["rets"]]
        dut = DUT(["a"])

        async def test():
            toffee.start_clock(dut)
            await dut.event.wait()

            last = toffee.Event()

            async def job(j):
                starts.append((j, dut.cyc))
                if case.get("last"):
                    # nobody goes on before the last one has started
                    if j == len(case["durs"]) - 1:
                        last.set()
                    await last.wait()
                for _ in range(case["durs"][j]):
                    await dut.event.wait()
                return rets[j]

            t0 = dut.cyc
            r = await toffee.gather(*[job(j) for j in range(len(case["durs"]))])
            out.append((t0, dut.cyc, r))

        try:
            toffee.run(test)
        except Exception as e:
            return f"run raised {errstr(e)}"
        t0, t1, r = out[0]
        if list(r) != rets:
            return f"gather returned {r}, expected {rets}"
        if starts != [(j, t0) for j in range(len(case["durs"]))]:
            return f"gather started {starts}"
        if t1 != t0 + max(case["durs"], default=0):
            return f"gather took {t1 - t0} cycles for durations {case['durs']}"
        return None


def _clock_shapes():
    class Leaf(Bundle):
        a, b = toffee.Signals(2)

    class Flat(Bundle):
        x = Signal()

    class L(Bundle):
        s = SignalList("s_#", 3)

    class Sub(Bundle):
        leaf = Leaf.from_prefix("l_")

    class Deep(Bundle):
        sub = Sub.from_prefix("u_")

    class BL(Bundle):
        v = BundleList(Leaf, "v#_", 2)

    class BLDeep(Bundle):
        w = BundleList(BL, "w#_", 2)

    class Mix(Bundle):
        x = Signal()
        sub = Sub.from_prefix("u_")
        v = BundleList(Leaf, "v#_", 2)

    return {
        "flat": (Flat, ["x"]), "siglist": (L, ["s_0", "s_1", "s_2"]), "sub": (Sub, ["l_a", "l_b"]),
        "deep": (Deep, ["u_l_a", "u_l_b"]), "blist": (BL, ["v0_a", "v0_b", "v1_a", "v1_b"]),
        "bldeep": (BLDeep, ["w0_v0_a", "w1_v1_b"]), "mix": (Mix, ["x", "u_l_a", "v1_b"]),
        "mixlist": (Mix, ["v1_b"]), "mixsub": (Mix, ["u_l_b"]),
    }


class P03(Harness):
    pid = "P03"
    fixed = [{"waiters": [["pin", None, 0, 0], ["dut", None, 3, 0], ["dutwait", None, 2, 1]] + [["bundle", s, 2, 1] for s in _clock_shapes()]},
             {"waiters": [["step", s, 3, 0] for s in _clock_shapes()]},
             {"waiters": [["bundle", s, 1, 0] for s in _clock_shapes()]},
             {"waiters": [["step", "flat", n, k] for n in (4, 2, 7) for k in (0, 1)], "shared": True}]

    def gen(self, rng, i):
        ws = []
        for _ in range(rng.randint(1, 6)):
            k = rng.choice(["pin", "dut", "dutwait", "bundle", "step", "bundle", "default"])
            ws.append([k, rng.choice(sorted(_clock_shapes())) if k in ("bundle", "step") else None,
                       rng.choice([0, 1, 1, 2, 3, 5, rng.randint(0, 30), rng.randint(0, 30) if rng.random() < 0.8 else rng.randint(100, 400)]), rng.randint(0, 3)])
        if rng.random() < 0.4:
            # several of them wait on the same object
            s = rng.choice(sorted(_clock_shapes()))
            ws = [[k, s if t else t, n, m] for k, t, n, m in ws]
            return {"waiters": ws, "shared": True}
        return {"waiters": ws}

    def check(self, case):
        shapes = _clock_shapes()
        names = sorted({n for s in shapes.values() for n in s[1]})
        log = []
        dut = DUT(["p"])
        bundles = {}

        async def test():
            toffee.start_clock(dut)

            async def wt():
                await dut.event.wait()

            class DW:  # a device without an event attribute, only wait()
                async def wait(self):
                    await dut.event.wait()

            dw = DW()

            async def w(j, kind, shape, n, start):
                for _ in range(start):
                    await dut.event.wait()
                t0 = dut.cyc
                if kind == "pin":
                    await ClockCycles(dut.p, n)
                elif kind == "dut":
                    await ClockCycles(dut, n)
                elif kind == "dutwait":
                    await ClockCycles(dw, n)
                elif kind == "default":
                    n = 1
                    await ClockCycles(dut.p)
                else:
                    cls, nm = shapes[shape]
                    sub = DUT()
                    sub.event = dut.event
                    for x in nm:
                        setattr(sub, x, XPin(dut.event, 8, False, x))
                    b = bundles.get(shape) if case.get("shared") else None
                    if b is None:
                        with grab():
                            b = bundles[shape] = cls().bind(sub)
                    if kind == "bundle":
                        await ClockCycles(b, n)
                    else:
                        await b.step(n)
                log.append((j, dut.cyc - t0, n))

            await toffee.gather(*[asyncio.wait_for(w(j, *x), None) if False else w(j, *x) for j, x in enumerate(case["waiters"])])

        try:
            toffee.run(test)
        except Exception as e:
            return f"waiting failed: {errstr(e)}"
        for j, took, n in log:
            if took != n:
                return f"waiter {case['waiters'][j]} took {took} cycles, expected {n}"
        if len(log) != len(case["waiters"]):
            return "a waiter never returned"
        return None


def _wave(rng, n, vals):
    out = []
    while len(out) < n:
        out += [rng.choice(vals)] * rng.choice([1, 1, 1, 2, 3, 5])
    return out[:n]


def _at(w):
    return lambda c: w[c] if c < len(w) else w[-1]


class P04(Harness):
    pid = "P04"
    fixed = [{"trig": "Value", "waves": [[0, 1, 0, 1, 1]], "target": 1, "delay": 1, "start": 1, "n": 5},
             {"trig": "Value", "waves": [[1, 1, 1]], "target": 1, "delay": 0, "start": 1, "n": 3},
             {"trig": "AllValid", "waves": [[0, 1, 0, 2, 1], [1, 0, 1, 1, 1]], "target": 0, "delay": 0, "start": 0, "n": 5},
             {"trig": "Condition", "waves": [[0, 1, 2, 3, 4, 5]], "target": 4, "delay": 2, "start": 1, "n": 6, "item": "bundle"}]

    def gen(self, rng, i):
        n = rng.randint(3, 30)
        trig = rng.choice(["Value", "Value", "AllValid", "Condition"])
        vals = rng.choice([[0, 1], [0, 1, 2, 3], [0, 5, 255], [0, 700, 2**33]])
        np_ = rng.randint(1, 4) if trig == "AllValid" else 1
        waves = [_wave(rng, n, vals) for _ in range(np_)]
        tgt = rng.choice(vals)
        for w in waves:
            w[-1] = tgt if trig != "AllValid" else 1
        return {"trig": trig, "waves": waves, "target": tgt, "delay": rng.choice([0, 1, 1, 2, 3, None, 7]),
                "start": rng.randint(0, min(6, n)), "n": n, "item": rng.choice(["pin", "dut", "bundle"]),
                # others that wait for the same pin meanwhile
                "more": [[rng.choice([0, 1, 2, 5]), rng.randint(0, min(6, n))] for _ in range(rng.choice([0, 0, 1, 2, 3]))]}

    def check(self, case):
        waves = [_at(w) for w in case["waves"]]
        dut = DUT(waves={f"p{j}": f for j, f in enumerate(waves)})
        res = []
        tgt = case["target"]
        seen = []

        class B(Bundle):
            p0 = Signal()

        items = {}

        async def test():
            toffee.start_clock(dut)
            await toffee.gather(one(case["delay"], case["start"]), *[one(d, n) for d, n in case.get("more", [])])

        async def one(delay, start):
            for _ in range(start):
                await dut.event.wait()
            t0 = dut.cyc
            kw = {} if delay is None else {"delay": delay}
            if case["trig"] == "Value":
                await Value(dut.p0, tgt, **kw)
            elif case["trig"] == "AllValid":
                await AllValid(*[getattr(dut, f"p{j}") for j in range(len(waves))], **kw)
            else:
                with grab():
                    item = items.get("it") or {"pin": lambda: dut.p0, "dut": lambda: dut, "bundle": lambda: B().bind(dut)}[case["item"]]()
                items["it"] = item
                get = {"pin": lambda x: x.value, "dut": lambda x: x.p0.value, "bundle": lambda x: x.p0.value}[case["item"]]

                def cond(x):
                    seen.append((dut.cyc, x is item))
                    return get(x) == tgt

                await Condition(item, cond, **kw)
            res.append((t0, dut.cyc, delay))

        try:
            toffee.run(test)
        except CaseTimeout:
            return "the trigger never returned"
        except Exception as e:
            return f"trigger failed: {errstr(e)}"
        hold = (lambda c: waves[0](c) == tgt) if case["trig"] != "AllValid" else (lambda c: all(w(c) for w in waves))
        if len(res) != 1 + len(case.get("more", [])):
            return "a trigger never returned"
        for t0, t1, d in res:
            t = t0 + (1 if d is None else d)
            while not hold(t):
                t += 1
            if t1 != t:
                return f"called in cycle {t0} with delay {d}, returned in cycle {t1}, expected {t}"
        if not all(ok for _, ok in seen):
            return "the condition got something else than the item"
        return None


class P05(Harness):
    pid = "P05"
    fixed = [{"trig": t, "wave": [0, 1, 1, 0, 2, 3, 0, 0, 1, 0, 1], "start": s} for t in ("Change", "RisingEdge", "FallingEdge") for s in (0, 1, 2, 3, 4, 5)] + [
        {"trig": "RisingEdge", "wave": [1, 2, 3, 0, 3], "start": 0}, {"trig": "FallingEdge", "wave": [0, 0, 2, 1, 0], "start": 0},
        {"trig": "Change", "wave": [3, 3, 2], "start": 0}]

    def gen(self, rng, i):
        vals = rng.choice([[0, 1], [0, 1, 2], [0, 1, 2, 3, 255], [1, 2, 3, 0], [0, 700, 701, 2**33]])
        w = _wave(rng, rng.randint(2, 30), vals)
        w += [0, 1, 0, 1]
        return {"trig": rng.choice(["Change", "RisingEdge", "FallingEdge"]), "wave": w, "start": rng.randint(0, len(w) - 4),
                "more": [[rng.choice(["Change", "RisingEdge", "FallingEdge"]), rng.randint(0, len(w) - 4)] for _ in range(rng.choice([0, 0, 1, 2, 4]))]}

    def check(self, case):
        f = _at(case["wave"])
        dut = DUT(waves={"p": f})
        res = []
        todo = [(case["trig"], case["start"]), *case.get("more", [])]

        async def test():
            toffee.start_clock(dut)
            await toffee.gather(*[one(*x) for x in todo])

        async def one(trig, start):
            for _ in range(start):
                await dut.event.wait()
            t0 = dut.cyc
            await getattr(toffee, trig)(dut.p)
            res.append((trig, t0, dut.cyc))

        try:
            toffee.run(test)
        except CaseTimeout:
            return "the trigger never returned"
        except Exception as e:
            return f"trigger failed: {errstr(e)}"
        if len(res) != len(todo):
            return "a trigger never returned"
        for trig, t0, t1 in res:
            hit = {"Change": lambda t: f(t) != f(t0), "RisingEdge": lambda t: f(t - 1) == 0 and f(t) != 0,
                   "FallingEdge": lambda t: f(t - 1) != 0 and f(t) == 0}[trig]
            t = t0 + 1
            while not hit(t):
                t += 1
            if t1 != t:
                return f"{trig} called in cycle {t0}, returned in cycle {t1}, expected {t} (waveform {case['wave']})"
        return None


class P06(Harness):
    pid = "P06"
    fixed = [{"sigs": 2, "delayers": [[0, 0, 0], [0, 2, 0], [1, 1, 3]], "n": 9, "hooks": [], "late": [], "vals": list(range(60))},
             {"sigs": 1, "delayers": [[0, 2, 0], [0, 0, 1]], "n": 10, "hooks": [1, 2, 5], "late": [3, 4], "vals": list(range(60))}]

    def gen(self, rng, i):
        big = rng.random() < 0.1
        n = rng.randint(40, 90) if big else rng.randint(4, 25)
        sigs = rng.randint(1, 3)
        return {"sigs": sigs, "delayers": [[rng.randrange(sigs), rng.choice([0, 1, 2, 3, rng.randint(0, 40 if big else 8)]), rng.randint(0, 4)] for _ in range(rng.randint(1, 5))],
                "n": n, "hooks": [c for c in range(n) if rng.random() < 0.3] if rng.random() < 0.6 else [],
                "late": [c for c in range(n) if rng.random() < 0.3], "vals": [rng.choice([0, rng.randint(0, 99)]) for _ in range(n * sigs * 2 + 10)]}

    def check(self, case):
        dut = DUT([f"s{j}" for j in range(case["sigs"])] + ["z"])
        n, sigs = case["n"], case["sigs"]
        vals = iter(case["vals"])
        end = []
        got = []

        async def test():
            toffee.start_clock(dut)

            class B(Bundle):
                z = Signal()

            class A(Agent):
                @driver_method()
                async def go(self, c):
                    return None

            class M(Model):
                @driver_hook("ag.go")
                def h(self, c):
                    pass

            class EnvX(Env):
                def __init__(self):
                    super().__init__()
                    self.ag = A(B().bind(dut))

            env = EnvX()
            env.attach(M())
            ds = {}

            async def late(c):
                for _ in range(3):
                    await asyncio.sleep(0)
                dut.s0.value = end_late[c]

            end_late = {}
            for c in range(n):
                cur = {}
                for j in range(sigs):
                    v = next(vals)
                    getattr(dut, f"s{j}").value = v
                    cur[j] = v
                for k, (s, d, born) in enumerate(case["delayers"]):
                    if born == c:
                        ds[k] = Delayer(getattr(dut, f"s{s}"), d)
                if c in case["late"]:
                    end_late[c] = next(vals)
                    cur[0] = end_late[c]
                    toffee.create_task(late(c))
                end.append(cur)
                got.append({k: x.value for k, x in ds.items()})
                if c in case["hooks"]:
                    await env.ag.go(c)
                    got.append(None)
                    got[-1] = {k: x.value for k, x in ds.items()}
                    got[-2] = got[-1] if got[-2] == got[-1] else {"changed within one cycle": (got[-2], got[-1])}
                    got.pop()
                await dut.event.wait()

        try:
            toffee.run(test)
        except Exception as e:
            return f"run failed: {errstr(e)}"
        for c in range(n):
            want = {}
            for k, (s, d, born) in enumerate(case["delayers"]):
                if born <= c:
                    src = c - 1 - d
                    want[k] = end[src][s] if src >= born else None
            if got[c] != want:
                return f"in cycle {c} delayers show {got[c]}, expected {want}"
        return None
