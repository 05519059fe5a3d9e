import asyncio, random
from .base import *
import toffee
from toffee import (Agent, AgentPort, Bundle, DriverPort, Env, Executor, Model, MonitorPort, Signal,
                    agent_hook, driver_hook, driver_method, monitor_hook, monitor_method)

# ---------------------------------------------------------------------------------------
# builders: classes made from JSON descriptions


class _B(Bundle):
    a = Signal()


SIGS = {
    # name -> (parameter list text, parameter names, defaults)
    "c": ("cid", ["cid"], {}),
    "cx": ("cid, x", ["cid", "x"], {}),
    "cxy": ("cid, x, y=7", ["cid", "x", "y"], {"y": 7}),
    "ckw": ("cid, *, k=3, m", ["cid", "k", "m"], {"k": 3}),
    "cxk": ("cid, x=None, *, k=0", ["cid", "x", "k"], {"x": None, "k": 0}),
    "none": ("", [], {}),
}


def gen_call(rng, sig, cid):
    pars, names, dfl = SIGS[sig]
    args, kwargs = [], {}
    kwonly = pars.split("*")[1] if "*" in pars else ""
    positional_ok = True
    for n in names:
        if n == "cid":
            v = cid
        else:
            v = rng.choice([0, 1, None, "s", False, rng.randint(0, 99)])
        kw = (", " + n in kwonly) or (n in kwonly.replace(",", " ").replace("=", " ").split())
        if n in dfl and rng.random() < 0.5:
            positional_ok = False
            continue
        if kw or not positional_ok or rng.random() < 0.35:
            kwargs[n] = v
            positional_ok = False
        else:
            args.append(v)
    return args, kwargs


def full_args(sig, args, kwargs):
    pars, names, dfl = SIGS[sig]
    out = {}
    for j, n in enumerate(names):
        if j < len(args):
            out[n] = args[j]
        elif n in kwargs:
            out[n] = kwargs[n]
        else:
            out[n] = dfl[n]
    return out


def make_driver(name, sig, body):
    """an async method with the given real signature; body(self, all_args dict)"""
    pars, names, _ = SIGS[sig]
    src = f"async def {name}(self{', ' + pars if pars else ''}):\n    return await __body(self, dict({', '.join(f'{n}={n}' for n in names)}))\n"
    ns = {"__body": body}
    exec(src.replace("__body", "_body_"), {"_body_": body}, ns)
    return driver_method()(ns[name])


def make_monitor(name, body):
    ns = {}
    exec(f"async def {name}(self):\n    return await _body_(self)\n", {"_body_": body}, ns)
    return monitor_method()(ns[name])


def make_fn(name, body):
    ns = {}
    exec(f"def {name}(self, *args, **kwargs):\n    return _body_(self, args, kwargs)\n", {"_body_": body}, ns)
    return ns[name]


def make_env(dut, agents, cls_cache=None):
    """agents: {agent_name: AgentClass}"""

    class EnvX(Env):
        def __init__(self):
            super().__init__()
            for n, A in agents.items():
                setattr(self, n, A(_B().bind(dut)))

    return EnvX


def agent_cls(methods):
    return type("AgentX", (Agent,), dict(methods))


# ---------------------------------------------------------------------------------------


def gen_scene(rng, hooks_p=0.7, models=3, zero=True):
    """agents with driver methods, models with driver hooks, agent hooks, ports"""
    agents = {}
    for a in rng.sample(["ag", "bus", "ag2"], rng.randint(1, 2)):
        if agents and rng.random() < 0.35:
            agents[a] = dict(next(iter(agents.values())))
            continue
        agents[a] = {m: rng.choice([s for s in SIGS if zero or s != "none"]) for m in rng.sample(["put", "get", "go", "ag"], rng.randint(1, 3))}
    paths = [f"{a}.{m}" for a in agents for m in agents[a]]
    ms = []
    for _ in range(rng.randint(0, models)):
        hooks = []
        for p in paths:
            if rng.random() < hooks_p:
                hooks.append({"k": "driver", "path": p, "order": rng.choice(["model_first", "dut_first"]), "prio": rng.choice([99, 0, 5, rng.randint(0, 99)])})
        for a in agents:
            if rng.random() < 0.4:
                hooks.append({"k": "agent", "agent": a, "order": rng.choice(["model_first", "dut_first"]), "prio": rng.choice([99, 1, rng.randint(0, 99)])})
        if rng.random() < 0.3:
            hooks.append({"k": "agent", "methods": rng.sample(paths, rng.randint(1, len(paths))), "order": rng.choice(["model_first", "dut_first"]), "prio": 50})
        if rng.random() < 0.2:
            hooks.append({"k": "agent", "agents": rng.sample(sorted(agents), rng.randint(1, len(agents))), "order": "model_first", "prio": 3})
        ports = []
        if rng.random() < 0.3:
            for p in paths:
                if rng.random() < 0.5:
                    ports.append({"k": "driver", "path": p, "max": -1})
            if rng.random() < 0.5:
                ports.append({"k": "agent", "agent": rng.choice(sorted(agents)), "max": -1})
        ms.append({"hooks": hooks, "ports": ports})
    return agents, ms


def hook_matches(h, path):
    a = path.split(".")[0]
    if h["k"] == "driver":
        return h["path"] == path
    return h.get("agent") == a or a in h.get("agents", []) or path in h.get("methods", [])


def build_models(models, onhook):
    """onhook(mi, hi, args, kwargs) -> return value"""
    out = []
    for mi, m in enumerate(models):
        d = {}
        for hi, h in enumerate(m["hooks"]):
            def body(self, args, kwargs, mi=mi, hi=hi):
                return onhook(mi, hi, args, kwargs)
            f = make_fn(f"h{hi:02d}", body)
            if h["k"] == "driver":
                f = driver_hook(h["path"], priority=h["prio"], sche_order=h["order"])(f)
            elif "agent" in h:
                f = agent_hook(h["agent"], priority=h["prio"], sche_order=h["order"])(f)
            else:
                f = agent_hook(agents=h.get("agents", []), methods=h.get("methods", []), priority=h["prio"], sche_order=h["order"])(f)
            d[f"h{hi:02d}"] = f

        def init(self, m=m):
            Model.__init__(self)
            for pi, p in enumerate(m["ports"]):
                if p["k"] == "driver":
                    setattr(self, f"p{pi}", DriverPort(p["path"], maxsize=p["max"]))
                else:
                    setattr(self, f"p{pi}", AgentPort(p["agent"], p["max"]))
        d["__init__"] = init
        out.append(type(f"Model{mi}", (Model,), d))
    return out


class P07(Harness):
    pid = "P07"
    fixed = [
        {"agents": {"ag": {"put": "cxy"}}, "models": [{"hooks": [{"k": "driver", "path": "ag.put", "order": "model_first", "prio": 99}, {"k": "agent", "agent": "ag", "order": "dut_first", "prio": 99}], "ports": [{"k": "driver", "path": "ag.put", "max": -1}]}],
         "rounds": [[["ag.put", 1, [1, 5], {}, "call"], ["ag.put", 0, [2], {"x": 1}, "call"]], [["ag.put", 0, [3, 9, 1], {}, "call"]]]},
        {"agents": {"ag": {"put": "none", "get": "c"}}, "models": [{"hooks": [{"k": "driver", "path": "ag.put", "order": "dut_first", "prio": 9}], "ports": []}], "rounds": [[["ag.put", 2, [], {}, "call"], ["ag.get", 2, [1], {}, "call"]]]},
    ]

    def gen(self, rng, i):
        agents, models = gen_scene(rng)
        paths = [(f"{a}.{m}", s) for a in agents for m, s in agents[a].items()]
        rounds, cid = [], 0
        for _ in range(rng.randint(1, 4)):
            calls = []
            for _ in range(rng.randint(1, 5)):
                p, s = rng.choice(paths)
                cid += 1
                a, k = gen_call(rng, s, cid)
                calls.append([p, rng.randint(0, 3), a, k, rng.choice(["call", "call", "exec"])])
            rounds.append(calls)
        return {"agents": agents, "models": models, "rounds": rounds, "twin": rng.random() < 0.4}

    def check(self, case):
        agents, models = case["agents"], case["models"]
        log, hlog, rets = [], [], []
        dut = DUT(["a"])
        durs = {}
        badset = []
        who = {}

        def onhook(mi, hi, args, kwargs):
            hlog.append((len(log), mi, hi, args, kwargs))
            log.append(("hook", mi, hi, args, kwargs))

        async def test():
            toffee.start_clock(dut)
            A = {}
            for a, ms in agents.items():
                d = {}
                for m, s in ms.items():
                    async def body(self, av, path=f"{a}.{m}", m=m):
                        path = f"{who.get(id(self), path.split('.')[0])}.{m}"
                        key = (path, av.get("cid"))
                        log.append(("start", path, av))
                        q = durs.get(key, [0])
                        n = q.pop(0) if q else 0
                        for _ in range(n):
                            await dut.event.wait()
                        log.append(("end", path, av))
                        return ("r", path, av.get("cid"))
                    d[m] = make_driver(m, s, body)
                # agents with the same methods are of one class
                same = [b for b in A if agents[b] == ms]
                A[a] = A[same[0]] if same else agent_cls(d)
            E = make_env(dut, A)
            env = E()
            other = E() if case.get("twin") else None
            for a in agents:
                who[id(getattr(env, a))] = a
            for M in build_models(models, onhook):
                env.attach(M())
            for calls in case["rounds"]:
                cs = []
                ex = Executor()
                useex = any(c[4] == "exec" for c in calls)
                for j, (p, n, a, k, how) in enumerate(calls):
                    an, m = p.split(".")
                    durs.setdefault((p, full_args(agents[an][m], a, k).get("cid")), []).append(n)
                    co = getattr(getattr(env, an), m)(*a, **k)
                    if useex:
                        ex(co, sche_group=str(j))
                    else:
                        cs.append(co)
                if useex:
                    async with ex:
                        pass
                    r = ex.get_results()
                    got = [r[str(j)] for j in range(len(calls))]
                else:
                    got = await toffee.gather(*cs)
                for (p, n, a, k, how), g in zip(calls, got):
                    an, m = p.split(".")
                    rets.append((g, ("r", p, full_args(agents[an][m], a, k).get("cid"))))
                await dut.event.wait()
                if other is not None:
                    # another environment of the same class, to which no model is attached
                    for k, (an, ms) in enumerate(agents.items()):
                        for m, s in ms.items():
                            a, kw = gen_call(random.Random(k), s, -1)
                            await getattr(getattr(other, an), m)(*a, **kw)
            await dut.event.wait()

        try:
            with grab():
                toffee.run(test)
        except Exception as e:
            return f"run failed: {errstr(e)}"
        for g, w in rets:
            if g != w:
                return f"driver call returned {g!r}, its own result is {w!r}"
        # expected hooks
        allcalls = [(p, a, k) for r in case["rounds"] for p, n, a, k, _ in r]
        exp = []
        for p, a, k in allcalls:
            an, m = p.split(".")
            fa = full_args(agents[an][m], a, k)
            for mi, mod in enumerate(models):
                for hi, h in enumerate(mod["hooks"]):
                    if hook_matches(h, p):
                        if h["k"] == "driver":
                            exp.append((mi, hi, tuple(a), k))
                        else:
                            exp.append((mi, hi, (p, fa), {}))
        norm = lambda x: repr((x[0], x[1], tuple(x[2]) if not (len(x[2]) == 2 and isinstance(x[2][1], dict)) else (x[2][0], sorted(x[2][1].items(), key=str)), sorted(x[3].items())))
        got = sorted(norm((mi, hi, args, kwargs)) for _, mi, hi, args, kwargs in hlog)
        want = sorted(norm(x) for x in exp)
        if got != want:
            miss = [w for w in want if got.count(w) < want.count(w)]
            extra = [g for g in got if got.count(g) > want.count(g)]
            return f"hook calls differ: missing {miss[:3]}, unexpected {extra[:3]}"
        # order relative to the driver's own code, per call with an id
        pos = {}
        for idx, e in enumerate(log):
            if e[0] in ("start", "end") and "cid" in e[2]:
                pos[(e[0], e[2]["cid"])] = idx
        for idx, mi, hi, args, kwargs in hlog:
            h = models[mi]["hooks"][hi]
            if h["k"] == "driver":
                an, m = h["path"].split(".")
                cid = full_args(agents[an][m], list(args), kwargs).get("cid")
            else:
                cid = args[1].get("cid")
            if cid is None:
                continue
            if h["order"] == "model_first" and idx > pos[("start", cid)]:
                return f"hook {h} of call {cid} ran after the driver had started"
            if h["order"] == "dut_first" and idx < pos[("end", cid)]:
                return f"hook {h} of call {cid} ran before the driver had finished"
        return None


VALS = [0, 1, None, "", "a", [], [1], {}, {"a": 1}, False, 3.5, "None"]


class P08(Harness):
    pid = "P08"
    fixed = [{"calls": [[d, 1, [[o, m]]]], "par": False} for d, m in ((1, 1), (1, 2), (0, 0), (1, 0), (None, 0), (None, None), ("", []), (5, None)) for o in ("model_first", "dut_first")] + [
        {"calls": [[1, 1, [["model_first", 1], ["model_first", 2]]]], "par": False},
        {"calls": [[1, 1, [["dut_first", 1], ["dut_first", 2]]]], "par": False},
        {"calls": [[1, 1, [["model_first", None], ["dut_first", 2]]]], "par": False}]

    def gen(self, rng, i):
        calls = []
        for _ in range(rng.randint(1, 4)):
            d = rng.choice(VALS)
            hooks = []
            for _ in range(rng.randint(0, 3) if rng.random() < 0.85 else rng.randint(4, 14)):
                r = rng.random()
                hooks.append([rng.choice(["model_first", "dut_first"]), d if r < 0.6 else (None if r < 0.8 else rng.choice(VALS))])
            calls.append([d, rng.randint(0, 2), hooks])
        return {"calls": calls, "par": rng.random() < 0.4, "kinds": [rng.choice(["driver", "agent"]) for _ in range(16)]}

    def check(self, case):
        dut = DUT(["a"])
        calls = case["calls"]
        kinds = case.get("kinds", ["driver"] * 16)
        nslots = max((len(c[2]) for c in calls), default=0)
        finished = []

        async def test():
            toffee.start_clock(dut)
            methods = {}
            for ci, (d, n, hooks) in enumerate(calls):
                async def body(self, av, d=d, n=n):
                    for _ in range(n):
                        await dut.event.wait()
                    return d
                methods[f"m{ci}"] = make_driver(f"m{ci}", "c", body)
            A = agent_cls(methods)
            env = make_env(dut, {"ag": A})()
            for s in range(nslots):
                d = {}
                for ci, (dv, n, hooks) in enumerate(calls):
                    if s < len(hooks):
                        order, val = hooks[s]
                        f = make_fn(f"h{ci}", lambda self, a, k, val=val: val)
                        if kinds[s] == "driver":
                            f = driver_hook(f"ag.m{ci}", sche_order=order)(f)
                        else:
                            f = agent_hook(methods=[f"ag.m{ci}"], sche_order=order)(f)
                        d[f"h{ci}"] = f
                env.attach(type("M", (Model,), d)())
            cs = [getattr(env.ag, f"m{ci}")(ci) for ci in range(len(calls))]
            if case["par"]:
                await toffee.gather(*cs)
            else:
                for j, c in enumerate(cs):
                    await c
            for _ in range(3):
                await dut.event.wait()
            finished.append(1)

        expect = None
        for ci, (d, n, hooks) in enumerate(calls):
            for o, v in hooks:
                if v is not None and not (d == v):
                    expect = (ci, d, v)
        failed = None
        try:
            with grab():
                toffee.run(test)
        except Exception as e:
            failed = errstr(e)
        if expect and not failed:
            return f"device returned {expect[1]!r}, a model hook {expect[2]!r}, and the test passed"
        if failed and not expect:
            return f"no result differs, but the test failed: {failed}"
        return None


class P09(Harness):
    pid = "P09"
    fixed = [
        {"mode": "first", "calls": [[0, [[5, "model_first"]], None, None], [1, [[3, "model_first"], [5, "model_first"]], None, None], [2, [[5, "model_first"]], 2, None]]},
        {"mode": "seq", "hooks": [[40, "dut_first"], [60, "dut_first"]], "calls": [[[0, 70, None], [1, None, None]], [[0, None, None], [1, None, None]], [[0, None, "model_first"], [1, 10, None]]]},
        {"mode": "flight", "prio": 7, "hp": [50, 60], "dur": 3, "o": "dut_first"},
    ]

    def gen(self, rng, i):
        r = rng.random()
        pr = lambda: rng.choice([0, 1, 5, 5, 50, 98, 99, rng.randint(0, 99)])
        if r < 0.45:
            n = rng.randint(2, 7)
            calls = []
            for j in range(n):
                calls.append([j, [[pr(), "model_first"] for _ in range(rng.randint(1, 3))], rng.choice([None, None, pr()]), rng.choice([None, None, None, "parallel", "model_first"])])
            # further calls of the same drivers, with options of their own
            again = [[rng.randrange(n), rng.choice([None, pr()]), rng.choice([None, "parallel", "model_first"])] for _ in range(rng.choice([0, 0, 1, 3]))]
            return {"mode": "first", "calls": calls, "again": again}
        if r < 0.8:
            n = rng.randint(1, 4)
            return {"mode": "seq", "hooks": [[pr(), rng.choice(["dut_first", "model_first"])] for _ in range(n)],
                    "calls": [[[j, rng.choice([None, pr()]), rng.choice([None, None, "model_first", "dut_first"])] for j in rng.sample(range(n), rng.randint(1, n))] for _ in range(rng.randint(1, 4))]}
        return {"mode": "flight", "prio": pr(), "hp": [pr(), pr()], "dur": rng.randint(1, 4), "o": rng.choice(["dut_first", "model_first"])}

    def check(self, case):
        dut = DUT(["a"])
        log = []
        mode = case["mode"]
        want = []

        def drv(n, dur):
            async def body(self, av):
                log.append(("start", n, dut.cyc))
                for _ in range(dur):
                    await dut.event.wait()
                log.append(("end", n, dut.cyc))
                return n
            return body

        async def first():
            toffee.start_clock(dut)
            calls = case["calls"]
            A = agent_cls({f"m{j}": make_driver(f"m{j}", "c", drv(j, 1)) for j, *_ in calls})
            env = make_env(dut, {"ag": A})()
            for s in range(max(len(c[1]) for c in calls)):
                d = {}
                for j, hooks, p, o in calls:
                    if s < len(hooks):
                        d[f"h{j}"] = driver_hook(f"ag.m{j}", priority=hooks[s][0], sche_order=hooks[s][1])(make_fn(f"h{j}", lambda self, a, k, j=j, s=s: log.append(("hook", a[0], s))))
                env.attach(type("M", (Model,), d)())
            made = [[c, *call] for c, call in enumerate(calls)]
            made += [[len(calls) + c, j, calls[j][1], p, o] for c, (j, p, o) in enumerate(case.get("again", []))]
            async with Executor() as ex:
                for c, j, hooks, p, o in made:
                    kw = {}
                    if p is not None:
                        kw["priority"] = p
                    if o is not None:
                        kw["sche_order"] = o
                    if c >= len(calls):
                        kw["sche_group"] = f"again{c}"
                    ex(getattr(env.ag, f"m{j}")(c), **kw)
            await dut.event.wait()
            w = []
            for c, j, hooks, p, o in made:
                for s, (hp, ho) in enumerate(hooks):
                    w.append((hp if p is None else p, c, s))
            want.extend(sorted(w, key=lambda x: (x[0], x[1])))

        async def seq():
            toffee.start_clock(dut)
            hooks = case["hooks"]
            A = agent_cls({f"m{j}": make_driver(f"m{j}", "c", drv(j, 1)) for j in range(len(hooks))})
            env = make_env(dut, {"ag": A})()
            d = {f"h{j}": driver_hook(f"ag.m{j}", priority=p, sche_order=o)(make_fn(f"h{j}", lambda self, a, k, j=j: log.append(("hook", j, dut.cyc)))) for j, (p, o) in enumerate(hooks)}
            env.attach(type("M", (Model,), d)())
            for rnd in case["calls"]:
                log.append(("round", dut.cyc))
                plain = all(p is None and o is None for _, p, o in rnd)
                if plain:
                    await toffee.gather(*[getattr(env.ag, f"m{j}")(j) for j, _, _ in rnd])
                else:
                    async with Executor() as ex:
                        for j, p, o in rnd:
                            kw = {}
                            if p is not None:
                                kw["priority"] = p
                            if o is not None:
                                kw["sche_order"] = o
                            ex(getattr(env.ag, f"m{j}")(j), **kw)
                await dut.event.wait()

        async def flight():
            # a call with its own options is still in flight when another call of the same
            # driver without options is made; neither may see the other's options
            toffee.start_clock(dut)
            durs = [case["dur"], 0]

            async def body(self, av):
                for _ in range(durs[0] if av["cid"] == 0 else (case["dur"] if av["cid"] == 1 else case["dur"] - 1)):
                    await dut.event.wait()
                return None

            async def other(self, av):
                for _ in range(case["dur"]):
                    await dut.event.wait()

            A = agent_cls({"m": make_driver("m", "c", body), "n": make_driver("n", "c", other)})
            env = make_env(dut, {"ag": A})()
            d = {"h": driver_hook("ag.m", priority=case["hp"][0], sche_order="dut_first")(make_fn("h", lambda self, a, k: log.append(("m", a[0], dut.cyc)))),
                 "g": driver_hook("ag.n", priority=case["hp"][1], sche_order="dut_first")(make_fn("g", lambda self, a, k: log.append(("n", a[0], dut.cyc))))}
            env.attach(type("M", (Model,), d)())

            async def one():
                async with Executor() as ex:
                    ex(env.ag.m(0), priority=case["prio"])

            async def two():
                for _ in range(case.get("gap", 1)):
                    await dut.event.wait()
                await env.ag.m(2)

            async def three():
                await env.ag.n(3)

            await toffee.gather(one(), two(), three())
            await dut.event.wait()
            c = case["dur"]
            w = sorted([(case["prio"], 0, "m", 0), (case["hp"][0], 1, "m", 2), (case["hp"][1], 2, "n", 3)])
            # all three finish in the same cycle; ties follow completion, which is not fixed here
            want.extend(w)

        try:
            with grab():
                toffee.run({"first": first, "seq": seq, "flight": flight}[mode])
        except Exception as e:
            return f"run failed: {errstr(e)}"
        if mode == "first":
            got = [(x[1], x[2]) for x in log if x[0] == "hook"]
            if sorted(got) != sorted((j, s) for _, j, s in want):
                return f"hooks run: {got}, expected {want}"
            if [g[0] for g in got] != [w[1] for w in want]:
                return f"hooks ran in order {got}, expected {[(w[1], w[2]) for w in want]} (priority, call, hook: {want})"
            return None
        if mode == "seq":
            rounds, cur = [], None
            for x in log:
                if x[0] == "round":
                    cur = []
                    rounds.append(cur)
                else:
                    cur.append(x)
            for rnd, evs in zip(case["calls"], rounds):
                eff = {}
                for j, p, o in rnd:
                    eff[j] = (case["hooks"][j][0] if p is None else p, case["hooks"][j][1] if o is None else o)
                hs = [x[1] for x in evs if x[0] == "hook"]
                if sorted(hs) != sorted(eff):
                    return f"round {rnd}: hooks ran {hs}"
                idx = {("hook", x[1]): i for i, x in enumerate(evs) if x[0] == "hook"}
                for x, i in [((e[0], e[1]), i) for i, e in enumerate(evs)]:
                    idx[x] = i
                for j, (p, o) in eff.items():
                    if o == "model_first" and idx[("hook", j)] > idx[("start", j)]:
                        return f"round {rnd}: hook of call {j} must run before the driver (order {o})"
                    if o == "dut_first" and idx[("hook", j)] < idx[("end", j)]:
                        return f"round {rnd}: hook of call {j} must run after the driver (order {o})"
                for order in ("model_first", "dut_first"):
                    sel = [j for j in hs if eff[j][1] == order]
                    # those of dut_first become due together only if all started together
                    if order == "dut_first" and any(o == "model_first" for _, o in eff.values()):
                        pass
                    ps = [eff[j][0] for j in sel]
                    if ps != sorted(ps):
                        return f"round {rnd}: hooks {sel} ran with priorities {ps}"
                    if len({o for _, o in eff.values()}) == 1:
                        callorder = [j for j, _, _ in rnd]
                        ties = sorted(sel, key=lambda j: (eff[j][0], callorder.index(j)))
                        if sel != ties:
                            return f"round {rnd}: hooks ran {sel}, expected {ties}"
            return None
        got = [(x[0], x[1]) for x in log]
        cyc = {x[2] for x in log}
        if len(got) != 3 or len(cyc) != 1:
            return f"hooks ran {log}"
        key = {("m", 0): case["prio"], ("m", 2): case["hp"][0], ("n", 3): case["hp"][1]}
        ps = [key[g] for g in got]
        if ps != sorted(ps):
            return f"hooks ran {got} with priorities {ps}"
        return None


class P10(Harness):
    pid = "P10"
    fixed = [{"kind": "port", "cls": c, "max": m, "ops": [["put", 0], ["put", None], ["get"], ["put", 2], ["put", 3], ["put", 4], ["get"], ["get"], ["get"]]} for c in ("driver", "agent", "monitor") for m in (1, 2, 3, -1)]

    def burst(self, case):
        """several readers wait while values are put one after the other"""
        cls = {"driver": DriverPort, "agent": AgentPort, "monitor": MonitorPort}[case["cls"]]
        got, bad, n = [], [], [0]

        async def test():
            p = cls("x", maxsize=case["max"])

            async def reader():
                got.append(await p.get())

            want = []
            for readers, puts in case["rounds"]:
                ts = [asyncio.ensure_future(reader()) for _ in range(readers)]
                for _ in range(4 + readers):
                    await asyncio.sleep(0)
                for _ in range(puts):
                    n[0] += 1
                    before = p.qsize()
                    await p.put(n[0])
                    if p.qsize() > case["max"] != -1:
                        bad.append(f"port of capacity {case['max']} holds {p.qsize()} values, expected at most {case['max']}")
                    if p.qsize() > before:
                        want.append(n[0])
                for _ in range(4 + 2 * readers + 2 * puts):
                    await asyncio.sleep(0)
                while p.qsize():
                    got.append(await p.get())
                if got != want and not bad:
                    bad.append(f"read {got}, expected {want}")
                for t in ts:
                    t.cancel()
                for _ in range(4):
                    await asyncio.sleep(0)

        try:
            with grab() as g:
                asyncio.run(toffee.asynchronous.main_coro(test))
        except Exception as e:
            return f"port failed: {errstr(e)}"
        if not bad and len(g.records) != n[0] - len(got):
            bad.append(f"{n[0] - len(got)} values dropped, {len(g.records)} reported")
        return f"{bad[0]}  [{case}]" if bad else None

    def gen(self, rng, i):
        if rng.random() < 0.06:
            return {"kind": "burst", "cls": rng.choice(["driver", "agent", "monitor"]), "max": rng.choice([1, 2, 3, 4, -1, 8]),
                    "rounds": [[rng.randint(0, 5), rng.randint(0, 9)] for _ in range(rng.randint(1, 4))]}
        if rng.random() < 0.4:
            ops = [rng.choice([["put", rng.choice([0, None, False, rng.randint(0, 99), "s", [1]])], ["put", rng.randint(0, 9)], ["get"]]) for _ in range(rng.randint(1, 40))]
            return {"kind": "port", "cls": rng.choice(["driver", "agent", "monitor"]), "max": rng.choice([1, 2, 4, -1, rng.randint(1, 12), None]), "ops": ops}
        agents, models = gen_scene(rng, hooks_p=0.2, models=1)
        if not models:
            models = [{"hooks": [], "ports": []}]
        paths = [(f"{a}.{m}", s) for a in agents for m, s in agents[a].items()]
        ports = []
        for p, _ in paths:
            if rng.random() < 0.6:
                ports.append({"k": "driver", "path": p, "max": rng.choice([-1, 1, 2, 4])})
        for a in agents:
            if rng.random() < 0.5:
                ports.append({"k": "agent", "agent": a, "max": rng.choice([-1, 1, 3])})
        models[0]["ports"] = ports
        calls, cid = [], 0
        for _ in range(rng.randint(1, 10) if rng.random() < 0.85 else rng.randint(30, 120)):
            p, s = rng.choice(paths)
            cid += 1
            calls.append([p, *gen_call(rng, s, cid), rng.randint(0, 2), rng.random() < 0.3])
        how = [[rng.choice([None, 0, 7, 99]), rng.choice([None, "dut_first", "model_first", "parallel"])] for _ in range(rng.randint(1, 4))] if rng.random() < 0.25 else []
        return {"kind": "scene", "agents": agents, "models": models, "calls": calls, "how": how}

    def check(self, case):
        if case["kind"] == "burst":
            return self.burst(case)
        if case["kind"] == "port":
            got, want = [], []
            nerr = []

            async def test():
                cls = {"driver": DriverPort, "agent": AgentPort, "monitor": MonitorPort}[case["cls"]]
                p = cls("x") if case["max"] is None else cls("x", maxsize=case["max"])
                cap = 4 if case["max"] is None else case["max"]
                model = []
                drops = 0
                for op in case["ops"]:
                    if op[0] == "put":
                        await p.put(op[1])
                        if cap == -1 or len(model) < cap:
                            model.append(op[1])
                        else:
                            drops += 1
                        if p.qsize() != len(model):
                            got.append(("size", p.qsize()))
                            want.append(("size", len(model)))
                    elif model:
                        got.append(await (p() if len(model) % 2 else p.get()))
                        want.append(model.pop(0))
                while model:
                    got.append(await p.get())
                    want.append(model.pop(0))
                nerr.append(drops)

            try:
                with grab() as g:
                    asyncio.run(toffee.asynchronous.main_coro(test))
            except Exception as e:
                return f"port failed: {errstr(e)}"
            if repr(got) != repr(want):
                return f"read {got}, expected {want}"
            if len(g.records) != nerr[0]:
                return f"{nerr[0]} values dropped, {len(g.records)} reported"
            return None
        agents, models = case["agents"], case["models"]
        dut = DUT(["a"])
        out = {}
        drained = {}

        async def test():
            toffee.start_clock(dut)
            A = {}
            for a, ms in agents.items():
                d = {}
                for m, s in ms.items():
                    async def body(self, av):
                        return None
                    d[m] = make_driver(m, s, body)
                A[a] = agent_cls(d)
            env = make_env(dut, A)()
            M = build_models(models, lambda *a: None)[0]
            model = M()
            env.attach(model)
            sim = {pi: [] for pi in range(len(models[0]["ports"]))}
            for p, a, k, w, drain in case["calls"]:
                an, m = p.split(".")
                if case.get("how"):
                    # called through an executor, with an order and a priority of its own
                    prio, order = case["how"][sum(map(len, out.values())) % len(case["how"])]
                    async with Executor() as ex:
                        ex(getattr(getattr(env, an), m)(*a, **k), priority=prio, sche_order=order)
                else:
                    await getattr(getattr(env, an), m)(*a, **k)
                fa = full_args(agents[an][m], a, k)
                for pi, pt in enumerate(models[0]["ports"]):
                    if pt["k"] == "driver" and pt["path"] == p:
                        v = next(iter(fa.values())) if len(fa) == 1 else fa
                    elif pt["k"] == "agent" and pt["agent"] == an:
                        v = (p, fa)
                    else:
                        continue
                    if pt["max"] == -1 or len(sim[pi]) < pt["max"]:
                        sim[pi].append(v)
                if drain and sim:
                    pi = sorted(sim)[0]
                    if sim[pi]:
                        out.setdefault(pi, []).append((await getattr(model, f"p{pi}")(), sim[pi].pop(0)))
                for _ in range(w):
                    await dut.event.wait()
            for pi, vs in sim.items():
                port = getattr(model, f"p{pi}")
                if port.qsize() != len(vs):
                    out.setdefault(pi, []).append((f"{port.qsize()} values", f"{len(vs)} values"))
                while vs:
                    out.setdefault(pi, []).append((await port.get(), vs.pop(0)))

        try:
            with grab():
                toffee.run(test)
        except Exception as e:
            return f"run failed: {errstr(e)}"
        for pi, xs in out.items():
            for g, w in xs:
                if isinstance(w, tuple):
                    g, w = (g[0], dict(g[1])), (w[0], dict(w[1]))
                elif isinstance(w, dict):
                    g = dict(g) if hasattr(g, "items") else g
                if repr(g) != repr(w):
                    return f"port {models[0]['ports'][pi]} delivered {g!r}, expected {w!r}"
        return None


class P11(Harness):
    pid = "P11"
    fixed = [{"vals": [None, 1, 0, False, "", 5, None, 6, 7, 8, 9], "size": 4, "enable": 0, "reads": [], "models": [["hook", "port", "ahook", "aport"]], "n": 14, "env": True},
             {"vals": [1, 2, 3, 4, 5, 6], "size": 2, "enable": 0, "reads": [4, 5], "models": [], "n": 10, "env": False},
             {"vals": [1, 2, 3, 4, 5, 6], "size": 2, "enable": None, "reads": [], "models": [["hook"], ["ahook"]], "n": 10, "env": True}]

    def gen(self, rng, i):
        if rng.random() < 0.35:
            # several agents of one class (and of two envs of one class), several monitors each
            n = rng.randint(3, 12)
            ags = [[e, a] for e in range(rng.randint(1, 2)) for a in ("ag", "bus", "ag2")[: rng.randint(1, 3)]]
            mons = ["mon", "obs", "mon2"][: rng.randint(1, 3)]
            return {"kind": "many", "n": n, "mons": mons, "agents": ags,
                    "vals": [[[rng.choice([None, 0, 7, 7, False, "s", rng.randint(0, 99)]) for _ in range(n)] for _ in mons] for _ in ags],
                    "size": [[rng.choice([None, None, 1, 2, 4, rng.randint(1, 12)]) for _ in mons] for _ in ags],
                    "reads": [[c, rng.randrange(len(ags)), rng.randrange(len(mons))] for c in range(n) for _ in range(rng.randint(0, 2))],
                    "hooks": [[rng.randrange(len(ags)), rng.randrange(len(mons))] for _ in range(rng.randint(0, 4))]}
        n = rng.randint(3, 20) if rng.random() < 0.9 else rng.randint(40, 90)
        return {"vals": [rng.choice([None, None, 0, 1, False, "", "x", rng.randint(0, 99)]) for _ in range(n)],
                "size": rng.choice([1, 2, 4, rng.randint(1, 10), None]), "enable": rng.choice([None, 0, 0, 0, 3]),
                "reads": sorted(rng.sample(range(n), rng.randint(0, min(4, n)))), "n": n + 3, "env": rng.random() < 0.85,
                "models": [sorted(rng.sample(["hook", "port", "ahook", "aport", "mhook", "mport"], rng.randint(0, 6))) for _ in range(rng.randint(0, 3))]}

    def check_many(self, case):
        dut = DUT(["a"])
        mons, ags, n = case["mons"], case["agents"], case["n"]
        bad, hooked = [], {}

        async def test():
            toffee.start_clock(dut)
            where = {}
            d = {}
            for mj, m in enumerate(mons):
                async def body(self, mj=mj):
                    c = dut.cyc - 1
                    return case["vals"][where[id(self)]][mj][c] if 0 <= c < n else None
                d[m] = make_monitor(m, body)
            A = agent_cls(d)
            Es = {}
            for e, a in ags:
                Es.setdefault(e, {})[a] = A
            envs = {e: make_env(dut, x)() for e, x in Es.items()}
            objs = [getattr(envs[e], a) for e, a in ags]
            where.update({id(o): j for j, o in enumerate(objs)})
            for hi, (aj, mj) in enumerate(case["hooks"]):
                e, a = ags[aj]
                f = monitor_hook(f"{a}.{mons[mj]}")(make_fn("h", lambda self, x, k, hi=hi: hooked.setdefault(hi, []).append(x)))
                envs[e].attach(type("M", (Model,), {"h": f})())
            sim = {}
            for aj, o in enumerate(objs):
                for mj, m in enumerate(mons):
                    sz = case["size"][aj][mj]
                    if sz is not None:
                        o.start_monitor(m, sz)
                        sim[aj, mj] = []
            for c in range(n):
                await dut.event.wait()
                for _ in range(8):
                    await asyncio.sleep(0)
                for (aj, mj), q in sim.items():
                    v, cap = case["vals"][aj][mj][c], case["size"][aj][mj]
                    if v is not None and (cap == -1 or len(q) < cap):
                        q.append(v)
                for rc, aj, mj in case["reads"]:
                    if rc == c and sim.get((aj, mj)):
                        g, w = await getattr(objs[aj], mons[mj])(), sim[aj, mj].pop(0)
                        if repr(g) != repr(w):
                            bad.append(f"read {g!r} from monitor {mons[mj]} of agent {aj} in cycle {c + 1}, expected {w!r}")
                for (aj, mj), q in sim.items():
                    if objs[aj].monitor_size(mons[mj]) != len(q):
                        bad.append(f"after cycle {c + 1} monitor {mons[mj]} of agent {aj} holds {objs[aj].monitor_size(mons[mj])} values, expected {len(q)}")
                if bad:
                    return
            for (aj, mj), q in sim.items():
                while q:
                    g, w = await getattr(objs[aj], mons[mj])(), q.pop(0)
                    if repr(g) != repr(w):
                        bad.append(f"read {g!r} from monitor {mons[mj]} of agent {aj} at the end, expected {w!r}")

        try:
            with grab():
                toffee.run(test)
        except Exception as e:
            return f"run failed: {errstr(e)}"
        for hi, (aj, mj) in enumerate(case["hooks"]):
            w = [(v,) for v in case["vals"][aj][mj] if v is not None]
            if not bad and repr(hooked.get(hi, [])) != repr(w):
                bad.append(f"hook {hi} on monitor {mons[mj]} of agent {aj} got {hooked.get(hi, [])}, expected {w}")
        return f"{bad[0]}  [{case}]" if bad else None

    def check(self, case):
        if case.get("kind") == "many":
            return self.check_many(case)
        dut = DUT(["a"])
        got, want, reads = {}, {}, []
        evals, drops = [], [0]
        models = case["models"] if case["env"] else []
        sizes = []

        async def test():
            toffee.start_clock(dut)
            vals = case["vals"]

            async def body(self):
                evals.append(dut.cyc)
                c = dut.cyc - 1
                return vals[c] if 0 <= c < len(vals) else None

            A = agent_cls({"mon": make_monitor("mon", body)})
            if case["env"]:
                env = make_env(dut, {"ag": A})()
                ag = env.ag
            else:
                ag = A(_B().bind(dut))
            mods = []
            for mi, kinds in enumerate(models):
                d = {}
                def rec(key):
                    return lambda self, a, k: got.setdefault(key, []).append((dut.cyc, a))
                if "hook" in kinds:
                    d["h1"] = monitor_hook("ag.mon")(make_fn("h1", rec((mi, "hook"))))
                if "ahook" in kinds:
                    d["h2"] = agent_hook("ag")(make_fn("h2", rec((mi, "ahook"))))
                if "mhook" in kinds:
                    d["h3"] = agent_hook(methods=["ag.mon"], priority=5)(make_fn("h3", rec((mi, "mhook"))))

                def init(self, kinds=kinds):
                    Model.__init__(self)
                    if "port" in kinds:
                        self.p1 = MonitorPort("ag.mon", maxsize=-1)
                    if "aport" in kinds:
                        self.p2 = AgentPort("ag", -1)
                    if "mport" in kinds:
                        self.p3 = AgentPort(methods=["ag.mon"], maxsize=3)
                d["__init__"] = init
                m = type("M", (Model,), d)()
                env.attach(m)
                mods.append((kinds, m))
            q = []
            cap = case["size"] if case["size"] is not None else 4
            enabled = False
            for c in range(case["n"]):
                if case["enable"] == c:
                    if case["size"] is None:
                        ag.start_monitor("mon")
                    else:
                        ag.start_monitor("mon", case["size"])
                    enabled = True
                if enabled and c in case["reads"] and q:
                    reads.append((await ag.mon(), q.pop(0)))
                await dut.event.wait()
                # main and the monitor wait for the same event: let the monitor's turn pass
                for _ in range(6):
                    await asyncio.sleep(0)
                v = vals[c] if c < len(vals) else None
                if v is not None and enabled:
                    if len(q) < cap:
                        q.append(v)
                    else:
                        drops[0] += 1
                sizes.append((ag.monitor_size("mon"), len(q)))
            for kinds, m in mods:
                mi = [x for _, x in mods].index(m)
                for k, a in (("port", "p1"), ("aport", "p2"), ("mport", "p3")):
                    if k in kinds:
                        p = getattr(m, a)
                        while p.qsize():
                            got.setdefault((mi, k), []).append((None, await p.get()))

        try:
            with grab() as g:
                toffee.run(test)
        except Exception as e:
            return f"run failed: {errstr(e)}"
        vals = case["vals"]
        prod = [(c + 1, v) for c, v in enumerate(vals) if v is not None]
        n = case["n"]
        drops = drops[0] + sum(max(0, len(prod) - 3) for kinds in models if "mport" in kinds)
        if len(g.records) != drops:
            return f"{drops} values dropped, {len(g.records)} reported"
        if [c for c in evals if 1 <= c < n] != list(range(1, n)):
            return f"monitor evaluated in cycles {evals}"
        for mi, kinds in enumerate(models):
            for k in kinds:
                g = got.get((mi, k), [])
                w = {"hook": [(c, (v,)) for c, v in prod], "ahook": [(c, ("ag.mon", v)) for c, v in prod], "mhook": [(c, ("ag.mon", v)) for c, v in prod],
                     "port": [(None, v) for c, v in prod], "aport": [(None, ("ag.mon", v)) for c, v in prod], "mport": [(None, ("ag.mon", v)) for c, v in prod][:3]}[k]
                if repr(g) != repr(w):
                    return f"consumer {k} of model {mi} got {g}, expected {w}"
        for g, w in reads:
            if repr(g) != repr(w):
                return f"read {g!r} from the monitor, expected {w!r}"
        for c, (g, w) in enumerate(sizes):
            if g != w:
                return f"monitor queue holds {g} values after cycle {c + 1}, expected {w}"
        return None
