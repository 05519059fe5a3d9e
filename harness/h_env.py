import asyncio
from .base import *
from .h_agent import *
from .h_agent import _B

NAMES = ["ag", "bus", "ag2", "x"]
METHS = ["put", "get", "ag", "mon"]


def gen_env(rng):
    env = {}
    if rng.random() < 0.1:  # many agents with many methods
        for a in rng.sample(NAMES + [f"a{j}" for j in range(12)], rng.randint(4, 14)):
            ms = rng.sample([f"m{j}" for j in range(12)] + ["put", "mon"], rng.randint(0, 9))
            k = rng.randint(0, len(ms))
            env[a] = {"d": ms[:k], "m": ms[k:][:2]}
        return env
    for a in rng.sample(NAMES, rng.randint(1, 3)):
        if env and rng.random() < 0.3:  # alike, so of the same class
            env[a] = dict(next(iter(env.values())))
            continue
        env[a] = {"d": rng.sample(["put", "get", "go", "ag"], rng.randint(0, 3)), "m": rng.sample(["mon", "obs", "ag_m"], rng.randint(0, 2))}
    return env


def gen_items(rng, env, valid):
    """hooks and ports in every naming form; if not valid, some name nothing"""
    def agent():
        return rng.choice(sorted(env)) if valid or rng.random() < 0.8 else rng.choice(NAMES + ["zz", "attached_models", "attach"])

    def path(kind):
        for _ in range(20):
            a = agent()
            ms = env.get(a, {}).get(kind, [])
            if not valid and rng.random() < 0.15:
                return a, rng.choice(["put", "mon", "qq"])
            if ms:
                return a, rng.choice(ms)
        return None

    items, used = [], {"d": set(), "m": set(), "dp": set(), "mp": set()}
    for _ in range(rng.randint(0, 6) if len(env) < 4 and rng.random() < 0.93 else rng.randint(7, 40)):
        t = rng.choice(["dh", "mh", "dp", "mp", "ah", "ap"])
        if t in ("dh", "mh", "dp", "mp"):
            kind = "d" if t[0] == "d" else "m"
            p = path(kind)
            ukey = {"dh": "d", "mh": "m", "dp": "dp", "mp": "mp"}[t]
            if p is None or p in used[ukey]:
                continue
            used[ukey].add(p)
            items.append({"t": t, "a": p[0], "m": p[1], "form": rng.choice(["path", "names", "agent", "name"])})
        else:
            form = rng.choice(["agent", "name", "agents", "methods", "both"])
            it = {"t": t, "form": form}
            if form in ("agent", "name"):
                it["a"] = agent()
            else:
                if form in ("agents", "both"):
                    it["agents"] = sorted({agent() for _ in range(rng.randint(1, 2))})
                if form in ("methods", "both"):
                    ps = {path(rng.choice("dm")) for _ in range(rng.randint(1, 3))} - {None}
                    if not ps:
                        continue
                    it["methods"] = sorted(f"{a}.{m}" for a, m in ps)
                    if rng.random() < 0.2:  # one listed twice
                        it["methods"].append(rng.choice(it["methods"]))
            items.append(it)
    # function / attribute names must be distinct
    seen, out = set(), []
    for j, it in enumerate(items):
        n = item_name(it, j)
        if n in seen:
            continue
        seen.add(n)
        out.append(it)
    return out


def item_name(it, j):
    if it["t"] in ("dh", "mh", "dp", "mp"):
        if it["form"] == "name":
            return f"{it['a']}__{it['m']}"
        if it["form"] == "agent":
            return it["m"]
        return f"it{j}"
    if it["form"] == "name":
        return it["a"]
    return f"it{j}"


def build_model_cls(items, onhook, name="M"):
    """onhook(model, j, args, kwargs)"""
    d, ports, decos = {}, [], {}

    def made(deco, *a, **k):
        """the decorator; in some classes the same one for all functions that are decorated alike"""
        key = repr((deco.__name__, a, k))
        if key not in decos or len(items) % 2:
            decos[key] = deco(*a, **k)
        return decos[key]

    for j, it in enumerate(items):
        n = item_name(it, j)
        t, form = it["t"], it["form"]
        fn = make_fn(n, lambda self, a, k, j=j: onhook(self, j, a, k))
        if t in ("dh", "mh"):
            deco, key = (driver_hook, "driver_name") if t == "dh" else (monitor_hook, "monitor_name")
            if form == "path":
                d[n] = made(deco, f"{it['a']}.{it['m']}")(fn)
            elif form == "names":
                d[n] = made(deco, agent_name=it["a"], **{key: it["m"]})(fn)
            elif form == "agent":
                d[n] = made(deco, agent_name=it["a"])(fn)
            else:
                d[n] = made(deco)(fn)
        elif t == "ah":
            if form == "agent":
                d[n] = made(agent_hook, it["a"])(fn)
            elif form == "name":
                d[n] = made(agent_hook)(fn)
            else:
                d[n] = made(agent_hook, **{k: it[k] for k in ("agents", "methods") if k in it})(fn)
        else:
            ports.append((j, n, it))

    def init(self):
        Model.__init__(self)
        for j, n, it in ports:
            t, form = it["t"], it["form"]
            if t in ("dp", "mp"):
                cls, key = (DriverPort, "driver_name") if t == "dp" else (MonitorPort, "monitor_name")
                p = {"path": lambda: cls(f"{it['a']}.{it['m']}", maxsize=-1),
                     "names": lambda: cls(agent_name=it["a"], **{key: it["m"]}, maxsize=-1),
                     "agent": lambda: cls(agent_name=it["a"], maxsize=-1), "name": lambda: cls(maxsize=-1)}[form]()
            elif form == "agent":
                p = AgentPort(it["a"], -1)
            elif form == "name":
                p = AgentPort(maxsize=-1)
            else:
                p = AgentPort(maxsize=-1, **{k: it[k] for k in ("agents", "methods") if k in it})
            setattr(self, n, p)

    d["__init__"] = init
    cls = type(name, (Model,), d)
    cls._ports = ports
    return cls


def item_matches(it, a, m, kind):
    if it["t"] in ("dh", "dp"):
        return kind == "d" and (it["a"], it["m"]) == (a, m)
    if it["t"] in ("mh", "mp"):
        return kind == "m" and (it["a"], it["m"]) == (a, m)
    if it["form"] in ("agent", "name"):
        return it["a"] == a
    return a in it.get("agents", []) or f"{a}.{m}" in it.get("methods", [])


def acceptable(items, env):
    for it in items:
        if it["t"] in ("dh", "dp", "mh", "mp"):
            if it["m"] not in env.get(it["a"], {}).get(it["t"][0], []):
                return False
        else:
            names = ([it["a"]] if "a" in it else []) + it.get("agents", [])
            if any(n not in env for n in names):
                return False
            for p in it.get("methods", []):
                a, m = p.split(".")
                if a not in env or m not in env[a]["d"] + env[a]["m"]:
                    return False
            if it["t"] == "ap":
                # a port must match at least one method
                if not any(item_matches(it, a, m, k) for a in env for k in "dm" for m in env[a][k]):
                    return False
    return True


def build_env_cls(envd, dut, monvals):
    A, same = {}, {}
    for a, e in envd.items():
        if not e["m"] and repr(e) in same:  # a class of its own is only needed to tell the monitors apart
            A[a] = same[repr(e)]
            continue
        d = {}
        for m in e["d"]:
            async def body(self, av):
                return None
            d[m] = make_driver(m, "cx", body)
        for m in e["m"]:
            async def mbody(self, key=f"{a}.{m}"):
                return monvals.pop(key, None)
            d[m] = make_monitor(m, mbody)
        A[a] = same[repr(e)] = agent_cls(d)
    return make_env(dut, A)


class P12(Harness):
    pid = "P12"
    fixed = [{"env": {"ag": {"d": ["put"], "m": ["mon"]}, "bus": {"d": ["put"], "m": []}}, "items": items} for items in (
        [], [{"t": "dh", "a": "ag", "m": "put", "form": "name"}], [{"t": "dh", "a": "ag", "m": "nope", "form": "path"}],
        [{"t": "mh", "a": "ag", "m": "mon", "form": "agent"}, {"t": "mp", "a": "ag", "m": "mon", "form": "names"}],
        [{"t": "ap", "form": "agents", "agents": ["ag", "bus"]}], [{"t": "ap", "form": "agent", "a": "zz"}], [{"t": "ap", "form": "agents", "agents": ["ag", "zz"]}],
        [{"t": "ap", "form": "agents", "agents": ["ag", "attached_models"]}], [{"t": "ah", "form": "agents", "agents": ["ag", "attached_models"]}], [{"t": "ah", "form": "agent", "a": "attach"}],
        [{"t": "ap", "form": "methods", "methods": ["ag.put", "bus.zz"]}], [{"t": "ah", "form": "methods", "methods": ["ag.put", "bus.zz"]}],
        [{"t": "ah", "form": "agents", "agents": ["ag", "zz"]}], [{"t": "ah", "form": "agent", "a": "zz"}], [{"t": "ah", "form": "name", "a": "bus"}],
        [{"t": "mh", "a": "ag", "m": "put", "form": "path"}], [{"t": "dp", "a": "ag", "m": "mon", "form": "path"}],
        [{"t": "ah", "form": "methods", "methods": ["ag.put", "ag.put"]}], [{"t": "ap", "form": "methods", "methods": ["ag.mon", "bus.put", "ag.mon"]}], [{"t": "ah", "form": "both", "agents": ["ag"], "methods": ["ag.put", "bus.put"]}], [{"t": "ap", "form": "both", "agents": ["ag"], "methods": ["ag.mon", "bus.put"]}])]

    def gen(self, rng, i):
        env = gen_env(rng)
        return {"env": env, "items": gen_items(rng, env, rng.random() < 0.7), "before": rng.random() < 0.25}

    def check(self, case):
        envd, items = case["env"], case["items"]
        dut = DUT(["a"])
        hits = []
        out = {}
        ok = acceptable(items, envd)

        async def test():
            toffee.start_clock(dut)
            monvals = {}
            env = build_env_cls(envd, dut, monvals)()
            cls = build_model_cls(items, lambda m, j, a, k: hits.append(j))
            model = cls()
            if case.get("before"):
                # attached before, without its ports
                late = {n: model.__dict__.pop(n) for _, n, _ in cls._ports if n in model.__dict__}
                try:
                    env.attach(model)
                except ValueError:
                    pass
                model.__dict__.update(late)
            try:
                r = env.attach(model)
            except ValueError as e:
                out["err"] = str(e)
                if model.is_attached() or model in env.attached_models:
                    out["kept"] = "it says it is attached"
            else:
                out["self"] = r is env
            out["seen"] = {}
            for a, e in envd.items():
                for kind in "dm":
                    for m in e[kind]:
                        hits.clear()
                        if kind == "d":
                            await getattr(getattr(env, a), m)(1, 2)
                        else:
                            monvals[f"{a}.{m}"] = 5
                            await dut.event.wait()
                            await dut.event.wait()
                        got = list(hits)
                        for j, n, it in cls._ports:
                            p = getattr(model, n)
                            while p.qsize():
                                await p.get()
                                got.append(j)
                        out["seen"][f"{kind} {a}.{m}"] = sorted(got)

        try:
            with grab():
                toffee.run(test)
        except Exception as e:
            return f"run failed: {errstr(e)}"
        if ok and "err" in out:
            return f"everything matches but attach raised ValueError: {out['err']}"
        if not ok and "err" not in out:
            return "something does not match but attach accepted the model"
        if not ok:
            if "kept" not in out and any(out["seen"].values()):
                out["kept"] = f"methods reach {out['seen']}"
            return f"a model that was not accepted stays connected: {out['kept']}" if "kept" in out else None
        if not out["self"]:
            return "attach did not return the env"
        for a, e in envd.items():
            for kind in "dm":
                for m in e[kind]:
                    want = sorted(j for j, it in enumerate(items) if item_matches(it, a, m, kind))
                    got = out["seen"][f"{kind} {a}.{m}"]
                    if got != want:
                        return f"{kind} {a}.{m} reached {[items[j] for j in got]}, expected {[items[j] for j in want]}"
        return None


class P13(Harness):
    pid = "P13"
    fixed = [
        {"envs": [{"ag": {"d": ["put"], "m": ["mon"]}}, {"ag": {"d": ["put"], "m": ["mon"]}}],
         "classes": [[{"t": "dh", "a": "ag", "m": "put", "form": "path"}, {"t": "mp", "a": "ag", "m": "mon", "form": "path"}, {"t": "ap", "form": "agent", "a": "ag"}, {"t": "ah", "form": "methods", "methods": ["ag.put"]}]],
         "models": [0, 0], "ops": [["attach", 0, 0], ["attach", 1, 0], ["unattach", 0, 0], ["attach", 0, 1], ["attach", 1, 1], ["unattach", 1, 1], ["attach", 1, 1]]},
        {"envs": [{"ag": {"d": ["put"], "m": []}}, {"bus": {"d": ["put"], "m": []}}],
         "classes": [[{"t": "dh", "a": "ag", "m": "put", "form": "path"}]], "models": [0, 0], "ops": [["attach", 0, 0], ["attach", 1, 1]]},
    ]

    def gen(self, rng, i):
        e0 = gen_env(rng)
        envs = [e0] + [rng.choice([e0, e0, gen_env(rng)]) for _ in range(rng.randint(0, 2))]
        classes = [gen_items(rng, rng.choice(envs), True) for _ in range(rng.randint(1, 2))]
        models = [rng.randrange(len(classes)) for _ in range(rng.randint(1, 3))]
        ops = []
        for _ in range(rng.randint(1, 9) if rng.random() < 0.93 else rng.randint(20, 50)):
            ops.append([rng.choice(["attach", "attach", "unattach"]), rng.randrange(len(models)), rng.randrange(len(envs))])
        return {"envs": envs, "classes": classes, "models": models, "ops": ops}

    def check(self, case):
        envds, classes = case["envs"], case["classes"]
        dut = DUT(["a"])
        hits = []
        res = []

        async def test():
            toffee.start_clock(dut)
            monvals = [dict() for _ in envds]
            envs = [build_env_cls(e, dut, mv)() for e, mv in zip(envds, monvals)]
            cls = [build_model_cls(items, lambda m, j, a, k: hits.append((m, j)), f"M{c}") for c, items in enumerate(classes)]
            models = [cls[c]() for c in case["models"]]
            where = {mi: None for mi in range(len(models))}
            for op, mi, ei in case["ops"]:
                items = classes[case["models"][mi]]
                if op == "attach":
                    if not acceptable(items, envds[ei]):
                        # whether it still belongs to the former environment is not specified
                        try:
                            envs[ei].attach(models[mi])
                            res.append(f"{op} of model class {items} to {envds[ei]} accepted, although something does not match")
                            return
                        except ValueError:
                            if where[mi] == ei or not models[mi].is_attached():
                                where[mi] = None
                    else:
                        try:
                            envs[ei].attach(models[mi])
                        except ValueError as e:
                            res.append(f"after {case['ops']}: attach model {mi} to env {ei} raised {errstr(e)}")
                            return
                        where[mi] = ei
                else:
                    envs[ei].unattach(models[mi])
                    if where[mi] == ei:
                        where[mi] = None
                for k, m in enumerate(models):
                    if m.is_attached() != (where[k] is not None):
                        res.append(f"after {op} {mi} {ei}: model {k} says is_attached() == {m.is_attached()}")
                        return
                    for e, env in enumerate(envs):
                        if [x is m for x in env.attached_models].count(True) != (1 if where[k] == e else 0):
                            res.append(f"after {op} {mi} {ei}: env {e} lists model {k} wrongly")
                            return
                # who drives whom
                for e, env in enumerate(envs):
                    for a, d in envds[e].items():
                        for kind in "dm":
                            for m in d[kind]:
                                hits.clear()
                                if kind == "d":
                                    await getattr(getattr(env, a), m)(1, 2)
                                else:
                                    monvals[e][f"{a}.{m}"] = 5
                                    await dut.event.wait()
                                    await dut.event.wait()
                                got = sorted((k, j) for x, j in hits for k, y in enumerate(models) if x is y)
                                for k, mod in enumerate(models):
                                    for j, n, it in type(mod)._ports:
                                        p = getattr(mod, n)
                                        while p.qsize():
                                            await p.get()
                                            got.append((k, j))
                                want = sorted((k, j) for k in where if where[k] == e for j, it in enumerate(classes[case["models"][k]]) if item_matches(it, a, m, kind))
                                if sorted(got) != want:
                                    res.append(f"after {op} {mi} {ei}: {kind} {a}.{m} of env {e} reached (model, item) {sorted(got)}, expected {want}")
                                    return

        try:
            with grab():
                toffee.run(test)
        except Exception as e:
            return f"run failed: {errstr(e)}"
        return res[0] if res else None
