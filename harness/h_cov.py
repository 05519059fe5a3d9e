import enum, fnmatch, inspect, json, os, re
from .base import *
import toffee
import toffee.funcov as fc

REL = {
    "Eq": lambda v, a: v == a[0],
    "Gt": lambda v, a: v > a[0],
    "Lt": lambda v, a: v < a[0],
    "Ge": lambda v, a: v >= a[0],
    "Le": lambda v, a: v <= a[0],
    "Ne": lambda v, a: v != a[0],
    "In": lambda v, a: v in a[0],
    "NotIn": lambda v, a: v not in a[0],
    "IsInRange": lambda v, a: a[0] <= v <= a[1],
}


class Tgt:
    def __init__(self, v=0):
        self.value = v


class Cell:
    """A target without a value attribute: conditions get the object itself."""

    def __init__(self, v=0):
        self.x = v


def holds(cond, v):
    k = cond[0]
    if k == "fn":
        return v % cond[1] == 0
    if k == "truthy":
        return v & cond[1] != 0
    return bool(REL[k](v, cond[1:]))


def real(cond):
    k = cond[0]
    if k == "fn":
        return lambda t, m=cond[1]: t.value % m == 0
    if k == "truthy":
        return lambda t, m=cond[1]: t.value & m  # a count must not depend on how true it is
    return getattr(fc, ("Cov" if len(k) % 2 else "") + k)(*cond[1:])


def gen_cond(rng, hi=6):
    k = rng.choice(list(REL) + ["fn", "truthy"])
    if k == "fn":
        return [k, rng.randint(1, 4)]
    if k == "truthy":
        return [k, rng.randint(1, 7)]
    if k in ("In", "NotIn"):
        return [k, [rng.randint(0, hi) for _ in range(rng.randint(0, 4))]]
    if k == "IsInRange":
        a = rng.randint(-1, hi)
        return [k, a, a + rng.randint(-1, 4)]
    return [k, rng.randint(-1, hi)]


def gen_bins(rng, nmax=5):
    r = rng.random()
    if rng.random() < 0.05:
        nmax = 40
    if r < 0.15:
        return gen_cond(rng)  # a single condition instead of a dictionary
    bins = {}
    for j in range(rng.randint(1, nmax)):
        if rng.random() < 0.6:
            bins[f"b{j}"] = gen_cond(rng)
        else:
            bins[f"b{j}"] = {"all": [gen_cond(rng) for _ in range(rng.randint(1, 3) if rng.random() < 0.95 else rng.randint(4, 20))], "tuple": rng.random() < 0.3}
    return bins


def gen_point(rng, name):
    return {"name": name, "t": rng.randint(0, 2), "bins": gen_bins(rng), "once": rng.choice([None, None, True, False]), "dyn": rng.random() < 0.2}


def real_bins(bins):
    if isinstance(bins, list):
        return real(bins)
    out = {}
    for k, b in bins.items():
        if isinstance(b, dict):
            cs = [real(c) for c in b["all"]]
            out[k] = tuple(cs) if b["tuple"] else cs
        else:
            out[k] = real(b)
    return out


def model_bins(bins):
    if isinstance(bins, list):
        return {"anonymous": [bins]}
    return {k: (b["all"] if isinstance(b, dict) else [b]) for k, b in bins.items()}


class Model:
    """What the text of the properties says, nothing else."""

    def __init__(self, disable):
        self.disable = disable
        self.clear()

    def clear(self):
        self.points = {}
        self.stopped = False
        self.ended = False
        self.samples = 0
        self.calls = 0

    def add(self, p):
        bins = model_bins(p["bins"])
        self.points[p["name"]] = {"t": p["t"], "bins": bins, "hits": {k: 0 for k in bins}, "once": self.disable if p["once"] is None else p["once"], "dyn": p["dyn"]}
        self.ended = False

    def covered(self, n):
        return all(self.points[n]["hits"].values())

    def active(self):
        return not self.stopped and not self.ended

    def sample(self, vals):
        self.calls += 1
        if not self.active():
            return
        self.samples += 1
        for p in self.points.values():
            for k, cs in p["bins"].items():
                if all(holds(c, vals[p["t"]]) for c in cs):
                    p["hits"][k] += 1
        self.ended = all(self.covered(n) and p["once"] for n, p in self.points.items())


def observe(g):
    d = g.as_dict()
    return {p["name"]: {b["name"]: b["count"] if "count" in b else b["hints"] for b in p["bins"]} for p in d["points"]}


def report(g, m):
    """compare the group's report with the model; None or message"""
    d = g.as_dict()
    want = {n: p["hits"] for n, p in m.points.items()}
    got = observe(g)
    if got != want:
        return f"counts are {got}, expected {want}"
    if len(d["points"]) != len(m.points) or any(len(p["bins"]) != len(m.points[p["name"]]["bins"]) for p in d["points"]):
        return "the report lists a point or bin twice"
    for p in d["points"]:
        if p["hinted"] is not m.covered(p["name"]):
            return f"point {p['name']} with counts {got[p['name']]} is reported covered={p['hinted']}"
        if bool(p["once"]) is not bool(m.points[p["name"]]["once"]):
            return f"point {p['name']} is reported once={p['once']}"
        if g.is_point_covered(p["name"]) is not m.covered(p["name"]):
            return f"is_point_covered({p['name']}) disagrees with counts {got[p['name']]}"
    if m.points or m.samples == 0:
        if g.is_all_covered() is not all(m.covered(n) for n in m.points):
            return f"is_all_covered() is {g.is_all_covered()} with counts {got}"
    if list(g.cover_points()) != list(m.points):
        return f"cover_points() is {list(g.cover_points())}, expected {list(m.points)}"
    return None


def totals(g, m):
    d = g.as_dict()
    want = {
        "bin_num_total": sum(len(p["bins"]) for p in m.points.values()),
        "bin_num_hints": sum(1 for p in m.points.values() for h in p["hits"].values() if h > 0),
        "point_num_total": len(m.points),
        "point_num_hints": sum(1 for n in m.points if m.covered(n)),
        "has_once": any(p["once"] for p in m.points.values()),
        "__sample_count__": m.samples,
    }
    for k, v in want.items():
        if d[k] != v:
            return f"report says {k}={d[k]}, expected {v}"
    for k in ("bin_num_total", "bin_num_hints", "point_num_total", "point_num_hints"):
        if type(d[k]) is not int:
            return f"report says {k}={d[k]!r}"
    if json.loads(str(g)) != json.loads(json.dumps(d)):
        return "the textual report differs from the mapping"
    return None


class CovBase(Harness):
    shared = None  # bins by description, if groups share them

    def build(self, case):
        g = toffee.CovGroup if hasattr(toffee, "CovGroup") else fc.CovGroup
        g = g(case.get("gname", "g"), case["disable"])
        tg = [Tgt() for _ in range(3)]
        m = Model(case["disable"])
        for p in case["points"]:
            if self.add(g, m, tg, p):
                return None
        return g, m, tg

    def add(self, g, m, tg, p):
        k = {}
        if p["once"] is not None:
            k["once"] = p["once"]
        if p["dyn"]:
            k["dynamic_bin"] = True
        (g.add_watch_point if p["t"] != 1 else g.add_cover_point)(tg[p["t"]], self.bins_of(p["bins"]), p["name"], **k)
        m.add(p)

    def bins_of(self, b):
        if self.shared is None:
            return real_bins(b)
        k = json.dumps(b)
        if k not in self.shared:
            self.shared[k] = real_bins(b)
        return self.shared[k]

    def sample(self, g, m, tg, vals):
        for t, v in zip(tg, vals):
            t.value = v
        g.sample()
        m.sample(vals)


class P24(CovBase):
    pid = "P24"
    fixed = [
        {"disable": True, "points": [{"name": "p", "t": 0, "bins": {"a": ["Eq", 1], "b": {"all": [["Ge", 1], ["truthy", 2]], "tuple": False}}, "once": None, "dyn": False},
                                     {"name": "q", "t": 1, "bins": {"z": ["Eq", 0]}, "once": False, "dyn": False}], "samples": [[1, 0, 0], [1, 0, 0], [3, 0, 0], [3, 0, 0]]},
        {"disable": True, "points": [{"name": "p", "t": 0, "bins": {"a": ["Eq", 1]}, "once": None, "dyn": False}, {"name": "q", "t": 1, "bins": {"a": ["Eq", 1], "b": ["Eq", 2]}, "once": None, "dyn": False}],
         "samples": [[1, 0, 0], [0, 2, 0], [1, 2, 0], [1, 1, 0], [1, 1, 0], [1, 2, 0]]},
        {"disable": False, "points": [{"name": "p", "t": 0, "bins": ["truthy", 6], "once": None, "dyn": False}], "samples": [[6, 0, 0], [4, 0, 0], [1, 0, 0]]},
    ]

    def gen(self, rng, i):
        big = rng.random() < 0.04
        if big:
            # many samples, of values that change rarely
            vs = [rng.randint(0, 6) for _ in range(3)]
            samples = []
            for _ in range(rng.randint(260, 600)):
                if rng.random() < 0.02:
                    vs[rng.randrange(3)] = rng.randint(0, 6)
                samples.append(list(vs))
        else:
            samples = [[rng.randint(0, 6) for _ in range(3)] for _ in range(rng.randint(0, 25))]
        return {"disable": rng.random() < 0.7 and not (big and rng.random() < 0.8), "points": [gen_point(rng, f"p{j}") for j in range(rng.randint(1, 4) if rng.random() < 0.95 else rng.randint(10, 30))],
                "samples": samples, "anon": rng.random() < 0.2,
                # a second group over the same bins and targets; how often the report is read
                "second": rng.choice([None, None, rng.randint(1, 3)]), "read": 0 if big else rng.choice([1, 1, 1, 0, 4])}

    def check(self, case):
        self.shared = {} if case.get("second") else None
        g, m, tg = self.build(case)
        if case.get("second"):
            g2, m2, tg2 = self.build(dict(case, points=case["points"][::-1]))
        if case.get("anon"):
            # a point without a name is a point like any other
            g.add_watch_point(tg[0], {"x": fc.CovEq(0), "y": fc.CovNe(0)})
            name = [n for n in g.cover_points() if n not in m.points]
            if len(name) != 1:
                return f"adding an unnamed point added {name}"
            m.add({"name": name[0], "t": 0, "bins": {"x": ["Eq", 0], "y": ["Ne", 0]}, "once": None, "dyn": False})
        r = report(g, m)
        if r:
            return f"before the first sample: {r}"
        for i, vals in enumerate(case["samples"]):
            self.sample(g, m, tg, vals)
            if case.get("second") and i % case["second"] == 0:
                self.sample(g2, m2, tg2, vals[::-1])
            if not case.get("read", 1) or i % case.get("read", 1):
                continue
            r = report(g, m)
            if r:
                return f"after sample {i} {vals}: {r}"
            if bool(g.sample_stoped()) is not m.ended:
                return f"after sample {i}: sample_stoped() is {g.sample_stoped()}, counts {observe(g)}"
        r = report(g, m)
        if r:
            return f"in the end: {r}"
        if case.get("second"):
            r = report(g2, m2)
            if r:
                return f"another group over the same bins: {r}"
        return None


class Phase(enum.Enum):
    IDLE = 0
    BUSY = 1


class Box:
    """a collection that answers only whether something is in it"""

    def __init__(self, items):
        self.items = items

    def __contains__(self, x):
        return x in self.items

    def __repr__(self):
        return f"Box({self.items!r})"


def _fresh(v):
    """the value of a case, as an object of its own"""
    if isinstance(v, list):
        if v and v[0] == "#range":
            return range(*v[1:])
        if v and v[0] == "#dict":
            return {x: None for x in v[1:]}
        if v and v[0] == "#box":
            return Box([_fresh(x) for x in v[1:]])
        return frozenset(v[1:]) if v and v[0] == "#set" else [_fresh(x) for x in v]
    if isinstance(v, str) and v.startswith("#"):
        return float("nan") if v == "#nan" else Phase[v[1:]]
    return int(str(v)) if type(v) is int else v


class P25(Harness):
    pid = "P25"
    fixed = [{"k": "IsInRange", "a": a, "v": v} for a in ([1, 3], [2, 2], [3, 1]) for v in (0, 1, 2, 3, 4)] + [
        {"k": k, "a": [5], "v": v} for k in ("Eq", "Gt", "Lt", "Ge", "Le", "Ne") for v in (4, 5, 6, 0, -5)
    ] + [{"k": k, "a": [a], "v": v} for k in ("In", "NotIn") for a in ([], [1, 2], "abc") for v in ((1, 3) if a != "abc" else ("a", "d"))]

    def gen(self, rng, i):
        k = rng.choice(list(REL))
        kind = rng.choice(["int", "big", "float", "str", "bool", "partial", "partial"])
        if kind == "partial":  # values that are not totally ordered, and values that have a value themselves
            kind = rng.choice(["nan", "set", "enum"]) if k in ("Eq", "Ne", "In", "NotIn") else rng.choice(["nan", "set"])
        val = {"int": lambda: rng.randint(-3, 3), "big": lambda: rng.choice([0, 1, -1]) + rng.choice([2**63, 2**64, -(2**70), 0]), "float": lambda: rng.choice([-0.5, 0.0, 0.5, 1.0, 1e300]),
               "str": lambda: rng.choice(["", "a", "ab", "b"]), "bool": lambda: rng.random() < 0.5,
               "nan": lambda: rng.choice(["#nan", 0, 1.5]), "set": lambda: ["#set", *sorted(rng.sample(range(4), rng.randint(0, 3)))], "enum": lambda: rng.choice(["#IDLE", "#BUSY"])}[kind]
        if k in ("In", "NotIn"):
            a = [[val() for _ in range(rng.randint(0, 4))]]
            r = rng.random()
            if kind == "str" and r < 0.4:
                a = ["".join(rng.choice("abc") for _ in range(rng.randint(0, 4)))]
                return {"k": k, "a": a, "v": rng.choice(["", a[0][:2], a[0][1:3], "ab", a[0] + "c", a[0]])}
            if kind == "int" and r < 0.25:
                a = [["#range", rng.randint(-3, 1), rng.randint(0, 4), rng.choice([1, 2])]]
            elif kind in ("int", "str", "bool") and r < 0.5:
                a = [["#dict", *a[0]]]
            elif kind != "set" and r < 0.75:
                a = [["#box", *a[0]]]
        elif k == "IsInRange":
            a = [val(), val()]
        else:
            a = [val()]
        return {"k": k, "a": a, "v": val()}

    def check(self, case):
        k, a, v = case["k"], _fresh(case["a"]), _fresh(case["v"])
        want = bool(REL[k](v, a))
        for name in (k, "Cov" + k):
            cls = getattr(fc, name)
            for coll in (list, tuple, set) if k in ("In", "NotIn") and isinstance(a[0], list) else (lambda x: x,):
                c = cls(*([coll(a[0])] if k in ("In", "NotIn") else a))
                for target, what in ((v, "value"), (Tgt(v), "object with the value"), (Tgt(v), "object with the value")):
                    if what == "value" and isinstance(v, enum.Enum):
                        continue
                    got = c(target)
                    if bool(got) is not want:
                        return f"{name}({', '.join(map(repr, a))}) of the {what} {v!r} is {got!r}"
                t = Tgt(None if want else v)
                t.value = v
                if bool(c(t)) is not want or t.value is not v:
                    return f"{name} of a changed target {v!r} is wrong or changed it"
        return None


class P26(CovBase):
    pid = "P26"
    P = lambda n, b, once=None, t=0: {"name": n, "t": t, "bins": b, "once": once, "dyn": False}
    fixed = [
        {"disable": True, "points": [P("p", {"a": ["Eq", 1], "b": ["Eq", 2]}), P("q", {"a": ["Ge", 1]})],
         "ops": [["sample", [1, 0, 0]], ["stop"], ["sample", [2, 0, 0]], ["resume"], ["sample", [2, 0, 0]], ["sample", [2, 0, 0]], ["reset", "p"], ["sample", [1, 0, 0]], ["sample", [2, 0, 0]], ["add", P("r", {"z": ["Eq", 0]})],
                 ["sample", [1, 0, 0]], ["del", "r"], ["sample", [1, 0, 0]], ["clear"], ["sample", [1, 0, 0]], ["add", P("p", {"a": ["Eq", 1]})], ["sample", [1, 0, 0]], ["sample", [1, 0, 0]]]},
        {"disable": True, "points": [P("p", {"a": ["Ge", 0]})], "ops": [["sample", [1, 0, 0]], ["sample", [1, 0, 0]], ["resume"], ["sample", [1, 0, 0]], ["sample", [1, 0, 0]], ["dup", "p"], ["bad", 0], ["bad", 1], ["bad", 2], ["bad", 3], ["unknown", "nope"], ["sample", [1, 0, 0]]]},
        {"disable": False, "points": [P("p", {"a": ["Ge", 0]}), P("q", {"a": ["Ge", 0]})], "ops": [["sample", [1, 0, 0]], ["reset", "q"], ["sample", [1, 0, 0]], ["stop"], ["clear"], ["add", P("p", {"a": ["Ge", 0]})], ["sample", [0, 0, 0]]]},
    ]
    del P

    def gen(self, rng, i):
        ops = []
        nm = lambda: f"p{rng.randint(0, 4)}"
        for _ in range(rng.randint(1, 25)):
            k = rng.choice(["sample"] * 6 + ["stop", "resume", "reset", "reset", "del", "clear", "add", "add", "bad", "unknown"])
            ops.append({"sample": lambda: ["sample", [rng.randint(0, 6) for _ in range(3)]], "stop": lambda: ["stop"], "resume": lambda: ["resume"], "reset": lambda: ["reset", nm()], "del": lambda: ["del", nm()],
                        "clear": lambda: ["clear"] if rng.random() < 0.3 else ["stop"], "add": lambda: ["add", gen_point(rng, nm())], "bad": lambda: ["bad", rng.randint(0, 3)], "unknown": lambda: ["unknown", "zz"]}[k]())
        return {"disable": rng.random() < 0.7, "points": [gen_point(rng, f"p{j}") for j in range(rng.randint(0, 3))], "ops": ops}

    def check(self, case):
        g, m, tg = self.build(case)
        for i, op in enumerate(case["ops"]):
            k = op[0]
            where = f"after ops {case['ops'][: i + 1]}"
            ret = g
            expect_error = False
            try:
                if k == "sample":
                    self.sample(g, m, tg, op[1])
                elif k == "stop":
                    ret = g.stop_sample()
                    m.stopped = True
                elif k == "resume":
                    ret = g.resume_sample()
                    m.stopped = m.ended = False
                elif k in ("reset", "del"):
                    expect_error = op[1] not in m.points
                    ret = (g.reset_point if k == "reset" else g.del_point)(op[1])
                    if not expect_error:
                        if k == "reset":
                            for b in m.points[op[1]]["hits"]:
                                m.points[op[1]]["hits"][b] = 0
                            m.ended = False
                        else:
                            del m.points[op[1]]
                elif k == "clear":
                    ret = g.clear()
                    m.clear()
                elif k in ("add", "dup"):
                    p = {"name": op[1], "t": 2, "bins": {"n": ["Eq", 1]}, "once": None, "dyn": False} if k == "dup" else op[1]
                    expect_error = p["name"] in m.points
                    if expect_error:
                        g.add_watch_point(tg[p["t"]], real_bins(p["bins"]), p["name"])
                    else:
                        self.add(g, m, tg, p)
                elif k == "bad":
                    expect_error = True
                    bins = [5, {"a": 5}, {"a": fc.CovEq(1), "b": [fc.CovEq(1), 7]}, {"a": [None]}][op[1]]
                    g.add_watch_point(tg[0], bins, "bad")
                elif k == "unknown":
                    expect_error = True
                    fs = [g.reset_point, g.del_point, g.cover_point, g.is_point_covered]
                    for f in fs[1:]:
                        try:
                            f(op[1])
                            return f"{where}: {f.__name__} of an unknown point is accepted"
                        except ValueError:
                            pass
                    fs[0](op[1])
                if expect_error:
                    return f"{where}: accepted, a value error was expected"
            except ValueError as e:
                if not expect_error:
                    return f"{where}: {errstr(e)}"
            r = report(g, m)
            if r:
                return f"{where}: {r}"
            if m.points and bool(g.sample_stoped()) is not (not m.active()):
                return f"{where}: sample_stoped() is {g.sample_stoped()}"
            if g.as_dict()["__sample_count__"] != m.samples:
                return f"{where}: {g.as_dict()['__sample_count__']} samples counted, expected {m.samples}"
        return None


class P27(CovBase):
    pid = "P27"
    fixed = P24.fixed

    def gen(self, rng, i):
        c = P24.gen(P24(), rng, i)
        c["stop"] = rng.choice([None, None, rng.randint(0, 10)])
        c["reset"] = rng.choice([None, rng.randint(0, 10)])
        c["del"] = rng.choice([None, None, rng.randint(0, 10)])
        return c

    def check(self, case):
        g, m, tg = self.build(case)
        for i, vals in enumerate(case["samples"]):
            if case.get("stop") == i:
                g.stop_sample()
                m.stopped = True
            if case.get("reset") == i and m.points:
                n = list(m.points)[0]
                g.reset_point(n)
                m.points[n]["hits"] = {k: 0 for k in m.points[n]["hits"]}
                m.ended = False
            if case.get("del") == i and len(m.points) > 1 and not m.ended:
                n = list(m.points)[-1]
                g.del_point(n)
                del m.points[n]
                if all(m.covered(n) and p["once"] for n, p in m.points.items()):
                    return None  # whether such a group samples once more is not the subject here
            self.sample(g, m, tg, vals)
            if not case.get("read", 1) or i % case.get("read", 1):
                continue
            r = report(g, m) or totals(g, m)
            if r:
                return f"after sample {i}: {r}"
        return report(g, m) or totals(g, m)


def helper_one(a):
    return a


def helper_two(a):
    x = a
    return x


class HelperClass:
    def method(self):
        return 1

    @classmethod
    def cmeth(cls):
        return 2


HI = HelperClass()
FUNCS = {"one": helper_one, "two": helper_two, "bound": HI.method, "unbound": HelperClass.method, "cmeth": HelperClass.cmeth}


def full(f):
    src, start = inspect.getsourcelines(f)
    cls = "" if f in (helper_one, helper_two) else "HelperClass::"
    return f"{os.path.abspath(inspect.getsourcefile(f))}:{start}-{start + len(src) - 1}::{cls}{f.__name__}"


class P28(CovBase):
    pid = "P28"
    BN = ["a", "ab", "b", "bin_0", "bin_1", "bin_10", "a*", "x.y", "x_y", "B"]
    PAT = ["*", "a*", "?", "b?n_*", "bin_[01]", "bin_.*$", "bin_1", "a", "ab", " a ", "b", "x.y", "[ab]+", "(a|b)$", "nope", "z*", "bin_1$", ".", "B", "", "bin", "*y"]
    fixed = [
        {"bins": ["a", "ab", "b", "a*", "x.y", "x_y"], "calls": [[["s:f"], p, True, "p"] for p in ("a", "*", "a*", "?", "x.y", "x_y", "ab?", "[ab]")]},
        {"bins": ["bin_0", "bin_1", "bin_10"], "calls": [[["s:f", "s:g", "one", "bound"], ["bin_1", "bin_1$"], True, "p"], [["s:f", "unbound", "cmeth", "two"], "bin", True, "p"], [["s:f"], "nope", True, "p"], [["s:f"], "*", False, "q"], [["s:f"], "*", True, "q"]]},
    ]

    def gen(self, rng, i):
        bins = rng.sample(self.BN, rng.randint(1, 6))
        calls = []
        for _ in range(rng.randint(1, 5)):
            fs = [rng.choice(["s:f", "s:g", "s:h"] + list(FUNCS)) for _ in range(rng.randint(0, 4))]
            if rng.random() < 0.3:
                fs = rng.choice(["s:f", "one", "bound"])
            pats = rng.choice(self.PAT + bins) if rng.random() < 0.6 else [rng.choice(self.PAT + bins) for _ in range(rng.randint(0, 3))]
            calls.append([fs, pats, rng.random() < 0.7, "q" if rng.random() < 0.1 else "p"])
        return {"bins": bins, "calls": calls}

    @staticmethod
    def select(bins, pats):
        """the bins selected, or None if the selection is to be rejected"""
        out = set()
        if isinstance(pats, str):
            pats = [pats]
        if not pats:
            return None
        for p in pats:
            p = p.strip()
            if p in bins:
                s = {p}
            elif "*" in p or "?" in p:
                s = {b for b in bins if fnmatch.fnmatchcase(b, p)}
            else:
                s = {b for b in bins if re.match(p, b)}
            if not s:
                return None
            out |= s
        return out

    def check(self, case):
        g = fc.CovGroup("g")
        g.add_watch_point(Tgt(), {b: fc.CovEq(1) for b in case["bins"]}, "p")
        g.add_watch_point(Tgt(), {b: fc.CovEq(1) for b in case["bins"]}, "other")
        want = {}

        def seen(pt):
            d = [p for p in g.as_dict()["points"] if p["name"] == pt][0]["functions"]
            for b, fs in d.items():
                if len(set(fs)) != len(fs):
                    raise AssertionError(f"bin {b} lists {fs}")
            return {b: set(fs) for b, fs in d.items() if fs}

        for i, (fs, pats, err, pt) in enumerate(case["calls"]):
            one = isinstance(fs, str)
            l = [f[2:] if f.startswith("s:") else FUNCS[f] for f in ([fs] if one else fs)]
            names = [f if isinstance(f, str) else full(f) for f in l]
            sel = self.select(case["bins"], pats) if pt == "p" else None
            where = f"call {i} {case['calls'][i]}"
            try:
                g.mark_function(pt, l[0] if one else (l if i % 2 else tuple(l)), pats, raise_error=err) if pats != "*" or i % 2 else g.mark_function(pt, l[0] if one else l, raise_error=err)
                if pt == "q" and err:
                    return f"{where}: an unknown point is accepted"
                if pt == "p" and sel is None:
                    return f"{where}: a pattern that selects nothing is accepted"
            except Exception as e:
                if pt == "q":
                    if not err or not isinstance(e, ValueError):
                        return f"{where}: {errstr(e)}"
                elif sel is not None:
                    return f"{where}: {errstr(e)}"
            if sel:
                for b in sel:
                    want.setdefault(b, set()).update(names)
            want = {b: s for b, s in want.items() if s}
            try:
                got = seen("p")
            except AssertionError as e:
                return f"{where}: {e}"
            if got != want:
                return f"{where}: recorded {got}, expected {want}"
            if seen("other"):
                return f"{where}: recorded for another point"
        return None
