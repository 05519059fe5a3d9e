import logging
import asyncio, copy, re
from .base import *
import toffee
from toffee import Bundle, BundleList, Signal, SignalList, Signals, WriteMode

# node = {"sig": [..], "style": "attr"|"list", "lists": {n: [fmt, k]}, "subs": {n: [rule, node]}, "bl": {n: [fmt, k, node]}}
# rule = ["prefix", p] | ["regex", r] | ["dict", {..}]

SN = ["a", "b", "valid", "ready", "x_a", "data", "bits_a"]


def gen_node(rng, depth, small=False):
    node = {"sig": rng.sample(SN, rng.randint(0, 3) if depth else rng.randint(1, 4)), "style": rng.choice(["attr", "list"]), "lists": {}, "subs": {}, "bl": {}}
    if rng.random() < 0.35:
        node["lists"]["l"] = [rng.choice(["l_#", "#_e", "l#x"]), rng.randint(1, 3) if rng.random() < 0.85 else rng.randint(9, 13)]
    if rng.random() < 0.12:
        node["lists"]["k"] = ["k#", rng.randint(1, 2)]
    if depth > 0:
        for n in rng.sample(["sub", "aa", "zz"], rng.choice([0, 1, 1, 2])):
            node["subs"][n] = [gen_rule(rng, nested=True), gen_node(rng, depth - 1)]
        if rng.random() < 0.35:
            node["bl"][rng.choice(["vec", "ch"])] = [rng.choice(["v#_", "#_", "c_#_", "v#"]), rng.randint(1, 3) if rng.random() < 0.9 else rng.randint(10, 12), gen_node(rng, depth - 1 if rng.random() < 0.4 else 0)]
    if not node["sig"] and not node["lists"] and not node["subs"] and not node["bl"]:
        node["sig"] = ["a"]
    return node


def gen_rule(rng, nested=False):
    r = rng.random()
    if r < 0.6:
        return ["prefix", rng.choice(["", "io_", "io_x_", "x_", "s_", "s_x_", "io", "m_"])]
    if r < 0.88:
        return ["regex", rng.choice([r"io_(.*)", r"^x_(.*)$", r"(.*)_o$", r"m(\d)?_(.*)", r"r(.*)", r"io_(.*)_(.*)", r"(.*)", r"q(?:_)(.*)"])]
    return ["dict", {}]


def make_cls(node, name="N"):
    d = {}
    if node["style"] == "list":
        d["signals"] = list(node["sig"])
    else:
        for s in node["sig"]:
            d[s] = Signal()
    for n, (fmt, k) in node["lists"].items():
        d[n] = SignalList(fmt, k)
    for n, (rule, sub) in node["subs"].items():
        d[n] = inst(make_cls(sub, n.upper()), rule)
    for n, (fmt, k, sub) in node["bl"].items():
        d[n] = BundleList(make_cls(sub, n.upper()), fmt, k)
    return type(name, (Bundle,), d)


def inst(cls, rule):
    if rule is None:
        return cls()
    return {"prefix": cls.from_prefix, "regex": cls.from_regex, "dict": cls.from_dict}[rule[0]](rule[1])


def apply_rule(rule, name):
    if rule is None:
        return name
    k, v = rule
    if k == "prefix":
        return name[len(v):] if name.startswith(v) else None
    if k == "regex":
        m = re.search(v, name)
        return None if m is None else "".join("" if g is None else g for g in m.groups())
    for key, val in v.items():
        if val == name:
            return key
    return None


def matches(node, rule, name):
    """All signal paths (tuples) that the rules map the pin name to."""
    n = apply_rule(rule, name)
    if n is None:
        return []
    out = []
    if n in node["sig"]:
        out.append((n,))
    for ln, (fmt, k) in node["lists"].items():
        for j in range(k):
            if fmt.replace("#", str(j)) == n:
                out.append((f"{ln}[{j}]",))
    for sn, (r, sub) in node["subs"].items():
        out += [(sn,) + p for p in matches(sub, r, n)]
    for bn, (fmt, k, sub) in node["bl"].items():
        for j in range(k):
            out += [(f"{bn}[{j}]",) + p for p in matches(sub, ["prefix", fmt.replace("#", str(j))], n)]
    return out


def paths(node):
    out = [(s,) for s in node["sig"]]
    for ln, (fmt, k) in node["lists"].items():
        out += [(f"{ln}[{j}]",) for j in range(k)]
    for sn, (r, sub) in node["subs"].items():
        out += [(sn,) + p for p in paths(sub)]
    for bn, (fmt, k, sub) in node["bl"].items():
        for j in range(k):
            out += [(f"{bn}[{j}]",) + p for p in paths(sub)]
    return out


def subpaths(node):
    """paths of all bundles below"""
    out = []
    for sn, (r, sub) in node["subs"].items():
        out += [(sn,)] + [(sn,) + p for p in subpaths(sub)]
    for bn, (fmt, k, sub) in node["bl"].items():
        for j in range(k):
            out += [(f"{bn}[{j}]",)] + [(f"{bn}[{j}]",) + p for p in subpaths(sub)]
    return out


def unapply(rng, rule, n):
    """a name that the rule maps to n, or None"""
    if rule is None:
        return n
    k, v = rule
    if k == "prefix":
        return v + n
    if k == "regex":
        c = {r"io_(.*)": "io_" + n, r"^x_(.*)$": "x_" + n, r"(.*)_o$": n + "_o", r"m(\d)?_(.*)": "m_" + n, r"r(.*)": "r" + n,
             r"io_(.*)_(.*)": "io__" + n, r"(.*)": n, r"q(?:_)(.*)": "q_" + n}.get(v, n)
        return c if apply_rule(rule, c) == n else None
    for key, val in v.items():
        if key == n:
            return val
    return None


def pin_for(rng, node, rule, path):
    p = path[0]
    if "[" in p:
        ln, j = p[:-1].split("[")
        if ln in node["lists"]:
            n = node["lists"][ln][0].replace("#", j)
        else:
            fmt, k, sub = node["bl"][ln]
            n = pin_for(rng, sub, ["prefix", fmt.replace("#", j)], path[1:])
    elif len(path) == 1:
        n = p
    else:
        r, sub = node["subs"][p]
        n = pin_for(rng, sub, r, path[1:])
    return None if n is None else unapply(rng, rule, n)


def fill_dicts(rng, node, rule):
    """dictionary rules get entries for some of the names needed below"""
    for n, (r, sub) in node["subs"].items():
        fill_dicts(rng, sub, r)
    for n, (f, k, sub) in node["bl"].items():
        fill_dicts(rng, sub, ["prefix", ""])
    if rule is not None and rule[0] == "dict":
        for p in paths(node):
            n = pin_for(rng, node, None, p)
            if n and rng.random() < 0.8:
                rule[1][n] = rng.choice(["d_", "io_", "x_"]) + n.replace("#", "") + rng.choice(["", "_o"])
        # several keys with the same value have no defined meaning
        seen = set()
        for key in list(rule[1]):
            if rule[1][key] in seen:
                del rule[1][key]
            else:
                seen.add(rule[1][key])


BAD = {"event", "cyc", "cbs", "steps", "on_step", "Step", "StepRis", ""}


def gen_pins(rng, node, rule, keep=0.85, noise=4, dirs=True):
    """pin names, each mapped to at most one signal, each signal by at most one pin"""
    names = []
    for p in paths(node):
        if rng.random() < keep:
            n = pin_for(rng, node, rule, p)
            if n and rule and rule[0] == "regex" and rng.random() < 0.25:
                n = rng.choice(["top_", "x", "_"]) + n + rng.choice(["", "", "_x"])  # matched in the middle
            if n:
                names.append(n)
    for _ in range(rng.randint(0, noise)):
        names.append(rng.choice(["io_", "x_", "zz_", "", "s_x_", "d_"]) + rng.choice(SN + ["clk", "rst", "l_0", "v0_a", "v1_b"]))
    out, used = [], set()
    for n in sorted(set(names)):
        if not n.isidentifier() or n in BAD or n.startswith("__"):
            continue
        m = matches(node, rule, n)
        if len(m) > 1 or (m and m[0] in used):
            continue
        if m:
            used.add(m[0])
        out.append([n, rng.choice([1, 8, 8, 0, 3]), dirs and rng.random() < 0.25])
    return out


def gen_bundle(rng, depth=2, keep=0.85, most=100):
    node = gen_node(rng, rng.randint(0, depth))
    while len(paths(node)) > most:
        node = gen_node(rng, rng.randint(0, depth))
    rule = gen_rule(rng) if rng.random() < 0.8 else None
    fill_dicts(rng, node, rule)
    return {"node": node, "rule": rule, "pins": gen_pins(rng, node, rule, keep)}


def mkdut(pinspec):
    return DUT([tuple(p) for p in pinspec])


def at(b, path):
    for p in path:
        if "[" in p:
            n, j = p[:-1].split("[")
            b = getattr(b, n)[int(j)]
        else:
            b = getattr(b, p)
    return b


def dotted(path):
    return ".".join(path)


def conn(case_node, rule, pinspec):
    """path -> pin name"""
    return {m[0]: n for n, *_ in pinspec for m in [matches(case_node, rule, n)] if m}


def verify_binding(b, node, want, dut, access=True, below=()):
    for p in paths(node):
        if p[: len(below)] != tuple(below):
            continue
        if p in want:
            try:
                got = at(b, p)
            except Exception as e:
                return f"signal {dotted(p)} cannot be reached: {errstr(e)}"
            if got is not (getattr(dut, want[p]) if isinstance(want[p], str) else want[p][0]):
                return f"signal {dotted(p)} is connected to {got!r}, expected pin {want[p]}"
        elif access:
            try:
                s = at(b, p)
                s.value = 77
                v = s.value
            except Exception as e:
                return f"unconnected signal {dotted(p)} raises {errstr(e)}"
            if v is not None or type(s).__name__ == "XPin":
                return f"unconnected signal {dotted(p)} reads {v!r} ({s!r})"
        else:
            for op in ("get", "set"):
                try:
                    s = at(b, p)
                    if op == "get":
                        s.value
                    else:
                        s.value = 1
                except AttributeError:
                    continue
                except Exception as e:
                    return f"unconnected signal {dotted(p)} raises {errstr(e)}"
                return f"unconnected signal {dotted(p)} allows {op} although access is disallowed"
    for n, p in pins(dut).items():
        if 77 in p.xdata.writes:
            return f"writing an unconnected signal reached pin {n}"
    return None


N = lambda **k: {"sig": [], "style": "attr", "lists": {}, "subs": {}, "bl": {}, **k}
P8 = lambda *ns: [[n, 8, False] for n in ns]


def gen_past(rng, c):
    """another device that the bundle was bound to before, or None"""
    return gen_pins(rng, c["node"], c["rule"], rng.choice([0.5, 0.9])) if rng.random() < 0.4 else None


def live(b, spec, node, seed=0):
    """everything that can be done with a bundle is done while it is bound to another device"""
    if spec is None:
        return
    rng = random.Random(seed)
    dut = mkdut(spec)
    b.bind(dut)
    names = [dotted(p) for p in paths(node)][:2]

    def detect():
        for n in [p[0] for p in spec[:2]] + ["a"]:
            b.detect_connectivity(n)
            for x in names:
                b.detect_specific_connectivity(n, x)

    ops = [lambda: b.set_all(1), lambda: b.randomize_all(), lambda: b.as_dict(), lambda: b.as_dict(False), lambda: b.assign({"*": 2}), lambda: b.assign({"*": 3}, multilevel=False),
           lambda: b.assign(b.as_dict()), lambda: b.assign(b.as_dict(False), multilevel=False), lambda: list(b.all_signals()), detect, lambda: b.all_signals_rule(), lambda: str(b)]
    rng.shuffle(ops)
    for op in ops:
        try:
            op()
        except CaseTimeout:
            raise
        except Exception:
            pass  # what they do is the matter of other properties


class P16(Harness):
    pid = "P16"
    fixed = [
        {"node": N(sig=["a", "b"], lists={"l": ["l_#", 2]}, subs={"sub": [["prefix", "s_"], N(sig=["a"], subs={"t": [["regex", r"io_(.*)"], N(sig=["a", "b"])]})]}, bl={"vec": ["v#_", 2, N(sig=["a"])]}),
         "rule": ["prefix", "io_"], "pins": P8("io_a", "io_l_1", "io_s_a", "io_s_io_b", "io_v1_a", "a", "x_io_b", "io_s_b"), "access": True, "set": False},
        {"node": N(sig=["a"], subs={"aa": [["prefix", "x_"], N(sig=["a"])], "zz": [["prefix", "x_y_"], N(sig=["a"])]}), "rule": None, "pins": P8("a", "x_a", "x_y_a"), "access": True, "set": False},
        {"node": N(sig=["a", "b"]), "rule": ["dict", {"a": "p", "b": "q"}], "pins": P8("a", "p"), "access": False, "set": False},
        {"node": N(sig=["a", "b"], style="list"), "rule": ["regex", r"(.*)_o$"], "pins": P8("a_o", "b_o_o"), "access": False, "set": True},
        {"node": N(sig=["a", "b"]), "rule": ["regex", r"io_(.*)"], "pins": P8("top_io_a", "io_b"), "access": True, "set": True},
    ]

    def gen(self, rng, i):
        c = gen_bundle(rng)
        c["access"] = rng.random() < 0.75
        c["set"] = rng.random() < 0.3
        c["past"] = gen_past(rng, c)
        return c

    def check(self, case):
        node, rule = case["node"], case["rule"]
        with grab() as logs:
            try:
                cls = make_cls(node)
                if case["set"] and rule is not None:
                    b = cls()
                    r = {"prefix": b.set_prefix, "regex": b.set_regex, "dict": b.set_dict}[rule[0]](rule[1])
                    if r is not b:
                        return "setting the rule did not return the bundle"
                else:
                    b = inst(cls, rule)
                dut = mkdut(case["pins"])
                live(b, case.get("past"), node)
                logs.records.clear()
                r = b.bind(dut) if case["access"] else b.bind(dut, False)
            except Exception as e:
                return f"bind failed: {errstr(e)}"
        if r is not b:
            return "bind did not return the bundle"
        want = conn(node, rule, case["pins"])
        reported = sorted(m.group(1) for x in logs.records if x.levelno == logging.WARNING for m in [re.search('"([^"]*)"', x.getMessage())] if m)
        missing = sorted(dotted(p) for p in paths(node) if p not in want)
        if reported != missing:
            return f"signals reported as missing: {reported}, expected {missing}"
        return verify_binding(b, node, want, dut, case["access"])


class P17(Harness):
    pid = "P17"
    fixed = [
        {"node": N(sig=["a"], lists={"l": ["l_#", 2]}, subs={"sub": [["prefix", "s_"], N(sig=["a"])]}, bl={"vec": ["v#_", 2, N(sig=["a"])]}), "rule": None,
         "duts": [P8("a", "l_0", "s_a", "v0_a", "v1_a"), P8("a", "l_1", "v1_a"), P8("s_a", "l_0", "l_1")], "ops": [[0, 0], [1, 1], [0, 1], [0, 2], [1, 1], [0, 0]], "clock": True, "access": True},
        {"node": N(sig=["a", "b"]), "rule": None, "duts": [P8("a"), P8("b")], "ops": [[0, 0], [0, 1], [0, 0]], "clock": True, "access": False},
        {"node": N(sig=["a"], subs={"sub": [["prefix", "s_"], N(sig=["a", "b"])]}, bl={"v": ["v#_", 2, N(sig=["a"])]}), "rule": None,
         "duts": [P8("a", "s_a", "s_b", "v0_a", "v1_a"), P8("a", "s_a", "v1_a"), P8("b", "s_b", "v0_a")], "ops": [[0, 0, ["sub"]], [0, 1], [0, 2, ["v[0]"]], [0, 0], [0, 2, ["sub"]], [0, 1]], "clock": True, "access": True},
    ]

    def gen(self, rng, i):
        c = gen_bundle(rng)
        duts = [gen_pins(rng, c["node"], c["rule"], rng.choice([0.5, 0.9])) for _ in range(rng.randint(1, 3))]
        ni = rng.randint(1, 3)
        below = subpaths(c["node"])
        ops = [[rng.randrange(ni), rng.randrange(len(duts))] for _ in range(rng.randint(1, 7))]
        for o in ops:
            if below and rng.random() < 0.25:
                o.append(list(rng.choice(below)))
        # the rule of a bundle below may be changed in an instance that takes no part
        spoil = rng.choice(below) if below and rng.random() < 0.3 else None
        return {"spoil": spoil and [list(spoil), rng.choice([["prefix", "zz_"], ["regex", "zz_(.*)"], ["dict", {"a": "zz"}]])], "node": c["node"], "rule": c["rule"], "duts": duts, "ops": ops,
                "clock": rng.random() < 0.5, "access": rng.random() < 0.8}

    def check(self, case):
        node, rule = case["node"], case["rule"]
        cls = make_cls(node)
        with grab():
            ni = max(o[0] for o in case["ops"]) + 1
            bs = [inst(cls, rule) for _ in range(ni)]
            if case.get("spoil"):
                p, (k, v) = case["spoil"]
                o = at(inst(cls, rule), tuple(p))
                {"prefix": o.set_prefix, "regex": o.set_regex, "dict": o.set_dict}[k](v)
            duts = [mkdut(p) for p in case["duts"]]
            # what each instance refers to: path -> (device, pin); which subtree belongs to which device
            refs, where = {}, {}
            for step, (bi, di, *sub) in enumerate(case["ops"]):
                at_path = tuple(sub[0]) if sub else ()
                b, nd, rl = bs[bi], node, rule
                for q in at_path:
                    if "[" in q:
                        fmt, _, nd = nd["bl"][q.split("[")[0]]
                        rl = ["prefix", fmt.replace("#", q.split("[")[1][:-1])]
                    else:
                        rl, nd = nd["subs"][q]
                try:
                    (at(b, at_path) if at_path else b).bind(duts[di], case["access"])
                except Exception as e:
                    return f"op {step}: bind failed: {errstr(e)}"
                mine = refs.setdefault(bi, {})
                roots = where.setdefault(bi, {})
                k = len(at_path)
                for d in (mine, roots):
                    for q in [q for q in d if q[:k] == at_path]:
                        del d[q]
                roots[at_path] = di
                for q, n in conn(nd, rl, case["duts"][di]).items():
                    mine[at_path + q] = (di, n)
                done = case["ops"][: step + 1]
                for x in where:
                    want = {q: (getattr(duts[d], n),) for q, (d, n) in refs[x].items()}
                    for root, d in where[x].items():
                        r = verify_binding(bs[x], node, want, duts[d], case["access"], root)
                        if r:
                            return f"after ops {done}: instance {x} ({dotted(root) or 'the bundle'} bound to device {d}): {r}"
                # each bound instance refers to each of its pins once
                for d, dut in enumerate(duts):
                    cnt = {n: 0 for n, *_ in case["duts"][d]}
                    for x in refs:
                        for dd, n in refs[x].values():
                            if dd == d:
                                cnt[n] += 1
                    if sorted(Bundle.detect_unconnected_signals(dut)) != sorted(n for n in cnt if cnt[n] == 0):
                        return f"after ops {done}: device {d} reports unconnected {Bundle.detect_unconnected_signals(dut)}, expected {[n for n in cnt if cnt[n] == 0]}"
                    if sorted(Bundle.detect_multiple_connections(dut)) != sorted(n for n in cnt if cnt[n] > 1):
                        return f"after ops {done}: device {d} reports multiple {Bundle.detect_multiple_connections(dut)}"
                # writes reach the own pins only
                for x in where:
                    if not case["access"] or () not in where[x]:
                        continue
                    before = [{n: len(p.xdata.writes) for n, p in pins(y).items()} for y in duts]
                    bs[x].set_all(5)
                    for dd, y in enumerate(duts):
                        own = [n for d, n in refs[x].values() if d == dd]
                        for n, p in pins(y).items():
                            w = len(p.xdata.writes) - before[dd][n]
                            if w != (0 if p.IsOutIO() else own.count(n)):
                                return f"after ops {done}: writing instance {x} wrote pin {n} of device {dd} {w} times"
            conns = [conn(node, rule, p) for p in case["duts"]]
            where = {x: w[()] for x, w in where.items() if list(w) == [()]}
            if case["clock"]:
                # one device, one event loop
                d = [o for o in case["ops"] if o[0] in where][-1][1] if where else 0
                mine = [k for k, dd in where.items() if dd == d and conns[d]]
                if mine:
                    got = []

                    async def test():
                        toffee.start_clock(duts[d])
                        for k in mine:
                            c = duts[d].cyc
                            await asyncio.wait_for(bs[k].step(2), 2)
                            got.append(duts[d].cyc - c)

                    try:
                        toffee.run(test)
                    except (Exception, CaseTimeout) as e:
                        return f"after ops {case['ops']}: instance {mine[len(got)]} cannot step on the clock of device {d}: {errstr(e)}"
                    if got != [2] * len(mine):
                        return f"after ops {case['ops']}: instances {mine} took {got} cycles of device {d} for two"
                for k in mine:
                    c0 = duts[d].cyc
                    try:
                        bs[k].process_requests([{}, {}, {}])
                    except (Exception, CaseTimeout) as e:
                        return f"after ops {case['ops']}: instance {k} cannot process requests: {errstr(e)}"
                    if duts[d].cyc - c0 != 3:
                        return f"after ops {case['ops']}: instance {k} served three requests in {duts[d].cyc - c0} cycles of device {d}"
        return None


def gen_map(rng, node, unknown=0.1, wild=0.3):
    m = {}
    for s in node["sig"]:
        if rng.random() < 0.5:
            m[s] = rng.randint(0, 50)
    for n, (fmt, k) in node["lists"].items():
        if rng.random() < 0.5:
            m[n] = [rng.randint(0, 50) for _ in range(k)]
    for n, (r, sub) in node["subs"].items():
        if rng.random() < 0.6:
            m[n] = gen_map(rng, sub, unknown, wild * 0.5)
    for n, (f, k, sub) in node["bl"].items():
        if rng.random() < 0.6:
            m[n] = [gen_map(rng, sub, unknown, wild * 0.5) for _ in range(k)]
    if rng.random() < unknown:
        m[rng.choice(["nope", "q.r", "sub_", "z[0].a"])] = rng.randint(0, 9)
    items = list(m.items())
    if rng.random() < wild:
        same = [v for v in m.values() if type(v) is int]
        items.append(("*", rng.choice(same) if same and rng.random() < 0.3 else rng.randint(60, 70)))
    rng.shuffle(items)
    return dict(items)


def gen_flat(rng, node, unknown=0.2, wild=0.3):
    m = {}

    def walk(nd, pre):
        for s in nd["sig"]:
            if rng.random() < 0.4:
                m[pre + s] = rng.randint(0, 50)
        for n, (fmt, k) in nd["lists"].items():
            if rng.random() < 0.5:
                m[pre + n] = [rng.randint(0, 50) for _ in range(k)]
        for n, (r, sub) in nd["subs"].items():
            walk(sub, pre + n + ".")
        for n, (f, k, sub) in nd["bl"].items():
            for j in range(k):
                walk(sub, f"{pre}{n}[{j}].")
    walk(node, "")
    if rng.random() < unknown:
        m[rng.choice(["nope", "sub.nope", "nope.a", "vec[9].a", "vec[0].nope", "a.b"])] = 1
    items = list(m.items())
    if rng.random() < wild:
        same = [v for v in m.values() if type(v) is int]
        items.append(("*", rng.choice(same) if same and rng.random() < 0.3 else rng.randint(60, 70)))
    rng.shuffle(items)
    return dict(items)


def expand(node, m, outs, pre=(), unknown=None):
    """explicit writes of a nested mapping: path -> value (wildcards first)"""
    w = {}
    if "*" in m:
        for p in paths(node):
            if pre + p not in outs:
                w[pre + p] = m["*"]
    for k, v in m.items():
        if k == "*":
            continue
        if k in node["sig"]:
            w[pre + (k,)] = v
        elif k in node["lists"]:
            for j, x in enumerate(v):
                w[pre + (f"{k}[{j}]",)] = x
        elif k in node["subs"]:
            w.update(expand(node["subs"][k][1], v, outs, pre + (k,), unknown))
        elif k in node["bl"]:
            for j, x in enumerate(v):
                w.update(expand(node["bl"][k][2], x, outs, pre + (f"{k}[{j}]",), unknown))
        else:
            unknown.append(k)
    return w


def expand_flat(node, m, outs, unknown):
    w = {}
    if "*" in m:
        for p in paths(node):
            if p not in outs:
                w[p] = m["*"]
    allp = {dotted(p): p for p in paths(node)}
    lists = {}

    def walk(nd, pre):
        for n, (fmt, k) in nd["lists"].items():
            lists[dotted(pre + (n,))] = (pre, n, k)
        for n, (r, sub) in nd["subs"].items():
            walk(sub, pre + (n,))
        for n, (f, k, sub) in nd["bl"].items():
            for j in range(k):
                walk(sub, pre + (f"{n}[{j}]",))
    walk(node, ())
    for k, v in m.items():
        if k == "*":
            continue
        if k in lists:
            pre, n, cnt = lists[k]
            for j, x in enumerate(v):
                w[pre + (f"{n}[{j}]",)] = x
        elif k in allp:
            w[allp[k]] = v
        else:
            unknown.append(k)
    return w


class P18(Harness):
    pid = "P18"
    fixed = [
        {"node": N(sig=["a", "b"], lists={"l": ["l#", 2]}, subs={"sub": [["prefix", "s_"], N(sig=["a", "b"])]}, bl={"vec": ["v#_", 2, N(sig=["a", "b"])]}), "rule": None,
         "pins": [["a", 8, False], ["b", 8, True], ["l0", 8, False], ["l1", 8, False], ["s_a", 8, False], ["s_b", 8, True], ["v0_a", 8, False], ["v0_b", 8, False], ["v1_a", 8, False], ["v1_b", 8, False]],
         "maps": [[True, {"*": 9, "a": 1, "sub": {"*": 4, "b": 2}, "vec": [{"a": 7}, {"*": 3}]}], [False, {"sub.a": 5, "vec[1].b": 6, "*": 8, "l": [1, 2]}], [True, {"nope": 1, "a": 0}], [False, {"vec[7].a": 1, "q.z": 2}]], "obj": False},
    ]

    def gen(self, rng, i):
        c = gen_bundle(rng, keep=0.93)
        maps = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.5:
                maps.append([True, gen_map(rng, c["node"])])
            else:
                maps.append([False, gen_flat(rng, c["node"])])
        c["maps"] = maps
        c["past"] = gen_past(rng, c)
        c["obj"] = rng.random() < 0.2
        return c

    def check(self, case):
        node, rule = case["node"], case["rule"]
        with grab():
            dut = mkdut(case["pins"])
            b = inst(make_cls(node), rule)
            live(b, case.get("past"), node)
            b.bind(dut)
        cn = conn(node, rule, case["pins"])
        outs = {p for p, n in cn.items() if getattr(dut, n).IsOutIO()}
        for k, (n, p) in enumerate(pins(dut).items()):
            p.xdata.val = 100 + k
        for multi, m in case["maps"]:
            before = {n: p.xdata.val for n, p in pins(dut).items()}
            given = copy.deepcopy(m)
            unknown = []
            w = expand(node, m, outs, (), unknown) if multi else expand_flat(node, m, outs, unknown)
            want = dict(before)
            for p, v in w.items():
                if p in cn:
                    want[cn[p]] = v
            for p in pins(dut).values():
                p.xdata.writes.clear()
            with grab() as g:
                try:
                    b.assign(m) if multi else b.assign(m, multilevel=False)
                except Exception as e:
                    return f"assign({m}, multilevel={multi}) failed: {errstr(e)}"
            if m != given or list(m) != list(given):
                return f"assign changed the mapping from {given} to {m}"
            got = {n: p.xdata.val for n, p in pins(dut).items()}
            if got != want:
                d = {n: (got[n], want[n]) for n in got if got[n] != want[n]}
                return f"assign({m}, multilevel={multi}): pins (got, expected) {d}"
            touched = {n for n, p in pins(dut).items() if p.xdata.writes}
            allowed = {cn[p] for p in w if p in cn}
            if not touched <= allowed:
                return f"assign({m}, multilevel={multi}) wrote pins {sorted(touched - allowed)} it does not name"
            rep = len([r for r in g.records if r.levelno >= 40])
            if rep != len(unknown):
                return f"assign({m}): {len(unknown)} unknown names, {rep} reported"
        if case["obj"]:
            seen = []

            class O:
                def __bundle_assign__(self, x):
                    seen.append(x)
            b.assign(O())
            if seen != [b]:
                return "an object that assigns itself was not given the bundle"
        return None


def read_nested(node, val, pre=()):
    d = {s: val(pre + (s,)) for s in node["sig"]}
    for n, (f, k) in node["lists"].items():
        d[n] = [val(pre + (f"{n}[{j}]",)) for j in range(k)]
    for n, (r, sub) in node["subs"].items():
        d[n] = read_nested(sub, val, pre + (n,))
    for n, (f, k, sub) in node["bl"].items():
        d[n] = [read_nested(sub, val, pre + (f"{n}[{j}]",)) for j in range(k)]
    return d


def read_flat(node, val, pre=()):
    d = {}
    P = lambda x: dotted(pre + (x,))
    for s in node["sig"]:
        d[P(s)] = val(pre + (s,))
    for n, (f, k) in node["lists"].items():
        d[P(n)] = [val(pre + (f"{n}[{j}]",)) for j in range(k)]
    for n, (r, sub) in node["subs"].items():
        d.update(read_flat(sub, val, pre + (n,)))
    for n, (f, k, sub) in node["bl"].items():
        for j in range(k):
            d.update(read_flat(sub, val, pre + (f"{n}[{j}]",)))
    return d


class P19(Harness):
    pid = "P19"
    fixed = [{"node": N(sig=["a"], lists={"l": ["l#", 2]}, subs={"sub": [["prefix", "s_"], N(sig=["a"], lists={"l": ["l#", 1]}, subs={"t": [["prefix", "t_"], N(sig=["b"])]})]}, bl={"vec": ["v#_", 2, N(sig=["a"], subs={"t": [["prefix", "t_"], N(sig=["b"])]})]}),
              "rule": None, "pins": P8("a", "l0", "l1", "s_a", "s_l0", "s_t_b", "v0_a", "v0_t_b", "v1_a", "v1_t_b"), "seed": 3}]

    def gen(self, rng, i):
        c = gen_bundle(rng, keep=rng.choice([1.0, 0.9]))
        c["seed"] = rng.randint(0, 10 ** 6)
        c["past"] = gen_past(rng, c)
        return c

    def check(self, case):
        node, rule = case["node"], case["rule"]
        cls = make_cls(node)
        rng = random.Random(case["seed"])
        with grab():
            dut, dut2 = mkdut(case["pins"]), mkdut(case["pins"])
            b, b2 = inst(cls, rule), inst(cls, rule)
            live(b, case.get("past"), node)
            b.bind(dut), b2.bind(dut2)
        cn = conn(node, rule, case["pins"])
        for p in pins(dut).values():
            p.xdata.val = rng.randint(0, 255)
        val = lambda p: pins(dut)[cn[p]].xdata.val if p in cn else None
        for multi in (True, False):
            want = read_nested(node, val) if multi else read_flat(node, val)
            try:
                got = b.as_dict() if multi and rng.random() < 0.5 else b.as_dict(multi)
            except Exception as e:
                return f"as_dict(multilevel={multi}) failed: {errstr(e)}"
            if got != want:
                return f"as_dict(multilevel={multi}) returned {got}, expected {want}"
            if any(p.xdata.writes for p in pins(dut).values()):
                return "reading wrote to a pin"
            for p in pins(dut2).values():
                p.xdata.val = 999
            try:
                with grab():
                    b2.assign(got, multilevel=multi)
            except Exception as e:
                return f"assigning the mapping back (multilevel={multi}) failed: {errstr(e)}"
            for p, n in cn.items():
                if pins(dut2)[n].xdata.val != pins(dut)[n].xdata.val:
                    return f"after assigning {got} (multilevel={multi}) signal {dotted(p)} is {pins(dut2)[n].xdata.val}, expected {pins(dut)[n].xdata.val}"
        names = [n for n, _ in b.all_signals()]
        if sorted(names) != sorted(dotted(p) for p in paths(node)):
            return f"all_signals yields {names}"
        for n, s in b.all_signals():
            p = [q for q in paths(node) if dotted(q) == n][0]
            if p in cn and s is not getattr(dut, cn[p]):
                return f"all_signals yields another object for {n}"
        return None


class P20(Harness):
    pid = "P20"
    fixed = [{"node": N(sig=["a", "b"], lists={"l": ["l#", 2]}, subs={"sub": [["prefix", "s_"], N(sig=["a", "b"])]}, bl={"vec": ["v#_", 1, N(sig=["a"])]}), "rule": None,
              "pins": [["a", 8, False], ["b", 0, True], ["l0", 3, False], ["l1", 1, True], ["s_a", 4, True], ["s_b", 0, False], ["v0_a", 5, False]],
              "op": op, "arg": arg, "exclude": ["l[0]", "sub.b"], "range": rg, "when": w, "access": acc} for op, arg, rg, w, acc in (
                  ("set", 5, None, "after", True), ("rand", None, None, "after", True), ("rand", None, [3, 9], "after", True), ("mode", "imme", None, "after", True), ("mode", "rise", None, "before", True),
                  ("mode", "fall", None, "before", True), ("badmode", None, None, "after", True), ("rand", None, None, "after", False), ("set", 0, None, "after", False))]

    def gen(self, rng, i):
        c = gen_bundle(rng, keep=rng.choice([0.95, 0.7]))
        c["op"] = rng.choice(["set", "rand", "rand", "mode"])
        c["arg"] = rng.choice([0, 1, None, 300]) if c["op"] == "set" else rng.choice(["imme", "rise", "fall"])
        ps = [dotted(p) for p in paths(c["node"])]
        c["exclude"] = rng.sample(ps, rng.randint(0, min(3, len(ps)))) if rng.random() < 0.6 else []
        c["range"] = sorted([rng.randint(0, 50), rng.randint(0, 50)]) if rng.random() < 0.4 else None
        c["when"] = rng.choice(["before", "after"])
        c["access"] = rng.random() < 0.8
        c["past"] = gen_past(rng, c)
        if rng.random() < 0.2:  # names that are no signals exclude nothing
            c["exclude"] += [n for n in [*c["node"]["subs"], *c["node"]["lists"], *c["node"]["bl"]] if n not in ps]
        return c

    def check(self, case):
        node, rule = case["node"], case["rule"]
        cn = conn(node, rule, case["pins"])
        with grab():
            dut, dut2 = mkdut(case["pins"]), mkdut(case["pins"])
            b = inst(make_cls(node), rule)
            live(b, case.get("past"), node)
            op = case["op"]
            try:
                if op in ("mode", "badmode"):
                    def setm():
                        if op == "badmode":
                            try:
                                b.set_write_mode(7)
                            except ValueError:
                                return b
                            return None
                        if case["range"]:
                            return {"imme": b.set_write_mode_as_imme, "rise": b.set_write_mode_as_rise, "fall": b.set_write_mode_as_fall}[case["arg"]]()
                        return b.set_write_mode({"imme": WriteMode.Imme, "rise": WriteMode.Rise, "fall": WriteMode.Fall}[case["arg"]])
                    if case["when"] == "before":
                        r = setm()
                        b.bind(dut, case["access"])
                    else:
                        b.bind(dut, case["access"])
                        r = setm()
                    if op == "badmode":
                        return None if r is b else "an invalid write mode was accepted"
                    if r is not b:
                        return "setting the write mode did not return the bundle"
                    for d in (dut, dut2):
                        if d is dut2:
                            b.bind(dut2, case["access"])
                        for n, p in pins(d).items():
                            want = case["arg"] if n in cn.values() and not p.IsOutIO() else None
                            if p.xdata.mode != want:
                                return f"write mode of pin {n} (output: {p.IsOutIO()}) is {p.xdata.mode}, expected {want}"
                    return None
                b.bind(dut, case["access"])
                calls = []
                if op == "set":
                    b.set_all(case["arg"])
                else:
                    def rf(lo, hi):
                        calls.append((lo, hi))
                        return lo + (7 * len(calls)) % (hi - lo + 1)
                    kw = {"random_func": rf}
                    if case["exclude"]:
                        kw["exclude_signals"] = case["exclude"]
                    if case["range"]:
                        kw["value_range"] = tuple(case["range"])
                    b.randomize_all(**kw)
                    if len(calls) % 2:
                        for p in pins(dut).values():
                            p.xdata.writes.clear()
                        kw.pop("random_func")
                        b.randomize_all(**kw)
                        calls = None
            except Exception as e:
                return f"{op} failed: {errstr(e)}"
        inv = {n: p for p, n in cn.items()}
        total = 0
        for n, p in pins(dut).items():
            hit = n in inv and not p.IsOutIO() and (op == "set" or dotted(inv[n]) not in case["exclude"])
            w = p.xdata.writes
            if not hit:
                if w:
                    return f"{op} wrote pin {n} (output: {p.IsOutIO()}, signal {inv.get(n)}): {w}"
                continue
            total += 1
            if op == "set":
                if w != [case["arg"]] or (w and type(w[0]) is not type(case["arg"])):
                    return f"set_all({case['arg']}) wrote {w} to pin {n}"
            else:
                lo, hi = case["range"] or (0, 2 ** (p.W() or 1) - 1)
                if len(w) != 1 or not lo <= w[0] <= hi:
                    return f"randomize_all wrote {w} to pin {n}, expected one value in [{lo}, {hi}]"
                if calls is not None and (lo, hi) not in calls:
                    return f"the random source was not asked for [{lo}, {hi}] (pin {n} of width {p.W()})"
        if op == "rand" and calls is not None and len(calls) != total:
            return f"the random source was asked {len(calls)} times for {total} pins"
        return None


class P21(Harness):
    pid = "P21"
    fixed = [{"bundles": [{"node": N(sig=["a"], lists={"l": ["l_#", 2]}, bl={"vec": ["v#_", 1, N(sig=["a"])]}), "rule": None}, {"node": N(sig=["a", "b"], subs={"sub": [["prefix", "v0_"], N(sig=["a"])]}), "rule": None}],
              "duts": [P8("a", "l_0", "l_1", "v0_a", "b", "clk"), P8("a", "b", "l_0")], "ops": [[0, 0], [1, 0], [0, 0], [0, 1], [1, 1], [1, 0], [0, 0]]},
             {"bundles": [{"node": N(sig=["a", "b"], lists={"l": ["l_#", 2]}), "rule": ["regex", r"io_(.*)"]}], "duts": [P8("io_a", "xio_a", "io_l_1", "xio_l_1", "q"), P8("io_b")], "ops": [[0, 0], [0, 0], [0, 1]]}]

    def gen(self, rng, i):
        bs = [{k: v for k, v in gen_bundle(rng, depth=1).items() if k != "pins"} for _ in range(rng.randint(1, 3))]
        duts = []
        for _ in range(rng.randint(1, 2)):
            ps = {}
            for b in bs:
                for p in gen_pins(rng, b["node"], b["rule"]):
                    ps[p[0]] = p
            if i % 3 == 2:  # several pins may map to one signal, one pin to several
                for b in bs:
                    for n in [q + rng.choice(["", "_o"]) for p in paths(b["node"]) for q in [pin_for(rng, b["node"], b["rule"], p)] if q]:
                        n = rng.choice(["io_", "x_", "m_", ""]) + n
                        if n.isidentifier() and n not in BAD and not n.startswith("__"):
                            ps[n] = [n, 8, False]
                duts.append([ps[n] for n in sorted(ps)])
                continue
            ok = []
            used = [set() for _ in bs]
            for n in sorted(ps):
                ms = [matches(b["node"], b["rule"], n) for b in bs]
                if any(len(m) > 1 or (m and m[0] in u) for m, u in zip(ms, used)):
                    continue
                for m, u in zip(ms, used):
                    if m:
                        u.add(m[0])
                ok.append(ps[n])
            duts.append(ok)
        return {"bundles": bs, "duts": duts, "ops": [[rng.randrange(len(bs)), rng.randrange(len(duts))] for _ in range(rng.randint(1, 8))]}

    def check(self, case):
        with grab():
            bs = [inst(make_cls(b["node"]), b["rule"]) for b in case["bundles"]]
            duts = [mkdut(p) for p in case["duts"]]
            where = {}
            for step in range(-1, len(case["ops"])):
                if step >= 0:
                    bi, di = case["ops"][step]
                    try:
                        bs[bi].bind(duts[di])
                    except Exception as e:
                        return f"bind failed: {errstr(e)}"
                    where[bi] = di
                for d, dut in enumerate(duts):
                    cnt = {n: 0 for n, *_ in case["duts"][d]}
                    for k in where:
                        for p in paths(case["bundles"][k]["node"]):
                            got = at(bs[k], p)
                            for n in cnt:
                                if getattr(dut, n) is got:
                                    cnt[n] += 1
                    try:
                        u, m = Bundle.detect_unconnected_signals(dut), Bundle.detect_multiple_connections(dut)
                    except Exception as e:
                        return f"report failed: {errstr(e)}"
                    if sorted(u) != sorted(n for n in cnt if cnt[n] == 0):
                        return f"after {case['ops'][:step + 1]}: device {d} reports unconnected {u}, expected {[n for n in cnt if cnt[n] == 0]}"
                    if sorted(m) != sorted(n for n in cnt if cnt[n] > 1):
                        return f"after {case['ops'][:step + 1]}: device {d} reports multiple {m}, expected {[n for n in cnt if cnt[n] > 1]}"
        return None


class P22(Harness):
    pid = "P22"
    fixed = [{"node": N(sig=["a", "b"], lists={"l": ["l_#", 2]}, subs={"sub": [["prefix", "s_"], N(sig=["a"])]}, bl={"vec": ["v#_", 2, N(sig=["a"])]}), "rule": r, "pins": P8("io_a", "a", "io_b", "io_l_0", "io_l_7", "io_s_a", "s_a", "io_v1_a", "io_zz")} for r in (None, ["prefix", "io_"], ["regex", r"io_(.*)"], ["dict", {"a": "io_a", "s_a": "s_a", "l_1": "io_l_0"}])]

    fixed = [{"node": N(subs={"s1": [["prefix", ""], N(sig=["x", "y"])], "s2": [["regex", "(.*)"], N(sig=["x"], lists={"l": ["l#", 2]})], "s3": [["prefix", ""], N(sig=["y"], lists={"l": ["l#", 2]})]}, bl={"vec": ["#", 2, N(sig=["x"])]}), "rule": r, "pins": P8("x", "y", "l0", "l1", "io_x", "io_y", "io_l1")} for r in (None, ["prefix", "io_"])] + fixed

    def gen(self, rng, i):
        c = gen_bundle(rng, most=30)
        more = [n for n, *_ in c["pins"]]
        for _ in range(4):
            more.append(rng.choice(["io_", "x_", "", "s_", "d_"]) + rng.choice(SN + ["l_0", "v0_a", "v2_b", "clk"]))
        more = sorted(set(more))
        rng.shuffle(more)
        more = sorted(more[: max(3, 90 // (1 + len(paths(c["node"]))))])
        # names that several places accept are asked about too: binding says which one gets the pin
        c["pins"] = [[n, 8, False] for n in more if n.isidentifier() and n not in BAD]
        if rng.random() < 0.3:
            c["name"] = rng.choice(["top", "sub", "a"])
        if rng.random() < 0.4:
            # the rules may change between two questions
            c["edit"] = [rng.choice(sorted(c["node"]["subs"]) + [None]), rng.choice([["prefix", rng.choice(["", "s_", "d_", "io_"])], ["regex", rng.choice(["(.*)", "s_(.*)", "io_(.*)"])]])]
        return c

    def check(self, case):
        r = self.check1(case) or self.parts(case)
        if r is None and case.get("edit"):
            r = self.check1(case, case["edit"])
            r = r and f"after the rule of {case['edit'][0] or 'the bundle'} was set to {case['edit'][1]}: {r}"
        return r

    def parts(self, case):
        """one part is bound alone; asking the whole afterwards leaves every part as it was"""
        subs = sorted(case["node"]["subs"])[:2]

        def state(x):
            out = [getattr(x, "bound", None)]
            co = x.step()
            try:
                co.send(None)
                out.append("waits")
            except BaseException as e:
                out.append(type(e).__name__)
            finally:
                co.close()
            return out

        async def ask():
            for k in subs:
                b = inst(make_cls(case["node"]), case["rule"])
                part = getattr(b, k)
                part.bind(mkdut(case["pins"]))
                ss = [b] + [getattr(b, j) for j in subs]
                before = [state(x) for x in ss]
                held = [at(part, p) for p in paths(case["node"]["subs"][k][1])]
                for n, *_ in case["pins"][:6]:
                    b.detect_connectivity(n)
                    for p in paths(case["node"])[:3]:
                        b.detect_specific_connectivity(n, dotted(p))
                after = [state(x) for x in ss]
                if after != before:
                    return f"asking the bundle after its part {k} was bound alone changed it: {before} became {after} (bound, waiting for a clock)"
                if any(at(part, p) is not h for p, h in zip(paths(case["node"]["subs"][k][1]), held)):
                    return f"asking the bundle changed what its part {k} is connected to"
            return None

        with grab():
            # (the events of a device are of the loop that first waited for them)
            return asyncio.run(ask())

    def check1(self, case, edit=None):
        node, rule = case["node"], case["rule"]
        with grab():
            cls = make_cls(node)
            b = inst(cls, rule)
            if case.get("name"):
                b.set_name(case["name"])
            sigs = paths(node)

            def change(x):
                if edit:
                    y = x if edit[0] is None else getattr(x, edit[0])
                    {"prefix": y.set_prefix, "regex": y.set_regex}[edit[1][0]](edit[1][1])
                return x

            if edit:
                for n, *_ in case["pins"]:
                    b.detect_connectivity(n)
                    for p in sigs[:2]:
                        b.detect_specific_connectivity(n, dotted(p))
                change(b)
                if edit[0] is None:
                    rule = edit[1]
                else:
                    node = dict(node, subs=dict(node["subs"], **{edit[0]: [edit[1], node["subs"][edit[0]][1]]}))
            for n, *_ in case["pins"]:
                # what binding does, on the real code
                fresh = change(inst(make_cls(case["node"]), case["rule"]))
                dut = mkdut([[n, 8, False]])
                fresh.bind(dut)
                hit = [p for p in sigs if at(fresh, p) is getattr(dut, n)]
                try:
                    got = b.detect_connectivity(n)
                except Exception as e:
                    return f"detect_connectivity({n!r}) failed: {errstr(e)}"
                if got is not bool(hit):
                    return f"detect_connectivity({n!r}) is {got}, binding connects it to {[dotted(p) for p in hit]}"
                for p in sigs:
                    try:
                        got = b.detect_specific_connectivity(n, dotted(p))
                    except Exception as e:
                        return f"detect_specific_connectivity({n!r}, {dotted(p)!r}) failed: {errstr(e)}"
                    if got is not (p in hit):
                        return f"detect_specific_connectivity({n!r}, {dotted(p)!r}) is {got}, binding connects {n} to {[dotted(q) for q in hit]}"
                if b.detect_specific_connectivity(n, "no_such.signal") is not False:
                    return f"detect_specific_connectivity({n!r}, unknown signal) is not False"
            if b.bound:
                return "asking bound the bundle"
            dut = mkdut([p for p in case["pins"]])
            c2 = {}
            # drop pins that collide so that the meaning of binding is unique
            ps = []
            for p in case["pins"]:
                m = matches(node, rule, p[0])
                if len(m) > 1 or (m and m[0] in c2):
                    continue
                if m:
                    c2[m[0]] = p[0]
                ps.append(p)
            dut = mkdut(ps)
            for n, *_ in case["pins"][:3]:
                b.detect_connectivity(n)
            b.bind(dut)
            r = verify_binding(b, node, c2, dut)
            if r:
                return f"after asking, binding differs: {r}"
            before = {n: p.xdata.val for n, p in pins(dut).items()}
            for n, *_ in case["pins"]:
                b.detect_connectivity(n)
                if sigs:
                    b.detect_specific_connectivity(n, dotted(sigs[0]))
            r = verify_binding(b, node, c2, dut)
            if r:
                return f"asking changed the bound bundle: {r}"
            u = Bundle.detect_unconnected_signals(dut)
            if sorted(u) != sorted(p[0] for p in ps if p[0] not in c2.values()):
                return f"asking changed the connections: unconnected {u}"
        return None


class P23(Harness):
    pid = "P23"
    fixed = [
        {"reqs": [{"a": 1}, {"a": 2, "cond": 6, "ret": 1}, {"b": 3, "ret": 2}], "batches": 1},
        {"reqs": [{"a": 1, "cond": 5, "ret": 1, "funcs": 2}], "batches": 2},
        {"reqs": [{"a": 1, "call": True, "ret": 1}, {"b": 1, "funcs": 1, "ret": 1}, {"a": 3, "call": True, "cond": 7}, {"callnone": True}, {"a": 4, "ret": 1, "*": 9}], "batches": 1},
        {"reqs": [], "batches": 1},
        {"again": [0, 1, 0, 0]},
    ]

    def again(self, case):
        """the same request objects, several times"""

        class B(Bundle):
            a, b = Signals(2)

        dut = DUT(["a", "b"])
        with grab():
            b = B().bind(dut)
            objs = [{"a": 5 + k, "b": k, "__return_bundles__": b} for k in range(max(case["again"]) + 1)]
            for batch in range(2):
                c0 = dut.cyc
                got = b.process_requests([objs[k] for k in case["again"]])
                want = [{"data": {"a": 5 + k, "b": k}, "cycle": c0 + n + 1, "__funcs_return__": None} for n, k in enumerate(case["again"])]
                if got != want:
                    return f"requests used again, batch {batch}: {got}, expected {want}"
        return None

    def gen(self, rng, i):
        if rng.random() < 0.05:
            return {"again": [rng.randrange(3) for _ in range(rng.randint(1, 5))]}
        reqs = []
        for _ in range(rng.randint(0, 8)):
            r = {}
            if rng.random() < 0.08:
                reqs.append({"callnone": True})
                continue
            for s in ("a", "b"):
                if rng.random() < 0.6:
                    r[s] = rng.randint(0, 99)
            if rng.random() < 0.15:
                r["*"] = rng.randint(100, 110)
            if rng.random() < 0.4:
                r["cond"] = rng.randint(0, 12)
                r["args"] = rng.random() < 0.5
            if rng.random() < 0.5:
                r["ret"] = rng.choice([1, 1, 2, 3])
            if rng.random() < 0.3:
                r["funcs"] = rng.choice([1, 2, 0])
            if rng.random() < 0.2:
                r["call"] = True
            if rng.random() < 0.1:
                r["single"] = True
            reqs.append(r)
        return {"reqs": reqs, "batches": rng.choice([1, 1, 2])}

    def check(self, case):
        if "again" in case:
            return self.again(case)

        class Other(Bundle):
            o = Signal()

        class B(Bundle):
            a, b = Signals(2)

        dut = DUT(["a", "b", "o"])
        cond_log, func_log = [], []
        with grab():
            b, o = B().bind(dut), Other().bind(dut)
        dut.o.xdata.val = 55
        writes = []
        dut.on_step = lambda c: writes.append((c, list(dut.a.xdata.writes), list(dut.b.xdata.writes), dut.a.xdata.val, dut.b.xdata.val))
        for batch in range(case["batches"]):
            writes.clear(), cond_log.clear(), func_log.clear()
            c0 = dut.cyc
            va, vb = dut.a.xdata.val, dut.b.xdata.val
            real = []
            for j, r in enumerate(case["reqs"]):
                if r.get("callnone"):
                    real.append(lambda cyc, bundle: None)
                    continue
                d = {k: r[k] for k in ("a", "b", "*") if k in r}
                if "cond" in r:
                    def cf(cyc, bundle, args, j=j, r=r):
                        cond_log.append((j, cyc, bundle is b, args))
                        return cyc - c0 >= r["cond"]
                    d["__condition_func__"] = cf
                    if r.get("args"):
                        d["__condition_args__"] = ("arg", j)
                if "ret" in r:
                    d["__return_bundles__"] = {1: b, 2: [b, o], 3: [o]}[r["ret"]]
                if "funcs" in r:
                    fs = [lambda cyc, bundle, j=j, k=k: func_log.append((j, k, cyc)) or f"f{j}.{k}" for k in range(max(r["funcs"], 1))]
                    d["__funcs__"] = {0: None, 1: fs[0], 2: fs}[r["funcs"]]
                if r.get("call"):
                    real.append(lambda cyc, bundle, d=d: d)
                else:
                    real.append(d)
            # oracle
            t = c0
            applied = []
            for j, r in enumerate(case["reqs"]):
                t += 1
                if "cond" in r:
                    t = max(t, c0 + r["cond"])
                applied.append(t)
            want_cycles = t - c0
            arg = real
            if len(real) == 1 and not callable(real[0]) and case["reqs"][0].get("single"):
                arg = real[0]
            try:
                with grab():
                    ret = b.process_requests(arg)
            except CaseTimeout:
                return "processing never ended"
            except Exception as e:
                return f"processing failed: {errstr(e)}"
            if dut.cyc - c0 != want_cycles:
                return f"processing took {dut.cyc - c0} cycles, expected {want_cycles}"
            # values after each cycle
            exp, cur = {}, {"a": va, "b": vb}
            byc = {c: j for j, c in enumerate(applied)}
            datas = []
            for c in range(c0 + 1, dut.cyc + 1):
                j = byc.get(c)
                if j is not None:
                    r = case["reqs"][j]
                    if "*" in r:
                        cur["a"] = cur["b"] = r["*"]
                    for s in ("a", "b"):
                        if s in r:
                            cur[s] = r[s]
                    if "ret" in r and not r.get("call"):
                        ov = 55
                        if "*" in r:
                            pass
                        data = {1: dict(cur), 2: [dict(cur), {"o": ov}], 3: {"o": ov}}[r["ret"]]
                        fr = {0: None, 1: f"f{j}.0", 2: [f"f{j}.0", f"f{j}.1"]}[r["funcs"]] if "funcs" in r else None
                        datas.append({"data": data, "cycle": c, "__funcs_return__": fr})
                exp[c] = (cur["a"], cur["b"])
            for c, wa, wb, xa, xb in writes:
                if (xa, xb) != exp[c]:
                    return f"after cycle {c - c0} the pins are {(xa, xb)}, expected {exp[c]} (requests {case['reqs']})"
            if ret != datas:
                return f"returned {ret}, expected {datas}"
            for j, cyc, same, args in cond_log:
                if not same or args != (("arg", j) if case["reqs"][j].get("args") else None):
                    return f"condition of request {j} called with {args}"
            for j, k, cyc in func_log:
                if cyc != applied[j]:
                    return f"callback of request {j} ran in cycle {cyc - c0}, expected {applied[j] - c0}"
            nf = sum({0: 0, 1: 1, 2: 2}[r.get("funcs", 0)] for r in case["reqs"])
            if len(func_log) != nf:
                return f"{len(func_log)} callbacks ran, expected {nf}"
        return None
