import importlib.util, io, logging, os, re, shutil, tempfile
from .base import *
import toffee
import toffee.logger as tl
from toffee import Bundle

M64 = (1 << 64) - 1


class P29(Harness):
    pid = "P29"
    fixed = [{"k": "lfsr", "seed": s, "n": 70} for s in (0, 1, 2, 2**63, 2**64 - 1, 2**64, -1, 0x1B)] + [{"k": "plru", "w": 2**j, "ways": list(range(2**j)) * 2} for j in range(6)] + [
        {"k": "cnt", "init": i, "seq": [1, 1, 1, 1, 0, 0, 0, 0, 0, 1, 0, 1, 1, 0]} for i in range(4)]

    def gen(self, rng, i):
        k = rng.choice(["lfsr", "plru", "cnt", "multi"])
        if k == "lfsr":
            return {"k": k, "seed": rng.choice([rng.getrandbits(64), rng.getrandbits(70), -rng.getrandbits(64), 1 << rng.randint(0, 63)]), "n": rng.choice([rng.randint(1, 80), rng.randint(80, 3000)])}
        if k == "plru":
            w = 2 ** rng.choice([rng.randint(0, 6), rng.randint(0, 6), rng.randint(7, 10)])
            return {"k": k, "w": w, "ways": [rng.randrange(w) for _ in range(rng.randint(0, min(3 * w, 500)))]}
        if k == "multi":  # several of them side by side, mostly used without being read
            inst = []
            for _ in range(rng.randint(2, 5)):
                t = rng.choice(["lfsr", "plru", "cnt"])
                inst.append([t, {"lfsr": rng.getrandbits(64), "plru": 2 ** rng.randint(0, 4), "cnt": rng.randint(0, 3)}[t]])
            ops = []
            for _ in range(rng.randint(1, 60)):
                j = rng.randrange(len(inst))
                ops.append([j, rng.randrange(inst[j][1]) if inst[j][0] == "plru" else rng.randint(0, 1), int(rng.random() < 0.3)])
            return {"k": k, "inst": inst, "ops": ops}
        return {"k": k, "init": rng.randint(0, 3), "seq": [rng.choice([0, 1, True, False, 2]) for _ in range(rng.randint(0, rng.choice([20, 20, 200])))]}

    def multi(self, case):
        from toffee.utils import LFSR_64, PLRU, TwoBitsCounter

        objs, model = [], []
        for t, v in case["inst"]:
            objs.append({"lfsr": LFSR_64, "plru": PLRU, "cnt": TwoBitsCounter}[t](v))
            model.append(v if t != "plru" else {})

        def wrong(j):
            (t, v), o, m = case["inst"][j], objs[j], model[j]
            if t == "lfsr":
                got, want = o.rand, m
            elif t == "cnt":
                got, want = (o.counter, int(o.get_prediction())), (m, int(m >= 2))
            else:
                node = ""
                while 2 ** len(node) < v:
                    node += str(m.get(node, 0))
                got, want = o.get(), int(node or "0", 2)
            return f"{case}: instance {j} gives {got}, expected {want}" if got != want else None

        for j, x, look in case["ops"] + [[j, None, 1] for j in range(len(objs))]:
            t, v = case["inst"][j]
            if x is None:
                pass
            elif t == "lfsr":
                s = model[j]
                objs[j].step()
                model[j] = (s >> 1) | (((s ^ (s >> 1) ^ (s >> 3) ^ (s >> 4)) & 1) << 63)
            elif t == "cnt":
                objs[j].update(x)
                model[j] = min(3, model[j] + 1) if x else max(0, model[j] - 1)
            else:
                objs[j].update(x)
                k = v.bit_length() - 1
                text = format(x, f"0{k}b") if k else ""
                for l in range(k):
                    model[j][text[:l]] = 1 - int(text[l])
            if look:
                r = wrong(j)
                if r:
                    return r
        return None

    def check(self, case):
        from toffee.utils import LFSR_64, PLRU, TwoBitsCounter

        if case["k"] == "multi":
            return self.multi(case)
        if case["k"] == "lfsr":
            r = LFSR_64(case["seed"])
            s = case["seed"] & M64
            for j in range(case["n"]):
                if r.rand != s or r.rand != s:
                    return f"seed {case['seed']}: value {j} is {r.rand:#x}, expected {s:#x}"
                b = (s ^ (s >> 1) ^ (s >> 3) ^ (s >> 4)) & 1
                s = (s >> 1) | (b << 63)
                r.step()
            if r.rand != s:
                return f"seed {case['seed']}: value {case['n']} is {r.rand:#x}, expected {s:#x}"
            if case["seed"] == 1 and LFSR_64().rand != 1:
                return "the default seed is not 1"
        elif case["k"] == "plru":
            p = PLRU(case["w"])
            v = p.get()
            if not (isinstance(v, int) and 0 <= v < case["w"]):
                return f"initial way {v} of {case['w']}"
            # the tree: each node on the path of the way just used points to its other side
            k = case["w"].bit_length() - 1
            tree = [[0] * (2**l) for l in range(k)]
            for j, w in enumerate(case["ways"]):
                p.update(w)
                pos = 0
                for l in range(k):
                    d = (w >> (k - 1 - l)) & 1
                    tree[l][pos] = 1 - d
                    pos = 2 * pos + d
                v = p.get()
                if not (isinstance(v, int) and 0 <= v < case["w"]):
                    return f"after using {case['ways'][: j + 1]} of {case['w']} ways: way {v}"
                if case["w"] > 1 and v == w:
                    return f"after using {case['ways'][: j + 1]}: names the way just used"
                pos = 0
                for l in range(k):
                    pos = 2 * pos + tree[l][pos]
                if v != pos:
                    return f"after using {case['ways'][: j + 1]} of {case['w']} ways: names {v}, the tree says {pos}"
        else:
            c = TwoBitsCounter(case["init"])
            s = case["init"]
            for j, t in enumerate([None] + case["seq"]):
                if t is not None:
                    c.update(t)
                    s = min(3, s + 1) if t else max(0, s - 1)
                if c.counter != s or bool(c.get_prediction()) is not (s >= 2) or c.get_prediction() not in (0, 1):
                    return f"from {case['init']} after {case['seq'][:j]}: counter {c.counter}, predicts {c.get_prediction()}, expected {s}"
            if case["init"] == 2 and TwoBitsCounter().counter != 2:
                return "the default counter value is not weakly taken"
        return None


LV = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
COLOR = {"DEBUG": "\x1b[34m", "INFO": "\x1b[37m", "WARNING": "\x1b[33m", "ERROR": "\x1b[31m", "CRITICAL": "\x1b[31m"}
FMT = [None, "%(levelname)s|%(message)s", "<%(log_id)s> %(message)s", "%(name)s %(message)s %(log_id)s"]


class P30(Harness):
    pid = "P30"
    fixed = [
        {"phases": [{"level": "DEBUG", "fmt": 2, "console": True, "file": True, "recs": [["INFO", "a", "m0"], ["ERROR", "", "m1"], ["DEBUG", None, "m2"], ["CRITICAL", "a", "m3"], ["WARNING", "b", "m4"]]},
                    {"level": "WARNING", "fmt": 1, "console": True, "file": True, "recs": [["INFO", "a", "m5"], ["ERROR", "a", "m6"]]},
                    {"level": "INFO", "fmt": None, "console": False, "file": True, "recs": [["INFO", "zz", "m7"]]},
                    {"level": "INFO", "fmt": 0, "console": True, "file": False, "recs": [["INFO", "zz", "m8"], ["WARNING", None, "m9"]]}]},
    ]

    def gen(self, rng, i):
        ph = []
        n = 0
        big = rng.random() < 0.15
        ids = [None, "", "a", "b", "id7"] + ([f"n{j}" for j in range(rng.randint(1, 40))] if big else [])
        for _ in range(rng.randint(4, 8) if rng.random() < 0.1 else rng.randint(1, 3)):
            recs = []
            for _ in range(rng.randint(30, 150) if big else rng.randint(0, 6)):
                lv, lid, msg = rng.choice(list(LV)), rng.choice(ids), f"m{n}"
                if recs and rng.random() < 0.3:  # the same text again
                    msg = rng.choice(recs)[2]
                    if rng.random() < 0.5:
                        lv, lid = [x[:2] for x in recs if x[2] == msg][0]
                recs.append([lv, lid, msg])
                n += 1
            ph.append({"level": rng.choice(list(LV)), "fmt": rng.randint(0, 3), "console": rng.random() < 0.7, "file": rng.random() < 0.6, "recs": recs})
        return {"phases": ph}

    def expect(self, fmt, lv, lid, msg):
        shown = "" if not lid else f"(id: {lid})"
        if not fmt:
            return re.compile(re.escape(COLOR[lv]) + r"TOFFEE_" + lv + r" @h_misc\.py:\d+" + re.escape(shown) + r":\t" + msg + re.escape("\x1b[0m"))
        text = FMT[fmt].replace("%(levelname)s", lv).replace("%(log_id)s", shown).replace("%(message)s", msg).replace("%(name)s", "TOFFEE")
        return re.compile(re.escape(COLOR[lv] + text + "\x1b[0m"))

    def check(self, case):
        d = tempfile.mkdtemp(prefix="vlog")
        try:
            return self.run_case(case, d)
        finally:
            for h in toffee.get_logger().handlers:
                if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler):
                    h.setStream(sys.stderr)
            tl.setup_logging()
            quiet()
            shutil.rmtree(d, ignore_errors=True)

    def run_case(self, case, d):
        files, screens, wants = [], [], []
        for i, ph in enumerate(case["phases"]):
            k = {"log_level": LV[ph["level"]], "console_display": ph["console"]}
            if ph["fmt"]:
                k["format"] = FMT[ph["fmt"]]
            f = None
            if ph["file"]:
                f = k["log_file"] = os.path.join(d, f"log{i}")
            tl.setup_logging(**k)
            lg = toffee.get_logger()
            con = [h for h in lg.handlers if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler)]
            if len(con) != (1 if ph["console"] else 0):
                return f"phase {i}: {len(con)} console outputs"
            buf = io.StringIO()
            for h in con:
                h.setStream(buf)
            st = tl.stats_handler
            want = []
            for lv, lid, msg in ph["recs"]:
                sev0, ids0 = dict(st.get_stats()), dict(st.id_stats)
                fn = {"DEBUG": toffee.debug, "INFO": toffee.info, "WARNING": toffee.warning, "ERROR": toffee.error, "CRITICAL": toffee.critical}[lv]
                if lid is None:
                    fn(msg)
                else:
                    fn(msg, extra={"log_id": lid})
                shown = LV[lv] >= LV[ph["level"]]
                if shown:
                    want.append(self.expect(ph["fmt"], lv, lid, msg))
                sev = {x: n - sev0.get(x, 0) for x, n in st.get_stats().items() if n != sev0.get(x, 0)}
                ids = {x: n - ids0.get(x, 0) for x, n in st.id_stats.items() if n != ids0.get(x, 0)}
                if sev != ({lv: 1} if shown else {}):
                    return f"phase {i}: record {lv} {msg} at level {ph['level']} changed the severity counts by {sev}"
                if list(ids.values()) != ([1] if shown else []) or (shown and lid and ids != {lid: 1}) or (shown and not lid and set(ids) & ({"a", "b", "id7", "zz"} | {x[1] for x in ph["recs"] if x[1]})):
                    return f"phase {i}: record with id {lid!r} at level {ph['level']} changed the id counts by {ids}"
            files.append(f)
            screens.append(buf)
            wants.append(want)
        for h in toffee.get_logger().handlers:
            h.flush()
        for i, ph in enumerate(case["phases"]):
            outs = ([("console", screens[i].getvalue())] if ph["console"] else []) + ([("file", open(files[i]).read())] if files[i] else [])
            for what, text in outs:
                lines = text.split("\n")[:-1]
                if len(lines) != len(wants[i]):
                    return f"phase {i}: the {what} shows {lines}, expected {[w.pattern for w in wants[i]]}"
                for l, w in zip(lines, wants[i]):
                    if not w.fullmatch(l):
                        return f"phase {i}: the {what} shows {l!r}, expected {w.pattern!r}"
        return None


def gen_mod():
    p = os.path.join(REPO, "scripts", "bundle_code_gen.py")
    s = importlib.util.spec_from_file_location("v_bundle_code_gen", p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


class P31(Harness):
    pid = "P31"
    fixed = [{"kind": k, "names": ["io_a", "io_bb", "io_ccc", "x_d", "clk_"], "arg": a, "width": w} for w in (1, 4, 12, 20, 21, 22, 30, 31, 120)
             for k, a in (("prefix", "io_"), ("prefix", ""), ("prefix", "x_"), ("regex", "io_(.*)"), ("regex", "^(x|clk)(_.*)"), ("dict", {"p": "io_a", "q": "x_d", "r": "missing"}), ("prefix", "zz"))] + [
        {"kind": "dict", "names": ["io_a"], "arg": {"r": "missing"}, "width": 120}, {"kind": "prefix", "names": ["io_a"], "arg": "io_", "width": None}]

    def gen(self, rng, i):
        names = sorted({rng.choice(["io_", "x_", "", "io_in_"]) + rng.choice(["a", "bb", "ccc", "data", "valid", "q0", "q1", "longer_signal_name"]) for _ in range(rng.randint(1, 14))})
        if rng.random() < 0.15:
            names = sorted({rng.choice(["io_", "x_", "", "io_in_"]) + rng.choice("abc") * rng.randint(1, 30) + str(rng.randint(0, 99)) for _ in range(rng.randint(1, 80))})
        k = rng.choice(["prefix", "prefix", "regex", "dict"])
        if k == "prefix":
            arg = rng.choice(["io_", "x_", "", "io_in_", "zz_"])
        elif k == "regex":
            arg = rng.choice([r"io_(.*)", r"^(x|io)_(.*)", r"io_(in_)?(.*)", r"^(.*)$", r"(q\d)$", r"zzz(.*)"])
        else:
            arg = {f"k{j}" * rng.randint(1, 5): n for j, n in enumerate(names + ["missing"]) if rng.random() < 0.6}
        return {"kind": k, "names": names, "arg": arg, "width": rng.choice([None, 1, 8, 120, rng.randint(5, 80), rng.randint(5, 80)]), "twice": rng.randint(0, 2)}

    def check(self, case):
        mod = gen_mod()
        for _ in range(case.get("twice", 0)):  # the generator was used before, for something else
            try:
                mod.gen_bundle_code_from_prefix("Other", DUT(["io_q", "zz_a"] + case["names"][:1]), "io_")
                mod.gen_bundle_code_from_regex("Other", DUT(["io_q", "yy"]), "(.)y")
                mod.gen_bundle_code_from_dict("Other", DUT(["io_q", "yy"]), {"u": "yy"})
            except Exception as e:
                return f"rejected: {errstr(e)}"
        names, kind, arg = case["names"], case["kind"], case["arg"]
        want = {}
        if kind == "prefix":
            pairs = [(n[len(arg):], n) for n in names if n.startswith(arg)]
        elif kind == "regex":
            pairs = [("".join(g or "" for g in re.search(arg, n).groups()), n) for n in names if re.search(arg, n)]
        else:
            pairs = [(s, n) for s, n in arg.items() if n in names]
        want = dict(pairs)
        if len(want) != len(pairs) or len(set(want.values())) != len(want) or any(not s.isidentifier() for s in want):
            return None  # two pins of one name, or no Python name: outside the property
        dut = DUT(names)
        fn = getattr(mod, "gen_bundle_code_from_" + kind)
        k = {} if case["width"] is None else {"max_width": case["width"]}
        try:
            code = fn("MyBundle", dut, arg, **k)
        except Exception as e:
            return None if not want else f"rejected: {errstr(e)}"
        if not want:
            return f"nothing matches, generated {code!r}"
        ns = {}
        try:
            exec(code, ns)
        except Exception as e:
            return f"the generated code fails: {errstr(e)}\n{code}"
        cls = ns.get("MyBundle")
        if not isinstance(cls, type) or not issubclass(cls, Bundle):
            return "the generated code defines no bundle of that name"
        b = ns.get("bundle")
        if not isinstance(b, cls):
            return "the generated code makes no instance"
        with grab():
            b.bind(dut)
        got = set(b.all_signals_rule()) if False else None
        flat = b.as_dict(multilevel=False)
        if set(flat) != set(want) or len(flat) != len(want):
            return f"the bundle has signals {sorted(flat)}, expected {sorted(want)}\n{code}"
        for s, n in want.items():
            if getattr(b, s) is not getattr(dut, n):
                return f"signal {s} is not bound to {n}\n{code}"
        return None
