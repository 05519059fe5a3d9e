"""Run one property's harness: fixed cases, then random ones until the time budget is used.

usage: run.py PID SEED BUDGET_S MAX_CASES STATE_FILE      (result on stdout as one JSON line)
       run.py PID --case FILE                             (replay one case)
Exit code is always 0; the JSON says what happened.  The case in progress is in STATE_FILE, so
that a supervisor can name it if this process hangs or dies.
"""
import importlib, json, os, random, signal, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
MODS = {**{f"P{i:02}": "h_clock" for i in range(1, 7)}, **{f"P{i:02}": "h_agent" for i in range(7, 12)}, "P12": "h_env", "P13": "h_env", "P14": "h_exec", "P15": "h_exec",
        **{f"P{i}": "h_bundle" for i in range(16, 24)}, **{f"P{i}": "h_cov" for i in range(24, 29)}, "P29": "h_misc", "P30": "h_misc", "P31": "h_misc"}
CASE_S = 20


def emit(d):
    sys.__stdout__.write(json.dumps(d, default=str) + "\n")
    sys.__stdout__.flush()


def run_case(h, case):
    from harness.base import CaseTimeout

    def al(*a):
        raise CaseTimeout(f"no result within {CASE_S} s")

    signal.signal(signal.SIGALRM, al)
    signal.alarm(CASE_S)
    try:
        return h.check(json.loads(json.dumps(case)))
    except CaseTimeout as e:
        return f"does not end: {e}"
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)[-3:]
        return f"unexpected {type(e).__name__}: {e} at " + " < ".join(f"{os.path.basename(t.filename)}:{t.lineno}" for t in reversed(tb))
    finally:
        signal.alarm(0)


def main():
    pid = sys.argv[1]
    try:
        m = importlib.import_module("harness." + MODS[pid])
        h = getattr(m, pid)()
    except BaseException as e:
        import traceback

        return emit({"status": "import-error", "msg": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]})
    if sys.argv[2] == "--case":
        case = json.load(open(sys.argv[3]))
        case = case.get("case", case)
        return emit({"status": "case", "msg": run_case(h, case)})
    seed, budget, nmax, state = int(sys.argv[2]), float(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    rng = random.Random(f"{pid}-{seed}")
    t0 = time.time()
    n = 0
    seen = set()
    samples = []
    cases = list(h.fixed)
    while True:
        if n < len(cases):
            case = cases[n]
        else:
            if time.time() - t0 > budget or n >= nmax:
                break
            case = h.gen(rng, n - len(cases))
        text = json.dumps(case)
        with open(state, "w") as f:
            f.write(text)
        msg = run_case(h, case)
        if msg and msg.startswith("does not end") and run_case(h, case) is None:
            msg = None  # a slow machine, not a hang
        n += 1
        if h.nontrivial(case):
            seen.add(hash(text))
        if len(samples) < 2 and n > len(cases):
            samples.append(case)
        if msg:
            return emit({"status": "fail", "case": case, "msg": msg, "cases": n, "wall": time.time() - t0})
    emit({"status": "ok", "cases": n, "distinct": len(seen), "samples": samples or cases[:1], "wall": time.time() - t0})


main()
