"""Discharge the obligations of one property's contracts against the current source of /repo.

    python3-vt vc/run.py PID [quick|thorough] [contract substring]
The last line of the output is a JSON object.
"""
import warnings
import ctypes, importlib, json, multiprocessing as mp, os, pkgutil, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
warnings.simplefilter("ignore", RuntimeWarning)
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
from vc import load, prove as P

load.install()
sys.path.insert(0, load.REPO)
import z3


WALL = {"quick": 420, "thorough": 640}
AGAIN = {"quick": 180, "thorough": 450}  # then those without an answer are tried once more with another seed


class Timeout(BaseException):
    pass


def _alarm(*a):
    # an exception that a destructor or a callback swallows comes again (interval of the timer)
    raise Timeout()


def _with_parent():
    # a worker does not outlive the check that started it
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def one(args):
    pid, k, limit, verbose, P.SEED = args
    from vc import api, rt

    c = api.REG[pid][k]
    t0 = time.time()
    res = {"title": c.title, "bounded": c.bounded, "obligations": [], "functions": [], "paths": 0, "loops": [], "error": None, "kind": None}
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit, 3)  # processor time: other load does not count
    P.stats.update(queries=0, time=0.0, unsat=0, sat=0, unknown=0)
    rt.entered.clear()
    settled = False
    try:
        ex = rt.Explorer(c.title, c.fn).run()
        res["paths"] = len(ex.complete)
        res["loops"] = [list(map(str, x)) for x in ex.loops]
        groups, unsure = {}, []
        for name, pc, goal, info in ex.obls:
            groups.setdefault(name, []).append((pc, goal, info))
        is_inv = lambda g: any(info.get("kind") == "invariant" for _, _, info in g[1])
        if c.only:
            groups = {n: g for n, g in groups.items() if c.only in n or is_inv((n, g))}
        for name, os_ in sorted(groups.items(), key=lambda g: not is_inv(g)):
            settled = settled or (not is_inv((name, os_)) and not unsure)
            worst, detail = "discharged", None
            for pc, goal, info in os_:
                pc = pc + ex.relevant(pc + [goal])
                st, m = P.prove(pc, goal)
                if st == "undecided" and P.feasible(pc, 3000) is False:
                    st = "discharged"
                if st == "undecided":  # once more with more time: a busy machine is no reason to fail
                    st, m = P.prove(pc, goal, timeout=3 * P.TIMEOUT)
                if st != "discharged":
                    if verbose:
                        print(c.title, "::", name, st, info)
                        print("   goal", z3.simplify(goal))
                        for f in pc:
                            print("   pc  ", f)
                        print("   model", m)
                    d = {"why": str(info.get("why", "")), "model": str(m)[:800], "goal": str(z3.simplify(goal))[:400]}
                    if worst != "refuted":
                        worst, detail = st, d
                    break
            if worst != "discharged" and any(info.get("kind") == "invariant" for _, _, info in os_):
                unsure.append(name)
            res["obligations"].append({"name": f"{c.title}: {name}", "instances": len(os_), "status": worst, "detail": detail})
        if unsure:
            # an invariant that the verifier inferred from the code is not one: what was derived
            # from it means nothing, neither way
            res["error"], res["kind"] = "inferred loop invariant not confirmed: " + "; ".join(unsure[:3]), "inference"
            res["unconfirmed"] = res["obligations"]
            res["obligations"] = []
        # vacuity: some path must really reach the end of the contract
        live = 0
        for run in ex.complete:
            if P.prove(run.pc, z3.BoolVal(False), timeout=800, rounds=1)[0] != "discharged":
                live += 1
                break
        if not live and not any(o["status"] != "discharged" for o in res["obligations"]):
            res["error"], res["kind"] = "no path reaches the end of the contract", "vacuous"
        if not res["obligations"] and not unsure:
            res["error"], res["kind"] = "no obligations were generated", "vacuous"
        missing = [f for f in c.functions if f not in rt.entered]
        res["missing"] = missing
    except rt.Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-8:]))
        res["error"], res["kind"] = f"{e} [{loc}]", "unsupported"
        if verbose:
            traceback.print_exc()
    except Timeout:
        signal.setitimer(signal.ITIMER_PROF, 0)
        res["error"], res["kind"] = f"time limit of {limit} s", "timeout"
        if not settled:  # obligations count only once all inferred invariants are confirmed
            res["obligations"] = []
        if verbose:
            traceback.print_exc()
    except Exception as e:
        res["error"], res["kind"] = "verifier: " + "".join(traceback.format_exception(e))[-1200:], "crash"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    res["functions"] = sorted(f for f in rt.entered if not f.startswith("vc."))
    res["stats"] = dict(P.stats)
    res["wall"] = round(time.time() - t0, 2)
    return res


def main():
    _with_parent()
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    only = sys.argv[3] if len(sys.argv) > 3 else None
    verbose = bool(os.environ.get("VC_V"))
    t0 = time.time()
    out = {"obligations": [], "error": None, "functions": [], "bounded": [], "contracts": [], "trusted_base": [], "assumptions": [], "backend": {}, "solver_time_s": 0}
    try:
        import logging

        logging.disable(logging.CRITICAL)
        import toffee, vc.contracts
        from vc import api, rt

        mods = vc.contracts.MODULES
        for m in mods.get(pid, []):
            importlib.import_module("vc.contracts." + m)
        cs = api.REG.get(pid, [])
        ks = [k for k, c in enumerate(cs) if (tier == "thorough" or c.tier == "quick") and (only is None or only in c.title)]
        limit = 150 if tier == "quick" else 400
        if tier == "thorough":
            P.TIMEOUT = 30000
        if verbose or only is not None and len(ks) <= 1:
            rs = [one((pid, k, limit, verbose, 1)) for k in ks]
        else:
            rs = []
            with mp.get_context("fork").Pool(min(8, len(ks) + 1), _with_parent) as pool:
                todo = [(k, [pool.apply_async(one, [(pid, k, limit, verbose, 1)])]) for k in ks]
                for k, xs in todo:
                    xs[0].wait(max(0.1, t0 + AGAIN[tier] - time.time()))
                late = [xs for k, xs in todo if not xs[0].ready()]
                for k, xs in todo:
                    # the solver does not always keep to its time limit
                    if not xs[0].ready() and len(late) <= 4:
                        xs.append(pool.apply_async(one, [(pid, k, limit, verbose, 2)]))
                for k, xs in todo:
                    while not any(x.ready() for x in xs) and time.time() < t0 + WALL[tier]:
                        xs[0].wait(0.5)
                    done = [x for x in xs if x.ready()]
                    if done:
                        rs.append(done[0].get())
                    else:
                        rs.append({"title": cs[k].title, "bounded": cs[k].bounded, "obligations": [], "functions": [], "paths": 0, "loops": [], "error": f"no answer within {WALL[tier]} s", "kind": "timeout", "stats": {"time": 0.0, "queries": 0}, "wall": WALL[tier]})
    except Exception as e:
        out["error"] = "".join(traceback.format_exception(e))[-1500:]
        out["kind"] = "crash"
        print(json.dumps(out))
        return
    fs, q, st = set(), 0, 0.0
    unsupported = []
    for r in rs:
        out["contracts"].append({k: r[k] for k in ("title", "bounded", "paths", "loops", "error", "kind", "wall")} | {"obligations": len(r["obligations"]), "discharged": sum(o["status"] == "discharged" for o in r["obligations"])})
        fs |= set(r["functions"])
        st += r["stats"]["time"]
        q += r["stats"]["queries"]
        if r["error"]:
            unsupported.append({"contract": r["title"], "kind": r["kind"], "error": r["error"]})
        if r.get("missing"):
            unsupported.append({"contract": r["title"], "kind": "anchor", "error": "not entered: " + ", ".join(r["missing"])})
        if r["bounded"]:
            out["bounded"].append({"contract": r["title"], "bound": r["bounded"], "obligations": len(r["obligations"])})
        for o in r["obligations"]:
            o["bounded"] = r["bounded"]
            out["obligations"].append(o)
    out["not_verified"] = unsupported
    out["functions"] = sorted(fs)
    out["solver_time_s"] = round(st, 2)
    out["backend"] = {"z3": z3.get_version_string(), "queries": q}
    info = getattr(sys.modules.get("vc.contracts"), "INFO", {}).get(pid, {})
    out["trusted_base"] = vc.contracts.TRUSTED + info.get("trusted", [])
    out["assumptions"] = info.get("assumptions", [])
    out["explanation"] = info.get("explanation", "")
    out["wall"] = round(time.time() - t0, 2)
    if sys.stdout.isatty() or os.environ.get("VC_S"):
        for c in out["contracts"]:
            print(f"{c['title'][:70]:70} paths {c['paths']:4} obl {c['discharged']}/{c['obligations']} {c['wall']} s {c['kind'] or ''} {c['error'] or ''}"[:400])
        for o in out["obligations"]:
            if o["status"] != "discharged":
                print("  FAILED", o["name"], o["status"], o["detail"])
    print(json.dumps(out))


if __name__ == "__main__":
    main()
