"""Check of one property:  python3-vt check.py PID [--tier quick|thorough]
                           python3-vt check.py --replay FILE

1. proof:    vc/run.py discharges the obligations of the property's contracts, generated from the
             current source of /repo;
2. harness:  the real code is run under CPython on concrete cases against an oracle: it looks for a
             failing input (the witness of a failed obligation) and cross-checks the contracts.
Exit 0: held; exit 1: a line VIOLATION property=<id> replay=<path> [no-failing-input-found].
"""
import argparse, hashlib, json, os, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def sub(cmd, limit, env=None):
    """Run a command in its own session; returns (stdout, stderr tail, timed out)."""
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **(env or {}))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=HERE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=limit)
        return out, err[-3000:], False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return out, err[-3000:], True


def last_json(out):
    for l in reversed(out.splitlines()):
        if l.startswith("{"):
            try:
                return json.loads(l)
            except ValueError:
                pass
    return None


def write_replay(pid, data):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(data, indent=1, default=str)
    path = os.path.join(d, f"{pid}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def run_harness(pid, seed, budget, nmax):
    with tempfile.TemporaryDirectory(prefix="vchk") as td:
        state = os.path.join(td, "case")
        out, err, to = sub([PY, "harness/run.py", pid, str(seed), str(budget), str(nmax), state], budget * 2 + 90)
        r = last_json(out)
        if r is None:
            case = None
            try:
                case = json.load(open(state))
            except Exception:
                pass
            r = {"status": "fail" if case is not None else "import-error", "case": case, "msg": "the process hangs" if to else "the process died: " + err[-500:], "cases": 0}
        return r


def known_findings(pid):
    res = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    res.append(d)
    return res


def replay(path):
    d = json.load(open(path))
    print(json.dumps(d, indent=1)[:6000])
    if d.get("case") is None:
        out, err, _ = sub([PY, "vc/run.py", d["property"], "quick"], 800)
        r = last_json(out) or {}
        bad = [o for o in r.get("obligations", []) if o["status"] != "discharged"]
        print(json.dumps(bad, indent=1)[:6000])
        return 1 if bad else 0
    with tempfile.TemporaryDirectory(prefix="vchk") as td:
        f = os.path.join(td, "c.json")
        json.dump({"case": d["case"]}, open(f, "w"))
        out, err, to = sub([PY, "harness/run.py", d["property"], "--case", f], 120)
        r = last_json(out)
        msg = r["msg"] if r else ("the process hangs" if to else err)
        print("on the current tree:", msg or "holds")
        return 1 if msg else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    quick = tier == "quick"
    # ---- obligations
    proof, perr = None, ""
    if not a.no_proof and os.path.exists(os.path.join(HERE, "vc", "run.py")):
        out, perr, to = sub([PY, "vc/run.py", pid, tier], 460 if quick else 680)
        proof = last_json(out) or {"obligations": [], "error": "verifier timed out" if to else "verifier failed: " + perr[-800:]}
    # ---- concrete runs
    h = {"status": "skipped", "cases": 0}
    if not a.no_harness:
        failed = proof and (proof.get("error") or any(o["status"] != "discharged" for o in proof["obligations"]))
        budget = (25 if failed else 10) if quick else 200
        h = run_harness(pid, seed, budget, 10**9)
    status, lines, vio = 0, [], 0
    for k in known_findings(pid):
        lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    bad = [o for o in (proof or {}).get("obligations", []) if o["status"] != "discharged"]
    perror = (proof or {}).get("error")
    if h["status"] == "fail":
        known = any(k.get("case") == h["case"] for k in known_findings(pid))
        if not known:
            path = write_replay(pid, {"property": pid, "case": h["case"], "message": h["msg"], "failed_obligations": bad[:20], "verifier_error": perror, "replay": f"python3-vt {HERE}/check.py --replay <this file>"})
            lines += [f"failing input: {json.dumps(h['case'])[:600]}", f"what fails:    {h['msg'][:600]}"]
            lines += [f"failed obligation: {o['name']}: {o['status']}" for o in bad[:5]]
            lines.append(f"VIOLATION property={pid} replay={path}")
            status, vio = 1, 1
    if not status and (h["status"] == "import-error" or bad or perror):
        path = write_replay(pid, {"property": pid, "case": None, "failed_obligations": bad, "verifier_error": perror, "harness": h, "verifier_output": perr})
        lines += [f"failed obligation: {o['name']}: {o['status']} {str(o.get('detail', ''))[:300]}" for o in bad[:10]]
        if perror:
            lines.append(f"verifier: {perror[:600]}")
        if h["status"] == "import-error":
            lines.append(f"the code cannot be run: {h['msg'][:600]}")
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        status, vio = 1, 1
    # parts the verifier could not take in: the concrete runs stand in for them
    nv = (proof or {}).get("not_verified", [])
    for n in nv:
        lines.append(f"NOT-VERIFIED property={pid} {n['kind']}: {n['contract']}: {n['error'][:300]} (bounded concrete runs stand in)")
    # ---- evidence
    allobl = (proof or {}).get("obligations", [])
    obl = [o for o in allobl if not o.get("bounded")]
    bnd = [o for o in allobl if o.get("bounded")]
    cov = {
        "obligations": len(obl),
        "discharged": sum(o["status"] == "discharged" for o in obl),
        "checker_cmd": f"cd /verif && python3-vt vc/run.py {pid} {tier}",
        "trusted_base": (proof or {}).get("trusted_base", ["CPython 3.12"]),
        "functions_under_contract": (proof or {}).get("functions", []),
        "backend": (proof or {}).get("backend", {}),
        "solver_time_s": (proof or {}).get("solver_time_s", 0),
        "not_verified": nv,
        "bounded_obligations": len(bnd),
        "bounded_discharged": sum(o["status"] == "discharged" for o in bnd),
        "bounded_parts": (proof or {}).get("bounded", []),
        "contracts": (proof or {}).get("contracts", []),
        "concrete_runs": {"role": "witness search and CPython cross-check of the contracts; bounded, not counted as proved", "evaluations": h.get("cases", 0), "distinct_nontrivial": h.get("distinct", 0), "samples": h.get("samples", [])},
        "evaluations": h.get("cases", 0),
        "distinct_nontrivial": h.get("distinct", 0),
        "rule": "cases are generated from VERIF_SEED by the property's harness; distinct by content",
        "samples": h.get("samples", []) or [h.get("case")],
        "explanation": (proof or {}).get("explanation", ""),
    }
    level = "other"
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                level = c["level"]
    except Exception:
        pass
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": (proof or {}).get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": vio}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("\n".join(lines + [f"{pid}: {cov['discharged']}/{cov['obligations']} obligations discharged, {cov['bounded_discharged']}/{cov['bounded_obligations']} bounded ones, {h.get('cases', 0)} concrete cases, {ev['wall_s']} s"]))
    sys.exit(status)


if __name__ == "__main__":
    main()
