"""Planted bugs: make, confirm and run the checks against them, in scratch copies.

    seedtool.py confirm ID...     patch applies, tests pass with it, demo passes without and fails with it
    seedtool.py run [ID...]       run the property's check against each bug (VERIF_REPO points at a copy)
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
TESTS = json.load(open("/opt/vp/BASELINE.json"))


def copy(td):
    d = os.path.join(td, "repo")
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def sh(cmd, cwd, limit=300, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=limit, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {})))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def tests(d):
    return sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -5", d, 120, {"PYTHONPATH": d})


def confirm(i):
    with tempfile.TemporaryDirectory(prefix="seed") as td:
        d = copy(td)
        f = os.path.join(S, i)
        dem = os.path.join(td, "x")
        shutil.copytree(f, dem)
        for n in os.listdir(dem):
            if n.endswith((".diff", ".patch")) or n == "meta.json":
                os.remove(os.path.join(dem, n))
        msgs = []
        # the demo and tests are run as in the sandbox, where the package comes from the cwd
        r, o = sh(f"bash {dem}/demo.sh", d, env={"PYTHONPATH": d})
        if r:
            msgs.append("demo fails on the unchanged tree: " + o[-600:])
        r, o = sh(f"git apply {f}/patch.diff", d)
        if r:
            msgs.append("patch does not apply " + o)
        r, o = sh(f"bash {dem}/demo.sh", d, env={"PYTHONPATH": d})
        if not r:
            msgs.append("demo passes with the patch")
        r, o = tests(d)
        if "failed" in o or "error" in o.lower():
            msgs.append("tests: " + o)
        return i, msgs or ["ok"]


def run(i):
    with tempfile.TemporaryDirectory(prefix="seed") as td:
        d = copy(td)
        pid = json.load(open(os.path.join(S, i, "meta.json")))["property"]
        sh(f"git apply {S}/{i}/patch.diff", d)
        t = time.time()
        v = os.path.join(td, "verif")
        subprocess.run(["cp", "-a", V, v])
        r, o = sh(f"python3-vt check.py {pid} --tier quick", v, 900, {"VERIF_REPO": d, "VERIF_SEED": "1"})
        w = [l[:200] for l in o.splitlines() if l.startswith(("VIOLATION", "failed ob", "what fails", "NOT-VER", "verifier"))]
        return i, f"exit {r} {time.time()-t:.0f}s", w or [o[-400:]]


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(S))
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(confirm if sys.argv[1] == "confirm" else run, ids):
            print(*r[:-1], *(("\n    " + x) for x in r[-1]), flush=True)
