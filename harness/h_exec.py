import asyncio
from .base import *
from .h_agent import make_driver, agent_cls, make_env, _B
import toffee
from toffee import Executor


def gen_groups(rng):
    jobs = []
    names = ["f", "g", "h"]
    for j in range(rng.randint(1, 8) if rng.random() < 0.9 else rng.randint(20, 60)):
        k = rng.choice(["plain", "plain", "driver"])
        jobs.append({"kind": k, "name": rng.choice(names), "agent": rng.choice(["ag", "bus"]), "group": rng.choice([None, None, "G", "H", "f", 3, rng.choice([0, "", "3", "ag.f", "ag"])]),
                     "dur": rng.choice([0, 1, 2, rng.randint(0, 5)]), "ret": rng.choice([None, 0, j, "r", [j]])})
        if rng.random() < 0.1:
            jobs[-1]["rejected"] = rng.choice([None, "new", "G"])
    return jobs


def key_of(job):
    if job["group"] is not None:
        return job["group"]
    return f"{job['agent']}.{job['name']}" if job["kind"] == "driver" else job["name"]


class ExecBase(Harness):
    def run_case(self, case, after=None):
        """Returns (log of (what, job, cycle), info) with the real executor."""
        jobs = case["jobs"]
        dut = DUT(["a"])
        log = []
        info = {}

        async def test():
            toffee.start_clock(dut)

            async def work(j):
                log.append(("start", j, dut.cyc))
                for _ in range(jobs[j]["dur"]):
                    await dut.event.wait()
                log.append(("end", j, dut.cyc))
                return jobs[j]["ret"]

            def plain(name):
                ns = {"work": work}
                exec(f"async def {name}(j):\n    return await work(j)", ns)
                return ns[name]

            fns = {n: plain(n) for n in "fgh"}

            async def body(self, av):
                return await work(av["cid"])

            A = agent_cls({n: make_driver(n, "c", body) for n in "fgh"})
            env = make_env(dut, {"ag": A, "bus": A})()
            await dut.event.wait()
            t0 = dut.cyc
            try:
                async with Executor(**({"exit": case["exit"]} if case.get("exit") is not None else {})) as ex:
                    for j, job in enumerate(jobs):
                        if "rejected" in job:
                            # a call that the executor does not accept, in between
                            co = fns["g"](j)
                            try:
                                ex(co, priority=3, **({"sche_group": job["rejected"]} if job["rejected"] else {}))
                            except AssertionError:
                                co.close()
                            else:
                                info["ValueError"] = "it accepts a priority for a coroutine that is no driver call"
                        co = getattr(getattr(env, job["agent"]), job["name"])(j) if job["kind"] == "driver" else fns[job["name"]](j)
                        if job["group"] is not None:
                            ex(co, sche_group=job["group"])
                        else:
                            ex(co)
                    if log:
                        info["early"] = list(log)
            except ValueError as e:
                info["ValueError"] = str(e)
                return
            if "ValueError" in info:
                return
            info["t0"], info["exit"], info["done_at_exit"] = t0, dut.cyc, [x for x in log if x[0] == "end"]
            info["log_at_exit"] = list(log)
            if case.get("idle"):
                for _ in range(case["idle"]):
                    await dut.event.wait()
            if case.get("wait_all", True):
                w0 = dut.cyc
                await ex.wait_all()
                info["waited"] = (w0, dut.cyc)
            info["results"] = ex.get_results()
            for _ in range(sum(j["dur"] for j in jobs) + 1):
                await dut.event.wait()

        with grab():
            toffee.run(test)
        return log, info

    def schedule(self, case, t0):
        """start/end cycle of each job by definition"""
        groups = {}
        for j, job in enumerate(case["jobs"]):
            groups.setdefault(key_of(job), []).append(j)
        st, en = {}, {}
        for js in groups.values():
            t = t0
            for j in js:
                st[j] = t
                t += case["jobs"][j]["dur"]
                en[j] = t
        return groups, st, en

    def expected_results(self, case, groups):
        return {k: (case["jobs"][js[0]]["ret"] if len(js) == 1 else [case["jobs"][j]["ret"] for j in js]) for k, js in groups.items()}


class P14(ExecBase):
    pid = "P14"
    fixed = [{"exit": "all", "jobs": [{"kind": "plain", "name": "f", "agent": "ag", "group": None, "dur": d, "ret": d} for d in (2, 0, 1)]},
             {"exit": "all", "jobs": [{"kind": "driver", "name": "f", "agent": a, "group": None, "dur": d, "ret": d} for a, d in (("ag", 2), ("bus", 1), ("ag", 1))]},
             {"exit": None, "jobs": []}]

    def gen(self, rng, i):
        return {"exit": rng.choice([None, "all", "all", "none"]), "jobs": gen_groups(rng)}

    def check(self, case):
        try:
            log, info = self.run_case(case)
        except Exception as e:
            return f"run failed: {errstr(e)}"
        if "ValueError" in info:
            return f"executor raised {info['ValueError']}"
        if "early" in info:
            return "a coroutine ran before the block ended"
        groups, st, en = self.schedule(case, info["t0"])
        for j, job in enumerate(case["jobs"]):
            s = [c for w, k, c in log if w == "start" and k == j]
            e = [c for w, k, c in log if w == "end" and k == j]
            if s != [st[j]] or e != [en[j]]:
                return f"job {j} {job} ran {s} to {e}, expected {st[j]} to {en[j]} (groups {groups})"
        pos = {(w, j): i for i, (w, j, c) in enumerate(log)}
        for js in groups.values():
            for a, b in zip(js, js[1:]):
                if pos[("start", b)] < pos[("end", a)]:
                    return f"job {b} started before job {a} of its group had finished"
        if info["results"] != self.expected_results(case, groups):
            return f"results {info['results']}, expected {self.expected_results(case, groups)}"
        return None


class P15(ExecBase):
    pid = "P15"
    fixed = [{"exit": e, "idle": i, "jobs": [{"kind": "plain", "name": "f", "agent": "ag", "group": g, "dur": d, "ret": d} for g, d in (("a", 3), ("b", 1), ("b", 1), ("c", 4))]} for e in ("all", "any", "none", "bad", "ALL", "") for i in (0, 2, 9)]

    def gen(self, rng, i):
        return {"exit": rng.choice(["all", "any", "any", "none", "none", rng.choice(["bad", "One", "0", "any ", "ALL", ""])]), "jobs": gen_groups(rng), "idle": rng.choice([0, 0, 1, 3, 20])}

    def check(self, case):
        try:
            log, info = self.run_case(case)
        except Exception as e:
            return f"run failed: {errstr(e)}"
        mode = case["exit"]
        if mode not in ("all", "any", "none"):
            return None if "ValueError" in info else f"exit mode {mode!r} accepted"
        if "ValueError" in info:
            return f"exit mode {mode!r} rejected"
        t0 = info["t0"]
        groups, st, en = self.schedule(case, t0)
        ends = {k: en[js[-1]] for k, js in groups.items()}
        want = {"all": max(ends.values()), "any": min(ends.values()), "none": t0}[mode]
        if info["exit"] != want:
            return f"block of mode {mode} ended in cycle {info['exit']}, expected {want} (groups end {ends}, start {t0})"
        if mode == "none" and info["done_at_exit"]:
            return "mode none: something had finished when the block ended"
        for j in range(len(case["jobs"])):
            e = [c for w, k, c in log if w == "end" and k == j]
            if e != [en[j]]:
                return f"job {j} ended {e}, expected {en[j]}"
        w0, w1 = info["waited"]
        wend = max(w0, max(ends.values()))
        if w1 != wend:
            return f"waiting for all from cycle {w0} ended in cycle {w1}, expected {wend}"
        if info["results"] != self.expected_results(case, groups):
            return f"results {info['results']}, expected {self.expected_results(case, groups)}"
        return None
