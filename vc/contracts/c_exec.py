"""executor.py: groups of coroutines.

Assumed: asyncio tasks (a task runs its coroutine; awaiting it gives the result), gather (P02),
Event.  A coroutine object is replaced by a stub with the attributes that the executor looks at
(__name__ and the local `agent` of the frame); contracts with fixed numbers use real driver methods.
"""
import asyncio as real_asyncio

from vc.api import *
from vc.contracts.ghost import *
from toffee import executor as E
from toffee import asynchronous as A
from toffee import agent as AG

EM = "toffee.executor."
X = z3.Int("x")
is_driver = fn("coroutine_is_a_driver_call", Int, Bool)
prio_given = fn("priority_is_given", Int, Bool)
order_given = fn("order_is_given", Int, Bool)
prio_v = fn("given_priority", Int, Int)
order_v = fn("given_order", Int, Str)
out = fn("result_of_coroutine", Int, Val)
ZERO = IntVal(0)


class Ghost:
    pass


class Frame:
    def __init__(self, i):
        self.i = i

    @property
    def f_locals(self):
        return {"agent": Ag(self.i)} if wrap(is_driver(self.i)) else {}


class Ag:
    def __init__(self, i):
        self.i = i

    @property
    def drivers(self):
        return {"drive": Drv(self.i)}


class Drv:
    """a driver; the options it holds when the coroutine starts are those of the call"""

    agent_name = "ag"

    def __init__(self, i):
        self.i = i

    @property
    def priority(self):
        return ghost().priority

    @priority.setter
    def priority(self, v):
        ghost().priority = v

    @property
    def sche_order(self):
        return ghost().order

    @sche_order.setter
    def sche_order(self, v):
        ghost().order = v


class Coro:
    _vc_data = True
    __name__ = "drive"

    def __init__(self, i):
        self.i = i
        self.__name__ = "drive"

    @property
    def cr_frame(self):
        return Frame(self.i)

    def __await__(self):
        g = ghost()
        rt.R.prove("the completion is not announced before the last one", Not(T(g.announced)))
        if wrap(is_driver(self.i)):
            for what, v, given, want in (("priority", g.priority, prio_given, prio_v), ("order", g.order, order_given, order_v)):
                if v is None:
                    rt.R.prove(f"the {what} of the call is used", Not(given(self.i)))
                else:
                    rt.R.prove(f"the {what} of the call is used", And(given(self.i), term(v) == want(self.i)))
        g.at.write("at", [term(g.k, Int)], self.i)
        g.k = g.k + 1
        return wrap(out(self.i))
        yield


class Done:
    def __init__(self):
        self.sets = 0

    def is_set(self):
        return ghost().announced

    def set(self):
        g = ghost()
        g.announced = True
        g.sets = g.sets + 1


def task(i):
    return (Coro(i), wrap(order_v(i)) if wrap(order_given(i)) else None, wrap(prio_v(i)) if wrap(prio_given(i)) else None)


for _ev in (None, "not set", "already set"):

    @contract("P14,P15,P09", f"a group runs its coroutines one after another in order{'' if _ev is None else ', completion event ' + _ev}", [EM + "Executor.__sequential_execution_all"])
    def _sequential(r, _ev=_ev):
        g = Ghost()
        g.k, g.sets = 0, 0
        g.announced = False
        g.priority, g.order = None, None
        g.at = rt.Store()
        g.at.field("at", [Int], lambda k: IntVal(-1))
        r.root("ghost", g)
        n = r.fresh("coroutines", Int)
        r.assume(n >= 0)
        tasks = SSeq(n, task, "tasks")
        ev = None if _ev is None else Done()
        if _ev == "already set":
            g.announced = wrap(BoolVal(False))
        run = E.Executor._Executor__sequential_execution_all
        k = {} if ev is None else {"complete_event": ev}
        res = finish(run(rt.SymStar(tasks), **k))
        r.prove("each of them runs", term(g.k, Int) == n)
        r.prove("one after another in the order given", ForAll([X], Implies(And(0 <= X, X < n), g.at.f["at"](X) == X)))
        r.prove("one result for each", term(rt.b_len(res), Int) == n)
        j = sym(r, "j")
        r.assume(And(0 <= j.t, j.t < n))
        r.prove("in order", term(res[j], rt.Val) == out(j.t))
        if ev is not None:
            r.prove("the completion is announced", T(rt.b_bool(g.announced)))


# ---------------------------------------------------------------- groups

gsize = fn("size_of_group", Int, Int)
gname = fn("name_of_group", Int, Str)
ngroups = z3.Int("groups")


class Group:
    """a group as the executor would run it: the coroutine of its sequential execution"""

    _vc_data = True

    def __init__(self, i):
        self.i = i


class GTask:
    _vc_data = True

    def __init__(self, i):
        self.i = i

    def __await__(self):
        g = ghost()
        rt.R.prove("all groups are started before the first is awaited", ForAll([X], Implies(And(0 <= X, X < ngroups), g.count.f["started"](X) == 1)))
        return GResult(self.i)
        yield

    def cancel(self, *a):
        rt.R.fail("no group is cancelled")


class GResult:
    """the list of the results of a group"""

    _vc_data = True

    def __init__(self, i):
        self.i = i

    def __symlen__(self):
        return wrap(gsize(self.i))

    def __getitem__(self, k):
        rt.R.prove("only of a group of one", And(BoolVal(k == 0), gsize(self.i) == 1))
        return One_(self.i)


class One_:
    _vc_data = True

    def __init__(self, i):
        self.i = i


class Members:
    """the coroutines of a group"""

    _vc_data = True

    def __init__(self, i):
        self.i = i

    def __symlen__(self):
        return wrap(gsize(self.i))

    def _vc_parts(self):
        return SSeq(gsize(self.i), lambda j, i=self.i: (i, j), "members").parts()


class Coros:
    """the groups of an executor, in the order in which they were made"""

    def items(self):
        return SSeq(ngroups, lambda i: (wrap(gname(i)), Members(i)), "groups")

    def values(self):
        return SSeq(ngroups, Members, "groups")

    def keys(self):
        return SSeq(ngroups, lambda i: wrap(gname(i)), "groups")

    def _vc_parts(self):
        return self.keys().parts()

    def __getitem__(self, name):
        t = term(name)
        if z3.is_app(t) and t.decl().eq(gname):
            return Members(t.arg(0))
        raise Unsupported("the group of a name")

    def __symlen__(self):
        return wrap(ngroups)


def groups(r):
    g = Ghost()
    g.count = rt.Store()
    g.count.field("started", [Int], lambda i: ZERO)
    g.count.field("made", [Int], lambda i: ZERO)
    g.waited = 0
    g.cleared = 0
    r.root("ghost", g)
    r.assume(ngroups >= 0)
    r.assume(ForAll([X], gsize(X) >= 1))
    return g


class Any:
    """the event of mode any"""

    def clear(self):
        g = ghost()
        g.cleared = g.cleared + 1

    def is_set(self):
        return False

    def set(self):
        rt.R.fail("only a group announces its completion")

    async def wait(self):
        g = ghost()
        rt.R.prove("all groups have been started", ForAll([X], Implies(And(0 <= X, X < ngroups), g.count.f["started"](X) == 1)))
        g.waited = g.waited + 1


def executor(r, mode, g):
    """an executor with an arbitrary number of groups"""
    with patched((E, "Event", Any)):
        ex = E.Executor(mode)
    d = vars(ex)
    for n in ("_Executor__coros", "_Executor__uncompleted", "_Executor__results"):
        if n not in d:
            raise Unsupported(f"{n} is not there")

    def sequential(*tasks, complete_event=None):
        ps = rt.parts_of(tuple(tasks))
        if ps is None or len(ps) != 1:
            raise Unsupported("another way to run a group")
        i, j = ps[0].unit(IntVal(0))
        rt.R.prove("all coroutines of the group", And(term(ps[0].n) == gsize(i), BoolVal(z3.eq(z3.simplify(j), IntVal(0)))))
        rt.R.prove("a group announces its completion in mode any only", (type(complete_event) is Any) == (mode == "any"))
        g.count.write("made", [i], g.count.read("made", i) + 1)
        return Group(i)

    def create_task(c):
        g.count.write("started", [c.i], g.count.read("started", c.i) + 1)
        return GTask(c.i)

    async def gather(*cs):
        """contract of gather (P02): starts all, gives the results in order"""
        ps = rt.parts_of(tuple(cs))
        if ps is None or len(ps) != 1 or ps[0].unit is None:
            raise Unsupported("another way to run the groups")
        u = ps[0].unit
        k = r.fresh("some_group", Int)
        r.prove("all groups are gathered, in order", And(term(ps[0].n) == ngroups, Implies(And(0 <= k, k < ngroups), u(k).i == k)))
        g.waited = g.waited + 1
        g.count.f = dict(g.count.f, started=lambda i: z3.If(And(0 <= i, i < ngroups), IntVal(1), ZERO))
        return SSeq(term(ps[0].n), lambda i: GResult(u(i).i), "results")

    d["_Executor__coros"] = Coros()
    return ex, [(E.Executor, "_Executor__sequential_execution_all", staticmethod(sequential)), (E, "create_task", create_task), (E, "gather", gather)]


started_once = lambda g: ForAll([X], g.count.f["started"](X) == z3.If(And(0 <= X, X < ngroups), IntVal(1), ZERO))


def is_all(g, res):
    """the result lists of all groups in order"""
    ps = rt.parts_of(res)
    return ps


for _m in ("all", "none", "any"):

    @contract("P15,P14", f"leaving the block in mode {_m} starts every group once and waits as the mode says", [EM + "Executor.__aexit__", EM + "Executor.__execute"])
    def _leave(r, _m=_m):
        g = groups(r)
        ex, stubs = executor(r, _m, g)
        got = []

        def set_results(self, results):
            got.append(results)

        with patched(*stubs, (E.Executor, "_Executor__set_results", set_results)):
            finish(ex.__aexit__(None, None, None))
            r.prove("every group has been started once", started_once(g))
            r.prove("it waits for all groups in mode all, for the completion of one in mode any, for nothing in mode none", g.waited == (0 if _m == "none" else 1))
            if _m == "any":
                r.prove("a completion before the block does not count", g.cleared == 1)
            if _m == "all":
                r.prove("the results are taken", len(got) == 1)
            else:
                r.prove("no results yet", got == [])
                finish(ex.wait_all())
                if len(got) == 0:
                    r.prove("waiting for all groups takes the results unless there are none", ngroups == 0)
            if got:
                r.prove("once", len(got) == 1)
                k = sym(r, "k")
                r.assume(And(0 <= k.t, k.t < ngroups))
                r.prove("one result for each group", term(rt.b_len(got[0]), Int) == ngroups)
                r.prove("in order", got[0][k].i == k.t)


@contract("P15", "any other mode is rejected with a value error", [EM + "Executor.__execute"])
def _mode(r):
    m = sym(r, "mode", Str)
    with patched((E, "Event", Any)):
        ex = E.Executor(m)
    log = []

    async def f(self):
        log.append(1)

    with patched(*[(E.Executor, f"_Executor__exit_{n}", f) for n in ("all", "none", "any")]):
        e = raises(ValueError, finish, ex.__aexit__(None, None, None))
    known = Or(*[m.t == z3.StringVal(n) for n in ("all", "none", "any")])
    r.prove("exactly the other modes are rejected", BoolVal(e is not None) == Not(known))
    r.prove("a known one runs once", len(log) == (1 if e is None else 0))


@contract("P14", "the results map each group to its only result or the list of its results", [EM + "Executor.__set_results"])
def _results(r):
    groups(r)
    with patched((E, "Event", Any)):
        ex = E.Executor()
    if "_Executor__coros" not in vars(ex):
        raise Unsupported("no groups")
    vars(ex)["_Executor__coros"] = Coros()
    a, b = z3.Ints("a b")
    # the groups are the keys of a dict (established by the contract of __call__)
    r.assume(ForAll([a, b], Implies(And(0 <= a, a < b, b < ngroups), gname(a) != gname(b))))
    r.hooks["dictlog"] = True
    ex._Executor__set_results(SSeq(ngroups, GResult, "results"))
    res = ex.get_results()
    if type(res) is not rt.SMap:
        raise Unsupported("another form of results")
    ps = rt.parts_of(res.items())
    if len(ps) != 1:
        raise Unsupported("another form of results")
    r.prove("one entry for each group", term(ps[0].n) == ngroups)
    k = r.fresh("some_group", Int)
    r.assume(And(0 <= k, k < ngroups))
    ents = rt.guarded(ps[0].fn(k))
    r.prove("exactly one of them", Or(*[g for g, _ in ents]))
    for g, (key, v) in ents:
        r.prove("under the name of the group", Implies(g, term(key, Str) == gname(k)))
        r.prove("of the group", Implies(g, v.i == k))
        r.prove("the bare result exactly for a group of one", Implies(g, BoolVal(type(v) is One_) == (gsize(k) == 1)))


# ---------------------------------------------------------------- grouping


class Named:
    """a coroutine with any name; a call of a driver method if is_driver of its agent"""

    def __init__(self, name, has_agent, agent, log):
        self.__name__, self._vals = name, (has_agent, agent, log)

    @property
    def cr_frame(self):
        has, agent, _ = self._vals

        class F:
            f_locals = {"agent": agent} if wrap(has) else {}

        return F

    def __await__(self):
        _, agent, log = self._vals
        d = agent.driver
        log.append((d.priority, d.sche_order))
        return "ran"
        yield


class Drivers:
    """the drivers of an agent by name; it is asked for one name only"""

    def __init__(self, name, there, driver):
        self.vals = name, there, driver

    def get(self, k, default=None):
        name, there, d = self.vals
        if not rt.R.valid(term(k, Str) == name.t):
            raise Unsupported("another driver")
        return d if wrap(there) else default

    def _vc_contains(self, k):
        return self.get(k) is not None

    def __getitem__(self, k):
        d = self.get(k)
        if d is None:
            raise KeyError(k)
        return d


class AnyAgent:
    agent_name = None

    def __init__(self, name, there, driver):
        self.driver, self.drivers = driver, Drivers(name, there, driver)
        self.agent_name = driver.agent_name


class AnyDriver:
    def __init__(self, agent_name):
        self.agent_name = agent_name
        self.priority = self.sche_order = "that of an earlier call"


class AnyGroups:
    """an arbitrary mapping of group names to lists of what the executor keeps of a coroutine"""

    def __init__(self, factory):
        self.lists, self.factory = [], factory

    def present(self, t):
        return fn("is_a_group_" + t.sort().name(), t.sort(), Bool)(t)

    def old(self, t):
        return SSeq(fn("size_of_" + t.sort().name(), t.sort(), Int)(t), lambda j: Old(j), "members")

    def find(self, k):
        t = term(k)
        for e in self.lists:
            if e[0].sort() != t.sort():
                raise Unsupported("names of several kinds")
            if wrap(e[0] == t):
                return e
        return None

    def _vc_contains(self, k):
        return True if self.find(k) else wrap(self.present(term(k)))

    def __getitem__(self, k):
        e = self.find(k)
        if e is None:
            if wrap(self.present(term(k))):
                s = self.old(term(k))
                # kept by this contract: every group has a coroutine
                rt.R.assume(s.n >= 1)
                e = [term(k), rt.SList(parts=s.parts()), s.n]
            elif self.factory:
                e = [term(k), rt.SList(self.factory()), None]
            else:
                raise KeyError(k)
            self.lists.append(e)
        return e[1]

    def __setitem__(self, k, v):
        e = self.find(k)
        if e is None:
            e = [term(k), v, self.old(term(k)).n if wrap(self.present(term(k))) else None]
            self.lists.append(e)
        e[1] = v

    def get(self, k, default=None):
        return self[k] if wrap(rt.term(rt.b_bool(self._vc_contains(k)), Bool)) else default

    def setdefault(self, k, default=None):
        if not wrap(rt.term(rt.b_bool(self._vc_contains(k)), Bool)):
            self[k] = default
        return self[k]


class Old:
    """what is kept of an earlier coroutine"""

    _vc_data = True

    def __init__(self, j):
        self.j = j


for _given in ("no group", "a group name", "a group that is any value"):

    @contract("P14,P09", f"a call with {_given} adds the coroutine at the end of its group and changes nothing else", [EM + "Executor.__call__"])
    def _added(r, _given=_given):
        name, agn = sym(r, "name", Str), sym(r, "agent_name", Str)
        has, there = r.fresh("has_agent", Bool), r.fresh("is_driver", Bool)
        d = AnyDriver(agn)
        log = []
        coro = Named(name, has, AnyAgent(name, there, d), log)
        with patched((E, "Event", Any)):
            ex = E.Executor("all")
        was = vars(ex).get("_Executor__coros")
        if not isinstance(was, dict):
            raise Unsupported("no groups")
        m = AnyGroups(getattr(was, "default_factory", None))
        vars(ex)["_Executor__coros"] = m
        with patched((E, "Event", Any)):
            ex2 = E.Executor("all")
        r.prove("a new executor has no groups, and no other one has them", len(was) == 0 and vars(ex2)["_Executor__coros"] is not was)
        others = {k: vars(ex)[k] for k in ("exit", "_Executor__results", "_Executor__uncompleted") if k in vars(ex)}
        p = sym(r, "priority")
        order = "dut_first" if wrap(r.fresh("dut_first", Bool)) else "model_first" if wrap(r.fresh("model_first", Bool)) else "parallel" if wrap(r.fresh("parallel", Bool)) else None
        give_p = wrap(r.fresh("priority_given", Bool))
        isd = And(has, there)
        if _given == "no group":
            k = {}
            want = z3.If(isd, z3.Concat(agn.t, z3.StringVal("."), name.t), name.t)
        else:
            g = sym(r, "group", Str if _given == "a group name" else Val)
            if _given != "a group name":
                r.assume(g.t != rt.term(None, Val))
            k, want = {"sche_group": g}, g.t
        try:
            if order is not None or give_p:
                k.update(priority=p if give_p else None, sche_order=order)
            ex(coro, **k)
        except AssertionError:
            ok = BoolVal(False)
        else:
            ok = BoolVal(True)
        fits = And(Implies(BoolVal(bool(give_p)), And(p.t >= 0, p.t <= 99, isd)), Implies(BoolVal(order is not None), isd))
        r.prove("accepted exactly if the options make sense", ok == fits)
        r.prove("its mode, its results and what it has started stay", all(vars(ex).get(n) is v for n, v in others.items()))
        added = 0
        for t, lst, n in m.lists:
            ps = rt.parts_of(lst)
            ps = [One(x) for x in lst] if ps is None else ps
            mine = z3.is_true(ok) and t.sort() == want.sort() and r.valid(t == want)
            before = ps[:-1] if mine else ps
            if n is None:
                r.prove("a new group begins with this coroutine", mine and not before)
            else:
                ok1 = len(before) == 1 and isinstance(before[0], Many)
                r.prove("what was in the group stays", ok1)
                if ok1:
                    j = r.fresh("earlier", Int)
                    us = before[0].fn(j)
                    r.prove("in order", And(term(before[0].n) == n, BoolVal(len(us) == 1 and isinstance(us[0], One) and type(us[0].v) is Old and z3.eq(us[0].v.j, j))))
            if mine:
                added += 1
                if not isinstance(ps[-1], One):
                    raise Unsupported("a list of another form")
                x = ps[-1].v
                res = finish(ex._Executor__sequential_execution_all(x))
                r.prove("the coroutine is run for it", list(res) == ["ran"] and len(log) == 1)
                drives = wrap(isd)
                if drives and log:
                    r.prove("with the priority of the call", BoolVal(log[0][0] is p if give_p else log[0][0] is None))
                    r.prove("with the order of the call", log[0][1] == ("model_first" if order == "parallel" else order))
        r.prove("it belongs to its group if accepted, otherwise to none", added == (1 if z3.is_true(ok) else 0))


class Dr0:
    priority = sche_order = None

    def __init__(self, n):
        self.agent_name = n


def _grouping(kinds, given):
    """coroutines of the given kinds; group names arbitrary where given"""

    def scenario(r):
        log = []

        def mk(name):
            env = {"log": log}
            exec(f"async def {name}(agent, x):\n    log.append(x)\n    return ('{name}', x)\nasync def plain_{name}(x):\n    log.append(x)\n    return ('plain', x)\n", env)
            return env[name], env["plain_" + name]

        class AgS:
            def __init__(self, n):
                self.drivers = {m: Dr0(n) for m in ("put", "get")}

        ags = {"a": AgS("a"), "b": AgS("b")}
        with patched((E, "Event", Any)):
            ex = E.Executor("all")
        want, order = [], []
        for k, (kind, giv) in enumerate(zip(kinds, given)):
            agn, m = kind.split(".")
            drive, plain = mk(m)
            coro = drive(ags[agn], k) if agn in ags else plain(k)
            name = sym(r, f"group{k}", Str) if giv else None
            if giv:
                ex(coro, sche_group=name)
                want.append(name.t)
            else:
                ex(coro)
                want.append(z3.StringVal(kind if agn in ags else "plain_" + m))

        async def gather(*cs):
            return [finish(c) for c in cs]

        with patched((E, "gather", gather)):
            finish(ex.__aexit__(None, None, None))
        res = ex.get_results()
        n = len(want)
        r.prove("every coroutine runs once", sorted(log) == list(range(n)))
        # group of k: all earlier and later ones of the same name, in order
        for key, v in rt.SDict.items(res) if isinstance(res, rt.SDict) else res.items():
            kt = term(key, Str)
            mem = [k for k in range(n) if rt.R.valid(want[k] == kt)]
            r.prove("groups differ", And(*[want[k] != kt for k in range(n) if k not in mem]))
            vals = [v] if type(v) is tuple else list(v)
            r.prove("a group has the results of its coroutines in the order given", [x[1] for x in vals] == mem)
            r.prove("the bare result exactly for a group of one", (type(v) is tuple) == (len(mem) == 1))
            pos = [log.index(k) for k in mem]
            r.prove("a group runs in the order given", pos == sorted(pos))
        r.prove("every coroutine belongs to a group", And(*[Or(BoolVal(False), *[want[k] == term(key, Str) for key in res]) for k in range(n)]))

    return scenario


KINDS = {"four drivers of two agents": ["a.put", "b.put", "a.get", "a.put"], "drivers and others": ["a.put", "-.put", "b.put", "-.put"], "one": ["b.get"], "others": ["-.put", "-.get", "-.put"]}
for _t, _k in KINDS.items():
    for _g in range(2 ** len(_k)):
        if len(_k) == 4 and bin(_g).count("1") not in (0, 1, 2, 4):
            continue
        giv = [bool(_g >> j & 1) for j in range(len(_k))]
        contract("P14", f"the groups of {_t}, names given for {[j for j, x in enumerate(giv) if x]}", [EM + "Executor.__call__"], bounded="up to 4 coroutines")(_grouping(_k, giv))


@contract("P09,P14", "the priority and the order of a call are those given, within their range, for drivers only", [EM + "Executor.__call__"], bounded="one coroutine")
def _options(r):
    class AgS:
        drivers = {"put": Dr0("a")}

    async def put(agent):
        return drv.priority, drv.sche_order

    async def other():
        pass

    ag = AgS()
    drv = ag.drivers["put"]
    drv.priority = drv.sche_order = "stale"
    with patched((E, "Event", Any)):
        ex = E.Executor("all")
    p = sym(r, "priority")
    order = "dut_first" if wrap(r.fresh("dut_first", Bool)) else "model_first" if wrap(r.fresh("model_first", Bool)) else "parallel" if wrap(r.fresh("parallel", Bool)) else None
    isd = wrap(r.fresh("driver", Bool))
    give_p = wrap(r.fresh("priority_given", Bool))
    c = put(ag) if isd else other()
    try:
        ex(c, priority=p if give_p else None, sche_order=order)
    except AssertionError:
        ok = BoolVal(False)
    else:
        ok = BoolVal(True)
    want_ok = And(Implies(BoolVal(give_p), And(p.t >= 0, p.t <= 99, BoolVal(isd))), Implies(BoolVal(order is not None), BoolVal(isd)))
    r.prove("accepted exactly if they make sense", ok == want_ok)
    if z3.is_false(ok) or not isd:
        c.close()
        return

    async def gather(*cs):
        return [finish(x) for x in cs]

    with patched((E, "gather", gather)):
        finish(ex.__aexit__(None, None, None))
    gp, go = ex.get_results()["a.put"]
    r.prove("the driver has the priority of the call", BoolVal(gp is p if give_p else gp is None))
    r.prove("the driver has the order of the call", go == ("model_first" if order == "parallel" else order))
