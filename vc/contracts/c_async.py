"""asynchronous.py: the settle loop, the clock loop, run and gather.

asyncio is not verified: its functions are replaced by stubs that carry these assumed contracts.
  all_tasks      the unfinished tasks
  loop._ready    the callbacks that the loop is to run, and nothing else runs without the clock: a
                 task that can run has one, and so has a future that is to wake up others
  sleep(0)       runs each of them once; other callbacks may be due then, and toffee's primitives
                 may have set `new_task_run`
  Event.set      wakes every coroutine that waits for the event, once
  create_task    the coroutine will run; awaiting the task gives its result
"""
import asyncio as real_asyncio
import types

from vc.api import *
from vc.contracts.ghost import *
from toffee import asynchronous as A

AM = "toffee.asynchronous."


class EventLoop:
    pass


class Nobody:
    pass


# ---------------------------------------------------------------- tasks of an epoch

ntasks = fn("ntasks", Int, Int)
tname = fn("task_name", Int, Int, Str)
no_waiter = fn("task_waits_for_nothing", Int, Int, Bool)
wdone = fn("task_waiter_done", Int, Int, Bool)
ran = fn("a_task_was_resumed_in_round", Int, Bool)
X = z3.Int("x")


class Waiter:
    def __init__(self, e, i):
        self.e, self.i = e, i

    def done(self):
        return wrap(wdone(self.e, self.i))


class Task:
    def __init__(self, e, i):
        self.e, self.i = e, i

    def get_name(self):
        return wrap(tname(self.e, self.i))

    @property
    def _fut_waiter(self):
        return None if wrap(no_waiter(self.e, self.i)) else Waiter(self.e, self.i)


# ---------------------------------------------------------------- callbacks that are due in an epoch

ndue = fn("callbacks_due", Int, Int)
dropped = fn("callback_is_cancelled", Int, Int, Bool)
of_task = fn("callback_of_a_task", Int, Int, Bool)
owner = fn("task_of_callback", Int, Int, Int)
due_of = fn("callback_of_task", Int, Int, Int)
Y = z3.Int("y")
CLOCK = z3.StringVal("__clock_loop")


class Handle:
    def __init__(self, e, i):
        self.e, self.i = e, i

    def cancelled(self):
        return wrap(dropped(self.e, self.i))

    @property
    def _cancelled(self):
        return self.cancelled()

    @property
    def _callback(self):
        return Due(self.e, self.i)


class Due:
    """a callback: a step of a task, or any other function"""

    def __init__(self, e, i):
        self.e, self.i = e, i

    @property
    def __self__(self):
        return Task(self.e, owner(self.e, self.i)) if wrap(of_task(self.e, self.i)) else None


def rng(x, n):
    return And(0 <= x, x < n)


def can_run(e, x):
    return And(rng(x, ntasks(e)), tname(e, x) != CLOCK, Or(no_waiter(e, x), wdone(e, x)))


def due(e, y):
    return And(rng(y, ndue(e)), Not(dropped(e, y)), Not(And(of_task(e, y), tname(e, owner(e, y)) == CLOCK)))


def something_due(e):
    return Exists([Y], due(e, Y))


class World:
    """the other tasks; `epoch` counts the rounds of the event loop"""

    Task = Task

    def __init__(self, r):
        self.epoch = wrap(r.fresh("epoch", Int))
        self.first = term(self.epoch, Int)
        self.loop = EventLoop()

    def get_event_loop(self):
        return self.loop

    get_running_loop = get_event_loop

    def known(self):
        e = term(self.epoch, Int)
        rt.R.assume(And(ntasks(e) >= 0, ndue(e) >= 0))
        rt.R.assume(ForAll([X], Implies(can_run(e, X), due(e, due_of(e, X)))))
        return e

    def all_tasks(self, *a):
        e = self.known()
        return SSeq(ntasks(e), lambda i: Task(e, i))

    async def sleep(self, t):
        self.epoch = self.epoch + 1
        # the flag keeps its value or is set by a task that goes on
        self.loop.new_task_run = rt.SBool(z3.Or(T(self.loop.new_task_run), ran(term(self.epoch, Int))))


class LoopWithCallbacks(EventLoop):
    def __init__(self, w):
        self.w = w

    @property
    def _ready(self):
        e = self.w.known()
        return SSeq(ndue(e), lambda i: Handle(e, i))


class Settling(World):
    def __init__(self, r):
        super().__init__(r)
        self.loop = LoopWithCallbacks(self)

    async def sleep(self, t):
        e = self.known()
        rt.R.prove("another round only if something is due", Or(e == self.first, something_due(e), ran(e)))
        await super().sleep(t)


def world(r):
    w = Settling(r)
    w.loop.new_task_run = sym(r, "flag", Bool)
    r.root("world", w)
    r.hooks["progress"] = lambda: term(w.epoch, Int)
    return w


@contract("P01", "settling ends only when the event loop has nothing to run, and goes on only if it may have", [AM + "__other_tasks_done", AM + "__run_once", AM + "__has_unwait_task", AM + "__has_ready_callback"])
def _settle(r):
    w = world(r)
    with patched((A, "asyncio", w)):
        finish(vars(A)["__other_tasks_done"]())
    e = w.known()
    x = sym(r, "x").t
    r.prove("at least one round", e > w.first)
    r.prove("no callback is due", Not(due(e, x)))
    r.prove("no task can run", Not(can_run(e, x)))


@contract("P01", "events, queues and sleeps wait, and hand on their items once", [AM + "Event.wait", AM + "Queue.get", AM + "Queue.put", AM + "sleep"])
def _resume(r):
    w = world(r)
    item = sym(r, "item", Val)
    given = []

    @types.coroutine
    def suspend():
        yield "suspended"

    async def base_wait(self):
        await suspend()
        return True

    async def base_get(self):
        await suspend()
        return item

    async def base_put(self, x):
        await suspend()
        given.append(x)

    async def base_sleep(t):
        await suspend()

    w.sleep = base_sleep

    def resumed(coro):
        r.prove("it waits", coro.send(None) == "suspended")
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
        r.fail("it goes on when it is woken")

    with patched((real_asyncio.Event, "wait", base_wait), (real_asyncio.Queue, "get", base_get), (real_asyncio.Queue, "put", base_put), (A, "asyncio", w)):
        resumed(A.Event().wait())
        q = A.Queue()
        got = resumed(q.get())
        r.prove("the item of the queue is handed on", rt.is_(got, item))
        resumed(q.put(item))
        r.prove("the item is put once", len(given) == 1 and rt.is_(given[0], item))
        resumed(A.sleep(sym(r, "seconds")))


# ---------------------------------------------------------------- one cycle

cbres = fn("callback_result", Int, Int, Bool)


class Callback:
    """a hook of the settle loop; the k-th round of it returns cbres(i, k)"""

    def __init__(self, i, g):
        self.i, self.g = i, g

    async def __call__(self, *a, **k):
        g = self.g
        g.count.write("runs", [self.i], g.count.read("runs", self.i) + 1)
        return wrap(cbres(self.i, term(g.round, Int)))


class Ghost:
    pass


class Args:
    def __init__(self, i):
        self.i = i


@contract("P01,P09", "every callback of the settle loop runs once, and any of them asks for another round", [AM + "__execute_callback"])
def _callbacks(r):
    g = Ghost()
    g.round = wrap(r.fresh("round", Int))
    g.count = rt.Store()
    g.count.field("runs", [Int], lambda i: IntVal(0))
    r.root("ghost", g)
    n = r.fresh("callbacks", Int)
    cbs = seq(r, "callbacks", lambda i: (Callback(i, g), (), {}), n)
    with patched((A, "callback_list", cbs)):
        got = finish(vars(A)["__execute_callback"]())
    r.prove("another round exactly if one of them asks for it", T(rt.b_bool(got)) == Exists([X], And(0 <= X, X < n, cbres(X, term(g.round, Int)))))
    r.prove("each runs once", ForAll([X], Implies(And(0 <= X, X < n), g.count.f["runs"](X) == 1)))


class CycleEnd:
    def __init__(self, i, g):
        self.i, self.g = i, g

    def __call__(self):
        g = self.g
        rt.R.prove("called when everything has settled", T(g.settled))
        g.count.write("ends", [self.i], g.count.read("ends", self.i) + 1)


again = fn("callbacks_ask_for_another_round", Int, Bool)


@contract("P01,P06", "a cycle ends settled, and each end-of-cycle callback runs once, then", [AM + "execute_all_coros"])
def _cycle(r):
    g = Ghost()
    g.settled, g.round, g.cancelled = False, wrap(r.fresh("round", Int)), 0
    g.count = rt.Store()
    g.count.field("ends", [Int], lambda i: IntVal(0))
    w = World(r)
    w.loop.test_done = sym(r, "test_done", Bool)
    r.root("ghost", g)
    r.hooks["progress"] = lambda: term(g.round, Int)

    async def settle():
        g.settled = True

    async def callbacks():
        r.prove("callbacks run when all tasks wait", T(g.settled))
        g.round = g.round + 1
        res = wrap(again(term(g.round, Int)))
        g.settled = rt.not_(res)
        return res

    async def cancel():
        g.cancelled = g.cancelled + 1
        g.settled = False

    n = r.fresh("ends", Int)
    ends = seq(r, "ends", lambda i: CycleEnd(i, g), n)
    with patched((A, "asyncio", w), (A, "cycle_end_callback_list", ends), (A, "__other_tasks_done", settle), (A, "__execute_callback", callbacks), (A, "cancel_all_tasks", cancel)):
        w.loop.new_task_run = False
        finish(A.execute_all_coros())
    done = T(w.loop.test_done)
    r.prove("everything has settled", Implies(Not(done), T(g.settled)))
    r.prove("each end-of-cycle callback ran exactly once", ForAll([X], Implies(And(0 <= X, X < n), g.count.f["ends"](X) == 1)))
    r.prove("all tasks are cancelled only when the test is done", term(g.cancelled, Int) == z3.If(done, 1, 0))


class Stop(Exception):
    """the event loop is gone"""


class Device:
    def __init__(self, g):
        self.g = g
        self.event = ClockEvent(g)

    def Step(self, n):
        g = self.g
        rt.R.prove("one cycle at a time", term(n, Int) == 1)
        rt.R.prove("only when everything has settled", g.phase == 1)
        g.phase = 2
        g.steps = g.steps + 1


class ClockEvent:
    def __init__(self, g):
        self.g = g

    def set(self):
        rt.R.prove("the waiting tasks are woken once after each step", self.g.phase == 2)
        self.g.phase = 3

    def clear(self):
        rt.R.prove("and wait for the next step from then on", self.g.phase == 3)
        self.g.phase = 0


stops = fn("the_loop_ends_at_step", Int, Bool)


@contract("P01", "the clock steps the device one cycle at a time, settled before and woken after every step", [AM + "__clock_loop"])
def _clock(r):
    g = Ghost()
    g.phase, g.steps = 0, 0
    w = World(r)
    w.loop.test_done = False
    w.loop.new_task_run = False
    r.root("ghost", g)

    async def settled():
        r.prove("every step is followed by waking the tasks", g.phase == 0)
        if wrap(stops(term(g.steps, Int))):
            raise Stop()
        g.phase = 1

    r.hooks["progress"] = lambda: term(g.steps, Int)
    with patched((A, "asyncio", w), (A, "execute_all_coros", settled)):
        e = raises(Stop, finish, vars(A)["__clock_loop"](Device(g)))
    r.prove("the clock runs until the loop ends", e is not None)
    k = term(g.steps, Int)
    r.prove("every cycle is stepped", ForAll([X], Implies(And(0 <= X, X < k), Not(stops(X)))))


@contract("P01", "the clock waits until the test has been set up", [AM + "__clock_loop"])
def _clock_start(r):
    g = Ghost()
    g.phase, g.steps = 0, 0
    w = World(r)
    w.loop.new_task_run = False
    r.root("ghost", g)
    rounds = [0]

    async def sleep(t):
        rounds[0] += 1
        if rounds[0] == 3:
            w.loop.test_done = False
        if rounds[0] > 10:
            raise Stop()

    w.sleep = sleep

    async def settled():
        r.prove("not before the test has been set up", rounds[0] == 3)
        raise Stop()

    with patched((A, "asyncio", w), (A, "execute_all_coros", settled)):
        raises(Stop, finish, vars(A)["__clock_loop"](Device(g)))


class Named:
    def set_name(self, n):
        self.name = n


@contract("P01", "start_clock starts the clock of the device and marks its task", [AM + "start_clock"])
def _start(r):
    g = Ghost()
    g.phase, g.steps = 0, 0
    w = World(r)
    tasks, coros = [], []

    def create_task(c):
        coros.append(c)
        tasks.append(Named())
        return tasks[-1]

    dut = Device(g)
    with patched((A, "asyncio", w), (A, "create_task", create_task)):
        A.start_clock(dut)
    for c in coros:
        c.close()
    r.prove("one task", len(tasks) == 1)
    r.prove("marked as the clock", tasks[0].name == "__clock_loop")
    r.prove("the clock of this device is the global one", w.loop.global_clock_event is dut.event)


# ---------------------------------------------------------------- the end of a test

cur = z3.Int("current_task")


class CTask:
    _vc_data = True

    def __init__(self, i):
        self.i = i

    def _vc_is(self, o):
        a, b = self, o
        if type(a) is CTask and type(b) is CTask:
            return wrap(a.i == b.i)
        return False

    def get_name(self):
        return wrap(tname(IntVal(0), self.i))

    def cancel(self):
        g = ghost()
        g.count.write("cancelled", [self.i], g.count.read("cancelled", self.i) + 1)


@contract("P01,P02", "at the end every task but the clock's own and the test's is cancelled and awaited", [AM + "cancel_all_tasks"])
def _cancel(r):
    g = Ghost()
    g.count = rt.Store()
    g.count.field("cancelled", [Int], lambda i: IntVal(0))
    g.count.field("awaited", [Int], lambda i: IntVal(0))
    r.root("ghost", g)
    n = r.fresh("tasks", Int)
    r.assume(And(0 <= cur, cur < n))
    w = World(r)
    w.all_tasks = lambda: seq(r, "tasks", lambda i: CTask(i), n)
    w.current_task = lambda: CTask(cur)
    others = lambda i: And(0 <= i, i < n, i != cur, tname(IntVal(0), i) != z3.StringVal("main_coro"))

    async def gather(*ts, return_exceptions=False):
        r.prove("an exception of a cancelled task does not escape", return_exceptions is True)
        r.prove("they are cancelled before they are awaited", ForAll([X], Implies(others(X), g.count.f["cancelled"](X) == 1)))
        i = r.fresh("k", Int)
        r.assume(others(i))
        r.prove("all of them are awaited", T(rt.in_(CTask(i), ts)))

    w.gather = gather
    with patched((A, "asyncio", w)):
        finish(A.cancel_all_tasks())
    r.prove("exactly the others are cancelled", ForAll([X], g.count.f["cancelled"](X) == z3.If(others(X), 1, 0)))


# ---------------------------------------------------------------- P02

out = fn("result_of_coroutine", Int, Val)


class Coro:
    def __init__(self, i):
        self.i = i


class Running:
    _vc_data = True

    def __init__(self, i):
        self.i = i

    def __await__(self):
        g = ghost()
        rt.R.prove("all are started before the first is awaited", ForAll([X], Implies(And(0 <= X, X < g.n), g.count.f["started"](X) == 1)))
        return wrap(out(self.i))
        yield


@contract("P02", "gather starts all coroutines and gives their results in argument order", [AM + "gather"])
def _gather(r):
    g = Ghost()
    g.count = rt.Store()
    g.count.field("started", [Int], lambda i: IntVal(0))
    g.n = r.fresh("n", Int)
    r.root("ghost", g)

    def create_task(c):
        g.count.write("started", [c.i], g.count.read("started", c.i) + 1)
        return Running(c.i)

    coros = seq(r, "coros", Coro, g.n)
    with patched((A, "create_task", create_task)):
        res = finish(A.gather(rt.SymStar(coros)))
    r.prove("each is started once", ForAll([X], Implies(And(0 <= X, X < g.n), g.count.f["started"](X) == 1)))
    r.prove("one result for each", term(rt.b_len(res), Int) == g.n)
    k = sym(r, "k")
    r.assume(And(0 <= k.t, k.t < g.n))
    r.prove("the k-th result is that of the k-th coroutine", term(res[k], rt.Val) == out(k.t))


class Ended(Exception):
    pass


class Several(tuple):
    """several values under names of their own (a named tuple)"""


class Empty:
    """an environment that counts as false"""

    def __bool__(self):
        return False


def _main(env, as_coro, fails, clock, via_run):
    def scenario(r):
        w = World(r)
        ev = Clock(0)
        log = []
        if clock:
            w.loop.global_clock_event = ev
        w.loop.set_exception_handler = lambda h: None
        w.current_task = Named
        result = sym(r, "result", Val)
        vals = [Nobody() for k in range(3)]
        made = {"none": None, "one": vals[0], "no values": (), "one value": (vals[0],), "three values": tuple(vals), "a list": [vals[0], vals[1]], "named values": Several(vals), "an empty list": [], "a false value": Empty(), "nothing": None}[env]
        want = () if env == "none" else made if isinstance(made, tuple) else (made,)
        exc = Ended()

        async def test(*args):
            log.append(("test", args))
            r.prove("the test is not over while it runs", T(w.loop.test_done) == False)  # noqa: E712
            if fails:
                raise exc
            return result

        def factory():
            log.append(("env",))
            return made

        def run_stub(coro):
            return finish(coro)

        w.run = run_stub
        arg = test() if as_coro else test
        call = (lambda: A.run(arg, *([factory] if env != "none" else []))) if via_run else (lambda: finish(A.main_coro(arg, *([factory] if env != "none" else []))))
        with patched((A, "asyncio", w), (A, "create_task", lambda c: c), (A, "summary", lambda: None)):
            if fails:
                e = raises(Ended, call)
                r.prove("the exception of the test escapes", e is exc)
            else:
                got = call()
                r.prove("returns what the test returns", rt.is_(got, result))
                r.prove("the test is marked as over", T(w.loop.test_done))
                if clock:
                    r.prove("the cycle in which the test ends is completed", term(ev.now, Int) == 1)
        r.prove("the environment is made once, then the test runs once", [x[0] for x in log] == (["env"] if env != "none" else []) + ["test"])
        args = log[-1][1]
        r.prove("the test gets exactly the values of the environment factory", len(args) == len(want))
        for a, b in zip(args, want):
            r.prove("the test gets exactly the values of the environment factory", And(BoolVal(a is b) if not rt.issym(b) else T(rt.is_(a, b))))

    return scenario


for _e in ("none", "one", "no values", "one value", "three values", "a list", "named values", "an empty list", "a false value", "nothing"):
    for _f in (False, True):
        contract("P02", f"run: {'failing ' if _f else ''}test, environment factory: {_e}", [AM + "main_coro", AM + "run"], bounded="shape of the factory's result" if _e != "none" else None)(_main(_e, False, _f, True, True))
contract("P02", "run: test given as a coroutine", [AM + "main_coro", AM + "run"])(_main("none", True, False, True, True))
contract("P02", "run: without a clock", [AM + "main_coro", AM + "run"])(_main("none", False, False, False, True))
contract("P02", "main_coro: test with environment", [AM + "main_coro"], bounded="shape of the factory's result")(_main("three values", False, False, True, False))


@contract("P02", "a component's main runs once, when the clock ticks", [AM + "Component.__main_wrapper", AM + "Component.__init__"])
def _component(r):
    w = World(r)
    w.loop.new_task_run = False
    ev = Clock(0)
    coros, log, rounds = [], [], [0]

    async def sleep(t):
        rounds[0] += 1
        if rounds[0] == 2:
            w.loop.global_clock_event = ev
        if rounds[0] > 20:
            raise Stop()

    w.sleep = sleep

    class C(A.Component):
        async def main(self):
            r.prove("not before the first cycle", term(ev.now, Int) == 1)
            log.append(self)

    with patched((A, "asyncio", w), (A, "create_task", coros.append)):
        c = C()
        r.prove("nothing runs before the event loop runs", log == [])
        r.prove("one task", len(coros) == 1)
        finish(coros[0])
    r.prove("main runs once", len(log) == 1 and log[0] is c)
