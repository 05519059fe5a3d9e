"""_base_agent.py, executor.py (priority tasks), model.py (ports), agent.py (wrappers).

Assumed: the contract of `inspect.signature(f).bind(...)` in the unbounded contracts (the arguments
by parameter name, defaults after apply_defaults; the contracts with fixed signatures run the real
one), asyncio.Queue (FIFO), `sorted` (a stable sort).  A priority task runs after it was added and
its event is set after it has run (contract of __execute_priority_tasks below); gather awaits all
(P02).
"""
import asyncio as real_asyncio
import dis
import functools
import inspect as real_inspect

from vc.api import *
from vc import lib as LIB
from vc.contracts.ghost import *
from toffee import _base_agent as B
from toffee import executor as E
from toffee import model as MO
from toffee import agent as AG
from toffee import asynchronous as A

BM, EM, MM = "toffee._base_agent.", "toffee.executor.", "toffee.model."
AM_ = "toffee.asynchronous."
X, Y = z3.Int("x"), z3.Int("y")

nmodels = z3.Int("models")
has_dp = fn("model_has_driver_port", Int, Bool)
has_dh = fn("model_has_driver_hook", Int, Bool)
n_ap = fn("number_of_agent_ports", Int, Int)
n_ah = fn("number_of_agent_hooks", Int, Int)
first_d = fn("driver_hook_is_model_first", Int, Bool)
first_a = fn("agent_hook_is_model_first", Int, Int, Bool)
prio_d = fn("driver_hook_priority", Int, Int)
prio_a = fn("agent_hook_priority", Int, Int, Int)
none_d = fn("driver_hook_returns_nothing", Int, Bool)
none_a = fn("agent_hook_returns_nothing", Int, Int, Bool)


class Ghost:
    pass


def settled(code, name):
    """is the variable of the function assigned once at most, so that a closure always sees that value?"""
    ins = list(dis.get_instructions(code))
    stores = [i.offset for i in ins if i.opname in ("STORE_DEREF", "DELETE_DEREF") and i.argval == name]
    loops = [(i.argval, i.offset) for i in ins if i.opname.startswith("JUMP_BACKWARD") or i.opname == "JUMP_ABSOLUTE"]
    param = name in code.co_varnames[: code.co_argcount + code.co_kwonlyargcount + bool(code.co_flags & 4) + bool(code.co_flags & 8)]
    return len(stores) <= (0 if param else 1) and not any(a <= o <= b for o in stores for a, b in loops)


def runs_alike_later(coro):
    """The contracts below run a hook at the moment at which it is handed over, the event loop runs it
    later.  There is no difference if what it refers to is not assigned any more: every variable that
    it captures is a parameter that is never assigned, or assigned once and not in a loop."""
    code = getattr(coro, "cr_code", None)
    if code is None:
        raise Unsupported("a task of another kind")
    for n in code.co_freevars:
        f = sys._getframe(1)
        while f is not None and n not in f.f_code.co_cellvars:
            f = f.f_back
        if f is None or not settled(f.f_code, n):
            raise Unsupported(f"a hook that runs later sees changes of {n}")


class Res:
    """what a hook returns"""

    _vc_data = True

    def __init__(self, kind, i, j):
        self.kind, self.i, self.j = kind, i, j

    def _vc_is(self, o):
        if self is None:
            self, o = o, self
        if o is None:
            return wrap(none_d(self.i) if self.kind == "d" else none_a(self.i, self.j))
        return self is o


class Tok:
    """waiting for the event of a hook"""

    _vc_data = True

    def __init__(self, kind, i, j):
        self.kind, self.i, self.j = kind, i, j

    def eq(self, o):
        return And(BoolVal(self.kind == o.kind), self.i == o.i, self.j == o.j)


class GEvent:
    """an event that is set when its priority task has run"""

    def __init__(self):
        self.of = None

    def wait(self):
        if self.of is None:
            rt.R.fail("only events of tasks that were added are awaited")
            raise Unsupported("an event without a task")
        return Tok(*self.of)


ZERO = IntVal(0)


class DHook:
    _vc_data = True

    def __init__(self, i):
        self.i = i
        self.__name__ = "driver_hook"

    @property
    def __priority__(self):
        return wrap(prio_d(self.i))

    @property
    def __sche_order__(self):
        return "model_first" if wrap(first_d(self.i)) else "dut_first"

    def __call__(self, *args, **kw):
        g = ghost()
        g.called("d", self.i, ZERO)
        g.same_args(args, kw)
        return Res("d", self.i, ZERO)


class AHook:
    _vc_data = True

    def __init__(self, i, j):
        self.i, self.j = i, j
        self.__name__ = "agent_hook"

    @property
    def __priority__(self):
        return wrap(prio_a(self.i, self.j))

    @property
    def __sche_order__(self):
        return "model_first" if wrap(first_a(self.i, self.j)) else "dut_first"

    def __call__(self, *args, **kw):
        g = ghost()
        g.called("a", self.i, self.j)
        g.path_and_args(args, kw)
        return Res("a", self.i, self.j)


class DPort:
    _vc_data = True

    def __init__(self, i):
        self.i = i

    async def put(self, v):
        g = ghost()
        g.inc("dp", self.i)
        g.port_value(v, False)


class APort:
    _vc_data = True

    def __init__(self, i, j):
        self.i, self.j = i, j

    async def put(self, v):
        g = ghost()
        g.inc("ap", self.i, self.j)
        g.port_value(v, True)


class MKey:
    _vc_data = True

    def __init__(self, i):
        self.i = i


class Info:
    _vc_data = True

    def __init__(self, i):
        self.i = i

    def __getitem__(self, k):
        i = self.i
        if k == "driver_port":
            return DPort(i) if wrap(has_dp(i)) else None
        if k == "driver_hook":
            return DHook(i) if wrap(has_dh(i)) else None
        if k == "agent_port":
            return SSeq(n_ap(i), lambda j: APort(i, j), "agent_ports")
        if k == "agent_hook":
            return SSeq(n_ah(i), lambda j: AHook(i, j), "agent_hooks")
        raise KeyError(k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d


class Infos:
    """the models attached to the environment of a driver, in order"""

    def items(self):
        return SSeq(nmodels, lambda i: (MKey(i), Info(i)), "models")

    def values(self):
        return SSeq(nmodels, Info, "models")

    def keys(self):
        return SSeq(nmodels, MKey, "models")

    def _vc_parts(self):
        return self.keys().parts()

    def __symlen__(self):
        return wrap(nmodels)

    def __getitem__(self, k):
        return Info(k.i)

    def __bool__(self):
        return rt.R.fork(nmodels > 0)


class Values:
    def __init__(self, d):
        self.d = d

    def _vc_parts(self):
        return self.d.vals().parts()

    def __iter__(self):
        if not self.d.n_entries > 0:
            return iter(())
        return iter([self.d.vals()[0]])  # only the first is ever taken outside a loop


pval = fn("value_of_parameter", Int, Val)


class ArgsDict:
    """the arguments of a call by parameter name, with "self" until it is deleted"""

    def __init__(self, n):
        self.n, self.with_self = n, True

    @property
    def n_entries(self):
        return wrap(self.n) + (1 if self.with_self else 0)

    def __symlen__(self):
        return self.n_entries

    def __bool__(self):
        return bool(self.n_entries > 0)

    def vals(self):
        if self.with_self:
            raise Unsupported("the values with self")
        return SSeq(self.n, lambda j: wrap(pval(j)), "arguments")

    def values(self):
        return Values(self)

    def __delitem__(self, k):
        if k != "self" or not self.with_self:
            raise KeyError(k)
        self.with_self = False

    def pop(self, k, *d):
        if k == "self" and self.with_self:
            self.with_self = False
            return None
        raise Unsupported("pop of an argument")


class State(Ghost):
    """ghost state of one driver call"""

    def setup(self, r, n_args):
        self.r = r
        self.count = rt.Store()
        for n, k in (("d", 1), ("a", 2), ("dp", 1), ("ap", 2), ("cmp_d", 1), ("cmp_a", 2), ("awaited", 1)):
            self.count.field(n, [Int] * k, (lambda i: ZERO) if k == 1 else (lambda i, j: ZERO))
        self.phase = 0
        self.waited = []
        self.cur = None
        self.binds = 0
        self.running = False
        r.assume(nmodels >= 0)
        r.assume(ForAll([X], And(n_ap(X) >= 0, n_ah(X) >= 0)))

    def inc(self, f, *ix):
        self.count.write(f, list(ix), self.count.read(f, *ix) + 1)

    def called(self, kind, i, j):
        self.inc(*((kind, i) if kind == "d" else (kind, i, j)))
        first = T(self.is_first(first_d(i) if kind == "d" else first_a(i, j)))
        rt.R.prove("a hook ordered before the device runs before the driver, one ordered after it afterwards", first == BoolVal(self.phase == 0))
        rt.R.prove("hooks run as priority tasks", self.running)
        self.cur = (kind, i, j)

    def is_first(self, own):
        return own if self.order is None else self.order == "model_first"


class Bound:
    def __init__(self, n):
        self._n, self.defaults, self._a = n, False, None

    def apply_defaults(self):
        self.defaults = True
        self._a = ArgsDict(self._n)

    @property
    def arguments(self):
        rt.R.prove("defaults are filled in", self.defaults)
        return self._a if self._a is not None else ArgsDict(self._n)


class Sig:
    def __init__(self, f):
        self.f = f

    def bind(self, *a, **k):
        g = ghost()
        rt.R.prove("the parameters are those of the driver's function", self.f is g.func)
        rt.R.prove("self is bound to nothing", len(a) >= 1 and a[0] is None)
        g.same_args(a[1:], k)
        return Bound(g.n_params)


class Inspect:
    def signature(self, f):
        return Sig(f)

    def iscoroutinefunction(self, f):
        return False

    def __getattr__(self, n):
        return getattr(real_inspect, n)


def driver_call(order, prio_given, one_param):
    def scenario(r):
        g = State()
        g.setup(r, None)
        g.order = order
        g.n_params = r.fresh("parameters", Int)
        r.assume(g.n_params == 1 if one_param else And(g.n_params >= 0, g.n_params != 1))
        given = sym(r, "priority_of_the_call") if prio_given else None
        nargs = r.fresh("positional_arguments", Int)
        r.assume(nargs >= 0)
        arg = fn("argument", Int, Val)
        args = SSeq(nargs, lambda i: wrap(arg(i)), "args")
        kwarg = sym(r, "keyword_argument", Val)
        the_agent = Ghost()
        dut_result = sym(r, "result_of_the_driver", Val)
        r.root("ghost", g)

        def same_args(a, k):
            ps = rt.parts_of(tuple(a))
            ok = ps is not None and len(ps) == 1 and isinstance(ps[0], Many)
            rt.R.prove("exactly the arguments of the call", ok)
            if ok:
                q = ps[0]
                rt.R.prove("exactly the arguments of the call", And(term(q.n) == nargs, ForAll([Y], Implies(And(0 <= Y, Y < nargs), term(q.unit(Y), rt.Val) == arg(Y)))))
            rt.R.prove("exactly the keyword arguments of the call", same(k["key"], kwarg) if list(k) == ["key"] else BoolVal(False))

        def args_by_name(d):
            rt.R.prove("all parameters by name, without self", isinstance(d, ArgsDict) and not d.with_self and d.n is g.n_params)

        def path_and_args(a, k):
            rt.R.prove("an agent hook gets the path and the arguments", len(a) == 2 and not k)
            rt.R.prove("the path of the driver", a[0] == "ag.drive")
            args_by_name(a[1])

        def port_value(v, agent_port):
            rt.R.prove("ports get the arguments before the driver runs", g.phase == 0)
            if agent_port:
                rt.R.prove("an agent port gets the path and the arguments", type(v) is tuple and len(v) == 2 and v[0] == "ag.drive")
                args_by_name(v[1])
            elif isinstance(v, ArgsDict):
                args_by_name(v)
                rt.R.prove("all by name unless there is only one", Not(g.n_params == 1))
            else:
                rt.R.prove("the bare argument if there is only one", And(g.n_params == 1, term(v, rt.Val) == pval(ZERO)))

        g.same_args, g.path_and_args, g.port_value = same_args, path_and_args, port_value

        def hooks_state(first_ran, rest_ran, fields=("d", "a")):
            d, a = g.count.f[fields[0]], g.count.f[fields[1]]
            fd, fa = T(rt.b_bool(g.is_first(wrap(first_d(X))))), T(rt.b_bool(g.is_first(wrap(first_a(X, Y)))))
            inm = And(0 <= X, X < nmodels)
            return And(
                ForAll([X], d(X) == z3.If(And(inm, has_dh(X)), z3.If(fd, IntVal(first_ran), IntVal(rest_ran)), ZERO)),
                ForAll([X, Y], a(X, Y) == z3.If(And(inm, 0 <= Y, Y < n_ah(X)), z3.If(fa, IntVal(first_ran), IntVal(rest_ran)), ZERO)),
            )

        async def func(self, *a, **k):
            r.prove("the driver runs once", g.phase == 0)
            r.prove("on its own agent", self is the_agent)
            same_args(a, k)
            awaited(True)
            r.prove("exactly those, once each", hooks_state(1, 0))
            r.prove("each port has got the arguments once", And(
                ForAll([X], g.count.f["dp"](X) == z3.If(And(0 <= X, X < nmodels, has_dp(X)), IntVal(1), ZERO)),
                ForAll([X, Y], g.count.f["ap"](X, Y) == z3.If(And(0 <= X, X < nmodels, 0 <= Y, Y < n_ap(X)), IntVal(1), ZERO))))
            r.prove("the options of the call apply to this call only", And(BoolVal(drv.priority is None), BoolVal(drv.sche_order is None)))
            g.phase = 1
            return dut_result

        func.__name__ = "drive"
        g.func = func

        def add_task(coro, priority, event=None):
            runs_alike_later(coro)
            g.running, g.cur = True, None
            finish(coro)
            g.running = False
            rt.R.prove("a priority task runs one hook", g.cur is not None)
            if g.cur is None:
                raise Unsupported("no hook ran")
            kind, i, j = g.cur
            own = prio_d(i) if kind == "d" else prio_a(i, j)
            rt.R.prove("the priority is that of the call or else of the hook", term(priority, Int) == (own if given is None else given.t))
            if event is not None:
                event.of = g.cur

        async def gather(*toks):
            g.waited.append((g.phase, toks))

        def awaited(before):
            """the hooks ordered before (after) the device are awaited, together or in parts"""
            lists = [toks for phase, toks in g.waited if phase == (0 if before else 1)]
            waits_for = lambda tok: Or(BoolVal(False), *[member(toks, lambda t: t.eq(tok)) for toks in lists])
            i, j = r.fresh("some_model", Int), r.fresh("some_hook", Int)
            fd, fa = T(rt.b_bool(g.is_first(wrap(first_d(i))))), T(rt.b_bool(g.is_first(wrap(first_a(i, j)))))
            inm = And(0 <= i, i < nmodels)
            r.prove("all their driver hooks are awaited", Implies(And(inm, has_dh(i), fd if before else Not(fd)), waits_for(Tok("d", i, ZERO))))
            r.prove("all their agent hooks are awaited", Implies(And(inm, 0 <= j, j < n_ah(i), fa if before else Not(fa)), waits_for(Tok("a", i, j))))

        def compare(a, b, *rest, **kw):
            rt.R.prove("compared with the result of this call", rt.is_(a, dut_result) is True or a is dut_result)
            rt.R.prove("a result of a hook", isinstance(b, Res))
            g.inc(*(("cmp_d", b.i) if b.kind == "d" else ("cmp_a", b.i, b.j)))

        tasks = []
        with patched((B, "inspect", Inspect()), (B, "Event", GEvent), (B, "add_priority_task", add_task), (B, "gather", gather), (B, "compare_once", compare), (B, "create_task", tasks.append)):
            drv = B.Driver(func)
            drv.agent_name, drv.path = "ag", "ag.drive"
            drv.model_infos = Infos()
            drv.priority, drv.sche_order = given, order
            got = finish(drv.process_driver_call(the_agent, args, {"key": kwarg}))
            r.prove("the caller gets the driver's own result", got is dut_result)
            r.prove("the driver has run", g.phase == 1)
            r.prove("hooks ordered after the device run after the caller has its result", hooks_state(1, 0))
            for c in tasks:
                finish(c)
        awaited(False)
        r.prove("every matching hook has run exactly once and no other", hooks_state(1, 1))
        cd, ca = g.count.f["cmp_d"], g.count.f["cmp_a"]
        inm = And(0 <= X, X < nmodels)
        r.prove("every result of a driver hook other than nothing is compared once", ForAll([X], cd(X) == z3.If(And(inm, has_dh(X), Not(none_d(X))), IntVal(1), ZERO)))
        r.prove("every result of an agent hook other than nothing is compared once", ForAll([X, Y], ca(X, Y) == z3.If(And(inm, 0 <= Y, Y < n_ah(X), Not(none_a(X, Y))), IntVal(1), ZERO)))

    return scenario


for _o in (None, "model_first", "dut_first"):
    for _p in (False, True):
        for _n in (True, False):
            contract("P07,P08,P09,P10", f"a driver call: order {_o or 'of the hooks'}, priority {'given' if _p else 'of the hooks'}, {'one parameter' if _n else 'not one parameter'}", [BM + "Driver.process_driver_call"])(driver_call(_o, _p, _n))


# ---------------------------------------------------------------- fixed numbers of hooks, real inspect, hooks run later


def later(shape, sig, call, want):
    """hooks run when the driver call waits, in an arbitrary order of two; parameters as in `sig`"""

    def scenario(r):
        ns = {}
        vals = [sym(r, f"v{k}", Val) for k in range(5)]
        phase, log, todo = ["before"], [], []
        env = {"vals": vals, "phase": phase, "log": log, "r": r}
        exec(f"async def drive(self, {sig}):\n    phase[0] = 'driver'\n    log.append(('driver', self))\n    return 'result'\n", env)
        hooks, infos, expect = [], {}, []

        def dhook(m):
            def h(*a, **k):
                log.append(("d", m, a, k, phase[0]))
                return None

            h.__name__, h.__priority__, h.__sche_order__ = "drive", 50 + m, "model_first" if shape[m][1] == "mf" else "dut_first"
            return h

        def ahook(m, n):
            def h(*a, **k):
                log.append(("a", m, n, a, k, phase[0]))
                return None

            h.__name__, h.__priority__, h.__sche_order__ = "ag", 20 + m, "model_first" if n % 2 else "dut_first"
            return h

        ports = {}

        class P:
            def __init__(self):
                self.got = []

            async def put(self, v):
                self.got.append(v)

        for m, (nah, d, nap, dp) in enumerate(shape):
            infos[m] = {"agent_hook": [ahook(m, n) for n in range(nah)], "driver_hook": dhook(m) if d else None, "agent_port": [P() for _ in range(nap)], "driver_port": P() if dp else None}

        class Ev:
            def wait(self):
                return self

        async def gather(*evs):
            mine = list(todo)
            del todo[:]
            r.prove("every event belongs to a task that was added", len(evs) == len(mine) and all(any(e is m[2] for m in mine) for e in evs))
            if len(mine) > 1 and wrap(r.fresh("reversed", Bool)):
                mine.reverse()
            for c, p, e in mine:
                finish(c)

        tasks = []
        with patched((B, "Event", Ev), (B, "add_priority_task", lambda c, p, e=None: todo.append((c, p, e))), (B, "gather", gather), (B, "create_task", tasks.append)):
            drv = B.Driver(env["drive"])
            drv.agent_name, drv.path = "ag", "ag.drive"
            drv.model_infos = infos
            agent = Ghost()
            a, k = call(vals)
            got = finish(drv.process_driver_call(agent, a, k))
            r.prove("the driver's result", got == "result")
            phase[0] = "after"
            for c in tasks:
                finish(c)
        byname = want(vals)

        def same_dict(x):
            r.prove("all parameters by name in order", list(x) == list(byname))
            for n in byname:
                r.prove("with the values of the call or the defaults", x[n] is byname[n] or type(x[n]) is int and x[n] == byname[n])

        for m, (nah, d, nap, dp) in enumerate(shape):
            mine = [e for e in log if e[0] == "d" and e[1] == m]
            r.prove("each driver hook once", len(mine) == (1 if d else 0))
            for e in mine:
                r.prove("the call's own arguments", len(e[2]) == len(a) and all(x is y for x, y in zip(e[2], a)) and list(e[3]) == list(k) and all(e[3][n] is k[n] for n in k))
                r.prove("in its order", e[4] == ("before" if d == "mf" else "after"))
            for n in range(nah):
                mine = [e for e in log if e[0] == "a" and e[1:3] == (m, n)]
                r.prove("each agent hook once", len(mine) == 1)
                r.prove("in its order", mine[0][5] == ("before" if n % 2 else "after"))
                r.prove("the path", len(mine[0][3]) == 2 and mine[0][3][0] == "ag.drive")
                same_dict(mine[0][3][1])
            for p in infos[m]["agent_port"]:
                r.prove("each agent port once", len(p.got) == 1 and p.got[0][0] == "ag.drive")
                same_dict(p.got[0][1])
            if dp:
                g = infos[m]["driver_port"].got
                r.prove("each driver port once", len(g) == 1)
                if len(byname) == 1:
                    r.prove("the bare argument", g[0] is list(byname.values())[0])
                else:
                    same_dict(g[0])
        r.prove("nothing else", len(log) == 1 + sum(s[0] + bool(s[1]) for s in shape))

    return scenario


SHAPES = {"one hook of each kind": [(1, "mf", 0, 0)], "one model with everything": [(2, "df", 1, 1)], "two models": [(2, "mf", 0, 1), (1, "df", 2, 0)], "three models": [(1, "mf", 0, 0), (0, None, 0, 0), (1, "mf", 1, 1)], "nothing": []}
SIGS = {
    "a, b=7": ("a, b=7", lambda v: ((v[0],), {}), lambda v: {"a": v[0], "b": 7}),
    "a, b by keyword": ("a, b", lambda v: ((), {"b": v[0], "a": v[1]}), lambda v: {"a": v[1], "b": v[0]}),
    "one": ("a", lambda v: ((v[0],), {}), lambda v: {"a": v[0]}),
    "none": ("", lambda v: ((), {}), lambda v: {}),
    "keyword only": ("a, *, k=3, l", lambda v: ((v[0],), {"l": v[1]}), lambda v: {"a": v[0], "k": 3, "l": v[1]}),
}
for _s in SHAPES:
    for _g in SIGS:
        contract("P07,P10", f"a driver call with hooks run later: {_s}; parameters {_g}", [BM + "Driver.process_driver_call"], bounded="up to 3 models, 2 agent hooks each; fixed signature")(later(SHAPES[_s], *SIGS[_g]))


@contract("P07", "calling a driver method calls its driver with the same arguments and gives its result", [AG.__name__ + ".__driver_wrapped_func"], bounded="two agents with two methods each")
def _wrapper(r):
    x, y, res = sym(r, "x", Val), sym(r, "y", Val), sym(r, "res", Val)
    log = []

    class Dr:
        def __init__(self, f):
            self.f = f
            self.__name__ = f.__name__

        async def process_driver_call(self, agent, args, kwargs):
            log.append((self, agent, tuple(args), dict(kwargs)))
            return res

    class Mo:
        def __init__(self, agent, f):
            self.f = f

    with patched((AG, "Driver", Dr), (AG, "Monitor", Mo), (AG, "warning", lambda *a: None)):

        class Ag(AG.Agent):
            @AG.driver_method()
            async def put(self, a, b=1):
                r.fail("only the driver calls it")

            @AG.driver_method()
            async def get(self):
                r.fail("only the driver calls it")

        class Ag2(Ag):
            pass

        async def step():
            pass

        a1, a2 = Ag(step), Ag2(step)
        for ag in (a1, a2):
            for name, m in (("put", ag.put), ("get", ag.get)):
                log.clear()
                got = finish(m(x, k=y))
                r.prove("one call of one driver", len(log) == 1)
                d, agent, a, k = log[0]
                r.prove("the driver of this method and agent", d is ag.drivers[name] and d.f.__name__ == name and agent is ag)
                r.prove("the same arguments", len(a) == 1 and a[0] is x and list(k) == ["k"] and k["k"] is y)
                r.prove("the driver's result", got is res)
        r.prove("agents do not share drivers", not any(p is q for p in a1.drivers.values() for q in a2.drivers.values()))


# ---------------------------------------------------------------- P08

from toffee import _compare as CM  # noqa: E402

custom_eq = fn("custom_compare", rt.Val, rt.Val, Bool)


for _c in ("default", "custom"):

    @contract("P08", f"compare_once fails exactly if the results differ: {_c} comparison", ["toffee._compare.compare_once"])
    def _compare(r, _c=_c):
        a, b = sym(r, "dut", Val), sym(r, "std", Val)
        detail = sym(r, "detail", Bool)
        errors = []
        cmp = None if _c == "default" else (lambda x, y: wrap(custom_eq(term(x, rt.Val), term(y, rt.Val))))
        eq = T(a == b) if _c == "default" else custom_eq(a.t, b.t)
        with patched((CM, "error", errors.append), (CM, "info", lambda *a: None)):
            try:
                got = CM.compare_once(a, b, cmp, match_detail=detail)
            except AssertionError:
                r.prove("fails only if they differ", Not(eq))
                r.prove("the difference is reported", len(errors) == 1)
            else:
                r.prove("passes only if they are equal", eq)
                r.prove("no error is reported", errors == [])


# ---------------------------------------------------------------- P09

prio = fn("priority", Int, Int)
perm = fn("nth_in_sorted_order", Int, Int)
has_ev = fn("task_has_event", Int, Bool)


class PCoro:
    def __init__(self, i):
        self.i = i

    def __await__(self):
        g = ghost()
        g.at.write("at", [term(g.k, Int)], self.i)
        g.k = g.k + 1
        return None
        yield


class PEvent:
    def __init__(self, i):
        self.i = i

    def set(self):
        g = ghost()
        k = term(g.k, Int) - 1
        g.at.write("set", [k], self.i)


def sort_contract(r, n):
    """a stable sort of a list of symbolic length"""

    def hook(xs, key, reverse):
        q = rt.parts_of(xs)
        if len(q) != 1 or not isinstance(q[0], Many) or q[0].unit is None:
            raise Unsupported("sorted of another list")
        if rt.R.fork(T(rt.b_bool(reverse))):
            raise Unsupported("sorted in reverse")
        m, unit = term(q[0].n), q[0].unit
        kf = lambda i: term(key(unit(i)) if key is not None else unit(i), Int)
        inr = lambda x: And(0 <= x, x < m)
        inv = fn("position_in_sorted_order", Int, Int)
        r.assume(ForAll([X], Implies(inr(X), And(inr(perm(X)), inv(perm(X)) == X))))
        r.assume(ForAll([X], Implies(inr(X), And(inr(inv(X)), perm(inv(X)) == X))))
        r.assume(ForAll([X, Y], Implies(And(inr(X), inr(Y), X < Y), And(kf(perm(X)) <= kf(perm(Y)), Implies(kf(perm(X)) == kf(perm(Y)), perm(X) < perm(Y))))))
        return SList(parts=[Many(m, lambda k: [One(unit(perm(k)))], unit=lambda k: unit(perm(k)))])

    return hook


@contract("P09", "the priority tasks of a round run in ascending order of priority, equal ones in the order they came", [EM + "__execute_priority_tasks"])
def _priorities(r):
    g = Ghost()
    g.k = 0
    g.at = rt.Store()
    g.at.field("at", [Int], lambda k: IntVal(-1))
    g.at.field("set", [Int], lambda k: IntVal(-1))
    r.root("ghost", g)
    n = r.fresh("tasks", Int)
    r.assume(n >= 0)
    r.hooks["sorted"] = sort_contract(r, n)
    item = lambda i: (PCoro(i), wrap(prio(i)), PEvent(i) if wrap(has_ev(i)) else None)
    lst = SList(parts=[Many(n, lambda i: [One(item(i))], unit=item)])
    with patched((E, "__priority_tasks", lst)):
        again = finish(vars(E)["__execute_priority_tasks"]())
        r.prove("none is left", T(rt.b_len(vars(E)["__priority_tasks"]) == 0))
    at, st = g.at.f["at"], g.at.f["set"]
    r.prove("as many as there were", term(g.k, Int) == n)
    r.prove("another round if any ran", T(rt.b_bool(again)) == (n > 0))
    inr = lambda x: And(0 <= x, x < n)
    i, j = r.fresh("i", Int), r.fresh("j", Int)
    r.prove("every one that runs was added", Implies(inr(i), inr(at(i))))
    r.prove("none runs twice", Implies(And(inr(i), inr(j), at(i) == at(j)), i == j))
    r.prove("ascending order of priority, then order of arrival", Implies(And(inr(i), inr(j), i < j), Or(prio(at(i)) < prio(at(j)), And(prio(at(i)) == prio(at(j)), at(i) < at(j)))))
    r.prove("the event of a task is set right after it has run", Implies(inr(i), st(i) == z3.If(has_ev(at(i)), at(i), IntVal(-1))))


@contract("P09,P07", "tasks that are added while the tasks of a round run are kept for the next round", [EM + "__execute_priority_tasks", EM + "add_priority_task"], bounded="three tasks that add two")
def _added(r):
    log = []
    p = [sym(r, f"p{k}") for k in range(5)]

    async def task(k, adds=()):
        log.append(k)
        for a in adds:
            E.add_priority_task(task(a), p[a])

    with patched((E, "__priority_tasks", SList())):
        for k, adds in ((0, (3,)), (1, ()), (2, (4,))):
            E.add_priority_task(task(k, adds), p[k])
        r.prove("another round is asked for", T(rt.b_bool(finish(vars(E)["__execute_priority_tasks"]()))))
        first = list(log)
        r.prove("those that were there", sorted(first) == [0, 1, 2])
        for x, y in zip(first, first[1:]):
            r.prove("in order", Or(p[x].t < p[y].t, And(p[x].t == p[y].t, x < y)))
        r.prove("another round is asked for", T(rt.b_bool(finish(vars(E)["__execute_priority_tasks"]()))))
        rest = log[3:]
        r.prove("then those that were added", sorted(rest) == [3, 4])
        came = [3, 4] if first.index(0) < first.index(2) else [4, 3]
        r.prove("in order", Or(p[rest[0]].t < p[rest[1]].t, And(p[rest[0]].t == p[rest[1]].t, BoolVal(rest == came))))
        r.prove("then no more", Not(T(rt.b_bool(finish(vars(E)["__execute_priority_tasks"]())))))


# ---------------------------------------------------------------- P10


def _port(make, what):
    def scenario(r):
        puts, errors = [], []
        size = sym(r, "elements_in_the_port")
        r.assume(size.t >= 0)
        v = sym(r, "value", Val)
        inits = []

        def base_init(self, maxsize=0, **k):
            inits.append(maxsize)

        # any number of values before, put while the port held any number of others, and taken or not
        now = {"size": None}
        size_then, value_then = fn("elements_then", Int, Int), fn("value_then", Int, rt.Val)

        async def base_put(self, x):
            if now["size"] is size:
                puts.append(x)

        def on_error(*a):
            if now["size"] is size:
                errors.append(a)

        def put_before(k):
            now["size"] = wrap(size_then(rt.term(k)))
            rt.R.assume(And(size_then(rt.term(k)) >= 0, BoolVal(True) if cap == -1 else size_then(rt.term(k)) <= cap.t))
            finish(port.put(wrap(value_then(rt.term(k)))))
            now["size"] = None

        with patched((A, "asyncio", Aio()), (real_asyncio.Queue, "__init__", base_init), (real_asyncio.Queue, "put", base_put), (real_asyncio.Queue, "qsize", lambda self: now["size"]), (MO, "error", on_error)):
            unbounded = wrap(r.fresh("unbounded", Bool))
            cap = -1 if unbounded else sym(r, "capacity")
            if cap != -1:
                r.assume(And(cap.t > 0, size.t <= cap.t))
            port = make(cap)
            r.prove("the queue itself is unbounded, so that putting never waits", inits == [0])
            r.root("port", port)
            before = sym(r, "values_before")
            r.assume(before.t >= 0)
            LIB.each(SSeq(before.t, wrap), put_before)
            now["size"] = size
            finish(port.put(v))
        if len(puts) == 0:
            r.prove("dropped only if it is full", And(BoolVal(cap != -1), size.t >= (cap.t if cap != -1 else 0)))
            r.prove("and reported", len(errors) == 1)
        else:
            r.prove("the value is put once", same(puts[0], v) if len(puts) == 1 else BoolVal(False))
            r.prove("and not reported", errors == [])
            r.prove("never more than the capacity", BoolVal(True) if cap == -1 else size.t + 1 <= cap.t)

    contract("P10", f"a port holds no more than its capacity and drops only the new value: {what}", [MM + "Port.put"])(scenario)


class Aio:
    class Loop:
        new_task_run = False

    loop = Loop()

    def get_event_loop(self):
        return self.loop


_port(lambda c: MO.DriverPort("a.b", maxsize=c), "driver port")
_port(lambda c: MO.MonitorPort("a.b", maxsize=c), "monitor port")
_port(lambda c: MO.AgentPort("a", c), "agent port")


@contract("P10", "ports have room for four by default and none for nothing", [MM + "Port.__init__"])
def _port_args(r):
    with patched((real_asyncio.Queue, "__init__", lambda self, maxsize=0, **k: None)):
        c = sym(r, "capacity")
        for make in (lambda c: MO.DriverPort("a.b", maxsize=c), lambda c: MO.MonitorPort("a.b", maxsize=c), lambda c: MO.AgentPort("a", c), lambda c: MO.Port("a", c)):
            e = raises(AssertionError, make, c)
            r.prove("a capacity that makes no sense is rejected", Or(c.t > 0, c.t == -1) == BoolVal(e is None))


# ---------------------------------------------------------------- P11

has_mp = fn("model_has_monitor_port", Int, Bool)
has_mh = fn("model_has_monitor_hook", Int, Bool)
prio_m = fn("monitor_hook_priority", Int, Int)


class MPort:
    _vc_data = True

    def __init__(self, i):
        self.i = i

    async def put(self, v):
        g = ghost()
        g.inc("mp", self.i)
        rt.R.prove("a monitor port gets the bare value", same(v, g.value))


class MAPort(APort):
    async def put(self, v):
        g = ghost()
        g.inc("ap", self.i, self.j)
        rt.R.prove("an agent port gets the path and the value", same(v[1], g.value) if type(v) is tuple and len(v) == 2 and v[0] == "ag.mon" else BoolVal(False))


class MHook:
    _vc_data = True

    def __init__(self, i):
        self.i = i
        self.__name__ = "monitor_hook"

    @property
    def __priority__(self):
        return wrap(prio_m(self.i))

    def __call__(self, *a, **k):
        g = ghost()
        g.inc("mh", self.i)
        g.cur = prio_m(self.i)
        rt.R.prove("a monitor hook gets the bare value", same(a[0], g.value) if len(a) == 1 and not k else BoolVal(False))


class MAHook(AHook):
    def __call__(self, *a, **k):
        g = ghost()
        g.inc("a", self.i, self.j)
        g.cur = prio_a(self.i, self.j)
        rt.R.prove("an agent hook gets the path and the value", same(a[1], g.value) if len(a) == 2 and a[0] == "ag.mon" and not k else BoolVal(False))


class MInfo(Info):
    def __getitem__(self, k):
        i = self.i
        if k == "monitor_port":
            return MPort(i) if wrap(has_mp(i)) else None
        if k == "monitor_hook":
            return MHook(i) if wrap(has_mh(i)) else None
        if k == "agent_port":
            return SSeq(n_ap(i), lambda j: MAPort(i, j), "agent_ports")
        if k == "agent_hook":
            return SSeq(n_ah(i), lambda j: MAHook(i, j), "agent_hooks")
        raise KeyError(k)


class MInfos(Infos):
    def items(self):
        return SSeq(nmodels, lambda i: (MKey(i), MInfo(i)), "models")

    def values(self):
        return SSeq(nmodels, MInfo, "models")

    def __getitem__(self, k):
        return MInfo(k.i)


class MState(State):
    pass


@contract("P11,P09,P10", "a monitored value is delivered once to each matching hook and port", [BM + "Monitor.process_monitor_call"])
def _deliver(r):
    g = MState()
    g.setup(r, None)
    g.count.field("mp", [Int], lambda i: ZERO)
    g.count.field("mh", [Int], lambda i: ZERO)
    g.value = sym(r, "value", Val)
    r.root("ghost", g)

    def add_task(coro, priority, event=None):
        runs_alike_later(coro)
        g.cur = None
        finish(coro)
        rt.R.prove("one hook, with its own priority", BoolVal(False) if g.cur is None else term(priority, Int) == g.cur)

    async def mon(self):
        pass

    coros = []
    with patched((B, "add_priority_task", add_task), (B, "create_task", coros.append)):
        m = B.Monitor(Ghost(), mon)
        m.path = "ag.mon"
        m.model_infos = MInfos()
        finish(m.process_monitor_call(g.value))
    for c in coros:
        c.close()
    inm = And(0 <= X, X < nmodels)
    f = g.count.f
    one = lambda c: z3.If(c, IntVal(1), ZERO)
    r.prove("each monitor port once", ForAll([X], f["mp"](X) == one(And(inm, has_mp(X)))))
    r.prove("each monitor hook once", ForAll([X], f["mh"](X) == one(And(inm, has_mh(X)))))
    r.prove("each agent port once", ForAll([X, Y], f["ap"](X, Y) == one(And(inm, 0 <= Y, Y < n_ap(X)))))
    r.prove("each agent hook once", ForAll([X, Y], f["a"](X, Y) == one(And(inm, 0 <= Y, Y < n_ah(X)))))


nothing = fn("monitor_produces_nothing", Int, Bool)
enabled = fn("queue_is_enabled_at", Int, Bool)
qsize_at = fn("queue_size_at", Int, Int)
maxsize_at = fn("queue_capacity_at", Int, Int)
ends = fn("test_ends_at_cycle", Int, Bool)


class Stop(Exception):
    pass


class MVal:
    _vc_data = True

    def __init__(self, t):
        self.t = t

    def _vc_is(self, o):
        if self is None:
            self, o = o, self
        return wrap(nothing(self.t)) if o is None else (wrap(self.t == o.t) if type(o) is MVal else False)


class MQueue:
    def qsize(self):
        return wrap(qsize_at(term(ghost().t, Int)))

    async def put(self, v):
        g = ghost()
        rt.R.prove("the queue gets the value of this cycle", T(rt.is_(v, MVal(term(g.t, Int)))))
        g.inc("queued", term(g.t, Int))


@contract("P11,P01", "a monitor is evaluated after each cycle and every value is delivered and queued once", [BM + "Monitor.__monitor_forever"])
def _forever(r):
    g = State()
    g.count = rt.Store()
    for n in ("evaluated", "delivered", "queued", "dropped"):
        g.count.field(n, [Int], lambda i: ZERO)
    g.t = -1  # the first cycle is 0; everything else depends on the cycle in an arbitrary way
    r.root("ghost", g)
    r.hooks["progress"] = lambda: term(g.t, Int)

    class Agent_:
        async def monitor_step(self):
            g.t = g.t + 1
            if wrap(ends(term(g.t, Int))):
                raise Stop()

    agent = Agent_()

    async def mon(self):
        r.prove("evaluated for its own agent", self is agent)
        g.inc("evaluated", term(g.t, Int))
        return MVal(term(g.t, Int))

    class M(B.Monitor):
        @property
        def get_queue(self):
            return MQueue() if wrap(enabled(term(g.t, Int))) else None

        @get_queue.setter
        def get_queue(self, v):
            pass

        @property
        def get_queue_max_size(self):
            return wrap(maxsize_at(term(g.t, Int)))

        async def process_monitor_call(self, v):
            rt.R.prove("the value of this cycle is delivered", T(rt.is_(v, MVal(term(g.t, Int)))))
            g.inc("delivered", term(g.t, Int))

    def error(*a):
        g.inc("dropped", term(g.t, Int))

    coros = []
    with patched((B, "create_task", coros.append), (B, "error", error)):
        m = M(agent, mon)
        m.path = "ag.mon"
        r.prove("one task", len(coros) == 1)
        e = raises(Stop, finish, coros[0])
    r.prove("until the test ends", e is not None)
    t = term(g.t, Int)
    inr = And(0 <= X, X < t)
    val, full = Not(nothing(X)), qsize_at(X) >= maxsize_at(X)
    one = lambda c: z3.If(c, IntVal(1), ZERO)
    f = g.count.f
    r.prove("evaluated once after each cycle", ForAll([X], f["evaluated"](X) == one(inr)))
    r.prove("every value is delivered once", ForAll([X], f["delivered"](X) == one(And(inr, val))))
    r.prove("every value is queued once if the queue is enabled and has room", ForAll([X], f["queued"](X) == one(And(inr, val, enabled(X), Not(full)))))
    r.prove("a value is dropped and reported only if the queue is full", ForAll([X], f["dropped"](X) == one(And(inr, val, enabled(X), full))))


@contract("P11", "the queue of a monitor is enabled with the capacity given", [BM + "Monitor.enable_get_queue", "toffee.agent.Agent.start_monitor"])
def _enable(r):
    coros = []
    made = []

    class Q:
        def __init__(self, *a):
            made.append(a)

        def qsize(self):
            return size

    size = sym(r, "size")

    async def step():
        pass

    with patched((B, "create_task", coros.append), (B, "Queue", Q), (AG, "warning", lambda *a: None)):

        class Ag(AG.Agent):
            @AG.monitor_method()
            async def mon(self):
                pass

            @AG.monitor_method()
            async def other(self):
                pass

        a = Ag(step)
        cap = sym(r, "capacity")
        r.prove("nothing in a queue that is not enabled", a.monitor_size("mon") == 0)
        a.start_monitor("mon", cap)
        m = a.monitors["mon"]
        r.prove("the queue is enabled, unbounded itself", isinstance(m.get_queue, Q) and made == [()])
        r.prove("with the capacity given", rt.is_(m.get_queue_max_size, cap))
        r.prove("of this monitor only", a.monitors["other"].get_queue is None)
        r.prove("its size", T(rt.is_(a.monitor_size("mon"), size)))
    for c in coros:
        c.close()


@contract("P11", "calling a monitor method takes one value from its queue", [AG.__name__ + ".__monitor_wrapped_func"], bounded="two monitors")
def _monitor_get(r):
    coros = []
    vals = {n: sym(r, n, Val) for n in ("mon", "other")}

    class Mo:
        def __init__(self, agent, f):
            self.get_queue = Q(f.__name__)

    class Q:
        def __init__(self, n):
            self.n, self.gets = n, 0

        async def get(self):
            self.gets += 1
            return vals[self.n]

    async def step():
        pass

    with patched((AG, "Monitor", Mo), (AG, "warning", lambda *a: None)):

        class Ag(AG.Agent):
            @AG.monitor_method()
            async def mon(self):
                r.fail("only the monitor evaluates it")

            @AG.monitor_method()
            async def other(self):
                r.fail("only the monitor evaluates it")

        a, b = Ag(step), Ag(step)
        for n in ("mon", "other", "mon"):
            got = finish(getattr(a, n)())
            r.prove("the next value of its own queue", got is vals[n])
        r.prove("one value is taken by each call", [a.monitors[n].get_queue.gets for n in ("mon", "other")] == [2, 1])
        r.prove("agents do not share queues", all(m.get_queue.gets == 0 for m in b.monitors.values()))


@contract("P08", "a failing comparison fails the test", [AM_ + "handle_exception", AM_ + "main_coro", BM + "Driver.process_driver_call"], bounded="two hooks, the first or the second of which differs")
def _fails(r):
    handlers, stopped, shown, log = [], [], [], []

    class L:
        def set_exception_handler(self, h):
            handlers.append(h)

        def default_exception_handler(self, c):
            shown.append(c)

        def stop(self):
            stopped.append(True)

    class W:
        loop = L()

        def get_event_loop(self):
            return self.loop

        get_running_loop = get_event_loop

        def current_task(self):
            class Task_:
                def set_name(self, n):
                    pass

            return Task_()

    async def test():
        r.prove("a handler of exceptions is installed while the test runs", len(handlers) == 1)
        return None

    with patched((A, "asyncio", W()), (A, "summary", lambda: None)):
        finish(A.main_coro(test))
    ctx = {"message": "Task exception was never retrieved"}
    handlers[0](W.loop, ctx)
    r.prove("an exception in a task stops the loop, so that the run fails", stopped == [True])
    r.prove("and is reported", shown == [ctx])

    class Ev:
        def wait(self):
            return self

    async def gather(*a):
        pass

    wrong = sym(r, "which_differs", Bool)

    def compare(dut, std, *a, **k):
        log.append(std)
        assert std != (1 if wrong else 2), "mismatch"

    def hook(v):
        def h(*a):
            return v

        h.__name__, h.__priority__, h.__sche_order__ = "drive", 1, "model_first"
        return h

    async def drive(self):
        return 0

    tasks = []
    with patched((B, "Event", Ev), (B, "add_priority_task", lambda c, p, e=None: finish(c)), (B, "gather", gather), (B, "create_task", tasks.append), (B, "compare_once", compare)):
        d = B.Driver(drive)
        d.model_infos = {k: {"agent_hook": [], "driver_hook": hook(v), "agent_port": [], "driver_port": None} for k, v in (("m1", 1), ("m2", 2))}
        finish(d.process_driver_call(None, (), {}))
        e = raises(AssertionError, lambda: [finish(c) for c in tasks])
    r.prove("the failure of a comparison is not swallowed", e is not None)
