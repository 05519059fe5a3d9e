"""bundle.py: requests, one per cycle.

One call of the function that the device calls in every cycle is followed through all its cases;
processing requests steps the device until nothing is left.  Assumed: StepRis calls the function
once per cycle, queue.Queue hands out in order what was put in.
"""
from vc.api import *
from vc.contracts.c_bundle import *
from vc.contracts.c_bundle import list_is, root, once

nf, nb = z3.Ints("functions return_bundles")
fcall, fres = fn("is_callable", Int, Bool), fn("result_of_function", Int, rt.Val)
KEYS = ("__condition_func__", "__condition_args__", "__funcs__", "__return_bundles__")
VALUES = ("__funcs_return__", "__return_values__", "__return_cycles__")


class Req:
    """a request: values for signals and any of the special keys"""

    def __init__(self, r, name, **vals):
        self.has = {k: sym(r, name + k, Bool) if vals.get(k) is None else vals[k] for k in KEYS}
        self.val = {}

    def _vc_contains(self, k):
        return self.has.get(k, False)

    def _vc_callable(self):
        return False

    def __getitem__(self, k):
        rt.R.prove("a key is read if it is there", T(rt.b_bool(self._vc_contains(k))))
        return self.val[k]

    def get(self, k, d=None):
        return self.val[k] if rt.R.fork(T(rt.b_bool(self._vc_contains(k)))) else d

    def pop(self, k, *d):
        if rt.R.fork(T(rt.b_bool(self._vc_contains(k)))):
            self.has[k] = False
            return self.val[k]
        if not d:
            rt.R.fail("a key is removed if it is there")
            return None
        return d[0]

    def __setitem__(self, k, v):
        self.has[k], self.val[k] = True, v

    def __delitem__(self, k):
        self.pop(k)


class Fn:
    """function k of the list"""

    _vc_data = True

    def __init__(self, k):
        self.k = k

    def _vc_callable(self):
        return wrap(fcall(self.k))

    def __call__(self, cycle, bundle):
        g = ghost()
        rt.R.prove("a function is called with the cycle and the bundle", BoolVal(cycle is g.cycle and bundle is g.bundle))
        rt.R.prove("after the request was applied", BoolVal(g.applied == 1))
        once("CALLED", self.k)
        return wrap(fres(self.k))


class FnList(SSeq):
    def __init__(self):
        super().__init__(nf, Fn)

    def _vc_isinstance(self, t):
        return t is list


class RB(BU.Bundle):
    """bundle k of those to be read"""

    _vc_data = True

    def __init__(self, k):
        object.__setattr__(self, "k", k)

    def __eq__(self, o):
        raise Unsupported("comparison of bundles")

    __hash__ = None

    def as_dict(self, multilevel=True):
        rt.R.prove("a bundle is read after the request was applied", BoolVal(ghost().applied == 1))
        rt.R.prove("in nested form", T(rt.b_bool(multilevel)))
        return Data(self.k)


class Data:
    _vc_data = True

    def __init__(self, k):
        self.k = k


class RBList(SSeq):
    def __init__(self):
        super().__init__(nb, RB)

    def _vc_isinstance(self, t):
        return t is list


class Waiting:
    """the queue of requests: any number of them; what is behind the first one is unknown"""

    def __init__(self, g, empty, head):
        self.g, self.head, self.taken = g, head, 0
        n = rt.R.fresh("waiting_requests", Int)
        rt.R.assume(And(n >= 0, (n == 0) == T(rt.b_bool(empty))))
        self.n = n

    def qsize(self):
        return wrap(self.n - self.taken)

    __len__ = None

    def empty(self):
        return wrap(self.n - self.taken == 0)

    def get(self, *a, **k):
        rt.R.prove("a request is taken only if there is one", self.n - self.taken > 0)
        if self.taken:
            rt.R.fail("at most one request is taken")
        self.taken += 1
        return self.head

    get_nowait = get

    def put(self, x, *a, **k):
        rt.R.fail("nothing is put back behind the others")


class Cond:
    def __init__(self, g, holds, args):
        self.g, self.holds, self.args, self.n = g, holds, args, 0

    def __call__(self, cycle, bundle, args):
        rt.R.prove("a condition is asked about the cycle, the bundle and its arguments", BoolVal(cycle is self.g.cycle and bundle is self.g.bundle and args is (self.args if self.args is not None else None)))
        self.n += 1
        return self.holds


class Callable:
    def __init__(self, g, out):
        self.g, self.out, self.n = g, out, 0

    def __call__(self, cycle, bundle):
        rt.R.prove("a callable request is given the cycle and the bundle", BoolVal(cycle is self.g.cycle and bundle is self.g.bundle))
        self.n += 1
        return self.out


def picks(r, name, n):
    """one of n cases"""
    for k in range(n - 1):
        if r.fork(r.fresh(f"{name}_{k}", Bool)):
            return k
    return n - 1


OC = "toffee.bundle.Bundle.___dut_call_on_rise__"
for _src in ("nothing", "queue", "blocked", "callable", "none"):

    @contract("P23", {"nothing": "a cycle without requests does nothing", "queue": "a cycle applies the first request if its condition holds, else holds it back", "blocked": "a cycle applies the request held back if its condition holds now, and never goes on to others", "callable": "a cycle asks a callable request for what to apply", "none": "an empty request uses up the cycle"}[_src], [OC])
    def _rise(r, src=_src):
        g = root(r)
        b = g.bundle = object.__new__(BU.Bundle)
        g.cycle, g.applied = object(), 0
        r.assume(And(nf >= 0, nb >= 0))
        g.st.field("CALLED", [Int], lambda k: BoolVal(False))
        req = Req(r, "r", **({"__condition_func__": True} if src == "blocked" else {}))
        args = object() if src != "x" else None
        holds = sym(r, "holds", Bool)
        cond_here = T(rt.b_bool(req.has["__condition_func__"]))
        args_here = req.has["__condition_args__"]
        wants = T(rt.b_bool(req.has["__return_bundles__"]))
        args = object() if r.fork(T(args_here)) else None
        req.has["__condition_args__"] = args is not None
        cond = Cond(g, holds, args)
        kind, rkind = picks(r, "functions_are", 4), picks(r, "bundles_are", 2)
        funcs = [None, Fn(ZERO), object(), FnList()][kind]
        rbs = [RB(ZERO), RBList()][rkind]
        fhere = T(req.has["__funcs__"])
        req.val = {"__condition_func__": cond, "__condition_args__": args, "__funcs__": funcs, "__return_bundles__": rbs}
        before, parts = {x: T(rt.b_bool(req.has[x])) for x in KEYS}, dict(req.val)
        if kind == 1:
            r.assume(fcall(ZERO))
        given = Callable(g, req if src == "callable" else None)
        head = {"nothing": None, "blocked": Req(r, "other", **{k: False for k in KEYS}), "queue": req, "callable": given, "none": None}[src]
        if src == "none" and r.fork(r.fresh("is_callable_none", Bool)):
            head = given
        q = Waiting(g, sym(r, "nothing_behind", Bool) if src == "blocked" else src == "nothing", head)
        b.__dict__["__dut_requests__"], b.__dict__["__blocked_request__"] = q, req if src == "blocked" else None
        state = {}

        def assign(item, *a, **k):
            g.applied += 1
            r.prove("the request itself is applied", BoolVal(item is req and not a and not k))
            r.prove("without its special keys", Not(Or(*[T(rt.b_bool(req.has[x])) for x in KEYS])))

        b.__dict__["assign"] = assign
        B._Bundle____dut_call_on_rise__(b, g.cycle) if hasattr(B, "_Bundle____dut_call_on_rise__") else getattr(B, "___dut_call_on_rise__")(b, g.cycle)
        held = b.__dict__["__blocked_request__"]
        r.prove("at most one request is taken", BoolVal(q.taken == (1 if src in ("queue", "callable", "none") else 0)))
        if src in ("nothing", "none"):
            r.prove("nothing is applied or held back", BoolVal(g.applied == 0 and held is None))
            r.prove("a callable is asked once", BoolVal(given.n == (1 if head is given else 0)))
            return
        if src == "callable":
            r.prove("the callable is asked once", BoolVal(given.n == 1))
        go = Or(Not(cond_here), holds.t)
        r.prove("its condition is asked once", BoolVal(cond.n == 1) == cond_here)
        r.prove("applied exactly if the condition holds", BoolVal(g.applied == 1) == go)
        r.prove("once at most", BoolVal(g.applied <= 1))
        for x, was in before.items():
            r.prove("a request held back stays as it is", Implies(Not(go), And(T(rt.b_bool(req.has[x])) == was, BoolVal(req.val[x] is parts[x]))))
        r.prove("otherwise held back", And(BoolVal(held is req) == Not(go), BoolVal(held is None) == go))
        k = sym(r, "k").t
        called = And(go, fhere, k == 0) if kind == 1 else And(go, fhere, rng(k, nf), fcall(k)) if kind == 3 else BoolVal(False)
        r.prove("its functions are called", g.st.f["CALLED"](k) == called)
        kept = {x: T(rt.b_bool(req.has.get(x, False))) for x in VALUES}
        for x in VALUES:
            r.prove(f"{x} is there exactly if data was asked for and the request was applied", kept[x] == And(go, wants))
        if all(x in req.val for x in VALUES):
            r.prove("with the cycle", BoolVal(req.val["__return_cycles__"] is g.cycle))
            d = req.val["__return_values__"]
            if type(d) is Data:
                r.prove("with the data of the bundle", And(d.k == 0, BoolVal(rkind == 0) if rkind == 0 else nb == 1))
            else:
                r.prove("with the data of the bundles, in order", And(BoolVal(rkind == 1), list_is(d, nb, lambda o, j: o.k == j)))
            f = req.val["__funcs_return__"]
            here = rt.R.fork(fhere)
            if kind == 3 and here:
                if type(f) in (rt.SVal,) or f is None:
                    r.prove("with the result of the function", And(nf == 1, term(f, rt.Val) == z3.If(fcall(ZERO), fres(ZERO), rt.NONE)))
                else:
                    ps = rt.parts_of(f)
                    if ps is None or len(ps) != 1:
                        raise Unsupported("a list of another form")
                    j = r.fresh("j", Int)
                    r.prove("with one result for each function", term(ps[0].n) == nf)
                    alts = rt.guarded(ps[0].fn(j))
                    r.prove("with the results of the functions, in order", Implies(rng(j, nf), Or(*[And(c, term(v, rt.Val) == z3.If(fcall(j), fres(j), rt.NONE)) for c, v in alts])))
            elif kind == 1 and here:
                r.prove("with the result of the function", term(f, rt.Val) == fres(ZERO))
            else:
                r.prove("without results", BoolVal(f is None))


# ---------------------------------------------------------------- processing

nreq = z3.Int("requests")
is_dict, gives = fn("request_is_mapping", Int, Bool), fn("request_has_data", Int, Bool)
q_empty, q_held = fn("queue_empty_after_steps", Int, Bool), fn("request_held_back_after_steps", Int, Bool)


class IReq:
    """request k of the caller"""

    _vc_data = True

    def __init__(self, k):
        self.k = k

    def _vc_isinstance(self, t):
        if t is dict:
            return wrap(is_dict(self.k))
        raise Unsupported("isinstance")

    def _vc_copy(self):
        return Sent(self.k)

    def copy(self):
        return Sent(self.k)

    def __setitem__(self, *a):
        rt.R.fail("the requests of the caller stay as they are")


class Sent(IReq):
    """the request as it is processed: it gets the data"""

    def _vc_contains(self, key):
        if key not in VALUES:
            raise Unsupported(str(key))
        return wrap(And(is_dict(self.k), gives(self.k)))

    def __getitem__(self, key):
        rt.R.prove("data is read if it is there", And(is_dict(self.k), gives(self.k)))
        rt.R.prove("after all requests were applied", BoolVal(ghost().done))
        return Item(self.k, key)


class Item:
    _vc_data = True

    def __init__(self, k, key):
        self.k, self.key = k, key


class IReqs(SSeq):
    def __init__(self):
        super().__init__(nreq, lambda k: IReq(k))

    def _vc_isinstance(self, t):
        return t is list


class Put:
    """the queue, by the contract of queue.Queue; how it empties is up to the requests"""

    def __init__(self, g):
        self.g = g

    def put(self, x, *a, **k):
        g = ghost()
        n = term(g.count, Int)
        if not isinstance(x, IReq):
            rt.R.fail("the requests are put in the queue")
            return
        rt.R.prove("what is queued is the caller's, or a copy if it is a mapping", And(BoolVal(type(x) is Sent) == is_dict(x.k)))
        rt.R.prove("in the order given", n == x.k)
        g.count = g.count + 1


@contract("P23", "processing queues all requests in order, steps one cycle at a time until none is left, and returns the data of each in order", ["toffee.bundle.Bundle.process_requests"])
def _process(r):
    g = root(r)
    r.assume(nreq >= 0)
    t0 = r.fresh("t0", Int)
    r.assume(t0 >= 0)
    g.t, g.done = wrap(t0), True
    g.count = wrap(ZERO)
    r.hooks["progress"] = lambda: term(g.t, Int)

    class Dev:
        def Step(self, n=1):
            rt.R.prove("one cycle at a time", term(n, Int) == 1)
            g.t = g.t + 1

    class PB(BU.Bundle):
        def __init__(self):
            pass

        @property
        def __blocked_request__(self):
            return Ghost() if rt.R.fork(q_held(term(g.t, Int))) else None

    b = PB()

    q = Put(g)
    b.__dict__["__dut_requests__"], b.__dict__["__dut_instance__"] = q, Dev()
    looked = []

    def empty():
        # it is empty before the requests are put there; afterwards it empties step by step
        if not looked:
            looked.append(1)
            r.prove("the queue is looked at before anything is put there", term(g.count) == 0)
            return True
        return wrap(q_empty(term(g.t, Int)))

    q.empty = empty
    with patched((BU, "error", lambda *a: rt.R.fail("no error"))):
        out = b.process_requests(IReqs())
    t = z3.Int("t")
    now = term(g.t, Int)
    done = lambda t: And(q_empty(t), Not(q_held(t)))
    r.prove("all requests are queued", term(g.count) == nreq)
    r.prove("none is left when it returns", done(now))
    r.prove("it returns as soon as none is left", ForAll([t], Implies(And(t0 <= t, t < now), Not(done(t)))))
    k = sym(r, "k").t
    ok = lambda o: And(*[BoolVal(type(o.get(x)) is Item and o.get(x).key == y) for x, y in (("data", "__return_values__"), ("cycle", "__return_cycles__"), ("__funcs_return__", "__funcs_return__"))])
    same = lambda o: And(o["data"].k == o["cycle"].k, o["data"].k == o["__funcs_return__"].k)
    r.prove("one entry for each request with data", member(out, lambda o: o["data"].k == k) == And(rng(k, nreq), is_dict(k), gives(k)))
    r.prove("with its data, cycle and results", Not(member(out, lambda o: Not(And(ok(o), same(o))))))
    ps = rt.parts_of(out)
    r.prove("in the order of the requests", BoolVal(ps is not None and len(ps) == 1 and isinstance(ps[0], Many)))
    if ps is not None and len(ps) == 1 and isinstance(ps[0], Many):
        j = r.fresh("j", Int)
        r.prove("at the place of the request", And(term(ps[0].n) == nreq, *[Implies(And(rng(j, nreq), c), v["data"].k == j) for c, v in rt.guarded(ps[0].fn(j))]))
        r.prove("once each", And(*[Not(And(a, c)) for x, (a, _) in enumerate(rt.guarded(ps[0].fn(j))) for c, _ in rt.guarded(ps[0].fn(j))[:x]]))


@contract("P23", "a single request is processed as a list of one", ["toffee.bundle.Bundle.process_requests"])
def _process_one(r):
    g = root(r)
    puts = []

    class One_:
        pass

    class D:
        def Step(self, n=1):
            g.steps += 1

    for data in (False, True):
        g.steps = 0
        b = object.__new__(BU.Bundle)
        puts.clear()

        class Q2:
            def empty(self):
                return not puts or g.steps >= 1

            def put(self, x, *a, **k):
                puts.append(x)
                if data:
                    x["__return_values__"], x["__return_cycles__"], x["__funcs_return__"] = "d", "c", "f"

        b.__dict__["__dut_requests__"], b.__dict__["__dut_instance__"], b.__dict__["__blocked_request__"] = Q2(), D(), None
        req = {"a": 1}
        with patched((BU, "error", lambda *a: rt.R.fail("no error"))):
            out = b.process_requests(req)
        r.prove("it is queued", BoolVal(len(puts) == 1 and puts[0]["a"] == 1))
        r.prove("one cycle", BoolVal(g.steps == 1))
        r.prove("its data", BoolVal(list(out) == ([{"data": "d", "cycle": "c", "__funcs_return__": "f"}] if data else [])))


@contract("P23", "a device calls a bundle once per cycle, however often the bundle is bound to it", ["toffee.bundle.Bundle.make_requset_response_for"])
def _register(r):
    g = root(r)
    n = r.fresh("devices", Int)
    r.assume(n >= 0)
    w, known = r.fresh("which", Int), sym(r, "known", Bool)
    r.assume(Implies(known.t, rng(w, n)))
    b = object.__new__(BU.Bundle)

    class Dev:
        _vc_data = True

        def __init__(self, k):
            self.k = k

        def StepRis(self, f, *a):
            g.calls += 1
            r.prove("its own function is called", BoolVal(getattr(f, "__self__", None) is b and not a))

        def _vc_is(self, o):
            return wrap(self.k == o.k) if type(o) is Dev else False

    regs = rt.SList(parts=[Many(n, lambda i: [One(Dev(i))], unit=lambda i: Dev(i))])
    b._Bundle__registered_duts = regs
    other = sym(r, "bound_before", Bool)
    b.__dict__["__dut_instance__"] = Dev(IntVal(-2)) if other else None
    d = Dev(z3.If(known.t, w, IntVal(-1)))
    g.calls = 0
    with patched((BU, "error", lambda *a: None)):
        b.make_requset_response_for(d)
    r.prove("registered exactly if it was not before", BoolVal(g.calls == 1) == Not(known.t))
    r.prove("once", BoolVal(g.calls <= 1))
    r.prove("remembered", member(b._Bundle__registered_duts, lambda o: o.k == d.k))
    r.prove("the others stay remembered", Not(Exists([X], And(rng(X, n), Not(member(b._Bundle__registered_duts, lambda o: o.k == X))))))
    r.prove("its cycles are stepped", BoolVal(b.__dict__["__dut_instance__"] is d))
