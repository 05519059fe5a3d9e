"""env.py, model.py (matching): attach and unattach.

The environment has any number of attributes, some of them agents with any number of driver and
monitor methods; the model has any number of hooks and ports.  Names are strings; a path is the
concatenation "agent.method".  Preconditions: attribute and method names are distinct where Python
makes them so; two hooks (ports) of one model do not name the same method (the second is not
supported).  The methods that one agent hook or port lists are distinct: its constructor keeps each
once, which is a contract of its own.
"""
from vc.api import *
from vc.contracts.ghost import *
import inspect

from toffee import env as EN
from toffee import model as MO
from toffee import agent as AG

NM, MM = "toffee.env.", "toffee.model."
X, Y, Z, W = z3.Ints("x y z w")

natt = z3.Int("attributes_of_env")
ename = fn("name_of_attribute", Int, Str)
is_agent = fn("attribute_is_agent", Int, Bool)
nmeth = {"d": fn("number_of_drivers", Int, Int), "m": fn("number_of_monitors", Int, Int)}
mname = {"d": fn("name_of_driver", Int, Int, Str), "m": fn("name_of_monitor", Int, Int, Str)}
KINDS = ("dh", "mh", "dp", "mp", "ah", "ap")
num = {k: z3.Int("number_of_" + k) for k in KINDS}
path = {k: fn("path_of_" + k, Int, Str) for k in KINDS}  # of ah and ap: the agent they name or ""
nag = {k: fn("number_of_agents_of_" + k, Int, Int) for k in ("ah", "ap")}
agn = {k: fn("agent_listed_by_" + k, Int, Int, Str) for k in ("ah", "ap")}
nme = {k: fn("number_of_methods_of_" + k, Int, Int) for k in ("ah", "ap")}
men = {k: fn("method_listed_by_" + k, Int, Int, Str) for k in ("ah", "ap")}
DOT = z3.StringVal(".")
# the position of a name in a list of distinct names (defined by the axioms in setup)
at = {k: fn("position_of_path_" + k, Str, Int) for k in ("dh", "mh", "dp", "mp")}
at_me = {k: fn("position_of_method_" + k, Int, Str, Int) for k in ("ah", "ap")}
in_ag = {k: fn("agent_is_listed_by_" + k, Int, Str, Bool) for k in ("ah", "ap")}
wit_ag = {k: fn("where_agent_is_listed_by_" + k, Int, Str, Int) for k in ("ah", "ap")}


class Ghost:
    pass


class Agents(SSeq):
    """the agents that a hook or port lists: `in` by its contract"""

    def __init__(self, k, x):
        self.k, self.x = k, x
        super().__init__(nag[k](x), lambda j: wrap(agn[k](x, j)))

    def _vc_contains(self, n):
        return wrap(in_ag[self.k](self.x, term(n, Str)))


class Listed(SSeq):
    """a list of distinct strings: `in` and `index` by their contracts"""

    def __init__(self, n, f, pos):
        self.f, self.pos = f, pos
        super().__init__(n, lambda j: wrap(f(j)))

    def _vc_contains(self, x):
        k = self.pos(term(x, Str))
        return wrap(And(0 <= k, k < self.n, self.f(k) == term(x, Str)))

    def index(self, x):
        if self._vc_contains(x):
            return wrap(self.pos(term(x, Str)))
        raise ValueError("not in list")


def listed(k, x):
    return Listed(nme[k](x), lambda j: men[k](x, j), lambda p: at_me[k](x, p))


class Mark:
    """__matched__ of a hook"""

    _vc_data = True

    def __init__(self, k, x):
        self.k, self.x = k, x

    def __getitem__(self, n):
        return wrap(ghost().st.read(self.k, self.x))

    def __setitem__(self, n, v):
        ghost().st.write(self.k, [self.x], T(v))


class Marks(SSeq):
    """the marks of the methods that an agent hook or port lists"""

    def __init__(self, k, x):
        self.k, self.x = k, x
        super().__init__(nme[k](x), lambda j: wrap(ghost().st.read(k + "_m", x, j)))

    def __setitem__(self, n, v):
        if isinstance(n, slice):
            return set_marks(self.k, self.x, v)
        ghost().st.write(self.k + "_m", [self.x, term(n, Int)], T(v))


def set_marks(k, x, v):
    rt.R.prove("as many marks as methods", term(rt.b_len(v), Int) == nme[k](x))
    st = ghost().st
    old = st.f[k + "_m"]
    val = rt.One
    ps = rt.parts_of(v)
    if ps is None:
        rt.R.prove("marks of no method", nme[k](x) == 0)
        return
    if len(ps) != 1 or ps[0].unit is None:
        raise Unsupported("marks")
    new = ps[0].unit
    st.f = dict(st.f)
    st.f[k + "_m"] = lambda a, b: z3.If(a == x, T(new(b)), old(a, b))


class Hook:
    _vc_data = True
    __name__ = "hook"

    def __init__(self, k, x):
        self.k, self.x = k, x

    def _path(self):
        return wrap(path[self.k](self.x))

    __driver_path__ = __monitor_path__ = __agent_name__ = property(_path)

    @property
    def __matched__(self):
        return Mark(self.k, self.x)

    @property
    def __agents__(self):
        return Agents(self.k, self.x)

    @property
    def __methods__(self):
        return listed(self.k, self.x)

    @property
    def __methods_matched__(self):
        return Marks(self.k, self.x)


class Port:
    """a port; its get_path has the contract below"""

    _vc_data = True
    name = "port"

    def __init__(self, k, x):
        self.k, self.x = k, x

    def get_path(self):
        return wrap(path[self.k](self.x))

    @property
    def matched(self):
        return wrap(ghost().st.read(self.k, self.x))

    @matched.setter
    def matched(self, v):
        ghost().st.write(self.k, [self.x], T(v))

    @property
    def agents(self):
        return Agents(self.k, self.x)

    @property
    def methods(self):
        return listed(self.k, self.x)

    @property
    def methods_matched(self):
        return Marks(self.k, self.x)

    @methods_matched.setter
    def methods_matched(self, v):
        set_marks(self.k, self.x, v)


def items(k):
    return SSeq(num[k], lambda x: (Hook if k[1] == "h" else Port)(k, x), k)


class Infos:
    """model_infos of a driver or monitor"""

    _vc_data = True

    def __init__(self, kind, i, j):
        self.kind, self.i, self.j = kind, i, j

    def __setitem__(self, model, info):
        ghost().injected(self.kind, self.i, self.j, model, info)

    def pop(self, model, *d):
        ghost().removed(self.kind, self.i, self.j, model)

    def __delitem__(self, model):
        self.pop(model)

    def clear(self):
        rt.R.fail("the connections of other models are left alone")


class Drv:
    _vc_data = True

    def __init__(self, kind, i, j):
        self.kind, self.i, self.j = kind, i, j

    @property
    def model_infos(self):
        return Infos(self.kind, self.i, self.j)

    @property
    def name(self):
        return wrap(mname[self.kind](self.i, self.j))


class Method:
    _vc_data = True

    def __init__(self, kind, i, j):
        self.kind, self.i, self.j = kind, i, j

    @property
    def __name__(self):
        return wrap(mname[self.kind](self.i, self.j))


def arg(t, f):
    """the index of a name"""
    if type(t) is not SStr or t.t.decl().name() != f.name():
        raise Unsupported("an object looked up by a name that is not one of those listed")
    return t.t.children()


class Drvs:
    def __init__(self, kind, i):
        self.kind, self.i = kind, i

    def __getitem__(self, n):
        i, j = arg(n, mname[self.kind])
        rt.R.prove("a driver or monitor of the agent", i == self.i)
        return Drv(self.kind, self.i, j)


class Attr:
    """an attribute of the environment"""

    def __init__(self, i):
        self.i = i

    def _vc_isinstance(self, t):
        if t is AG.Agent:
            return wrap(is_agent(self.i))
        raise Unsupported("isinstance of an attribute")

    def all_driver_method(self):
        return SSeq(nmeth["d"](self.i), lambda j: Method("d", self.i, j), "drivers")

    def all_monitor_method(self):
        return SSeq(nmeth["m"](self.i), lambda j: Method("m", self.i, j), "monitors")

    @property
    def drivers(self):
        return Drvs("d", self.i)

    @property
    def monitors(self):
        return Drvs("m", self.i)


class GEnv(EN.Env):
    def __init__(self):
        pass

    def _vc_dir(self):
        return SSeq(natt, lambda i: wrap(ename(i)), "attributes")

    def _vc_getattr(self, n, *d):
        return Attr(arg(n, ename)[0])


class GModel(MO.Model):
    """a model whose parts have been collected"""

    def __init__(self, attached=None):
        self.attached_env = attached
        self.all_driver_hooks, self.all_monitor_hooks = items("dh"), items("mh")
        self.all_driver_ports, self.all_monitor_ports = items("dp"), items("mp")
        self.all_agent_hooks, self.all_agent_ports = items("ah"), items("ap")

    def collect_all(self):
        ghost().collected = True


def found(k, p):
    x = at[k](p)
    return And(0 <= x, x < num[k], path[k](x) == p)


class MModel(GModel):
    """with the contracts of the functions that look for a hook or port (proved below)"""

    def _get(self, k, p, mark):
        p = term(p, Str)
        if wrap(found(k, p)):
            if mark:
                ghost().st.write(k, [at[k](p)], BoolVal(True))
            return (Hook if k[1] == "h" else Port)(k, at[k](p))
        return None

    def get_driver_hook(self, driver_path, mark_matched=False):
        return self._get("dh", driver_path, mark_matched)

    def get_driver_port(self, drive_path, mark_matched=False):
        return self._get("dp", drive_path, mark_matched)

    def get_monitor_hook(self, monitor_path, mark_matched=False):
        return self._get("mh", monitor_path, mark_matched)

    def get_monitor_port(self, monitor_path, mark_matched=False):
        return self._get("mp", monitor_path, mark_matched)


def full(i, j, kind):
    return z3.Concat(ename(i), DOT, mname[kind](i, j))


def method(i, j, kind):
    return And(0 <= i, i < natt, is_agent(i), 0 <= j, j < nmeth[kind](i))


def setup(r):
    g = Ghost()
    g.st = rt.Store()
    for k in KINDS:
        was = fn("formerly_marked_" + k, Int, Bool)
        g.st.field(k, [Int], lambda x, was=was: was(x))
        r.assume(num[k] >= 0)
        if k[0] != "a":
            r.assume(ForAll([X], Implies(And(0 <= X, X < num[k]), at[k](path[k](X)) == X)))  # distinct
        else:
            was2 = fn("formerly_marked_methods_" + k, Int, Int, Bool)
            g.st.field(k + "_m", [Int, Int], lambda x, y, was2=was2: was2(x, y))
            P_ = z3.String("p")
            r.assume(ForAll([X, Y], Implies(And(0 <= Y, Y < nag[k](X)), in_ag[k](X, agn[k](X, Y)))))
            r.assume(ForAll([X, P_], Implies(in_ag[k](X, P_), And(0 <= wit_ag[k](X, P_), wit_ag[k](X, P_) < nag[k](X), agn[k](X, wit_ag[k](X, P_)) == P_))))
            r.assume(ForAll([X], And(nag[k](X) >= 0, nme[k](X) >= 0)))
            r.assume(ForAll([X, Y], Implies(And(0 <= Y, Y < nme[k](X)), at_me[k](X, men[k](X, Y)) == Y)))  # distinct
    for kind in "dm":
        g.st.field("info_" + kind, [Int, Int], lambda i, j: IntVal(0))
        g.st.field("gone_" + kind, [Int, Int], lambda i, j: IntVal(0))
        r.assume(ForAll([X], nmeth[kind](X) >= 0))
        # an agent port names something (get_path below), and agents have methods
    r.assume(ForAll([X], Implies(rng(X, num["ap"]), Or(path["ap"](X) != z3.StringVal(""), nag["ap"](X) > 0, nme["ap"](X) > 0))))
    r.assume(ForAll([X], Implies(And(rng(X, natt), is_agent(X)), nmeth["d"](X) + nmeth["m"](X) > 0)))
    r.assume(natt >= 0)
    r.assume(ForAll([X, Y], Implies(And(0 <= X, X < Y, Y < natt), ename(X) != ename(Y))))
    g.collected = False
    r.root("ghost", g)
    return g


def names_agent(k, x, i):
    return Or(path[k](x) == ename(i), in_ag[k](x, ename(i)))


def names(k, x, i, j, kind):
    """agent hook or port x names method j of agent i"""
    p = at_me[k](x, full(i, j, kind))
    return Or(names_agent(k, x, i), And(0 <= p, p < nme[k](x), men[k](x, p) == full(i, j, kind)))


def is_name(n):
    return Exists([Z], And(0 <= Z, Z < natt, is_agent(Z), ename(Z) == n))


def is_path(n, kinds):
    return Or(*[Exists([Z, W], And(method(Z, W, kind), n == full(Z, W, kind))) for kind in kinds])


def rng(x, n):
    return And(0 <= x, x < n)


def matched(k, st):
    """ensure_all_matched is content with the parts of kind k"""
    f = []
    if k != "ah":
        f.append(ForAll([X], Implies(rng(X, num[k]), st.f[k](X))))
    if k[0] == "a":
        f.append(ForAll([X, Y], Implies(And(rng(X, num[k]), rng(Y, nme[k](X))), st.f[k + "_m"](X, Y))))
    return And(*f)


for _k, _f in (("dh", "get_driver_hook"), ("dp", "get_driver_port"), ("mh", "get_monitor_hook"), ("mp", "get_monitor_port")):

    @contract("P12", f"{_f} finds the one with the path and marks exactly it", [MM + "Model." + _f])
    def _get(r, k=_k, f=_f):
        g = setup(r)
        m = GModel()
        p = sym(r, "path", Str)
        before = g.st.f[k]
        v = getattr(m, f)(p, mark_matched=True)
        if v is None:
            r.prove("none only if none has the path", ForAll([X], Implies(And(0 <= X, X < num[k]), path[k](X) != p.t)))
            r.prove("and then none is marked", ForAll([X], g.st.f[k](X) == before(X)))
        else:
            r.prove("it is of the right kind", BoolVal(v.k == k))
            r.prove("one of the model", And(0 <= v.x, v.x < num[k]))
            r.prove("it has the path", path[k](v.x) == p.t)
            r.prove("exactly it is marked", ForAll([X], g.st.f[k](X) == Or(before(X), X == v.x)))


@contract("P12,P13", "clear_matched clears all marks", [MM + "Model.clear_matched"])
def _clear(r):
    g = setup(r)
    GModel().clear_matched()
    x, y = sym(r, "x").t, sym(r, "y").t
    for k in KINDS:
        r.prove(f"of each {k}", Implies(rng(x, num[k]), Not(g.st.f[k](x))))
        if k[0] == "a":
            r.prove(f"of each method of each {k}", Implies(And(rng(x, num[k]), rng(y, nme[k](x))), Not(g.st.f[k + "_m"](x, y))))


@contract("P12", "ensure_all_matched raises a value error exactly if a mark is missing", [MM + "Model.ensure_all_matched"])
def _ensure(r):
    g = setup(r)
    before = {f: g.st.f[f] for f in g.st.f}
    ok = And(*[matched(k, g.st) for k in KINDS])
    e = raises(ValueError, GModel().ensure_all_matched)
    if e is None:
        for k in KINDS:
            r.prove(f"accepted only if all {k} are marked", matched(k, g.st))
    else:
        r.prove("rejected only if something is not marked", Not(ok))
    r.prove("the marks are left alone", And(*[ForAll([X, Y], g.st.f[f](*[X, Y][: len(g.st.so[f])]) == before[f](*[X, Y][: len(g.st.so[f])])) for f in before]))


class CModel(MModel):
    """with the contracts of clear_matched and ensure_all_matched"""

    def clear_matched(self):
        st = ghost().st
        for k in KINDS:
            st.f[k] = lambda x: BoolVal(False)
            if k[0] == "a":
                st.f[k + "_m"] = lambda x, y: BoolVal(False)

    def ensure_all_matched(self):
        if not wrap(And(*[matched(k, ghost().st) for k in KINDS])):
            raise ValueError("something is not matched")


def injected(kind, i, j, model, info):
    g = ghost()
    r = rt.R
    r.prove("the parts of this model", BoolVal(model is g.model))
    for k, key in (("ah", "agent_hook"), ("ap", "agent_port")):
        v = info[key]
        x = sym(r, "part").t
        r.prove(f"method and {k}: connected exactly if it names it", Implies(rng(x, num[k]), member(v, lambda o: o.x == x) == names(k, x, i, j, kind)))
        r.prove(f"method and {k}: each once", term(rt.b_len(v), Int) == r.sum_(num[k], lambda x: z3.If(names(k, x, i, j, kind), IntVal(1), ZERO)))
    for k, key in (("h", "hook"), ("p", "port")):
        k = kind + k
        v = info[("driver_" if kind == "d" else "monitor_") + key]
        if v is None:
            r.prove(f"method and {k}: none only if none names it", Not(found(k, full(i, j, kind))))
        else:
            r.prove(f"method and {k}: it names it", And(BoolVal(v.k == k), rng(v.x, num[k]), path[k](v.x) == full(i, j, kind)))
    g.st.write("info_" + kind, [i, j], g.st.read("info_" + kind, i, j) + 1)


ZERO = IntVal(0)


def marked(k, x):
    """part x of kind k finds a method (and the agents and methods it names exist)"""
    if k[0] != "a":
        return is_path(path[k](x), k[0])
    return Or(*[Exists([Z, W], And(method(Z, W, kind), names(k, x, Z, W, kind))) for kind in "dm"])


@contract("P12,P13", "each method of each agent is connected once, with exactly what names it, which is marked", [NM + "Env.__inject_all"])
def _inject(r):
    g = setup(r)
    g.injected = injected
    env, m = object.__new__(GEnv), CModel()
    g.model = m
    m.clear_matched()
    env._Env__inject_all(m)
    for kind in "dm":
        i, j = sym(r, "i").t, sym(r, "j").t
        r.prove("each method is connected once", Implies(method(i, j, kind), g.st.f["info_" + kind](i, j) == 1))
        r.prove("and nothing else is", Implies(Not(method(i, j, kind)), g.st.f["info_" + kind](i, j) == 0))
    x, y = sym(r, "x").t, sym(r, "y").t
    for k in KINDS:
        if k != "ah":
            r.prove(f"a {k} is marked exactly if it names a method", Implies(rng(x, num[k]), g.st.f[k](x) == marked(k, x)))
        if k[0] == "a":
            r.prove(f"a method listed by a {k} is marked exactly if it exists", Implies(And(rng(x, num[k]), rng(y, nme[k](x))), g.st.f[k + "_m"](x, y) == is_path(men[k](x, y), "dm")))


isname = fn("an_agent_has_the_name", Str, Bool)  # is_name
ispath = {"d": fn("a_driver_has_the_path", Str, Bool), "m": fn("a_monitor_has_the_path", Str, Bool)}  # is_path
anypath = lambda n: Or(ispath["d"](n), ispath["m"](n))
EMPTY = z3.StringVal("")


def some(k, x, name, meth):
    """part x of kind k names something"""
    return Or(name(path[k](x)), Exists([Y], And(rng(Y, nag[k](x)), name(agn[k](x, Y)))), Exists([Y], And(rng(Y, nme[k](x)), meth(men[k](x, Y)))))


@contract("P12", "an agent port is marked exactly if an agent or a method that it names exists")
def _lemma(r):
    setup(r)
    x = sym(r, "x").t
    meth = lambda n: is_path(n, "dm")
    i, j, y = sym(r, "i").t, sym(r, "j").t, sym(r, "y").t
    agent = And(rng(i, natt), is_agent(i))
    for kind in "dm":
        lemma = some("ap", x, is_name, meth)
        r.prove("marked: something is named", Implies(And(method(i, j, kind), names("ap", x, i, j, kind)), lemma))
        r.prove("a listed method: marked", Implies(And(method(i, j, kind), rng(y, nme["ap"](x)), men["ap"](x, y) == full(i, j, kind)), marked("ap", x)))
    r.prove("a named agent: marked", Implies(And(agent, path["ap"](x) == ename(i)), marked("ap", x)))
    r.prove("a listed agent: marked", Implies(And(agent, rng(y, nag["ap"](x)), agn["ap"](x, y) == ename(i)), marked("ap", x)))


@contract("P12", "the agents of an environment are its attributes that are agents", [NM + "Env.all_agent_names"])
def _names(r):
    setup(r)
    v = object.__new__(GEnv).all_agent_names()
    v = rt.lib.collect(v) if rt.parts_of(v) is None else v
    n = sym(r, "n", Str)
    i = sym(r, "i").t
    r.prove("exactly their names", member(v, lambda o: term(o) == n.t) == is_name(n.t))
    r.prove("each once", term(rt.b_len(v), Int) == r.sum_(natt, lambda i: z3.If(is_agent(i), IntVal(1), ZERO)))


class Names:
    """the names of the agents (contract above); a generator can be searched once: what a second
    search finds is unknown"""

    def __init__(self):
        self.once, self.used = inspect.isgeneratorfunction(EN.Env.all_agent_names), False

    def _vc_contains(self, n):
        if self.once and self.used:
            # searched again: the names before the place where the last search ended are gone
            b = rt.R.fresh("still_there", z3.BoolSort())
            rt.R.assume(Implies(b, isname(term(n, Str))))
            return wrap(b)
        self.used = True
        return wrap(isname(term(n, Str)))

    def _vc_list(self):
        if self.once and self.used:
            raise Unsupported("the names are listed a second time")
        self.used = True
        return AllNames()


class AllNames:
    """the names, kept: they can be searched any number of times"""

    def _vc_contains(self, n):
        return wrap(isname(term(n, Str)))

    def _vc_list(self):
        return self


class SEnv(GEnv):
    """with the contracts of all_agent_names and __inject_all"""

    def all_agent_names(self):
        return Names()


def inject_all(self, model):
    g = ghost()
    rt.R.prove("the parts of the model have been collected and their marks cleared", BoolVal(g.collected and g.cleared and model is g.model))
    g.connected = g.connected + 1
    for k in KINDS:
        g.st.f[k] = (lambda x, k=k: ispath[k[0]](path[k](x))) if k[0] != "a" else (lambda x, k=k: some(k, x, isname, anypath))
        if k[0] == "a":
            g.st.f[k + "_m"] = lambda x, y, k=k: anypath(men[k](x, y))


def uninject_all(self, model):
    """the contract of unattach, without the attachment itself: see there"""
    g = ghost()
    rt.R.prove("only what was connected is disconnected", BoolVal(model is g.model and g.connected == 1))
    g.connected = g.connected - 1


class AModel(CModel):
    def clear_matched(self):
        ghost().cleared = True

    def collect_all(self):
        ghost().collected = True


@contract("P12,P13", "attach accepts a model exactly when everything in it matches", [NM + "Env.attach"])
def _attach(r):
    g = setup(r)
    env, m = object.__new__(SEnv), AModel()
    env.attached_models = rt.SList([])
    g.model, g.env, g.cleared, g.connected = m, env, False, 0
    sp = {}
    for k in KINDS:
        if k[0] != "a":
            sp[k] = lambda x, k=k: ispath[k[0]](path[k](x))
        else:
            sp[k] = lambda x, k=k: And(
                Or(path[k](x) == EMPTY, isname(path[k](x))),
                ForAll([Y], Implies(rng(Y, nag[k](x)), isname(agn[k](x, Y)))),
                ForAll([Y], Implies(rng(Y, nme[k](x)), anypath(men[k](x, Y)))),
            )
    with patched((EN.Env, "_Env__inject_all", inject_all), (EN.Env, "_Env__uninject_all", uninject_all)):
        e = raises(ValueError, env.attach, m)
    r.prove("the parts stay connected exactly if it is accepted", BoolVal(g.connected == (1 if e is None else 0)))
    x = sym(r, "x").t
    if e is None:
        for k in KINDS:
            r.prove(f"accepted only if each {k} names what exists", Implies(rng(x, num[k]), sp[k](x)))
        r.prove("the model belongs to the environment", BoolVal(m.attached_env is env and list(env.attached_models) == [m]))
    else:
        r.prove("rejected only if something does not match", Not(And(*[ForAll([X], Implies(rng(X, num[k]), sp[k](X))) for k in KINDS])))
        r.prove("and then it does not belong to it", BoolVal(m.attached_env is None and list(env.attached_models) == []))


# ---------------------------------------------------------------- unattach, moving a model


class Attached:
    """the models attached to an environment: the model in question (or not) and any others"""

    def __init__(self, has):
        self.has = has

    def _vc_contains(self, m):
        return self.has if m is ghost().model else False

    def append(self, m):
        rt.R.prove("only this model is added", BoolVal(m is ghost().model))
        rt.R.prove("added once", Not(T(rt.b_bool(self.has))))
        self.has = True

    def remove(self, m):
        rt.R.prove("only this model is removed", BoolVal(m is ghost().model))
        rt.R.prove("removed only if it is there", T(rt.b_bool(self.has)))
        self.has = False

    def clear(self):
        rt.R.fail("other models stay attached")


def removed(kind, i, j, model):
    g = ghost()
    rt.R.prove("only the connections of this model are removed", BoolVal(model is g.model))
    g.st.write("gone_" + kind, [i, j], g.st.read("gone_" + kind, i, j) + 1)


@contract("P13", "unattach disconnects every method of an attached model once, and does nothing else", [NM + "Env.unattach"])
def _unattach(r):
    g = setup(r)
    g.removed = removed
    env = object.__new__(GEnv)
    m = CModel(env)
    has = sym(r, "attached", Bool)
    if not has:
        m.attached_env = None
    other = object()
    env.attached_models = Attached(has)
    g.model = m
    out = env.unattach(m)
    r.prove("the environment is returned", BoolVal(out is env))
    i, j = sym(r, "i").t, sym(r, "j").t
    for kind in "dm":
        r.prove("each method is disconnected once, if the model was attached", g.st.f["gone_" + kind](i, j) == z3.If(And(has.t, method(i, j, kind)), IntVal(1), ZERO))
        r.prove("no method is connected", g.st.f["info_" + kind](i, j) == 0)
    r.prove("the model belongs to no environment", BoolVal(m.attached_env is None))
    r.prove("and is not among the attached models", Not(T(rt.b_bool(env.attached_models.has))))


class Former:
    """the environment that the model belongs to; the contract of unattach"""

    def __init__(self, of=None):
        self.of = of

    def unattach(self, model):
        g = ghost()
        rt.R.prove("it is unattached before it is connected", BoolVal(model is g.model and g.connected == 0))
        g.left = g.left + 1
        model.attached_env = None
        return self


class Reattached(SEnv):
    """the environment itself, with the contract of unattach"""

    def unattach(self, model):
        rt.R.prove("it is unattached before it is connected", BoolVal(model is ghost().model and ghost().connected == 0))
        ghost().left = ghost().left + 1
        self.attached_models.remove(model)
        model.attached_env = None
        return self


for _where in ("nowhere", "to another environment", "to this environment"):

    @contract("P12,P13", f"a model attached {_where} is moved to the environment", [NM + "Env.attach"])
    def _move(r, where=_where):
        g = setup(r)
        env = object.__new__(Reattached)
        m = AModel()
        old = {"nowhere": None, "to another environment": Former(), "to this environment": env}[where]
        m.attached_env = old
        env.attached_models = Attached(old is env)
        g.model, g.env, g.cleared, g.connected, g.left = m, env, False, 0, 0
        g.collected = False
        with patched((EN.Env, "_Env__inject_all", inject_all), (EN.Env, "_Env__uninject_all", uninject_all)):
            e = raises(ValueError, env.attach, m)
        r.prove("its hooks and ports are collected as they are now", BoolVal(g.collected))
        r.prove("it leaves its former environment once", BoolVal(g.left == (0 if old is None else 1)))
        r.prove("its parts are connected once, if it is accepted", BoolVal(g.connected == (1 if e is None else 0)))
        if e is None:
            r.prove("it belongs to the environment", BoolVal(m.attached_env is env))
            r.prove("which lists it once", T(rt.b_bool(env.attached_models.has)))
        else:
            r.prove("it belongs to no environment", And(BoolVal(m.attached_env is None), Not(T(rt.b_bool(env.attached_models.has)))))


# ---------------------------------------------------------------- the parts of a model

PK = ("driver port", "monitor port", "agent port", "other port", "driver hook", "monitor hook", "agent hook", "other function", "other")
nparts = z3.Int("attributes_of_model")
pname = fn("name_of_model_attribute", Int, Str)
pkind = fn("kind_of_model_attribute", Int, Int)
own_name = fn("name_given_to_port", Int, Str)


class MAttr:
    _vc_data = True

    def __init__(self, i):
        self.i = i

    def _is(self, *ks):
        return wrap(Or(*[pkind(self.i) == PK.index(k) for k in ks]))

    def _vc_isinstance(self, t):
        if t is MO.Port:
            return self._is(*PK[:4])
        for c, k in ((MO.DriverPort, PK[0]), (MO.MonitorPort, PK[1]), (MO.AgentPort, PK[2])):
            if t is c:
                return self._is(k)
        raise Unsupported("isinstance")

    def _vc_callable(self):
        # driver, monitor and agent ports can be called
        return self._is(*PK[:3], *PK[4:8])

    def _vc_hasattr(self, n):
        for a, k in (("__is_driver_hook__", PK[4]), ("__is_monitor_hook__", PK[5]), ("__is_agent_hook__", PK[6])):
            if n == a:
                return self._is(k)
        raise Unsupported("hasattr " + str(n))

    @property
    def name(self):
        return wrap(ghost().st.read("name", self.i))

    @name.setter
    def name(self, v):
        ghost().st.write("name", [self.i], term(v, Str))


class PModel(MO.Model):
    def _vc_dir(self):
        return SSeq(nparts, lambda i: wrap(pname(i)), "attributes")

    def _vc_getattr(self, n, *d):
        return MAttr(arg(n, pname)[0])


LISTS = {"all_driver_ports": PK[0], "all_monitor_ports": PK[1], "all_agent_ports": PK[2], "all_driver_hooks": PK[4], "all_monitor_hooks": PK[5], "all_agent_hooks": PK[6]}


@contract("P12,P13", "collecting the parts of a model lists each hook and port once, and nothing else", [MM + "Model.collect_all"])
def _collect(r):
    g = Ghost()
    g.st = rt.Store()
    g.st.field("name", [Int], own_name)
    r.root("ghost", g)
    r.assume(nparts >= 0)
    r.assume(ForAll([X], And(0 <= pkind(X), pkind(X) < len(PK))))
    r.assume(ForAll([X, Y], Implies(And(0 <= X, X < Y, Y < nparts), pname(X) != pname(Y))))
    m = object.__new__(PModel)
    stale = MAttr(IntVal(-1))
    for l in LISTS:
        setattr(m, l, rt.SList([stale]))
    m.collect_all()
    x = sym(r, "x").t
    for l, k in LISTS.items():
        v = getattr(m, l)
        isk = lambda i, k=k: pkind(i) == PK.index(k)
        r.prove(f"{l}: exactly the {k}s", member(v, lambda o: o.i == x) == And(rng(x, nparts), isk(x)))
        r.prove(f"{l}: each once", term(rt.b_len(v), Int) == r.sum_(nparts, lambda i: z3.If(isk(i), IntVal(1), ZERO)))
    isport = pkind(x) < 4
    r.prove("a port without a name is named after its attribute", g.st.f["name"](x) == z3.If(And(rng(x, nparts), isport, own_name(x) == EMPTY), pname(x), own_name(x)))


# ---------------------------------------------------------------- paths


class Fn:
    """a method that is decorated"""

    def __init__(self, name):
        self.__name__ = name


def dotted(n):
    return n.replace("__", ".")


def path_spec(p, a, d, own):
    """the method that path p, or agent a and method d, or the function or attribute `own` names"""
    return z3.If(term(p) != EMPTY, term(p), z3.If(term(a) == EMPTY, term(dotted(own)), z3.Concat(term(a), DOT, z3.If(term(d) != EMPTY, term(d), term(own)))))


def path_ok(p, a, d):
    return And(Or(term(p) == EMPTY, And(term(a) == EMPTY, term(d) == EMPTY)), Or(term(a) != EMPTY, term(d) == EMPTY))


def strs(r, *ns):
    return [sym(r, n, Str) for n in ns]


for _deco, _pn, _mn in (("driver_hook", "driver_path", "driver_name"), ("monitor_hook", "monitor_path", "monitor_name")):

    @contract("P12", f"{_deco}: the method it names", [MM + _deco])
    def _path(r, deco=_deco, pn=_pn, mn=_mn):
        p, a, d, own = strs(r, "path", "agent", "method", "function")
        prio = sym(r, "priority")
        r.assume(own.t != EMPTY)
        kw = {pn: p, "agent_name": a, mn: d, "priority": prio}
        ok = And(path_ok(p, a, d), 0 <= prio.t, prio.t <= 99)
        if deco == "driver_hook":
            o = sym(r, "order", Str)
            kw["sche_order"] = o
            ok = And(ok, Or(o.t == z3.StringVal("model_first"), o.t == z3.StringVal("dut_first")))
        res = []
        other = strs(r, "other_function")[0]
        r.assume(other.t != EMPTY)

        def decorate():
            de = getattr(MO, deco)(**kw)
            res.extend([de(Fn(own)), de(Fn(other))])

        e = raises(AssertionError, decorate)
        r.prove("accepted exactly if the arguments make sense", ok == BoolVal(e is None))
        if e is None:
            f, f2 = res
            r.prove("it names the method", term(getattr(f, f"__{pn}__")) == path_spec(p, a, d, own))
            r.prove("a second function that is decorated likewise names its own", term(getattr(f2, f"__{pn}__")) == path_spec(p, a, d, other))
            r.prove("and is marked on its own", BoolVal(f2.__matched__ is not f.__matched__))
            r.prove("it is a hook of this kind, not yet matched", BoolVal(getattr(f, f"__is_{deco}__") is True and list(f.__matched__) == [False]))
            r.prove("with its priority", term(f.__priority__) == prio.t)
            if deco == "driver_hook":
                r.prove("and order", term(f.__sche_order__) == o.t)


for _cls, _pn, _mn in (("DriverPort", "driver_path", "driver_name"), ("MonitorPort", "monitor_path", "monitor_name")):

    @contract("P12", f"{_cls}: the method it names", [MM + _cls + ".get_path"])
    def _port(r, cls=_cls, pn=_pn, mn=_mn):
        p, a, d, own = strs(r, "path", "agent", "method", "attribute")
        r.assume(own.t != EMPTY)
        r.assume(term(dotted(own)) != EMPTY)
        res = []
        e = raises(AssertionError, lambda: res.append(getattr(MO, cls)(**{pn: p, "agent_name": a, mn: d})))
        r.prove("accepted exactly if the arguments make sense", path_ok(p, a, d) == BoolVal(e is None))
        if e is None:
            q = res[0]
            q.name = own
            r.prove("it names the method", term(q.get_path()) == path_spec(p, a, d, own))
            r.prove("and keeps naming it", term(q.get_path()) == path_spec(p, a, d, own))


def listed_once(r, methods, marks, given):
    """the methods that are given, each once, in order, with a mark each that is not set"""
    ms = list(methods)
    first = [k for k, m in enumerate(given) if not any(r.fork(term(m) == term(x)) for x in given[:k])]
    r.prove("it lists each method once, in order", And(BoolVal(len(ms) == len(first)), *[term(m) == term(given[k]) for m, k in zip(ms, first)]))
    r.prove("no method is marked yet", BoolVal(list(marks) == [False] * len(ms)))


@contract("P12", "AgentPort: the agent it names", [MM + "AgentPort.get_path"])
def _agent_port(r):
    a, own, u, v, w = strs(r, "agent", "attribute", "u", "v", "w")
    for ags, mes in [([], []), ([u], []), ([], [v]), ([u], [v]), ([], [v, w]), ([], [v, w, v])]:
        q = MO.AgentPort(a, agents=rt.SList(ags), methods=rt.SList(mes))
        q.name = own
        want = a.t if ags or mes else z3.If(a.t == EMPTY, own.t, a.t)
        r.prove("it names the agent", term(q.get_path()) == want)
        r.prove("and keeps naming it", term(q.get_path()) == want)
        listed_once(r, q.methods, q.methods_matched, mes)
        r.prove("not matched yet", BoolVal(q.matched is False))


@contract("P12", "agent_hook: the agent it names", [MM + "agent_hook"])
def _agent_hook(r):
    a, own, u, v, w, o, other = strs(r, "agent", "function", "u", "v", "w", "order", "other_function")
    prio = sym(r, "priority")
    for ags, mes in [([], []), ([u], []), ([], [v]), ([u], [v]), ([], [v, w]), ([], [v, w, v])]:
        res = []

        def decorate():
            de = MO.agent_hook(a, agents=rt.SList(ags), methods=rt.SList(mes), priority=prio, sche_order=o)
            res.extend([de(Fn(own)), de(Fn(other))])

        e = raises(AssertionError, decorate)
        ok = And(Or(a.t == EMPTY, BoolVal(not ags)), 0 <= prio.t, prio.t <= 99, Or(o.t == z3.StringVal("model_first"), o.t == z3.StringVal("dut_first")))
        r.prove("accepted exactly if the arguments make sense", ok == BoolVal(e is None))
        if e is None:
            f, f2 = res
            want = a.t if ags or mes else z3.If(a.t == EMPTY, own.t, a.t)
            r.prove("it names the agent", term(f.__agent_name__) == want)
            r.prove("a second function that is decorated likewise names its own", term(f2.__agent_name__) == (a.t if ags or mes else z3.If(a.t == EMPTY, other.t, a.t)))
            r.prove("and is marked on its own", BoolVal(f2.__matched__ is not f.__matched__ and f2.__methods_matched__ is not f.__methods_matched__))
            r.prove("it lists the agents and methods", BoolVal(list(f.__agents__) == ags))
            listed_once(r, f.__methods__, f.__methods_matched__, mes)
            r.prove("it is an agent hook, not yet matched", BoolVal(f.__is_agent_hook__ is True and list(f.__matched__) == [False]))
            r.prove("with its priority and order", And(term(f.__priority__) == prio.t, term(f.__sche_order__) == o.t))
