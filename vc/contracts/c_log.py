"""logger.py"""
import logging

from vc.api import *
from vc.contracts.ghost import Partial, ghost, patched
from toffee import logger as lg

M = "toffee.logger."
nold = z3.Const("number_of_former_outputs", Int)
k_, s_ = z3.Int("k"), z3.String("s")
formatted = fn("formatted", Str, Str, Str)  # by logging.Formatter: format and the id's text at that time


# -------------------------------------------------------------------------------- the formatter


class Record:
    def __init__(self, level, **k):
        self.levelname = level
        self.__dict__.update(k)


COLORS = {"DEBUG": lg.BLUE, "INFO": lg.WHITE, "WARNING": lg.YELLOW, "ERROR": lg.RED, "CRITICAL": lg.RED}


def colour(level):
    t = z3.StringVal(lg.WHITE)
    for n, c in COLORS.items():
        t = z3.If(level == z3.StringVal(n), z3.StringVal(c), t)
    return t


def _format(kind):
    def scenario(r):
        level, ident, fmt = sym(r, "level", Str), sym(r, "id", Str), sym(r, "format", Str)
        rec = Record(level, **({} if kind == "no id" else {"log_id": ident}))
        f = object.__new__(lg.ToffeeFormatter)
        f._fmt = fmt
        seen = []

        def base(self, record):
            seen.append(self is f and record is rec)
            return SStr(formatted(term(self._fmt, Str), term(record.log_id, Str)))

        with patched((logging.Formatter, "format", base)):
            got = f.format(rec)
        shown = z3.StringVal("") if kind == "no id" else z3.If(ident.t == z3.StringVal(""), ident.t, z3.Concat(z3.StringVal("(id: "), ident.t, z3.StringVal(")")))
        r.prove("the text is the formatted record, with its own id, in the colour of its severity",
                term(got, Str) == z3.Concat(colour(level.t), formatted(fmt.t, shown), z3.StringVal(lg.RESET)))
        r.prove("the record is formatted once", seen == [True])
        r.prove("the next output finds the id as it was", term(getattr(rec, "log_id", ""), Str) == (z3.StringVal("") if kind == "no id" else ident.t))
        r.prove("and the severity", term(rec.levelname, Str) == level.t)

    return scenario


for _k in ("an id", "no id"):
    contract("P30", f"a record with {_k} is formatted with its id in its colour", [M + "ToffeeFormatter.format"])(_format(_k))


@contract("P30", "a record that does not name an id has none, whatever was formatted before", [M + "ToffeeFormatter.format"])
def _second(r):
    a, b = sym(r, "first_id", Str), sym(r, "second_id", Str)
    f = object.__new__(lg.ToffeeFormatter)
    f._fmt = sym(r, "format", Str)
    r1, r2 = Record(sym(r, "level", Str), log_id=a), Record(sym(r, "level", Str), log_id=b)
    with patched((logging.Formatter, "format", lambda self, rec: SStr(formatted(term(self._fmt, Str), term(rec.log_id, Str))))):
        f.format(r1)
        one = f.format(r2)
        g = object.__new__(lg.ToffeeFormatter)
        g._fmt = f._fmt
        two = g.format(r2)
    r.prove("every output shows the record alike", term(one, Str) == term(two, Str))


@contract("P30", "the severities and their colours", [])
def _colours(r):
    r.prove("five severities, errors and warnings differ from the others", len({lg.YELLOW, lg.RED, lg.BLUE, lg.WHITE}) == 4)
    for n in COLORS:
        r.prove(n + " is the level of that name", getattr(lg, n) == getattr(logging, n))


# -------------------------------------------------------------------------------- the statistics


class Counts:
    """a mapping from names to counts"""

    _vc_data = True

    def __init__(self, nm):
        self.nm = nm

    def _vc_contains(self, k):
        return wrap(ghost().read(self.nm + "_has", term(k, Str)))

    def _get(self, k):
        return wrap(ghost().read(self.nm, term(k, Str)))

    def __getitem__(self, k):
        if not self._vc_contains(k):
            raise KeyError(k)
        return self._get(k)

    def get(self, k, d=None):
        return self._get(k) if self._vc_contains(k) else d

    def setdefault(self, k, d=None):
        if not self._vc_contains(k):
            self[k] = d
        return self._get(k)

    def __setitem__(self, k, v):
        g = ghost()
        g.write(self.nm + "_has", [term(k, Str)], BoolVal(True))
        g.write(self.nm, [term(k, Str)], term(v, Int))


def _stats(kind):
    def scenario(r):
        h0, c0 = fn("severity_known", Str, Bool), fn("severity_count", Str, Int)
        h1, c1 = fn("id_known", Str, Bool), fn("id_count", Str, Int)
        g = rt.Store()
        g.field("sev_has", [Str], lambda x: h0(x))
        g.field("sev", [Str], lambda x: c0(x))
        g.field("id_has", [Str], lambda x: h1(x))
        g.field("id", [Str], lambda x: c1(x))
        r.root("ghost", g)
        level, ident = sym(r, "level", Str), sym(r, "id", Str)
        r.assume(ident.t != z3.StringVal(""))
        rec = Record(level, **({"log_id": ident} if kind == "an id" else {"log_id": ""} if kind == "an empty id" else {}))
        me = object.__new__(lg.StatsHandler)
        me.serverity_stats, me.id_stats = Counts("sev"), Counts("id")
        me.emit(rec)
        x = r.fresh("some_name", Str)
        cnt = lambda f, h, c: z3.If(h(x), c(x), 0)
        was = lambda h, c: z3.If(h(x), c(x), 0)
        now = lambda nm: z3.If(g.f[nm + "_has"](x), g.f[nm](x), 0)
        r.prove("its severity counts one more, no other changes", now("sev") == was(h0, c0) + z3.If(x == level.t, 1, 0))
        if kind == "an id":
            r.prove("its id counts one more, no other changes", now("id") == was(h1, c1) + z3.If(x == ident.t, 1, 0))
        else:
            name = z3.StringVal("default" if kind == "an empty id" else "default_id")
            r.prove("the count of records without id is one more, no other changes", Or(
                *[now("id") == was(h1, c1) + z3.If(x == z3.StringVal(n), 1, 0) for n in ("default", "default_id")]))
        r.prove("the record is left as it was", And(term(rec.levelname, Str) == level.t, BoolVal(("log_id" in vars(rec)) == (kind != "no id"))))
        r.prove("the statistics by severity are what get_stats returns", me.get_stats() is me.serverity_stats)

    return scenario


for _k in ("an id", "an empty id", "no id"):
    contract("P30", f"a record with {_k} is counted once by severity and once by id", [M + "StatsHandler.emit", M + "StatsHandler.get_stats"])(_stats(_k))


# -------------------------------------------------------------------------------- setting up


class Out:
    """an output"""

    _vc_track = True

    def __init__(self, kind, level, file=None):
        self.kind, self.level, self.file, self.formatter, self.closed = kind, level, file, None, False

    def setLevel(self, v):
        self.level = v

    def setFormatter(self, f):
        self.formatter = f

    def close(self):
        self.closed = True

    def flush(self):
        pass


class Old:
    """former output k"""

    _vc_data = True

    def __init__(self, k):
        self.k = k

    def close(self):
        pass

    flush = close


class Handlers:
    """the list of the former outputs: while it changes, only copies of it are gone through"""

    _vc_data = True

    def copy(self):
        return SList(parts=SSeq(nold, Old).parts())

    _vc_list = copy

    def _vc_parts(self):
        raise Unsupported("the list of outputs is gone through while it changes")

    def __iter__(self):
        raise Unsupported("the list of outputs is gone through while it changes")

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.copy()[k]
        raise Unsupported("index of an output")

    def clear(self):
        g = ghost().st
        g.f = dict(g.f)
        g.f["removed"] = lambda k: And(0 <= k, k < nold)


class Logger:
    _vc_track = True

    def __init__(self):
        self.st = rt.Store()
        self.st.field("removed", [Int], lambda k: BoolVal(False))
        self.level = None
        self.added = []
        self.handlers = Handlers()

    def setLevel(self, v):
        self.level = v

    def addHandler(self, h):
        if not any(h is x for x in self.added):
            self.added = self.added + [h]

    def removeHandler(self, h):
        if type(h) is Old:
            g = ghost().st
            g.write("removed", [h.k], BoolVal(True))
        else:
            self.added = [x for x in self.added if x is not h]


@contract("P30", "set-up leaves exactly the configured outputs, with the level and the format", [M + "setup_logging"])
def _setup(r):
    r.assume(nold >= 0)
    level, fmt, console, path = sym(r, "level"), sym(r, "format", Str), sym(r, "console", Bool), sym(r, "path", Str)
    to_file = r.fork(r.fresh("to_a_file", Bool))
    r.assume(And(level.t >= 0, path.t != z3.StringVal("")))
    log = Logger()
    r.root("ghost", log)
    stats, screen = Out("stats", 0), Out("screen", sym(r, "former_level"))
    root = []

    class Logging(metaclass=Partial):
        INFO, DEBUG, WARNING, ERROR, CRITICAL = logging.INFO, logging.DEBUG, logging.WARNING, logging.ERROR, logging.CRITICAL

        @staticmethod
        def basicConfig(**k):
            root.append(k)

        @staticmethod
        def FileHandler(filename, mode="a", *a, **k):
            return Out("file", 0, filename)

    def init(self, fmt=None, *a, **k):
        self._fmt = fmt

    with patched((lg, "toffee_logger", log), (lg, "stats_handler", stats), (lg, "screen_handler", screen), (lg, "logging", Logging), (logging.Formatter, "__init__", init)):
        lg.setup_logging(log_level=level, format=fmt, console_display=console, log_file=path if to_file else None)
    k = r.fresh("former", Int)
    r.assume(And(0 <= k, k < nold))
    r.prove("no former output is left", log.st.f["removed"](k))
    outs = [x.kind for x in log.added]
    r.prove("records are counted", outs.count("stats") == 1)
    r.prove("the screen is an output exactly if asked for", BoolVal(outs.count("screen") == 1) == console.t)
    r.prove("the file is one exactly if given", outs.count("file") == (1 if to_file else 0))
    r.prove("there is no other", len(outs) == len(set(outs)))
    r.prove("the level is the one configured", term(log.level) == level.t)
    for x in log.added:
        r.prove("no output drops a record that passes the level", term(x.level) <= level.t)
        if x.kind != "stats":
            r.prove("an output has the configured format", And(BoolVal(type(x.formatter) is lg.ToffeeFormatter), term(getattr(x.formatter, "_fmt", ""), Str) == fmt.t))
        if x.kind == "file":
            r.prove("the file is the one given", term(x.file, Str) == path.t)
    r.prove("the root logger gets no output", all("handlers" in k and len(k["handlers"]) == 0 for k in root))
