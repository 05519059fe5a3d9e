"""scripts/bundle_code_gen.py"""
import os

import toffee
from toffee import bundle
from vc import load
from vc.api import *
from vc.contracts.ghost import Partial, ghost, patched

mod = load.load_file(os.path.join(load.REPO, "scripts", "bundle_code_gen.py"), "bundle_code_gen")
M = "bundle_code_gen."

npin, pname = z3.Const("number_of_pins", Int), fn("pin_name", Int, Str)
prefix, regex, title = z3.Const("prefix", Str), z3.Const("regex", Str), z3.Const("class_name", Str)
hit, ngroups = fn("regex_matches", Str, Bool), fn("groups_of_match", Str, Int)
gnone, gtext, joined = fn("group_is_absent", Str, Int, Bool), fn("text_of_group", Str, Int, Str), fn("joined_groups", Str, Str)
ndict, dkey, dval = z3.Const("entries_of_dictionary", Int), fn("key_in_dictionary", Int, Str), fn("value_in_dictionary", Int, Str)
K, J = z3.Int("K"), z3.Int("J")


def rng(x, n):
    return And(0 <= x, x < n)


class Device:
    """what Bundle.dut_all_signals tells about a device"""

    @staticmethod
    def dut_all_signals(dut):
        return SSeq(npin, lambda k: {"name": wrap(pname(k)), "org_name": wrap(pname(k)), "signal": object()}, "pins")


class Match:
    _vc_data = True

    def __init__(self, n):
        self.n = n

    def groups(self, default=None):
        n = self.n
        if default is not None:
            return SSeq(ngroups(n), lambda j: wrap(z3.If(gnone(n, j), term(default, Str), gtext(n, j))), "groups")
        return SSeq(ngroups(n), lambda j: None if rt.R.fork(gnone(n, j)) else wrap(gtext(n, j)), "groups")


class Rx:
    _vc_data = True

    def __init__(self, pat):
        self.pat = pat

    def search(self, s):
        return Re.search(self.pat, s)


class Re(metaclass=Partial):
    @staticmethod
    def compile(pat, *a):
        return Rx(pat)

    @staticmethod
    def search(pat, s, *a):
        rt.R.prove("the given expression is searched", term(pat, Str) == regex)
        n = term(s, Str)
        return Match(n) if rt.R.fork(hit(n)) else None


def subterms(e):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            out.append(x)
            todo.extend(x.children())
    return out


def join_groups(sep, xs):
    """the name is made of the groups in order, absent ones are empty"""
    ps = rt.parts_of(xs)
    if sep != "" or ps is None or len(ps) != 1 or not isinstance(ps[0], Many):
        raise Unsupported("join")
    j = rt.R.fresh("group", Int)
    alts = rt.guarded(ps[0].fn(j))
    found = [e for c, v in alts for e in subterms(c if v is None else And(c, term(v, Str) == gtext(z3.StringVal(""), j))) if z3.is_app(e) and e.decl().name() in (gnone.name(), gtext.name()) and not z3.is_string_value(e.arg(0))]
    if not found:
        raise Unsupported("join of something else")
    n = found[0].arg(0)
    empty, here = z3.StringVal(""), rng(j, ngroups(n))
    rt.R.prove("each group is joined once", Implies(here, And(z3.Sum([z3.If(c, 1, 0) for c, _ in alts]) <= 1, *[Not(c) for c, v in alts if v is None])))
    got = empty
    for c, v in alts:
        if v is not None:
            got = z3.If(c, term(v, Str), got)
    rt.R.prove("absent groups are empty, the others their text", Implies(here, got == z3.If(gnone(n, j), empty, gtext(n, j))))
    return wrap(joined(n))


class Given:
    """the given dictionary"""

    _vc_data = True

    def keys(self):
        return SSeq(ndict, lambda k: wrap(dkey(k)), "keys")

    def values(self):
        return SSeq(ndict, lambda k: wrap(dval(k)), "values")

    def items(self):
        return SSeq(ndict, lambda k: (wrap(dkey(k)), wrap(dval(k))), "entries")

    def _vc_str(self):
        return wrap(z3.Const("text_of_dictionary", Str))


HOLES = {"prefix": "P_x", "regex": r"R(\d)\b.\1x", "class_name": "CN", "text_of_dictionary": "{'k': 'v'}", "class_text": "class CN:\n    from_prefix = lambda *a, **k: ('prefix', a, k)\n    from_regex = lambda *a, **k: ('regex', a, k)\n    from_dict = lambda *a, **k: ('dict', a, k)\n"}


def text(t, holes):
    """a text with something in place of its symbolic parts"""
    t = z3.simplify(term(t, Str))
    todo, out = [t], ""
    while todo:
        x = todo.pop(0)
        if z3.is_string_value(x):
            out += rt.str_value(x)
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            todo = x.children() + todo
        elif str(x) in holes:
            out += holes[str(x)]
        else:
            raise Unsupported(f"text of a form that is not known: {x}")
    return out


def run_text(code):
    ns = {"__name__": "generated"}
    try:
        exec(code, ns)
    except Exception as e:
        return None, f"{type(e).__name__}: {e}\n{code}"
    return ns, ""


def _gen(kind):
    def scenario(r):
        for n in (npin, ndict):
            r.assume(n >= 0)
        r.hooks["sorted"] = lambda xs, key, rev: SList(parts=rt.parts_of(xs))  # the same elements in some order
        r.hooks["join"] = join_groups
        calls = []

        def layout(bundle_name, signals, max_width):
            calls.append((bundle_name, signals))
            return wrap(z3.Const("class_text", Str))

        arg = {"prefix": wrap(prefix), "regex": wrap(regex), "dict": Given()}[kind]
        width = sym(r, "width")
        with patched((mod, "Bundle", Device), (mod, "re", Re), (mod, "__gen_bundle_code", layout)):
            f = getattr(mod, "gen_bundle_code_from_" + kind)
            got = []
            e = raises(AssertionError, lambda: got.append(f(wrap(title), object(), arg, width)))
        if kind == "dict":
            n, sel, nm = ndict, lambda k: Exists([J], And(rng(J, npin), pname(J) == dval(k))), dkey
        elif kind == "prefix":
            n, sel = npin, lambda k: z3.PrefixOf(prefix, pname(k))
            nm = lambda k: z3.SubString(pname(k), z3.Length(prefix), z3.Length(pname(k)) - z3.Length(prefix))
        else:
            n, sel, nm = npin, lambda k: hit(pname(k)), lambda k: joined(pname(k))
        some = Exists([K], And(rng(K, n), sel(K)))
        if e is not None:
            r.prove("an error means that nothing matches", Not(some), why=repr(e))
            return
        r.prove("it is an error if nothing matches", some)
        r.prove("one class is laid out", len(calls) == 1)
        name, signals = calls[0]
        r.prove("of the given name", term(name, Str) == title)
        s = r.fresh("some_name", Str)
        inside = member(signals, lambda v: term(v, Str) == s)
        wanted = Exists([K], And(rng(K, n), sel(K), nm(K) == s))
        r.prove("every name that is laid out is that of a match", Implies(inside, wanted))
        r.prove("the name of every match is laid out", Implies(wanted, inside))
        ps = rt.parts_of(signals)
        if ps is None or len(ps) != 1 or not isinstance(ps[0], Many):
            raise Unsupported("names that do not follow the matches")
        k = r.fresh("match", Int)
        r.prove("once for each", Implies(rng(k, n), And(term(ps[0].n) == n, rt.plen(ps[0].fn(k)) == z3.If(sel(k), 1, 0))))
        ns, why = run_text(text(got[0], HOLES))
        want = {"prefix": HOLES["prefix"], "regex": HOLES["regex"], "dict": {"k": "v"}}[kind]
        b = (ns or {}).get("bundle")
        r.prove("the text makes an instance by the rule " + why, isinstance(b, tuple) and b[0] == kind and [*b[1], *b[2].values()] == [want])

    return scenario


for _k in ("prefix", "regex", "dict"):
    contract("P31", f"code from a {_k} names exactly the matching signals of a device of any size", [M + "gen_bundle_code_from_" + _k])(_gen(_k))


def _layout(n):
    def scenario(r):
        names = [sym(r, f"name{i}", Str) for i in range(n)]
        for x in names:
            r.assume(z3.Length(x.t) > 0)
        width = sym(r, "width")
        r.hooks["unroll"] = True
        with patched():
            got = getattr(mod, "__gen_bundle_code")(wrap(title), rt.mklist(list(names)), width)
        ns, why = run_text(text(got, HOLES | {f"name{i}": f"N{i}" for i in range(n)}))
        c = (ns or {}).get("CN")
        r.prove("the text defines a bundle class " + why, isinstance(c, type) and issubclass(c, toffee.Bundle))
        sigs = {k: v for k, v in vars(c).items() if isinstance(v, toffee.Signal)} if c else {}
        r.prove("with exactly these signals", sorted(sigs) == sorted(f"N{i}" for i in range(n)))
        r.prove("each its own", len({id(v) for v in sigs.values()}) == len(sigs))

    return scenario


for _n in range(1, 6):
    contract("P31", f"{_n} signals, names and line width of any length: the text defines exactly them", [M + "__gen_bundle_code"], bounded=f"{_n} signals")(_layout(_n))
for _n in (6, 7, 8):
    contract("P31", f"{_n} signals, names and line width of any length: the text defines exactly them", [M + "__gen_bundle_code"], bounded=f"{_n} signals", tier="thorough")(_layout(_n))


# ------------------------------------------------ the text, for any number of names

nsig, nm = z3.Int("number_of_names"), fn("name", Int, Str)
opens = fn("text_lists_names_up_to", Str, Int, Bool)
Z = z3.StringVal


def branches(t, c=()):
    """(condition, value) of a nest of ifs"""
    ps = flat(t)
    for k, p in enumerate(ps):
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
            return [b for g, v in ((p.arg(0), p.arg(1)), (Not(p.arg(0)), p.arg(2))) for b in branches(concat(*ps[:k], v, *ps[k + 1 :]), (*c, g))]
    return [(And(*c), t)]


def concat(*xs):
    out = []
    for x in xs:
        out += x.children() if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [x]
    return out[0] if len(out) == 1 else z3.Concat(*out)


def flat(x):
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in x.children() for p in flat(c)]
    return [x]


def defines(code, names):
    """the text defines a bundle class with exactly these signals"""
    ns, why = run_text(code)
    c = (ns or {}).get("CN")
    if not (isinstance(c, type) and issubclass(c, toffee.Bundle)):
        return False
    sigs = {k: v for k, v in vars(c).items() if isinstance(v, toffee.Signal)}
    return sorted(sigs) == sorted(names) and len({id(v) for v in sigs.values()}) == len(sigs)


@contract("P31", "any number of signals, names and line width of any length: the text lists all of them in order and defines them", [M + "__gen_bundle_code"])
def _any_layout(r):
    """`opens(s, m)`: the text s is the head of the class and the names before the m-th, each followed by
    a comma and a space, possibly with continuations of the line between two of them.  The rules of such
    texts are the hypotheses below; that the code only makes such texts is an induction over the lines
    and, in each line, over its names."""
    r.assume(nsig > 0)
    width = sym(r, "width")
    names = SSeq(nsig, lambda k: wrap(nm(k)), "names")
    with patched():
        got = getattr(mod, "__gen_bundle_code")(wrap(title), names, width)
    recs = {v[0].name(): v for v in r.ex.recs.values()}
    t = z3.simplify(term(got, Str))
    if not (z3.is_app(t) and t.decl().name() in recs and t.num_args()):
        raise Unsupported("a text that is not made line by line")

    def unfold(t):
        """value at 0, value at i and step of a recursion, for the arguments of one of its applications"""
        f, formal, x, v0, step, y = recs[t.decl().name()]
        args = t.children()[:-1]
        sub = list(zip(formal, args))
        return (z3.substitute(v0, *sub) if sub else v0), (lambda i: f(*args, i)), (lambda i: z3.substitute(step, *sub, (x, i), (y, f(*args, i))))

    C0, C, Cstep = unfold(t)
    N = t.arg(t.num_args() - 1)
    if not (z3.is_const(N) and N.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        raise Unsupported("lines that are not counted")
    heads = []
    for c in r.pc:
        c = z3.simplify(c)
        if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE) and c.num_args() == 2:
            a, b = c.children() if c.decl().kind() == z3.Z3_OP_LE else reversed(c.children())
            if a.eq(nsig) and N.get_id() in {x.get_id() for x in subterms(b)}:
                heads.append(b)
    if len(heads) != 1:
        raise Unsupported("lines that do not end with the last name")
    at = lambda i: z3.substitute(heads[0], (N, i))  # names in the lines before line i
    i, k = r.fresh("line", Int), r.fresh("place", Int)
    lines = branches(Cstep(i))
    inner = {x.sexpr(): x for _, leaf in lines for x in subterms(leaf) if z3.is_app(x) and x.decl().name() in recs and x.sort() == Str and not x.eq(C(i))}
    if len(inner) != 1:
        raise Unsupported("a line that is not made name by name")
    line = next(iter(inner.values()))
    F0, F, Fstep = unfold(line)
    K = line.arg(line.num_args() - 1)
    lead = flat(F0)[0]
    if not (z3.is_string_value(lead) and rt.str_value(lead).strip(" \t") == ""):
        raise Unsupported("a line that does not begin with a space")
    # the head of the class and what may stand between, before and after names, tried on the text itself
    hole = dict(HOLES)
    head = concat(C0, lead)
    first, second = Z("N0, "), Z("N1")
    close = lambda n: f" = Signals({n})\n"
    r.prove("the head of the text begins a bundle class", defines(text(head, hole) + "N0, N1" + close(2), ["N0", "N1"]))
    comma = Z(", ")
    name = lambda s, m: Implies(And(opens(s, m), 0 <= m, m < nsig), opens(concat(s, nm(m), comma), m + 1))
    here = And(0 <= i, i < N)
    start = concat(C(i), lead)
    r.prove("no name is listed before the first line", And(at(IntVal(0)) == 0, z3.simplify(C(IntVal(0)) == C0)))
    at_head = And(here, opens(start, at(i)), 0 <= at(i), at(i) < nsig)
    r.prove("a line begins with the next name", Implies(And(at_head, name(start, at(i))), opens(concat(C(i), F0), at(i) + 1)))
    s = concat(C(i), F(k))
    r.prove(
        "a line goes on with the next name",
        Implies(And(at_head, 0 <= k, k < K, opens(s, at(i) + 1 + k), at(i) + 1 + k < nsig, name(s, at(i) + 1 + k)), And(*[Implies(c, opens(concat(C(i), v), at(i) + 2 + k)) for c, v in branches(Fstep(k))])),
    )
    r.prove("as long as there is one", Implies(And(at_head, 0 <= k, k < K), at(i) + 1 + k < nsig))
    r.prove("the next line begins after it", Implies(at_head, And(K >= 0, at(i + 1) == at(i) + 1 + K)))
    # a whole line, by the induction above
    D = z3.Const("the_line_without_the_last_comma", Str)
    r.prove("a line ends with a comma and a space", And(*[BoolVal(z3.is_string_value(flat(v)[-1]) and rt.str_value(flat(v)[-1]).endswith(", ")) for v in [F0] + [v for _, v in branches(Fstep(k))]]))
    whole = And(at_head, K >= 0, at(i + 1) == at(i) + 1 + K, at(i + 1) <= nsig, opens(concat(C(i), F(K)), at(i + 1)), F(K) == concat(D, comma), z3.Length(F(K)) == z3.Length(D) + 2, z3.Length(D) > 0)
    r.prove("it has a name at most for each that is left", Implies(And(at_head, K >= 0, Implies(K > 0, at(i) + K < nsig), at(i + 1) == at(i) + 1 + K), at(i + 1) <= nsig))
    for c, leaf in lines:
        ps = flat(leaf)
        if not ps[0].eq(C(i)) or len(ps) < 2:
            raise Unsupported("a line that is not added to those before")
        if ps[1].eq(F(K)):
            rest = ps[2:]
            if not rest or not all(z3.is_string_value(p) for p in rest):
                raise Unsupported("the end of a line")
            r.prove("a line that is not the last is continued", Implies(And(whole, c, at(i + 1) < nsig), defines(text(head, hole) + "N0, " + "".join(map(rt.str_value, rest)) + rt.str_value(lead) + "N1" + close(2), ["N0", "N1"])))
            r.prove("the last line is not continued", Implies(And(whole, c), at(i + 1) < nsig))
            continue
        cut = ps[1]
        if z3.is_app(cut) and cut.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and cut.arg(0).eq(F(K)):
            a = z3.Const("a_text", Str)
            trim = z3.substitute(cut, (F(K), concat(a, comma)))
            r.prove("only the last comma is dropped", trim == a)
            tail, ok = ps[2:], BoolVal(True)
        else:
            tail, ok = ps[1:], BoolVal(False)  # a line without names
        good = all(defines(text(head, hole) + ", ".join(f"N{j}" for j in range(n)) + "".join(rt.str_value(p) if z3.is_string_value(p) else str(n) for p in tail), [f"N{j}" for j in range(n)]) for n in (1, 2, 3))
        if not all(z3.is_string_value(p) or (z3.is_app(p) and p.decl().name() == "str_int" and p.arg(0).eq(nsig)) for p in tail):
            raise Unsupported("the end of the text")
        r.prove("the last line ends the list of all names", Implies(And(whole, c), And(ok, BoolVal(good), at(i + 1) == nsig)))
    r.prove("the lines end with the last name", And(N > 0, Implies(i + 1 == N, Implies(whole, at(N) == nsig)), Implies(And(0 <= i, i + 1 < N), at(i + 1) < nsig)))
    r.prove("a text that is listed is that of the lines", Implies(here, C(i + 1) == Cstep(i)))


nnew = z3.Int("number_of_signals")


class NewSignal:
    _vc_data = True


@contract("P31", "Signals makes as many signals as asked for", ["toffee.bundle.Signals"])
def _signals(r):
    n = wrap(nnew)
    r.assume(nnew > 0)
    with patched((bundle, "Signal", NewSignal)):
        got = bundle.Signals(n)
    if isinstance(got, NewSignal):
        r.prove("one signal only if one is asked for", nnew == 1)
        return
    ps = rt.parts_of(got)
    if ps is None or len(ps) != 1 or not isinstance(ps[0], Many):
        raise Unsupported("signals in another form")
    k = r.fresh("signal", Int)
    r.prove("as many as asked for", And(nnew != 1, term(ps[0].n) == nnew, rt.plen(ps[0].fn(k)) == 1))
