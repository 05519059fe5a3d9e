"""Discharging obligations: z3, after quantifier instantiation by linear matching."""
import re, time
import z3

stats = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}
TIMEOUT = 8000


def _vars_in(e, n):
    """does e contain a de Bruijn variable?"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


_hq = {}


def has_quant(e):
    k = e.get_id()
    if k not in _hq:
        _hq[k] = (_has_quant(e), e)
    return _hq[k][0]


def _has_quant(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


_names = {}


def fun_names(e):
    """names of the uninterpreted functions (with arguments) in a term"""
    k = e.get_id()
    if k in _names:
        return _names[k][0]
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in _names:
            out |= _names[i][0]
            continue
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args():
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                todo.extend(x.children())
    _names[k] = (frozenset(out), e)
    return _names[k][0]


def linear(e, v):
    """(coefficient, rest) of the constant v in the integer term e, or None"""
    if e.eq(v):
        return 1, z3.IntVal(0)
    if z3.is_int_value(e):
        return 0, e
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            c, r = 0, z3.IntVal(0)
            for a in e.children():
                l = linear(a, v)
                if l is None:
                    return None
                c += l[0]
                r = r + l[1]
            return c, z3.simplify(r)
        if k == z3.Z3_OP_SUB:
            ls = [linear(a, v) for a in e.children()]
            if any(l is None for l in ls):
                return None
            c, r = ls[0]
            for l in ls[1:]:
                c -= l[0]
                r = r - l[1]
            return c, z3.simplify(r)
        if k == z3.Z3_OP_UMINUS:
            l = linear(e.children()[0], v)
            return None if l is None else (-l[0], z3.simplify(-l[1]))
        if k == z3.Z3_OP_MUL and len(e.children()) == 2 and z3.is_int_value(e.children()[0]):
            l = linear(e.children()[1], v)
            m = e.children()[0].as_long()
            return None if l is None else (m * l[0], z3.simplify(m * l[1]))
    if _contains(e, v):
        return None
    return 0, e


def _contains(e, v):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def apps(e, out, seen):
    """uninterpreted applications in a quantifier-free term"""
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.setdefault(x.decl().name(), []).append(x)
        todo.extend(x.children())


class Inst:
    def __init__(self, formulas):
        self.ground = []
        self.quants = {}  # proxy name -> (proxy, vars, body)
        self.done = set()
        self.apps = {}
        self.seen = set()
        self.k = 0
        for f in formulas:
            self.add(f)

    def add(self, f):
        g = z3.Goal()
        g.add(f)
        if has_quant(f):
            try:
                r = z3.Then(z3.Tactic("simplify"), z3.Tactic("nnf"))(g)[0]
                fs = [r[i] for i in range(len(r))]
            except z3.Z3Exception:
                fs = [f]
        else:
            fs = [f]
        for x in fs:
            y = self.proxy(x)
            self.ground.append(y)
            apps(y, self.apps, self.seen)

    def proxy(self, e):
        """replace maximal universally quantified subformulas (positive after nnf) by proxies"""
        subs = []
        todo, seen = [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                subs.append(x)
                continue
            todo.extend(x.children())
        pairs = []
        for q in subs:
            key = q.sexpr()
            if key not in self.quants:
                p = z3.Bool(f"q!{len(self.quants)}")
                vs = [z3.Const(f"qv!{len(self.quants)}!{i}", q.var_sort(i)) for i in range(q.num_vars())]
                body = z3.substitute_vars(q.body(), *reversed(vs))
                if not q.is_forall():
                    vs = None  # an existential that nnf left: no instance, only the proxy
                self.quants[key] = (p, vs, body)
            pairs.append((q, self.quants[key][0]))
        return z3.substitute(e, *pairs) if pairs else e

    def round(self, limit=4000):
        new = []
        for key, (p, vs, body) in list(self.quants.items()):
            if vs is None:
                continue
            pats = {}
            apps(body, pats, set())
            cands = [dict() for _ in vs]
            for name, ps in pats.items():
                for pat in ps:
                    for gnd in self.apps.get(name, []):
                        if gnd.num_args() != pat.num_args():
                            continue
                        for a, b in zip(pat.children(), gnd.children()):
                            for vi, v in enumerate(vs):
                                if not _contains(a, v):
                                    continue
                                if a.eq(v):
                                    t = b
                                elif a.sort() == z3.IntSort() and v.sort() == z3.IntSort():
                                    l = linear(a, v)
                                    if l is None or abs(l[0]) != 1 or any(_contains(l[1], w) for w in vs):
                                        continue
                                    t = z3.simplify(b - l[1] if l[0] == 1 else l[1] - b)
                                else:
                                    continue
                                if t.sort() == v.sort():
                                    cands[vi][t.sexpr()] = t
            # variables without any pattern: use the index constants of the ground part
            for vi, v in enumerate(vs):
                if not cands[vi] and v.sort() == z3.IntSort():
                    for t in self.int_terms():
                        cands[vi][t.sexpr()] = t
            combos = [()]
            for c in cands:
                combos = [x + (t,) for x in combos for t in list(c.values())[:40]]
                if len(combos) > 600:
                    combos = combos[:600]
            for ts in combos:
                if len(ts) != len(vs):
                    continue
                k = (key, tuple(t.sexpr() for t in ts))
                if k in self.done:
                    continue
                self.done.add(k)
                new.append((p, z3.substitute(body, *zip(vs, ts))))
                if len(new) > limit:
                    break
        for p, b in new:
            self.add(z3.Implies(p, b))
        return len(new)

    def int_terms(self):
        res = {}
        for f in self.ground:
            todo, seen = [f], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.sort() == z3.IntSort() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    res[x.sexpr()] = x
                todo.extend(x.children())
        return list(res.values())[:12]


SEED = 1


def check(formulas, timeout, model=False):
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.set("random_seed", SEED)
    s.add(*formulas)
    t = time.time()
    r = s.check()
    stats["queries"] += 1
    stats["time"] += time.time() - t
    stats[str(r)] += 1
    return r, s


def flatten(fs):
    out = []
    for f in fs:
        if z3.is_and(f):
            out += flatten(f.children())
        else:
            out.append(f)
    return out


_sk = [0]


def split(hyps, goal):
    """goals that together imply the goal: conjunctions, quantifiers and equivalences taken apart"""
    if not has_quant(goal):
        return [(hyps, goal)]
    if z3.is_and(goal):
        return [x for g in goal.children() for x in split(hyps, g)]
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = []
        for n in range(goal.num_vars()):
            _sk[0] += 1
            cs.append(z3.Const(f"{goal.var_name(n)}!sk{_sk[0]}", goal.var_sort(n)))
        return split(hyps, z3.substitute_vars(goal.body(), *reversed(cs)))
    if z3.is_implies(goal):
        return split(hyps + [goal.arg(0)], goal.arg(1))
    if z3.is_app(goal) and goal.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(goal.arg(0)):
        a, b = goal.children()
        return split(hyps + [a], b) + split(hyps + [b], a)
    if z3.is_or(goal):
        cs = goal.children()
        for n, c in enumerate(cs):
            if z3.is_and(c) or (z3.is_quantifier(c) and c.is_forall()):
                return split(hyps + [z3.simplify(z3.Not(x)) for x in cs[:n] + cs[n + 1:]], c)
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = goal.children()
        return split(hyps + [c], a) + split(hyps + [z3.Not(c)], b)
    return [(hyps, goal)]


def prove(hyps, goal, timeout=None, rounds=3):
    """('discharged', None) | ('refuted', model) | ('undecided', reason)"""
    worst = ("discharged", None)
    for h, g in split(list(hyps), goal):
        r = prove1(h, g, timeout, rounds)
        if r[0] == "refuted":
            return r
        if r[0] == "undecided":
            worst = r
            break
    return worst


TEXT = z3.DeclareSort("Text")
_cat = z3.Function("text_cat", TEXT, TEXT, TEXT)
_tlen = z3.Function("text_length", TEXT, z3.IntSort())


def str_value(x):
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), x.as_string())


def joins_texts(fs):
    """is there a concatenation of texts?"""
    todo, seen = list(fs), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                return True
            todo.extend(x.children())
    return False


class Plain:
    """Texts as elements of a sort of their own, with uninterpreted operations (concatenations are
    flattened, lengths add up, different constants differ).  Every model of the original formulas is
    one of these, so that "unsatisfiable" carries over; nothing else does."""

    def __init__(self):
        self.memo, self.keep, self.lits, self.facts = {}, [], {}, []

    def so(self, s):
        return TEXT if s == z3.StringSort() else s

    def lit(self, v):
        if v not in self.lits:
            c = z3.Const(f"text!{len(self.lits)}", TEXT)
            self.lits[v] = c
            self.facts.append(_tlen(c) == len(v))
        return self.lits[v]

    def pieces(self, x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return [p for c in x.children() for p in self.pieces(c)]
        return [x]

    def term(self, x):
        k = x.get_id()
        if k not in self.memo:
            self.keep.append(x)
            self.memo[k] = self.make(x)
        return self.memo[k]

    def make(self, x):
        if z3.is_string_value(x):
            return self.lit(str_value(x))
        if not z3.is_app(x):
            raise z3.Z3Exception("bound")
        d = x.decl()
        kind = d.kind()
        if kind == z3.Z3_OP_SEQ_CONCAT:
            ps, run = [], None
            for p in self.pieces(x):
                if z3.is_string_value(p):
                    run = (run or "") + str_value(p)
                else:
                    if run:
                        ps.append(self.lit(run))
                    run = None
                    ps.append(self.term(p))
            if run:
                ps.append(self.lit(run))
            out = ps[-1] if ps else self.lit("")
            for p in reversed(ps[:-1]):
                new = _cat(p, out)
                self.facts.append(_tlen(new) == _tlen(p) + _tlen(out))
                out = new
            return out
        cs = [self.term(c) for c in x.children()]
        if kind == z3.Z3_OP_SEQ_LENGTH:
            self.facts.append(_tlen(cs[0]) >= 0)
            return _tlen(cs[0])
        if all(a.eq(b) for a, b in zip(cs, x.children())) and self.so(x.sort()) == x.sort():
            return x
        if kind == z3.Z3_OP_EQ:
            return cs[0] == cs[1]
        if kind == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*cs)
        if kind == z3.Z3_OP_ITE:
            return z3.If(*cs)
        if kind in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or self.so(x.sort()) == x.sort() and all(c.sort() == b.sort() for c, b in zip(cs, x.children())):
            return d(*cs)
        if not cs:
            return z3.Const(d.name() + "'", self.so(x.sort()))
        return z3.Function(f"{d.name()}'{kind}", *[c.sort() for c in cs], self.so(x.sort()))(*cs)


def plain_check(fs, timeout):
    p = Plain()
    try:
        out = [p.term(f) for f in fs]
    except z3.Z3Exception:
        return z3.unknown, None
    if len(p.lits) > 1:
        out.append(z3.Distinct(*p.lits.values()))
    return check(out + p.facts, timeout)


def prove1(hyps, goal, timeout=None, rounds=3):
    timeout = timeout or TIMEOUT
    fs = flatten([z3.simplify(h) for h in hyps] + [z3.simplify(z3.Not(goal))])
    if any(z3.is_false(f) for f in fs):
        return "discharged", None
    q = any(has_quant(f) for f in fs)
    texts = joins_texts(fs)
    if not q:
        if texts and plain_check(fs, 500)[0] == z3.unsat:
            return "discharged", None
        r, s = check(fs, timeout)
        if r == z3.unsat:
            return "discharged", None
        if r == z3.sat:
            return "refuted", s.model()
        return "undecided", s.reason_unknown()
    r, s = check(fs, 400)
    if r == z3.unsat:
        return "discharged", None
    if r == z3.sat:
        return "refuted", s.model()
    inst = Inst(fs)
    r, s = check(inst.ground, timeout)
    if r == z3.unsat:
        return "discharged", None
    for _ in range(rounds):
        if not inst.round():
            break
        if texts and plain_check(inst.ground, 1000)[0] == z3.unsat:
            return "discharged", None
        r, s = check(inst.ground, timeout)
        if r == z3.unsat:
            return "discharged", None
    m = s.model() if r == z3.sat else None
    r2, s2 = check(fs, timeout / 2)
    if r2 == z3.unsat:
        return "discharged", None
    if r2 == z3.sat:
        return "refuted", s2.model()
    return "undecided", m if m is not None else "unknown"


_feas = {}


def feasible(hyps, timeout=400):
    """False only if the hypotheses are contradictory (cheap test)"""
    fs = [z3.simplify(h) for h in hyps]
    if any(z3.is_false(f) for f in fs):
        return False
    key = tuple(f.get_id() for f in fs)
    if key in _feas:
        return _feas[key][0]
    gs = [f for f in fs if not has_quant(f)]
    r, _ = check(gs, timeout)
    if r != z3.unsat and len(gs) < len(fs):
        s = z3.Solver()
        s.set("timeout", 150)
        s.set("smt.mbqi", False)
        s.add(*fs)
        t = time.time()
        r = s.check()
        stats["queries"] += 1
        stats["time"] += time.time() - t
    _feas[key] = (r != z3.unsat, fs)  # keeps the terms alive, so that the ids stay theirs
    return r != z3.unsat
