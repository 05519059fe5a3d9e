def contains(x, c):
    for e in c:
        if ideq(e, x):
            return True
    return False


def index(x, c):
    k = 0
    for e in c:
        if ideq(e, x):
            return k
        k = k + 1
    raise ValueError("is not in list")


def listcomp(it, conds, f, where):
    out = []
    for x in it:
        ok = True
        for c in conds:
            if not c(x):
                ok = False
                break
        if ok:
            out.append(f(x))
    return out


def all_gen(g):
    for x in g.it:
        ok = True
        for c in g.conds:
            if not c(x):
                ok = False
                break
        if ok and not g.f(x):
            return False
    return True


def any_gen(g):
    for x in g.it:
        ok = True
        for c in g.conds:
            if not c(x):
                ok = False
                break
        if ok and g.f(x):
            return True
    return False


def sum_gen(g, start):
    total = start
    for x in g.it:
        ok = True
        for c in g.conds:
            if not c(x):
                ok = False
                break
        if ok:
            total = total + g.f(x)
    return total


def all_seq(c):
    for x in c:
        if not x:
            return False
    return True


def any_seq(c):
    for x in c:
        if x:
            return True
    return False


def sum_seq(c, start):
    total = start
    for x in c:
        total = total + x
    return total


def each(xs, f):
    for x in xs:
        f(x)


def collect(gen):
    out = []
    for x in _native(gen):
        out.append(x)
    return out


class _native:
    """iterate over a generator without collecting it again"""

    def __init__(self, gen):
        self.gen = gen

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.gen)
