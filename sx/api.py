"""Harness API in its two modes: symbolic (SymT) and concrete replay (ReplayT)."""


class AssumeFailed(Exception):
    pass


class CheckFailedConcrete(Exception):
    pass


class ReplayT(object):
    """concrete run of a harness with given input values"""
    symbolic = False

    def __init__(self, inputs, known=()):
        self.inputs = inputs
        self.observed = []
        self.covers = set()
        self.nchecks = 0
        self.known = known
        self.known_hit = set()

    def str(self, name, lo, hi, alphabet=None, exclude=""):
        v = self.inputs.get(name)
        if v is None:
            v = "a" * lo
        return v

    def char(self, name, alphabet=None, exclude=""):
        return self.inputs.get(name, "a")

    def int(self, name, lo, hi):
        v = self.inputs.get(name)
        return lo if v is None else v

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def choice(self, name, options):
        i = self.inputs.get(name, 0)
        return options[i]

    def pick(self, s):
        return s

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg="check"):
        self.nchecks += 1
        if not cond:
            raise CheckFailedConcrete(msg)

    def eq(self, actual, expected, msg="eq"):
        self.nchecks += 1
        if not deep_equal(actual, expected):
            raise CheckFailedConcrete("%s: got %r expected %r" % (msg, actual, expected))

    def same(self, a, b):
        return deep_equal(a, b)

    def observe(self, label, value):
        self.observed.append([label, jsonable(value)])

    def cover(self, label):
        self.covers.add(label)

    def finding(self, fid, cond):
        """cond: this run is inside a recorded known finding -> not checked"""
        if cond and fid in self.known:
            self.known_hit.add(fid)
            raise AssumeFailed()


def deep_equal(a, b):
    """structural equality; bool and int are told apart"""
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and deep_equal(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and \
            all(deep_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list, tuple)) or isinstance(b, (dict, list, tuple)):
        return False
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def jsonable(x):
    if isinstance(x, dict):
        return {"d": [[jsonable(k), jsonable(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return {"s": sorted(repr(jsonable(v)) for v in x)}
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return {"o": type(x).__name__}
