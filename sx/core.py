"""Path-exploration core of the symbolic executor.

The program under analysis is real Python code run on symbolic proxies.  Every
time a symbolic condition is needed as a Python bool, `Engine.fork` asks z3
which outcomes are possible under the current path condition and schedules
every feasible outcome; a path is re-executed from its start with a recorded
prefix of decisions.  Exploration stops when no unexplored feasible outcome is
left (exhaustive within the harness bounds) or when the budget is used up
(reported as incomplete, never as success of the remaining paths).

Conditions are small trees ('T',), ('F',), ('u', var, mask), ('z', z3expr),
('and', items), ('or', items), ('not', t).  ('u', var, mask) says: the value of
character variable `var` is one of the domain characters in bit mask `mask`.
"""
import sys
import time
import z3

# ---------------------------------------------------------------- characters
# The character domain: all printable ASCII, the ASCII white space, and
# representatives of the Unicode classes on which str/re predicates of CPython
# disagree with ASCII intuition.
_DOM = [9, 10, 11, 12, 13, 0x1C] + list(range(0x20, 0x7F)) + [
    0x85, 0xA0, 0xB2, 0xC9, 0xE9, 0x663, 0x2028]
DOM = tuple(_DOM)
IDX = {c: i for i, c in enumerate(DOM)}
NDOM = len(DOM)
FULL = (1 << NDOM) - 1


def mask_of(chars):
    m = 0
    for ch in chars:
        m |= 1 << IDX[ord(ch) if isinstance(ch, str) else ch]
    return m


def mask_iter(m):
    i = 0
    while m:
        if m & 1:
            yield i
        m >>= 1
        i += 1


class EngineControl(BaseException):
    """steering exceptions: must not be caught by the program under analysis"""


class PathAbort(EngineControl):
    """assumption violated / infeasible path"""


class BudgetExceeded(EngineControl):
    pass


class CheckFailed(EngineControl):
    def __init__(self, msg):
        BaseException.__init__(self, msg)
        self.msg = msg


class EngineError(EngineControl):
    """construct outside what the encoding supports"""


T = ("T",)
F = ("F",)


def t_and(items):
    out = []
    un = {}
    for it in items:
        k = it[0]
        if k == "F":
            return F
        if k == "T":
            continue
        if k == "and":
            sub = it[1]
        else:
            sub = (it,)
        for s in sub:
            if s[0] == "u":
                if s[1] in un:
                    un[s[1]] &= s[2]
                else:
                    un[s[1]] = s[2]
                if un[s[1]] == 0:
                    return F
            else:
                out.append(s)
    for v, m in un.items():
        if m == v.dom0:
            continue
        out.append(("u", v, m))
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def t_or(items):
    out = []
    un = {}
    for it in items:
        k = it[0]
        if k == "T":
            return T
        if k == "F":
            continue
        if k == "or":
            sub = it[1]
        else:
            sub = (it,)
        for s in sub:
            if s[0] == "u":
                un[s[1]] = un.get(s[1], 0) | s[2]
                if un[s[1]] & s[1].dom0 == s[1].dom0:
                    return T
            else:
                out.append(s)
    for v, m in un.items():
        out.append(("u", v, m))
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def t_not(t):
    k = t[0]
    if k == "T":
        return F
    if k == "F":
        return T
    if k == "u":
        m = t[1].dom0 & ~t[2]
        if m == 0:
            return F
        return ("u", t[1], m)
    if k == "not":
        return t[1]
    if k == "and":
        return t_or([t_not(x) for x in t[1]])
    if k == "or":
        return t_and([t_not(x) for x in t[1]])
    return ("not", t)


def t_unary(var, mask):
    mask &= var.dom0
    if mask == 0:
        return F
    if mask == var.dom0:
        return T
    return ("u", var, mask)


_MASKEXPR = {}


def mask_ranges(mask, dom0):
    """coalesced codepoint ranges of mask, treating characters outside dom0 as
    do-not-care (the variable's own domain constraint excludes them)"""
    runs = []
    cur = None
    for i in range(NDOM):
        b = 1 << i
        if mask & b:
            if cur is None:
                cur = [DOM[i], DOM[i]]
            else:
                cur[1] = DOM[i]
        elif dom0 & b:
            if cur is not None:
                runs.append(tuple(cur))
                cur = None
    if cur is not None:
        runs.append(tuple(cur))
    return runs


class CharVar(object):
    __slots__ = ("name", "z", "dom0", "ident", "default", "_mx", "ex")

    def __init__(self, name, dom0, ident, default):
        self.name = name
        self.z = z3.Int("c!" + name)
        self.dom0 = dom0
        self.ident = ident
        self.default = default
        self._mx = {}
        self.ex = {}

    def exact_domain(self):
        runs = []
        for i in mask_iter(self.dom0):
            if runs and runs[-1][1] == DOM[i] - 1:
                runs[-1][1] = DOM[i]
            else:
                runs.append([DOM[i], DOM[i]])
        return z3.Or([self.z == lo if lo == hi else z3.And(self.z >= lo, self.z <= hi) for lo, hi in runs])

    def mask_expr(self, mask):
        e = self._mx.get(mask)
        if e is None:
            rs = mask_ranges(mask, self.dom0)
            parts = []
            for lo, hi in rs:
                if lo == hi:
                    parts.append(self.z == lo)
                else:
                    parts.append(z3.And(self.z >= lo, self.z <= hi))
            e = parts[0] if len(parts) == 1 else (z3.Or(parts) if parts else z3.BoolVal(False))
            self._mx[mask] = e
        return e

    def __repr__(self):
        return "<%s>" % self.name


def to_z3(t):
    k = t[0]
    if k == "u":
        return t[1].mask_expr(t[2])
    if k == "z":
        return t[1]
    if k == "T":
        return z3.BoolVal(True)
    if k == "F":
        return z3.BoolVal(False)
    if k == "and":
        return z3.And([to_z3(x) for x in t[1]])
    if k == "or":
        return z3.Or([to_z3(x) for x in t[1]])
    if k == "not":
        return z3.Not(to_z3(t[1]))
    raise AssertionError(k)


class Node(object):
    __slots__ = ("choice", "alt", "pushed", "tree", "tag")

    def __init__(self, choice, alt, pushed, tree, tag=None):
        self.choice = choice
        self.alt = alt
        self.pushed = pushed
        self.tree = tree
        self.tag = tag


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.forks = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.checks = 0            # property assertions evaluated symbolically
        self.proved = 0            # assertions whose negation has no model
        self.concretised = {}      # reason -> count
        self.dom_pruned = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine(object):
    def __init__(self):
        self.active = False
        self.on_reset = []
        self.reset_all()

    def reset_all(self):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", 20000)
        self.trail = []
        self.pos = 0
        self.stats = Stats()
        self.model = None
        self.vals = {}
        self.model_ok = False
        self.vars = {}
        self.ints = {}
        self.dom = {}
        self.path_inputs = {}
        self.observed = []
        self.deadline = None
        self.covered = {}
        self.funcs = set()
        self.incomplete = []

    # -------------------------------------------------------------- variables
    def new_char(self, name, mask=FULL, prefer=None):
        v = self.vars.get(name)
        if v is None:
            d = None
            for ch in (prefer or "a1A"):
                if mask >> IDX[ord(ch)] & 1:
                    d = IDX[ord(ch)]
                    break
            if d is None:
                d = next(mask_iter(mask))
            v = CharVar(name, mask, len(self.vars), DOM[d])
            self.vars[name] = v
        if v not in self.dom:
            self.dom[v] = v.dom0
            # structural assertion belongs to this path position
            if self.pos >= len(self.trail):
                self._push(("u0", v))
                self.vals.setdefault(v, v.default)
                self.model_ok = False
            else:
                self.pos += 1
        return v

    def _push(self, tree):
        """assert a definitional fact as an always-true trail node"""
        self.solver.push()
        if tree[0] == "u0":
            v = tree[1]
            self.solver.add(v.exact_domain())
        else:
            self.solver.add(to_z3(tree))
        self.trail.append(Node(True, False, True, tree))
        self.pos += 1

    def new_int(self, name, lo, hi):
        z = self.ints.get(name)
        if z is None:
            z = self.ints[name] = z3.Int("i!" + name)
        self.define(z3.And(z >= lo, z <= hi))
        return z

    def define(self, expr):
        """add a satisfiable definitional constraint over fresh variables"""
        if self.pos >= len(self.trail):
            self._push(("z", expr))
            self.model_ok = False
        else:
            self.pos += 1

    # ------------------------------------------------------------------ model
    def _check(self):
        t0 = time.time()
        r = self.solver.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
            self.incomplete.append("solver unknown: %s" % self.solver.reason_unknown())
        return r

    def _load_model(self):
        self.model = self.solver.model()
        self.vals = {}
        self.model_ok = True

    def _ensure_model(self):
        if not self.model_ok:
            r = self._check()
            if r != z3.sat:
                raise PathAbort("no model")
            self._load_model()

    def val(self, v):
        x = self.vals.get(v)
        if x is None:
            if self.model is None:
                self._ensure_model()
            r = self.model.eval(v.z, model_completion=False)
            x = r.as_long() if z3.is_int_value(r) else v.default
            self.vals[v] = x
        return x

    def ev(self, t):
        """truth of condition t in the current model (python bool)"""
        k = t[0]
        if k == "u":
            return bool(t[2] >> IDX[self.val(t[1])] & 1)
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "and":
            return all(self.ev(x) for x in t[1])
        if k == "or":
            return any(self.ev(x) for x in t[1])
        if k == "not":
            return not self.ev(t[1])
        self._ensure_model()
        r = self.model.eval(t[1], model_completion=True)
        return z3.is_true(r)

    def int_val(self, expr):
        self._ensure_model()
        r = self.model.eval(expr, model_completion=True)
        return r.as_long()

    # ---------------------------------------------------------- decided by dom
    def dom_decide(self, t):
        """True/False when the per-character domains alone decide t"""
        k = t[0]
        if k == "u":
            d = self.dom.get(t[1], t[1].dom0)
            m = d & t[2]
            if m == d:
                return True
            if m == 0:
                return False
            return None
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "and":
            res = True
            for x in t[1]:
                r = self.dom_decide(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if k == "or":
            res = False
            for x in t[1]:
                r = self.dom_decide(x)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        if k == "not":
            r = self.dom_decide(t[1])
            return None if r is None else not r
        return None

    def _narrow(self, t, val):
        if val:
            if t[0] == "u":
                self.dom[t[1]] = self.dom.get(t[1], t[1].dom0) & t[2]
            elif t[0] == "and":
                for x in t[1]:
                    self._narrow(x, True)
            elif t[0] == "not":
                self._narrow(t[1], False)
        else:
            if t[0] == "u":
                self.dom[t[1]] = self.dom.get(t[1], t[1].dom0) & ~t[2]
            elif t[0] == "or":
                for x in t[1]:
                    self._narrow(x, False)
            elif t[0] == "not":
                self._narrow(t[1], True)

    # ------------------------------------------------------------------- fork
    def fork(self, t, tag=None):
        k = t[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if not self.active:
            raise EngineError("fork outside exploration")
        r = self.dom_decide(t)
        if r is not None:
            self.stats.dom_pruned += 1
            return r
        if self.pos < len(self.trail):
            n = self.trail[self.pos]
            self.pos += 1
            if n.tree != t and not _same(n.tree, t):
                raise EngineError("non-deterministic replay: %r vs %r" % (n.tree, t))
            self._narrow(t, n.choice)
            return n.choice
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded("time budget")
        self.stats.forks += 1
        c = self.ev(t)
        self.solver.push()
        z = to_z3(t)
        self.solver.add(z if c else z3.Not(z))
        self.trail.append(Node(c, True, True, t, tag))
        self.pos += 1
        self._narrow(t, c)
        return c

    def assume(self, t):
        k = t[0]
        if k == "T":
            return
        if k == "F":
            raise PathAbort("assume")
        r = self.dom_decide(t)
        if r is True:
            return
        if r is False:
            raise PathAbort("assume")
        if self.pos < len(self.trail):
            self.pos += 1
            self._narrow(t, True)
            return
        ok = self.ev(t)
        self.solver.push()
        self.solver.add(to_z3(t))
        self.trail.append(Node(True, False, True, t))
        self.pos += 1
        self._narrow(t, True)
        if not ok:
            r = self._check()
            if r != z3.sat:
                raise PathAbort("assume")
            self._load_model()

    def check(self, t, msg):
        """property assertion: explored as a fork whose False side is a
        violation candidate"""
        fresh = self.pos >= len(self.trail)
        if fresh:
            self.stats.checks += 1
        if t[0] == "F":
            raise CheckFailed(msg)
        d = self.dom_decide(t)
        if d is True:
            if fresh:
                self.stats.proved += 1
            return
        if not self.fork(t, tag="check"):
            raise CheckFailed(msg)

    def concretise_int(self, expr, why):
        """enumerate the feasible values of expr by forking"""
        n = 0
        while True:
            v = self._concrete_candidate(expr)
            n += 1
            if self.fork(("z", expr == v)):
                return v
            if n > 4096:
                raise BudgetExceeded("concretisation of int: " + why)

    def _concrete_candidate(self, expr):
        # during replay the candidate must be the recorded one
        if self.pos < len(self.trail):
            t = self.trail[self.pos].tree
            return t[1].arg(1).as_long()
        return self.int_val(expr)

    def concretise_char(self, v, why):
        m = self.dom.get(v, v.dom0)
        if bin(m).count("1") == 1:
            return DOM[next(mask_iter(m))]
        while True:
            if self.pos < len(self.trail):
                m = self.trail[self.pos].tree[2]
                c = DOM[next(mask_iter(m))]
            else:
                c = self.val(v)
            if self.fork(("u", v, 1 << IDX[c])):
                return c
            m = self.dom.get(v, v.dom0)
            if bin(m).count("1") == 1:
                return DOM[next(mask_iter(m))]

    # ---------------------------------------------------------------- explore
    def explore(self, fn, on_path, max_paths=None, deadline=None):
        """run fn once per feasible path.  on_path(kind, payload) is told the
        outcome of each path while its model is available."""
        self.deadline = deadline
        self.solver.push()
        try:
            while True:
                self.pos = 0
                for r in self.on_reset:
                    r()
                self.dom = {}
                self.path_inputs = {}
                self.observed = []
                self.active = True
                stop = False
                try:
                    fn()
                    kind, payload = "ok", None
                except PathAbort as e:
                    kind, payload = "abort", str(e)
                except CheckFailed as e:
                    kind, payload = "fail", e.msg
                except BudgetExceeded as e:
                    self.incomplete.append("budget: %s" % e)
                    kind, payload, stop = "budget", str(e), True
                except RecursionError as e:
                    kind, payload = "exc", e
                except EngineError as e:
                    kind, payload = "engine", e
                except Exception as e:  # program raised
                    kind, payload = "exc", e
                finally:
                    self.active = False
                if kind == "abort":
                    self.stats.aborted += 1
                else:
                    self.stats.paths += 1
                if kind != "abort":
                    try:
                        self._ensure_model()
                    except PathAbort:
                        kind = "abort"
                if kind != "abort" and on_path(kind, payload) is False:
                    return
                if stop:
                    return
                if max_paths is not None and self.stats.paths >= max_paths:
                    if any(n.alt for n in self.trail):
                        self.incomplete.append("budget: max paths %d" % max_paths)
                    return
                if deadline is not None and time.time() > deadline:
                    if any(n.alt for n in self.trail):
                        self.incomplete.append("budget: time")
                    return
                if not self._backtrack():
                    return
        finally:
            self.active = False
            while self.trail:
                if self.trail.pop().pushed:
                    self.solver.pop()
            self.solver.pop()

    def _backtrack(self):
        while self.trail:
            n = self.trail.pop()
            if n.pushed:
                self.solver.pop()
            if not n.alt:
                continue
            c = not n.choice
            z = to_z3(n.tree)
            self.solver.push()
            self.solver.add(z if c else z3.Not(z))
            r = self._check()
            if r == z3.sat:
                self.trail.append(Node(c, False, True, n.tree, n.tag))
                self._load_model()
                return True
            if n.tag == "check" and r == z3.unsat:
                self.stats.proved += 1
            self.solver.pop()
        return False


def _same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "z":
        return a[1].eq(b[1])
    if a[0] == "u":
        return a[1] is b[1] and a[2] == b[2]
    if a[0] in ("and", "or"):
        return len(a[1]) == len(b[1]) and all(_same(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "not":
        return _same(a[1], b[1])
    return a == b


ENG = Engine()
