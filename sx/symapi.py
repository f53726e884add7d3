"""Symbolic mode of the harness API."""
from .core import ENG, FULL, DOM, IDX, mask_of, PathAbort, CheckFailed, t_and, t_or, t_not, T, F
from .values import (SymStr, SChar, SymInt, SymBool, SYM, mk_str, mk_bool, tree_of, deep_eq_tree, model_value)
from .api import jsonable


def alphabet_mask(alphabet, exclude):
    m = FULL if alphabet is None else mask_of([c for c in alphabet if ord(c) in IDX])
    if exclude:
        m &= ~mask_of([c for c in exclude if ord(c) in IDX])
    return m


class SymT(object):
    symbolic = True

    def __init__(self, known=()):
        self.known = known
        self.known_hit = set()
        self.covers = ENG.covered

    def _reg(self, name, v):
        ENG.path_inputs[name] = v
        return v

    def str(self, name, lo, hi, alphabet=None, exclude=""):
        m = alphabet_mask(alphabet, exclude)
        n = lo
        if hi > lo:
            z = ENG.new_int(name + ".len", lo, hi)
            n = ENG.concretise_int(z, "length")
        return self._reg(name, mk_str(tuple(SChar(ENG.new_char("%s[%d]" % (name, i), m)) for i in range(n))))

    def char(self, name, alphabet=None, exclude=""):
        m = alphabet_mask(alphabet, exclude)
        return self._reg(name, mk_str((SChar(ENG.new_char(name, m)),)))

    def int(self, name, lo, hi):
        return self._reg(name, SymInt(ENG.new_int(name, lo, hi)))

    def bool(self, name):
        z = ENG.new_int(name, 0, 1)
        b = bool(ENG.concretise_int(z, "bool"))
        return self._reg(name, b)

    def choice(self, name, options):
        if len(options) == 1:
            self._reg(name, 0)
            return options[0]
        z = ENG.new_int(name, 0, len(options) - 1)
        i = ENG.concretise_int(z, "choice")
        self._reg(name, i)
        return options[i]

    def pick(self, s):
        """case split of a symbolic text into its concrete values"""
        if not isinstance(s, SymStr):
            return s
        out = []
        for c in s.cs:
            if isinstance(c, int):
                out.append(chr(c))
            else:
                out.append(chr(c.at(IDX[ENG.concretise_char(c.var, "pick")])))
        return "".join(out)

    def assume(self, cond):
        ENG.assume(tree_of(cond))

    def check(self, cond, msg="check"):
        ENG.check(tree_of(cond), msg)

    def eq(self, actual, expected, msg="eq"):
        t = typed_eq_tree(actual, expected)
        ENG.check(t, msg)

    def same(self, a, b):
        return mk_bool(typed_eq_tree(a, b))

    def observe(self, label, value):
        ENG.observed.append((label, value))

    def cover(self, label):
        ENG.covered[label] = ENG.covered.get(label, 0) + 1

    def finding(self, fid, cond):
        if fid in self.known:
            if isinstance(cond, SymBool):
                cond = bool(cond)
            if cond:
                self.known_hit.add(fid)
                raise PathAbort("known finding " + fid)


def typed_eq_tree(a, b):
    def kind(x):
        if isinstance(x, SymBool) or isinstance(x, bool):
            return "bool"
        return "other"
    if isinstance(a, (list, dict, tuple)) and type(a) is type(b):
        if not has_bool(a) and not has_bool(b):
            return deep_eq_tree(a, b)
        if isinstance(a, dict):
            if len(a) != len(b):
                return F
            out = []
            used = set()
            for k, v in a.items():
                hit = None
                if not isinstance(k, SYM) and k in b:
                    hit = k
                else:
                    for k2 in b:
                        if id(k2) not in used and ENG.fork(deep_eq_tree(k, k2)):
                            hit = k2
                            break
                if hit is None:
                    return F
                used.add(id(hit))
                t = typed_eq_tree(v, dict.__getitem__(b, hit))
                if t[0] == "F":
                    return F
                out.append(t)
            return t_and(out)
        if len(a) != len(b):
            return F
        return t_and([typed_eq_tree(x, y) for x, y in zip(a, b)])
    if isinstance(a, (dict, list, tuple)) or isinstance(b, (dict, list, tuple)):
        if isinstance(a, dict) and isinstance(b, dict) or isinstance(a, list) and isinstance(b, list):
            return deep_eq_tree(a, b)
        return F
    if kind(a) != kind(b):
        return F
    return deep_eq_tree(a, b)


def has_bool(x):
    if isinstance(x, (bool, SymBool)):
        return True
    if isinstance(x, dict):
        return any(has_bool(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(has_bool(v) for v in x)
    return False
