"""Symbolic values: SymBool, SymInt, SymStr.

SymStr is a sequence of elements of concrete length; every element is either a
concrete code point or an SChar (domain variable + optional table mapping each
domain character to the code point it has been transformed to, which is how
upper()/lower() are represented exactly)."""
import z3
from .core import (ENG, DOM, IDX, NDOM, FULL, CharVar, t_and, t_or, t_not, t_unary,
                   T, F, mask_iter, EngineError, PathAbort)


# ---------------------------------------------------------------- elements
class SChar(object):
    __slots__ = ("var", "table", "_h")

    def __init__(self, var, table=None):
        self.var = var
        self.table = table
        self._h = hash((var.ident, table))

    def at(self, i):
        return DOM[i] if self.table is None else self.table[i]

    def z(self):
        v = self.var
        if self.table is None:
            return v.z
        key = ("tab", self.table)
        e = v.ex.get(key)
        if e is None:
            groups = {}
            for i in mask_iter(v.dom0):
                groups.setdefault(self.table[i] - DOM[i], 0)
                groups[self.table[i] - DOM[i]] |= 1 << i
            items = sorted(groups.items(), key=lambda kv: -bin(kv[1]).count("1"))
            e = v.z + items[0][0] if items[0][0] else v.z
            for d, m in items[1:]:
                e = z3.If(v.mask_expr(m), v.z + d if d else v.z, e)
            v.ex[key] = e
        return e

    def __eq__(self, o):
        return isinstance(o, SChar) and o.var is self.var and o.table == self.table

    def __hash__(self):
        return self._h

    def __repr__(self):
        return self.var.name


_PRED_CACHE = {}


def pred_mask(elem, name, pred):
    """domain mask of elem.var for which pred(chr(value)) holds"""
    key = (name, elem.table)
    m = _PRED_CACHE.get(key)
    if m is None:
        m = 0
        for i in range(NDOM):
            if pred(chr(elem.at(i))):
                m |= 1 << i
        _PRED_CACHE[key] = m
    return m


def elem_test(elem, name, pred):
    if isinstance(elem, int):
        return T if pred(chr(elem)) else F
    return t_unary(elem.var, pred_mask(elem, name, pred))


def elem_eq(a, b):
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia and ib:
        return T if a == b else F
    if ia:
        a, b = b, a
        ib = True
    if ib:
        if a.table is None:
            i = IDX.get(b)
            return F if i is None else t_unary(a.var, 1 << i)
        m = 0
        for i in range(NDOM):
            if a.table[i] == b:
                m |= 1 << i
        return t_unary(a.var, m)
    if a == b:
        return T
    if a.var is b.var:
        m = 0
        for i in range(NDOM):
            if a.at(i) == b.at(i):
                m |= 1 << i
        return t_unary(a.var, m)
    # quick domain separation
    if a.table is None and b.table is None:
        da = ENG.dom.get(a.var, a.var.dom0)
        db = ENG.dom.get(b.var, b.var.dom0)
        if da & db == 0:
            return F
    return ("z", a.z() == b.z())


def elem_in(elem, chars, name=None):
    s = set(chars)
    return elem_test(elem, name or ("in", "".join(sorted(s))), lambda c: c in s)


def elem_map(elem, name, fn):
    if isinstance(elem, int):
        r = fn(chr(elem))
        if len(r) != 1:
            return [ord(x) for x in r]
        return ord(r)
    key = ("map", name, elem.table)
    t = _PRED_CACHE.get(key)
    if t is None:
        t = []
        for i in range(NDOM):
            r = fn(chr(elem.at(i)))
            if len(r) != 1:
                raise EngineError("length changing case map")
            t.append(ord(r))
        t = tuple(t)
        if all(t[i] == DOM[i] for i in range(NDOM)):
            t = None
        _PRED_CACHE[key] = t
    return SChar(elem.var, t)


# -------------------------------------------------------------------- SymBool
class SymBool(object):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.fork(self.t)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mk_bool(t_or([t_and([self.t, o.t]), t_and([t_not(self.t), t_not(o.t)])]))
        if isinstance(o, (bool, int)):
            if o == 1:
                return self
            if o == 0:
                return mk_bool(t_not(self.t))
            return False
        if isinstance(o, SymInt):
            return o == int(bool(self))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return bool(self) & o

    def __or__(self, o):
        return bool(self) | o

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __repr__(self):
        return "SymBool(%r)" % (self.t,)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mk_bool(t):
    if t[0] == "T":
        return True
    if t[0] == "F":
        return False
    return SymBool(t)


def tree_of(x):
    if isinstance(x, SymBool):
        return x.t
    return T if x else F


def sx_not(x):
    if isinstance(x, SymBool):
        return mk_bool(t_not(x.t))
    return not x


# --------------------------------------------------------------------- SymInt
def _iz(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.IntVal(int(bool(x)))
    return None


def mk_int(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


def _cmp(fn):
    def op(self, o):
        if isinstance(o, float):
            if o == int(o):
                o = int(o)
            else:
                raise EngineError("SymInt vs float compare")
        b = _iz(o)
        if b is None:
            return NotImplemented
        return mk_bool(_zb(fn(self.z, b)))
    return op


def _zb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return T
    if z3.is_false(e):
        return F
    return ("z", e)


class SymInt(object):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __hash__(self):
        return self.z.hash()

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, float):
            if o != int(o):
                return False
            o = int(o)
        b = _iz(o)
        if b is None:
            return NotImplemented
        return mk_bool(_zb(self.z == b))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __bool__(self):
        return ENG.fork(_zb(self.z != 0))

    def __index__(self):
        return ENG.concretise_int(self.z, "index")

    def __int__(self):
        return ENG.concretise_int(self.z, "int")

    def __float__(self):
        return float(ENG.concretise_int(self.z, "float"))

    def _bin(fn):
        def op(self, o):
            if isinstance(o, float):
                return fn2(float(self), o)
            b = _iz(o)
            if b is None:
                return NotImplemented
            return mk_int(fn(self.z, b))
        return op

    def __add__(self, o):
        b = _iz(o)
        return NotImplemented if b is None else mk_int(self.z + b)

    __radd__ = __add__

    def __sub__(self, o):
        b = _iz(o)
        return NotImplemented if b is None else mk_int(self.z - b)

    def __rsub__(self, o):
        b = _iz(o)
        return NotImplemented if b is None else mk_int(b - self.z)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        b = _iz(o)
        return NotImplemented if b is None else mk_int(self.z * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.z < 0, -self.z, self.z))

    def __floordiv__(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if o > 0:
            return mk_int(self.z / o)     # z3 div floors for positive divisors
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return mk_int((-self.z) / (-o))

    def __mod__(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if o > 0:
            return mk_int(self.z % o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return mk_int(-((-self.z) % (-o)))

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // int(self)

    def __rmod__(self, o):
        return o % int(self)

    def __truediv__(self, o):
        return int(self) / o

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o):
        return int(self) ** o

    def __rpow__(self, o):
        return o ** int(self)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rrshift__(self, o):
        return o >> int(self)

    def __and__(self, o):
        # o constant: exact for non-negative contiguous masks
        if isinstance(o, SymInt):
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            return 0
        if o > 0:
            # decompose into runs of ones
            out = None
            bit = 0
            x = o
            while x:
                if x & 1:
                    lo = bit
                    while x & 1:
                        x >>= 1
                        bit += 1
                    part = ((self.z / (1 << lo)) % (1 << (bit - lo))) * (1 << lo)
                    out = part if out is None else out + part
                else:
                    x >>= 1
                    bit += 1
            return mk_int(out)
        return int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        # a|b = a+b-(a&b)
        if isinstance(o, SymInt):
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        return self + o - (self & o)

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymInt):
            o = int(o)
        if not isinstance(o, int):
            return NotImplemented
        return self + o - 2 * (self & o)

    __rxor__ = __xor__

    def __invert__(self):
        return mk_int(-self.z - 1)

    def bit_length(self):
        return int(self).bit_length()

    def to_bytes(self, length=1, byteorder="big", signed=False):
        out = []
        if not (self >= 0) or not (self < 256 ** length):
            raise OverflowError("int too big to convert")
        for i in range(length):
            out.append((self >> (8 * i)) & 0xFF)
        if byteorder == "big":
            out.reverse()
        return out

    @property
    def real(self):
        return self

    def __repr__(self):
        return "SymInt(%s)" % self.z

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        raise EngineError("raw format of SymInt")


# --------------------------------------------------------------------- SymStr
def elems(x):
    if isinstance(x, SymStr):
        return x.cs
    return tuple(map(ord, x))


def mk_str(cs):
    cs = tuple(cs)
    for c in cs:
        if c.__class__ is not int:
            return SymStr(cs)
    return "".join(map(chr, cs))


def is_strlike(x):
    return isinstance(x, (str, SymStr))


WS = " \t\n\r\x0b\x0c"
LINEBREAKS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


class SymStr(object):
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = cs

    # -- basics
    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __iter__(self):
        for c in self.cs:
            yield mk_str((c,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mk_str(self.cs[k])
        if isinstance(k, SymInt):
            k = int(k)
        if not isinstance(k, int):
            raise TypeError("string indices must be integers, not %r" % type(k).__name__)
        try:
            return mk_str((self.cs[k],))
        except IndexError:
            raise IndexError("string index out of range")

    def __hash__(self):
        return hash(self.cs)

    def __add__(self, o):
        if not is_strlike(o):
            if isinstance(o, (int, float, list, tuple, dict, type(None), SymInt, SymBool)):
                raise TypeError("can only concatenate str")
            return NotImplemented
        return mk_str(self.cs + elems(o))

    def __radd__(self, o):
        if not is_strlike(o):
            if isinstance(o, (int, float, list, tuple, dict, type(None), SymInt, SymBool)):
                raise TypeError("can only concatenate str")
            return NotImplemented
        return mk_str(elems(o) + self.cs)

    def __mul__(self, n):
        return mk_str(self.cs * int(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if o is self:
            return True
        if not is_strlike(o):
            return NotImplemented if not isinstance(o, (int, float, list, tuple, dict, type(None))) else False
        return mk_bool(seq_eq(self.cs, elems(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def _cmp(self, o, strict_lt, on_equal):
        if not is_strlike(o):
            return NotImplemented
        a, b = self.cs, elems(o)
        # decide position by position (forking on equality keeps formulas small)
        for x, y in zip(a, b):
            if ENG.fork(elem_eq(x, y)):
                continue
            zx = x if isinstance(x, int) else x.z()
            zy = y if isinstance(y, int) else y.z()
            if isinstance(x, int) and isinstance(y, int):
                return (x < y) == strict_lt
            return mk_bool(_zb(zx < zy if strict_lt else zx > zy))
        if len(a) == len(b):
            return on_equal
        return (len(a) < len(b)) == strict_lt

    def __lt__(self, o):
        return self._cmp(o, True, False)

    def __le__(self, o):
        return self._cmp(o, True, True)

    def __gt__(self, o):
        return self._cmp(o, False, False)

    def __ge__(self, o):
        return self._cmp(o, False, True)

    def __contains__(self, sub):
        return bool(self.sx_contains(sub))

    def sx_contains(self, sub):
        if not is_strlike(sub):
            raise TypeError("'in <string>' requires string as left operand")
        s = elems(sub)
        n = len(s)
        if n == 0:
            return True
        return mk_bool(t_or([seq_eq(self.cs[i:i + n], s)
                             for i in range(len(self.cs) - n + 1)]))

    def __mod__(self, args):
        from . import models
        return models.percent_format(self, args)

    def __repr__(self):
        return "SymStr(%s)" % "".join(chr(c) if isinstance(c, int) else "<%s>" % c.var.name
                                       for c in self.cs)

    def __str__(self):
        ENG.stats.concretised["str()"] = ENG.stats.concretised.get("str()", 0) + 1
        return concretise(self, "raw str()")

    def __format__(self, spec):
        return format(str(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise EngineError("pickling of SymStr")

    # -- predicates
    def _all(self, name, pred):
        if not self.cs:
            return False
        return mk_bool(t_and([elem_test(c, name, pred) for c in self.cs]))

    def isdigit(self):
        return self._all("isdigit", str.isdigit)

    def isdecimal(self):
        return self._all("isdecimal", str.isdecimal)

    def isnumeric(self):
        return self._all("isnumeric", str.isnumeric)

    def isalpha(self):
        return self._all("isalpha", str.isalpha)

    def isalnum(self):
        return self._all("isalnum", str.isalnum)

    def isspace(self):
        return self._all("isspace", str.isspace)

    def isascii(self):
        return mk_bool(t_and([elem_test(c, "isascii", str.isascii) for c in self.cs]))

    def isprintable(self):
        return mk_bool(t_and([elem_test(c, "isprintable", str.isprintable) for c in self.cs]))

    def isidentifier(self):
        if not self.cs:
            return False
        return mk_bool(t_and([elem_test(self.cs[0], "isid", str.isidentifier)] +
                             [elem_test(c, "isidc", lambda ch: ("a" + ch).isidentifier())
                              for c in self.cs[1:]]))

    def islower(self):
        low = t_or([elem_test(c, "islower", str.islower) for c in self.cs])
        noup = t_and([t_not(elem_test(c, "isupper|t", lambda ch: ch.isupper() or ch.istitle()))
                      for c in self.cs])
        return mk_bool(t_and([low, noup]))

    def isupper(self):
        up = t_or([elem_test(c, "isupper", str.isupper) for c in self.cs])
        nolow = t_and([t_not(elem_test(c, "islower", str.islower)) for c in self.cs])
        return mk_bool(t_and([up, nolow]))

    def istitle(self):
        seen = False
        prev = False
        for c in self.cs:
            if ENG.fork(elem_test(c, "isupper", str.isupper)):
                if prev:
                    return False
                prev = seen = True
            elif ENG.fork(elem_test(c, "islower", str.islower)):
                if not prev:
                    return False
                prev = seen = True
            else:
                prev = False
        return seen

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return mk_bool(t_or([tree_of(self.startswith(p, start, end)) for p in prefix]))
        if not is_strlike(prefix):
            raise TypeError("startswith first arg must be str or a tuple of str")
        cs = self.cs[start:end]
        p = elems(prefix)
        if len(p) > len(cs):
            return False
        return mk_bool(seq_eq(cs[:len(p)], p))

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return mk_bool(t_or([tree_of(self.endswith(p, start, end)) for p in suffix]))
        if not is_strlike(suffix):
            raise TypeError("endswith first arg must be str or a tuple of str")
        cs = self.cs[start:end]
        p = elems(suffix)
        if len(p) > len(cs):
            return False
        return mk_bool(seq_eq(cs[len(cs) - len(p):], p))

    # -- search
    def _find(self, sub, start, end, rev):
        if not is_strlike(sub):
            raise TypeError("must be str, not " + type(sub).__name__)
        n = len(self.cs)
        lo, hi, _ = slice(start, end).indices(n)
        if start is not None and start > n:
            return -1
        s = elems(sub)
        if hi - lo < len(s):
            return -1
        rng = range(lo, hi - len(s) + 1)
        for i in (reversed(rng) if rev else rng):
            if ENG.fork(seq_eq(self.cs[i:i + len(s)], s)):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end, False)

    def rfind(self, sub, start=None, end=None):
        return self._find(sub, start, end, True)

    def index(self, sub, start=None, end=None):
        r = self._find(sub, start, end, False)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self._find(sub, start, end, True)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        cs = self.cs[slice(*slice(start, end).indices(len(self.cs))[:2])]
        s = elems(sub)
        if not s:
            return len(cs) + 1
        n = i = 0
        while i + len(s) <= len(cs):
            if ENG.fork(seq_eq(cs[i:i + len(s)], s)):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        if not is_strlike(old) or not is_strlike(new):
            raise TypeError("replace() argument must be str")
        o, nw = elems(old), elems(new)
        cs = self.cs
        out = []
        n = i = 0
        if isinstance(count, SymInt):
            count = int(count)
        if not o:
            if count == 0:
                return self
            for j, c in enumerate(cs):
                if count < 0 or n < count:
                    out.extend(nw)
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out.extend(nw)
            return mk_str(out)
        while i < len(cs):
            if (count < 0 or n < count) and i + len(o) <= len(cs) and \
                    ENG.fork(seq_eq(cs[i:i + len(o)], o)):
                out.extend(nw)
                n += 1
                i += len(o)
            else:
                out.append(cs[i])
                i += 1
        return mk_str(out)

    # -- trimming
    def _strip(self, chars, left, right):
        cs = self.cs
        if chars is None:
            test = lambda c: elem_test(c, "isspace", str.isspace)
        elif isinstance(chars, SymStr):
            sc = chars.cs
            test = lambda c: t_or([elem_eq(c, x) for x in sc])
        elif isinstance(chars, str):
            test = lambda c: elem_in(c, chars)
        else:
            raise TypeError("strip arg must be None or str")
        i, j = 0, len(cs)
        if left:
            while i < j and ENG.fork(test(cs[i])):
                i += 1
        if right:
            while j > i and ENG.fork(test(cs[j - 1])):
                j -= 1
        return mk_str(cs[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        if self.startswith(p):
            return mk_str(self.cs[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return mk_str(self.cs[:len(self.cs) - len(p)])
        return self

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        if isinstance(maxsplit, SymInt):
            maxsplit = int(maxsplit)
        cs = self.cs
        out = []
        if sep is None:
            i = 0
            n = len(cs)
            while i < n:
                if ENG.fork(elem_test(cs[i], "isspace", str.isspace)):
                    i += 1
                    continue
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mk_str(cs[i:]))
                    return out
                j = i + 1
                while j < n and not ENG.fork(elem_test(cs[j], "isspace", str.isspace)):
                    j += 1
                out.append(mk_str(cs[i:j]))
                i = j
            return out
        if not is_strlike(sep):
            raise TypeError("must be str or None, not " + type(sep).__name__)
        s = elems(sep)
        if not s:
            raise ValueError("empty separator")
        i = b = 0
        while i + len(s) <= len(cs):
            if (maxsplit < 0 or len(out) < maxsplit) and ENG.fork(seq_eq(cs[i:i + len(s)], s)):
                out.append(mk_str(cs[b:i]))
                i += len(s)
                b = i
            else:
                i += 1
        out.append(mk_str(cs[b:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            # identical to split except for overlapping separators
            if sep is None or len(sep) == 1:
                return self.split(sep)
        cs = self.cs
        out = []
        if sep is None:
            j = len(cs)
            sp = lambda c: ENG.fork(elem_test(c, "isspace", str.isspace))
            while j > 0:
                if sp(cs[j - 1]):
                    j -= 1
                    continue
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mk_str(cs[:j]))
                    break
                i = j - 1
                while i > 0 and not sp(cs[i - 1]):
                    i -= 1
                out.append(mk_str(cs[i:j]))
                j = i
            out.reverse()
            return out
        s = elems(sep)
        if not s:
            raise ValueError("empty separator")
        e = len(cs)
        i = e - len(s)
        while i >= 0:
            if (maxsplit < 0 or len(out) < maxsplit) and ENG.fork(seq_eq(cs[i:i + len(s)], s)):
                out.append(mk_str(cs[i + len(s):e]))
                e = i
                i -= len(s)
            else:
                i -= 1
        out.append(mk_str(cs[:e]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (mk_str(self.cs[:i]), sep, mk_str(self.cs[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (mk_str(self.cs[:i]), sep, mk_str(self.cs[i + len(sep):]))

    def splitlines(self, keepends=False):
        cs = self.cs
        out = []
        b = i = 0
        n = len(cs)
        while i < n:
            if not ENG.fork(elem_in(cs[i], LINEBREAKS)):
                i += 1
                continue
            e = i + 1
            if e < n and ENG.fork(elem_eq(cs[i], 13)) and ENG.fork(elem_eq(cs[e], 10)):
                e += 1
            out.append(mk_str(cs[b:e] if keepends else cs[b:i]))
            b = i = e
        if b < n:
            out.append(mk_str(cs[b:]))
        return out

    # -- joining
    def join(self, it):
        return str_join(self, it)

    # -- case
    def _map(self, name, fn):
        out = []
        for c in self.cs:
            r = elem_map(c, name, fn)
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return mk_str(out)

    def lower(self):
        return self._map("lower", str.lower)

    def upper(self):
        return self._map("upper", str.upper)

    def casefold(self):
        return self._map("casefold", str.casefold)

    def swapcase(self):
        return self._map("swapcase", str.swapcase)

    def capitalize(self):
        if not self.cs:
            return self
        return _concat(_map_any(self.cs[:1], "title", str.title),
                       _map_any(self.cs[1:], "lower", str.lower))

    def title(self):
        out = []
        prev = False
        for c in self.cs:
            if prev:
                out.append(elem_map(c, "lower", str.lower))
            else:
                out.append(elem_map(c, "title", str.title))
            prev = ENG.fork(elem_test(c, "cased", lambda ch: ch.isupper() or ch.islower() or ch.istitle()))
        return mk_str(out)

    def translate(self, table):
        out = []
        for c in self.cs:
            if isinstance(c, int):
                cp = c
            else:
                cp = c
                hit = None
                for k in table:
                    if ENG.fork(elem_eq(c, k)):
                        hit = k
                        break
                cp = hit if hit is not None else c
            if isinstance(cp, int):
                r = table.get(cp, cp) if hasattr(table, "get") else table[cp]
                if r is None:
                    continue
                if isinstance(r, int):
                    out.append(r)
                else:
                    out.extend(elems(r))
            else:
                out.append(cp)
        return mk_str(out)

    # -- padding
    def center(self, width, fill=" "):
        pad = width - len(self.cs)
        if pad <= 0:
            return self
        left = pad // 2 + (pad & width & 1)
        return mk_str(elems(fill) * left + self.cs + elems(fill) * (pad - left))

    def ljust(self, width, fill=" "):
        return mk_str(self.cs + elems(fill) * max(0, width - len(self.cs)))

    def rjust(self, width, fill=" "):
        return mk_str(elems(fill) * max(0, width - len(self.cs)) + self.cs)

    def zfill(self, width):
        pad = max(0, width - len(self.cs))
        if self.cs and pad and ENG.fork(elem_in(self.cs[0], "+-")):
            return mk_str(self.cs[:1] + (48,) * pad + self.cs[1:])
        return mk_str((48,) * pad + self.cs)

    def expandtabs(self, tabsize=8):
        out = []
        col = 0
        for c in self.cs:
            if ENG.fork(elem_eq(c, 9)):
                n = (tabsize - col % tabsize) if tabsize > 0 else 0
                out.extend([32] * n)
                col += n
            else:
                out.append(c)
                col += 1
                if ENG.fork(elem_in(c, "\n\r")):
                    col = 0
        return mk_str(out)

    def format(self, *args, **kwargs):
        from . import models
        return models.str_format(self, args, kwargs)

    def encode(self, *a, **k):
        return concretise(self, "encode").encode(*a, **k)


def _map_any(cs, name, fn):
    return tuple(elem_map(c, name, fn) for c in cs)


def _concat(a, b):
    return mk_str(tuple(a) + tuple(b))


def seq_eq(a, b):
    if len(a) != len(b):
        return F
    items = []
    # concrete mismatches first: cheap refutation
    for x, y in zip(a, b):
        if x.__class__ is int and y.__class__ is int:
            if x != y:
                return F
    for x, y in zip(a, b):
        if x.__class__ is int and y.__class__ is int:
            continue
        t = elem_eq(x, y)
        if t[0] == "F":
            return F
        items.append(t)
    return t_and(items)


def str_join(sep, it):
    out = []
    s = elems(sep)
    for n, x in enumerate(it):
        if not is_strlike(x):
            raise TypeError("sequence item %d: expected str instance, %s found" % (n, pytype(x).__name__))
        if n:
            out.extend(s)
        out.extend(elems(x))
    return mk_str(out)


def pytype(x):
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymBool):
        return bool
    return type(x)


SYM = (SymStr, SymInt, SymBool)


def concretise(x, why):
    """exhaustively enumerate the concrete values of x (by forking)"""
    if isinstance(x, SymStr):
        ENG.stats.concretised[why] = ENG.stats.concretised.get(why, 0) + 1
        out = []
        for c in x.cs:
            if isinstance(c, int):
                out.append(chr(c))
            else:
                cp = ENG.concretise_char(c.var, why)
                out.append(chr(c.at(IDX[cp])))
        return "".join(out)
    if isinstance(x, SymInt):
        ENG.stats.concretised[why] = ENG.stats.concretised.get(why, 0) + 1
        return ENG.concretise_int(x.z, why)
    if isinstance(x, SymBool):
        return bool(x)
    return x


def deep_has_sym(x, depth=6, _seen=None):
    if isinstance(x, SYM):
        return True
    if depth <= 0:
        return False
    if isinstance(x, dict):
        return any(deep_has_sym(k, depth - 1) or deep_has_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_has_sym(v, depth - 1) for v in x)
    return False


def deep_concretise(x, why):
    if isinstance(x, SYM):
        return concretise(x, why)
    if not deep_has_sym(x):
        return x
    if isinstance(x, dict):
        d = type(x)() if type(x) is not dict else {}
        for k, v in x.items():
            d[deep_concretise(k, why)] = deep_concretise(v, why)
        return d
    if isinstance(x, (list, tuple, set, frozenset)):
        return type(x)(deep_concretise(v, why) for v in x)
    return x


def model_value(x):
    """value of x in the current model (no forking)"""
    if isinstance(x, SymStr):
        return "".join(chr(c) if isinstance(c, int) else chr(c.at(IDX[ENG.val(c.var)])) for c in x.cs)
    if isinstance(x, SymInt):
        return ENG.int_val(x.z)
    if isinstance(x, SymBool):
        return ENG.ev(x.t)
    if isinstance(x, dict):
        return {model_value(k): model_value(v) for k, v in x.items()}
    if isinstance(x, list):
        return [model_value(v) for v in x]
    if isinstance(x, tuple):
        return tuple(model_value(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return type(x)(model_value(v) for v in x)
    return x


def deep_eq_tree(a, b):
    """condition under which two structures are equal (no forking unless
    dictionaries with symbolic keys are compared)"""
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        if is_strlike(a) and is_strlike(b):
            return seq_eq(elems(a), elems(b))
        return F
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        # True == 1 as in Python
        r = a == b
        if r is NotImplemented:
            return F
        return tree_of(r)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return F
        items = []
        used = set()
        for k, v in a.items():
            hit = None
            if not isinstance(k, SYM) and k in b:
                hit = k
            else:
                for k2 in b:
                    if id(k2) in used:
                        continue
                    if isinstance(k, SYM) or isinstance(k2, SYM):
                        if ENG.fork(deep_eq_tree(k, k2)):
                            hit = k2
                            break
            if hit is None:
                return F
            used.add(id(hit))
            t = deep_eq_tree(v, dict.__getitem__(b, hit))
            if t[0] == "F":
                return F
            items.append(t)
        return t_and(items)
    if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return F
        items = []
        for x, y in zip(a, b):
            t = deep_eq_tree(x, y)
            if t[0] == "F":
                return F
            items.append(t)
        return t_and(items)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if len(a) != len(b):
            return F
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if ENG.fork(deep_eq_tree(x, y)):
                    del rest[i]
                    break
            else:
                return F
        return T
    return T if a == b else F
