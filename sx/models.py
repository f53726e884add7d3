"""Models of the C-implemented operations the instrumented code reaches.

Dispatch is by the identity of the callee.  A C callee that has no model and
receives a symbolic argument gets its arguments concretised by exhaustive
forking (recorded in the statistics)."""
import builtins
import copy as _copy
import functools
import logging
import operator
import os
import re
import string as _string
import sys
import types
import z3
from collections import OrderedDict
from .core import ENG, EngineControl, EngineError, DOM, IDX, t_and, t_or, t_not, T, F
from .values import (SymBool, SymInt, SymStr, SYM, mk_bool, mk_int, mk_str, elems, is_strlike,
                     pytype, sx_not, tree_of, concretise, deep_concretise, deep_has_sym,
                     str_join, seq_eq, elem_eq, elem_in, elem_test, deep_eq_tree, _zb, SChar)
from . import regex

Control = EngineControl


# ------------------------------------------------------------------ dict/set
def _key_eq(a, b):
    if is_strlike(a) and is_strlike(b):
        return ENG.fork(seq_eq(elems(a), elems(b)))
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        if is_strlike(a) or is_strlike(b):
            return False
        if a is None or b is None:
            return False
        r = a == b
        return False if r is NotImplemented else bool(r)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if deep_has_sym(a) or deep_has_sym(b):
            return ENG.fork(deep_eq_tree(a, b))
    return a == b


def _symkey(k):
    c = k.__class__
    if c is str or c is int:
        return False
    return isinstance(k, SYM) or (isinstance(k, (tuple, frozenset)) and deep_has_sym(k))


MISSING = object()


def find_key(d, k):
    """the key object of dict/set d equal to k, or MISSING (forks)"""
    if isinstance(k, (list, dict, set)):
        raise TypeError("unhashable type: '%s'" % type(k).__name__)
    if not _symkey(k):
        if type(d) in (dict, OrderedDict, set, frozenset):
            if k in d:
                return k
        elif isinstance(d, dict):
            if dict.__contains__(d, k):
                return k
        elif k in d:
            return k
        for k2 in list(d):
            if k2.__class__ is not str and _symkey(k2) and _key_eq(k2, k):
                return k2
        return MISSING
    for k2 in list(d):
        if k2 is k:
            return k2
    for k2 in list(d):
        if _key_eq(k2, k):
            return k2
    return MISSING


def _plain_dict(d):
    return isinstance(d, dict)


def getitem(o, k):
    c = o.__class__
    if c is dict or (isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__):
        if k.__class__ is str:
            try:
                return dict.__getitem__(o, k)
            except KeyError:
                pass
        kk = find_key(o, k)
        if kk is MISSING:
            miss = getattr(type(o), "__missing__", None)
            if miss is not None:
                return miss(o, k)
            raise KeyError(k)
        return dict.__getitem__(o, kk)
    if isinstance(k, SYM):
        if isinstance(k, SymStr):
            if isinstance(o, (list, tuple, str, SymStr)):
                raise TypeError("indices must be integers or slices, not str")
        elif isinstance(o, (list, tuple, str, range)):
            n = len(o)
            i = k
            if isinstance(k, SymBool):
                i = int(k)
                return o[i]
            if not (i < n) or not (i >= -n):
                raise IndexError("index out of range")
            return o[int(i)]
    if isinstance(k, slice):
        if any(isinstance(x, SYM) for x in (k.start, k.stop, k.step)):
            k = slice(*[int(x) if isinstance(x, SYM) else x for x in (k.start, k.stop, k.step)])
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict) and type(o).__setitem__ in (dict.__setitem__, OrderedDict.__setitem__):
        if k.__class__ is str and dict.__contains__(o, k):
            o[k] = v
            return
        kk = find_key(o, k)
        o[k if kk is MISSING else kk] = v
        return
    if isinstance(k, SYM):
        if isinstance(k, SymStr):
            if isinstance(o, list):
                raise TypeError("list indices must be integers or slices, not str")
        else:
            k = int(k)
    if isinstance(k, slice) and any(isinstance(x, SYM) for x in (k.start, k.stop, k.step)):
        k = slice(*[int(x) if isinstance(x, SYM) else x for x in (k.start, k.stop, k.step)])
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict):
        kk = find_key(o, k)
        if kk is MISSING:
            raise KeyError(k)
        del o[kk]
        return
    if isinstance(k, (SymInt, SymBool)):
        k = int(k)
    del o[k]


def mkdict(*items):
    d = {}
    for it in items:
        if len(it) == 1:
            dict_update(d, it[0])
        else:
            setitem(d, it[0], it[1])
    return d


def dictcomp(gen):
    d = {}
    for k, v in gen:
        setitem(d, k, v)
    return d


def mkset(it):
    s = set()
    for x in it:
        set_add(s, x)
    return s


def set_add(s, x):
    if find_key(s, x) is MISSING:
        s.add(x)


def dict_update(d, /, *a, **kw):
    if a:
        src = a[0]
        if hasattr(src, "keys"):
            for k in list(src.keys()):
                setitem(d, k, src[k])
        else:
            for k, v in src:
                setitem(d, k, v)
    for k, v in kw.items():
        setitem(d, k, v)


def dict_get(d, k, default=None):
    kk = find_key(d, k)
    return default if kk is MISSING else dict.__getitem__(d, kk)


def dict_pop(d, k, *default):
    kk = find_key(d, k)
    if kk is MISSING:
        if default:
            return default[0]
        raise KeyError(k)
    return d.pop(kk)


def dict_setdefault(d, k, default=None):
    kk = find_key(d, k)
    if kk is MISSING:
        d[k] = default
        return default
    return dict.__getitem__(d, kk)


def m_dict(*a, **kw):
    if a and isinstance(a[0], dict) and not kw:
        return dict(a[0])
    d = {}
    dict_update(d, *a, **kw)
    return d


def dict_fromkeys(it, v=None):
    d = {}
    for k in it:
        setitem(d, k, v)
    return d


def contains(item, c):
    if isinstance(c, SymStr):
        return c.sx_contains(item)
    if isinstance(c, str):
        if isinstance(item, SymStr):
            return SymStr(elems(c)).sx_contains(item)
        return item in c
    if isinstance(c, dict) and type(c).__contains__ is dict.__contains__:
        return find_key(c, item) is not MISSING
    if isinstance(c, (set, frozenset)):
        return find_key(c, item) is not MISSING
    if isinstance(c, type({}.keys())):
        for k in c:
            if k is item:
                return True
        for k in c:
            if _key_eq(k, item):
                return True
        return False
    if isinstance(c, (list, tuple)):
        ts = []
        for x in c:
            if x is item:
                return True
            if isinstance(x, SYM) or isinstance(item, SYM) or \
                    isinstance(x, (list, tuple, dict)) and isinstance(item, (list, tuple, dict)):
                t = deep_eq_tree(x, item)
                if t[0] == "T":
                    return True
                ts.append(t)
            elif x == item:
                return True
        return mk_bool(t_or(ts))
    return item in c


def notcontains(item, c):
    return sx_not(contains(item, c))


def sx_is(a, b):
    if a is b:
        return True
    if isinstance(a, SymBool) and isinstance(b, bool):
        return mk_bool(a.t if b else t_not(a.t))
    if isinstance(b, SymBool) and isinstance(a, bool):
        return mk_bool(b.t if a else t_not(b.t))
    return False


def sx_isnot(a, b):
    return sx_not(sx_is(a, b))


# ------------------------------------------------------------ conversions
def m_isinstance(x, cls):
    if isinstance(x, SYM):
        py = pytype(x)
        if isinstance(cls, tuple):
            return any(m_isinstance(x, c) for c in cls)
        if isinstance(cls, types.UnionType):
            return any(m_isinstance(x, c) for c in cls.__args__)
        try:
            return issubclass(py, cls)
        except TypeError:
            return isinstance(py(), cls)
    return isinstance(x, cls)


def m_type(*a):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a)


_DIGVAL = lambda ch: ch.isdecimal()


def int_parse(s, base=10):
    """int(str) for symbolic text: decides sign / digit structure by forking,
    value as a linear integer term"""
    cs = list(elems(s))
    if ENG.fork(t_and([elem_test(c, "isascii", str.isascii) for c in cs])):
        sp = lambda c: ENG.fork(elem_in(c, " \t\n\r\x0b\x0c"))
    else:
        sp = lambda c: ENG.fork(elem_test(c, "isspace", str.isspace))
    i, j = 0, len(cs)
    while i < j and sp(cs[i]):
        i += 1
    while j > i and sp(cs[j - 1]):
        j -= 1
    body = cs[i:j]
    bad = lambda: ValueError("invalid literal for int() with base %d: %r" % (base, s))
    neg = False
    if not body:
        raise bad()
    if ENG.fork(elem_in(body[0], "+-")):
        neg = ENG.fork(elem_eq(body[0], 45))
        body = body[1:]
    if not body:
        raise bad()
    if base == 0:
        raise EngineError("int base 0")
    if base == 16 and len(body) > 1 and ENG.fork(t_and([elem_eq(body[0], 48), elem_in(body[1], "xX")])):
        body = body[2:]
        if not body:
            raise bad()
        if ENG.fork(elem_eq(body[0], 95)) and len(body) > 1:
            body = body[1:]
    prev_us = True
    val = z3.IntVal(0)

    def okdigit(ch):
        try:
            int(ch, base)
            return len(ch) == 1 and ch not in "+-_ "
        except ValueError:
            return False
    for c in body:
        if ENG.fork(elem_test(c, ("digit", base), okdigit)):
            prev_us = False
            if isinstance(c, int):
                d = z3.IntVal(int(chr(c), base))
            else:
                d = digit_term(c, base)
            val = val * base + d
        elif ENG.fork(elem_eq(c, 95)):
            if prev_us:
                raise bad()
            prev_us = True
        else:
            raise bad()
    if prev_us:
        raise bad()
    return mk_int(-val if neg else val)


def digit_term(c, base):
    groups = {}
    dom = ENG.dom.get(c.var, c.var.dom0)
    for i in range(len(DOM)):
        if not dom >> i & 1:
            continue
        try:
            v = int(chr(c.at(i)), base)
        except ValueError:
            continue
        groups.setdefault(v - DOM[i], 0)
        groups[v - DOM[i]] |= 1 << i
    items = sorted(groups.items(), key=lambda kv: -bin(kv[1]).count("1"))
    v = c.var.z
    e = v + items[0][0]
    for d, m in items[1:]:
        e = z3.If(c.var.mask_expr(m), v + d, e)
    return e


def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    base = k.get("base", a[1] if len(a) > 1 else None)
    if isinstance(base, SYM):
        base = int(base)
    if isinstance(x, SymStr):
        return int_parse(x, 10 if base is None else base)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, SYM):
        return x
    t = type(x)
    for c in t.__mro__:
        for nm in ("__int__", "__index__"):
            if isinstance(c.__dict__.get(nm), types.FunctionType):
                return getattr(x, nm)()
    return int(*a, **k)


_FLOAT_RE = None


class SymFloat(object):
    """float(text): only equality of the originating text, sign of parse and
    concretisation are supported"""
    pass


def m_float(*a):
    if a and isinstance(a[0], SymStr):
        x = a[0]
        # decide validity exactly with CPython's grammar, concretise on success
        global _FLOAT_RE
        if _FLOAT_RE is None:
            _FLOAT_RE = re.compile(
                r"\s*[-+]?(?:(?:\d+(?:_\d+)*\.?(?:\d+(?:_\d+)*)?|\.\d+(?:_\d+)*)"
                r"(?:[eE][-+]?\d+(?:_\d+)*)?|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN])\s*")
        if regex.fullmatch(_FLOAT_RE, x) is None:
            raise ValueError("could not convert string to float: %r" % (x,))
        return float(concretise(x, "float(text)"))
    if a and isinstance(a[0], SymInt):
        return float(int(a[0]))
    return float(*a)


def int_to_str(x):
    """decimal text of a symbolic integer: forks on sign and digit count, the
    digits become fresh characters tied to the value"""
    z = x.z
    # small ranges: enumerate is never cheaper, use digits
    neg = ENG.fork(_zb(z < 0))
    mag = -z if neg else z
    n = 1
    while not ENG.fork(_zb(mag < 10 ** n)):
        n += 1
        if n > 45:
            raise EngineError("integer too large")
    out = [45] if neg else []
    from .core import mask_of
    key = z3.simplify(mag).sexpr()
    digs = []
    total = z3.IntVal(0)
    dm = mask_of("0123456789")
    for i in range(n):
        v = ENG.new_char("dg%d!%d!%s" % (i, n, key), dm, prefer="0")
        digs.append(SChar(v))
        total = total * 10 + (v.z - 48)
    ENG.define(mag == total)
    return mk_str(tuple(out) + tuple(digs))


def m_str(*a, **k):
    if not a:
        return str(*a, **k)
    x = a[0]
    if len(a) > 1 or k:
        return str(*a, **k)
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return int_to_str(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, (str, int, float, type(None))):
        return str(x)
    t = type(x)
    for c in t.__mro__:
        f = c.__dict__.get("__str__")
        if f is not None:
            if isinstance(f, types.FunctionType):
                return f(x)
            break
    if isinstance(x, (list, tuple, dict, set)):
        return m_repr(x)
    if isinstance(x, BaseException) and deep_has_sym(x.args):
        if len(x.args) == 1:
            return m_repr(x.args[0]) if isinstance(x, KeyError) else m_str(x.args[0])
        return m_repr(x.args)
    return str(x)


def m_repr(x):
    if isinstance(x, SymInt):
        return int_to_str(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymStr):
        # plain printable characters other than quote/backslash need no escaping
        simple = lambda ch: ch.isprintable() and ch not in "'\\\""
        ok = ENG.fork(t_and([elem_test(c, "reprsimple", simple) for c in x.cs]))
        if ok:
            return mk_str((39,) + x.cs + (39,))
        return repr(concretise(x, "repr"))
    if isinstance(x, (list, tuple)) and deep_has_sym(x):
        body = str_join(", ", [m_repr(v) for v in x])
        if isinstance(x, list):
            return str_join("", ["[", body, "]"])
        return str_join("", ["(", body, ",)" if len(x) == 1 else ")"])
    if isinstance(x, dict) and deep_has_sym(x):
        return str_join("", ["{", str_join(", ", [str_join(": ", [m_repr(k), m_repr(v)]) for k, v in x.items()]), "}"])
    t = type(x)
    for c in t.__mro__:
        f = c.__dict__.get("__repr__")
        if f is not None:
            if isinstance(f, types.FunctionType):
                return f(x)
            break
    return repr(x)


def m_bool(*a):
    if a and isinstance(a[0], SYM):
        x = a[0]
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymInt):
            return mk_bool(_zb(x.z != 0))
        return bool(x)
    return bool(*a)


def m_format(x, spec=""):
    if isinstance(x, SYM):
        if isinstance(spec, SymStr):
            spec = concretise(spec, "format spec")
        if isinstance(x, SymStr):
            return fmt_str(x, spec)
        if isinstance(x, SymInt):
            if spec in ("", "d"):
                return int_to_str(x)
            return format(concretise(x, "format int"), spec)
        return format(bool(x), spec)
    if spec == "" and not isinstance(x, (str, int, float)):
        return m_str(x)
    return format(x, spec)


def fmt_str(x, spec):
    if spec == "":
        return x
    m = re.match(r"(?:(.)?([<>^]))?(0)?(\d+)?(?:\.(\d+))?s?$", spec, re.S)
    if not m:
        return format(concretise(x, "format"), spec)
    fill, align, zero, width, prec = m.groups()
    if prec is not None:
        x = x[:int(prec)]
    width = int(width or 0)
    if zero and fill is None:
        fill = "0"
    fill = fill or " "
    align = align or "<"
    if not isinstance(x, SymStr):
        return format(x, "%s%s%d" % (fill, align, width)) if width else x
    if align == "<":
        return x.ljust(width, fill)
    if align == ">":
        return x.rjust(width, fill)
    pad = width - len(x)
    if pad <= 0:
        return x
    left = pad // 2
    return mk_str(elems(fill) * left + x.cs + elems(fill) * (pad - left))


def _conv(x, c):
    if c in ("r", 114):
        return m_repr(x)
    if c in ("s", 115):
        return m_str(x)
    if c in ("a", 97):
        return ascii(deep_concretise(x, "ascii"))
    return x


def fmt(val, conv, spec):
    if conv != -1:
        val = _conv(val, conv)
    return m_format(val, spec)


def fjoin(*parts):
    return str_join("", parts)


def _braces(cs):
    """characters of a format template -> [(literal characters, field text)],
    None for a template with anything but simple fields"""
    out, lit, i = [], [], 0
    while i < len(cs):
        if cs[i] == 123 or cs[i] == 125:
            if i + 1 < len(cs) and cs[i + 1] == cs[i]:
                lit.append(cs[i])
                i += 2
                continue
            j = i
            while j < len(cs) and cs[j] != 125:
                if cs[j].__class__ is not int or (j > i and cs[j] == 123):
                    return None
                j += 1
            if cs[i] == 125 or j == len(cs):
                return None
            out.append((tuple(lit), "".join(map(chr, cs[i:j + 1]))))
            lit = []
            i = j + 1
        else:
            lit.append(cs[i])
            i += 1
    out.append((tuple(lit), None))
    return out


def _fields(parts, args, kwargs):
    auto = 0
    for lit, field in parts:
        yield lit
        if field is not None:
            name = field[1:-1].split("!")[0].split(":")[0]
            if name == "" or name[0] in ".[":
                if auto >= len(args):
                    raise IndexError("Replacement index %d out of range for positional args tuple" % auto)
                yield str_format(field, (args[auto],), {})
                auto += 1
            else:
                yield str_format(field, args, kwargs)


def str_format(template, args, kwargs):
    if isinstance(template, SymStr):
        # symbolic template text without braces formats to itself
        has = ENG.fork(t_or([elem_in(c, "{}") for c in template.cs]))
        if not has:
            return template
        if not ENG.fork(t_or([elem_in(c, "{}") for c in template.cs if c.__class__ is not int])):
            # the braces are all written out: symbolic characters outside of
            # them are literal text
            r = _braces(template.cs)
            if r is not None:
                return str_join("", [mk_str(x) if x.__class__ is tuple else x for x in
                                     _fields(r, args, kwargs)])
        template = concretise(template, "format template")
    if not deep_has_sym(args) and not deep_has_sym(kwargs):
        plain = True
        for a in list(args) + list(kwargs.values()):
            if not isinstance(a, (str, int, float, type(None), bool)):
                plain = False
        if plain:
            return template.format(*args, **kwargs)
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(template):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = __import__("_string").formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args):
                raise IndexError("Replacement index %d out of range for positional args tuple" % first)
            v = args[first]
        else:
            v = getitem(kwargs, first)
        for is_attr, nm in rest:
            v = getattr(v, nm) if is_attr else getitem(v, nm)
        if conv:
            v = _conv(v, conv)
        if spec and "{" in spec:
            spec = str_format(spec, args[auto:], kwargs)
        out.append(m_format(v, spec or ""))
    return str_join("", out)


def percent_format(template, args):
    if isinstance(template, SymStr):
        template = concretise(template, "% template")
    plain = (str, int, float, type(None))
    if all(isinstance(v, plain) for v in (args if isinstance(args, tuple) else args.values() if isinstance(args, dict) else (args,))):
        return template % args
    tup = args if isinstance(args, tuple) else (args,)
    out = []
    pos = 0
    n = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])", template):
        out.append(template[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, ty = m.groups()
        if ty == "%":
            out.append("%")
            continue
        if name is not None:
            v = getitem(args, name)
        else:
            if n >= len(tup):
                raise TypeError("not enough arguments for format string")
            v = tup[n]
            n += 1
        if ty in "sr" and not isinstance(v, (str, int, float, type(None))) and not prec:
            s = m_str(v) if ty == "s" else m_repr(v)
            if width:
                w = int(width)
                if isinstance(s, str):
                    s = s.ljust(w) if "-" in flags else s.rjust(w)
                else:
                    s = s.ljust(w) if "-" in flags else s.rjust(w)
            out.append(s)
        elif ty == "d" and isinstance(v, SymInt) and not width and not flags:
            out.append(int_to_str(v))
        else:
            spec = m.group(0) if name is None else m.group(0).replace("(%s)" % name, "")
            out.append(spec % (deep_concretise(v, "% format"),))
    out.append(template[pos:])
    if n < len(tup) and not isinstance(args, dict) and isinstance(args, tuple):
        raise TypeError("not all arguments converted during string formatting")
    return str_join("", out)


def sx_mod(a, b):
    if isinstance(a, str):
        return percent_format(a, b)
    return a % b


_IOPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
         "FloorDiv": operator.ifloordiv, "Mod": lambda a, b: sx_mod(a, b), "Pow": operator.ipow,
         "LShift": operator.ilshift, "RShift": operator.irshift, "BitOr": operator.ior,
         "BitXor": operator.ixor, "BitAnd": operator.iand, "MatMult": operator.imatmul}


def iop(op, a, b):
    return _IOPS[op](a, b)


# ------------------------------------------------------------------- builtins
def m_ord(c):
    if isinstance(c, SymStr):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        e = c.cs[0]
        return mk_int(e.z())
    return ord(c)


def m_chr(i):
    if isinstance(i, SymInt):
        z = i.z
        # identity char
        for v in ENG.vars.values():
            if z.eq(v.z):
                return SymStr((SChar(v),))
        return chr(int(i))
    return chr(i)


def m_set(*a):
    return mkset(a[0]) if a else set()


def m_frozenset(*a):
    return frozenset(mkset(a[0])) if a else frozenset()


def m_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def m_any(it):
    ts = []
    for x in it:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif isinstance(x, SYM):
            if x:
                return True
        elif x:
            return True
    return mk_bool(t_or(ts))


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_hash(x):
    if deep_has_sym(x):
        raise EngineError("hash() of symbolic value")
    return hash(x)


def m_lru_cache(maxsize=128, typed=False):
    """memoisation is transparent; a cache keyed by symbolic values is not kept"""
    if callable(maxsize):
        return maxsize
    return lambda f: f


def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    return (x for x in it if (x if f is None else call(f, x)))


def m_len(x):
    return len(x)


def m_print(*a, **k):
    return None


def m_callable(x):
    return callable(x)


def m_range(*a):
    return range(*[int(x) if isinstance(x, SYM) else x for x in a])


def m_max(*a, **k):
    return max(*a, **k)


def m_bin(x):
    return bin(int(x)) if isinstance(x, SYM) else bin(x)


def m_setattr(o, n, v):
    if isinstance(n, SymStr):
        n = concretise(n, "setattr name")
    return setattr(o, n, v)


def m_getattr(o, n, *d):
    if isinstance(n, SymStr):
        n = concretise(n, "getattr name")
    if o.__class__ is str and not d:
        return getattr(o, n)
    return getattr(o, n, *d)


def m_hasattr(o, n):
    if isinstance(n, SymStr):
        n = concretise(n, "hasattr name")
    return hasattr(o, n)


def m_compile(source, filename, mode, flags=0, dont_inherit=False, optimize=-1, **k):
    from . import rewrite
    if isinstance(source, SymStr):
        return opaque.OpaqueCode(source, filename, mode)
    if isinstance(source, str) and not flags:
        return rewrite.instrument(source, filename, mode)
    return compile(source, filename, mode, flags, True, optimize)


def m_int_from_bytes(data, byteorder="big", *, signed=False):
    items = list(data)
    if any(isinstance(x, SYM) for x in items):
        if byteorder == "little":
            items.reverse()
        v = 0
        for x in items:
            if not (x >= 0) or not (x < 256):
                raise ValueError("bytes must be in range(0, 256)")
            v = v * 256 + x
        return v
    return int.from_bytes(items, byteorder, signed=signed)


def m_sorted(it, *, key=None, reverse=False):
    items = list(it)
    return sorted(items, key=key, reverse=reverse)


def m_deepcopy(x, memo=None):
    return _copy.deepcopy(x)


def m_path_pred(p):
    """file system predicates on symbolic text: the stated assumption is that
    the text is not the name of an existing file or directory"""
    if isinstance(p, SymStr):
        return False
    raise AssertionError


class _Popcount(object):
    pass


# --------------------------------------------------------------------- re API
def _flags(f):
    return f


def re_compile(p, flags=0):
    if isinstance(p, SymStr):
        return compile_symbolic(p, flags)
    return re.compile(p, flags)


SYMPARSER = None


def compile_symbolic(p, flags=0):
    if SYMPARSER is None:
        return re.compile(concretise(p, "regex text"), flags)
    tree = SYMPARSER.parse(p, int(flags))
    return regex.SymPattern(p, int(tree.state.flags), tree)


def _pat(p, flags=0):
    if isinstance(p, (re.Pattern, regex.SymPattern)):
        return p
    return re_compile(p, flags)


def _re_fn(name):
    real = getattr(re, name)

    def f(pattern, string, flags=0):
        if not isinstance(string, SymStr) and not isinstance(pattern, (SymStr, regex.SymPattern)):
            return real(pattern, string, flags)
        if not is_strlike(string):
            raise TypeError("expected string or bytes-like object, got %r" % type(string).__name__)
        return getattr(regex, name)(_pat(pattern, flags), string)
    return f


def re_sub(pattern, repl, string, count=0, flags=0):
    if not isinstance(string, SymStr) and not isinstance(pattern, (SymStr, regex.SymPattern)) \
            and not isinstance(repl, SymStr) and not callable(repl):
        return re.sub(pattern, repl, string, count, flags)
    if not is_strlike(string):
        raise TypeError("expected string or bytes-like object, got %r" % type(string).__name__)
    return regex.sub(_pat(pattern, flags), repl, string, count)


def re_subn(pattern, repl, string, count=0, flags=0):
    if not is_strlike(string):
        raise TypeError("expected string or bytes-like object")
    return regex.subn(_pat(pattern, flags), repl, string, count)


def re_split(pattern, string, maxsplit=0, flags=0):
    if not isinstance(string, SymStr) and not isinstance(pattern, (SymStr, regex.SymPattern)):
        return re.split(pattern, string, maxsplit, flags)
    return regex.split(_pat(pattern, flags), string, maxsplit)


def re_escape(s):
    if isinstance(s, SymStr):
        return regex.escape(s)
    return re.escape(s)


def pattern_method(p, name, args, kwargs):
    kw = dict(kwargs)
    if name in ("search", "match", "fullmatch", "finditer", "findall"):
        string = args[0] if args else kw.pop("string")
        if not isinstance(string, SymStr) and not isinstance(p, regex.SymPattern):
            return getattr(p, name)(*args, **kwargs)
        if not is_strlike(string):
            raise TypeError("expected string or bytes-like object, got %r" % type(string).__name__)
        return getattr(regex, name)(p, string, *args[1:], **kw)
    if name in ("sub", "subn"):
        repl, string = args[0], args[1]
        cnt = args[2] if len(args) > 2 else kw.get("count", 0)
        return getattr(regex, name)(p, repl, string, cnt)
    if name == "split":
        return regex.split(p, args[0], *args[1:])
    return getattr(p, name)(*args, **kwargs)


# ------------------------------------------------------------------ dispatch
BY_ID = {}


def model(real, fn):
    BY_ID[id(real)] = (real, fn)


for _n in ("search", "match", "fullmatch", "finditer", "findall"):
    model(getattr(re, _n), _re_fn(_n))
model(re.sub, re_sub)
model(re.subn, re_subn)
model(re.split, re_split)
model(re.compile, re_compile)
model(re.escape, re_escape)
for _r, _f in [(isinstance, m_isinstance), (type, m_type), (int, m_int), (float, m_float), (str, m_str),
               (repr, m_repr), (bool, m_bool), (format, m_format), (ord, m_ord), (chr, m_chr),
               (set, m_set), (frozenset, m_frozenset), (dict, m_dict), (sum, m_sum), (any, m_any),
               (all, m_all), (hash, m_hash), (print, m_print), (range, m_range), (bin, m_bin),
               (setattr, m_setattr), (getattr, m_getattr), (hasattr, m_hasattr), (compile, m_compile),
               (sorted, m_sorted), (_copy.deepcopy, m_deepcopy), (int.from_bytes, m_int_from_bytes), (functools.lru_cache, m_lru_cache),
               (map, m_map), (filter, m_filter)]:
    model(_r, _f)

_real_join = os.path.join


def path_join(a, *rest):
    if not any(isinstance(x, SymStr) for x in rest) and not isinstance(a, SymStr):
        return _real_join(a, *rest)
    out = a
    for p in rest:
        # as posixpath.join
        if p[:1] == "/":
            out = p
        elif len(out) == 0 or out[-1:] == "/":
            out = out + p
        else:
            out = out + "/" + p
    return out


model(os.path.join, path_join)
model(sys.getsizeof, lambda x, *a: 49 + len(x) if isinstance(x, SymStr) else sys.getsizeof(x, *a))
for _r in (os.path.isfile, os.path.isdir, os.path.exists):
    model(_r, (lambda real: lambda p: m_path_pred(p) if isinstance(p, SymStr) else real(p))(_r))

for _r in (os.fspath, os.path.normcase):
    model(_r, (lambda real: lambda p: p if isinstance(p, SymStr) else real(p))(_r))

# C callables that are safe with symbolic values inside their arguments
# because they only move references or use rich comparison / iteration
SAFE = set(id(f) for f in (
    len, list, tuple, enumerate, zip, map, filter, reversed, iter, next, min, max, abs, id, callable,
    object.__new__, slice, divmod, issubclass, OrderedDict, super, property, classmethod, staticmethod, pow, round,
    operator.itemgetter, operator.attrgetter, _copy.copy, types.FunctionType))

LOG_METHODS = {"debug", "info", "warning", "error", "critical", "exception", "log", "warn"}

DICT_METHODS = {"get": dict_get, "pop": dict_pop, "setdefault": dict_setdefault, "update": dict_update}
SET_METHODS = {"add": lambda s, x: set_add(s, x)}


def _set_discard(s, x):
    k = find_key(s, x)
    if k is not MISSING:
        s.discard(k)


def _set_remove(s, x):
    k = find_key(s, x)
    if k is MISSING:
        raise KeyError(x)
    s.discard(k)


def _set_update(s, *its):
    for it in its:
        for x in it:
            set_add(s, x)


def _set_inter(s, *its):
    out = set()
    for x in s:
        if all(find_key(mkset(it), x) is not MISSING for it in its):
            out.add(x)
    return out


def _set_diff(s, *its):
    out = set()
    for x in s:
        if all(find_key(mkset(it), x) is MISSING for it in its):
            out.add(x)
    return out


SET_METHODS.update({
    "discard": _set_discard, "remove": _set_remove, "update": _set_update,
    "union": lambda s, *its: mkset([x for c in (s,) + its for x in c]),
    "intersection": _set_inter, "difference": _set_diff,
    "issubset": lambda s, o: all(find_key(mkset(o), x) is not MISSING for x in s),
    "issuperset": lambda s, o: all(find_key(s, x) is not MISSING for x in o),
})

_BUILTIN_TYPES = (types.BuiltinFunctionType, types.MethodWrapperType, types.WrapperDescriptorType,
                  types.MethodDescriptorType, types.ClassMethodDescriptorType)


def _sym_args(args, kwargs):
    for a in args:
        c = a.__class__
        if c is str or c is int:
            continue
        if deep_has_sym(a):
            return True
    for a in kwargs.values():
        if deep_has_sym(a):
            return True
    return False


def call(f, /, *args, **kwargs):
    e = BY_ID.get(id(f))
    if e is not None:
        return e[1](*args, **kwargs)
    if isinstance(f, types.FunctionType):
        return f(*args, **kwargs)
    if isinstance(f, types.MethodType):
        return f(*args, **kwargs)
    if isinstance(f, types.BuiltinFunctionType):
        s = getattr(f, "__self__", None)
        if s is not None and not isinstance(s, types.ModuleType):
            return mcall(s, f.__name__, *args, **kwargs)
    if id(f) in SAFE:
        return f(*args, **kwargs)
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        if args and isinstance(args[0], (str, SymStr, dict, list, set)):
            if isinstance(args[0], (str, SymStr)) or not deep_has_sym(args):
                return mcall(args[0], f.__name__, *args[1:], **kwargs)
            return mcall(args[0], f.__name__, *args[1:], **kwargs)
        return f(*args, **kwargs)
    if isinstance(f, type):
        if f.__module__ in ("builtins",) and not issubclass(f, BaseException):
            if _sym_args(args, kwargs):
                return f(*[deep_concretise(a, f.__name__) for a in args],
                         **{k: deep_concretise(v, f.__name__) for k, v in kwargs.items()})
        return f(*args, **kwargs)
    if isinstance(f, types.BuiltinFunctionType):
        if _sym_args(args, kwargs):
            nm = "%s.%s" % (getattr(f, "__module__", ""), f.__name__)
            return f(*[deep_concretise(a, nm) for a in args],
                     **{k: deep_concretise(v, nm) for k, v in kwargs.items()})
        return f(*args, **kwargs)
    return f(*args, **kwargs)


def mcall(obj, name, /, *args, **kwargs):
    c = obj.__class__
    if c is str:
        if name == "format" or name == "format_map":
            if name == "format_map":
                return str_format(obj, (), args[0])
            return str_format(obj, args, kwargs)
        if name == "join":
            it = list(args[0])
            for x in it:
                if x.__class__ is not str:
                    return str_join(obj, it)
            return obj.join(it)
        for a in args:
            if a.__class__ is not str and deep_has_sym(a):
                if name in ("zfill", "ljust", "rjust", "center", "expandtabs"):
                    return getattr(obj, name)(*[int(a) if isinstance(a, SymInt) else a for a in args])
                return getattr(SymStr(elems(obj)), name)(*args, **kwargs)
        return getattr(obj, name)(*args, **kwargs)
    if c is SymStr:
        return getattr(obj, name)(*args, **kwargs)
    if isinstance(obj, dict):
        m = DICT_METHODS.get(name)
        if m is not None and getattr(type(obj), name) in (getattr(dict, name), getattr(OrderedDict, name)):
            return m(obj, *args, **kwargs)
        return call2(getattr(obj, name), args, kwargs)
    if c is set or c is frozenset:
        m = SET_METHODS.get(name)
        if m is not None:
            return m(obj, *args, **kwargs)
        return getattr(obj, name)(*args, **kwargs)
    if c is re.Pattern or c is regex.SymPattern:
        return pattern_method(obj, name, args, kwargs)
    if c is list:
        if name == "sort" or name in ("append", "extend", "insert", "pop", "remove", "reverse", "clear", "copy", "count", "index"):
            if name == "pop" and args and isinstance(args[0], SYM):
                args = (int(args[0]),)
            return getattr(obj, name)(*args, **kwargs)
    if isinstance(obj, logging.Logger) and name in LOG_METHODS:
        return None
    f = getattr(obj, name)
    return call2(f, args, kwargs)


def call2(f, args, kwargs):
    """call of a bound attribute: like call() but C methods of arbitrary
    objects are not re-dispatched"""
    e = BY_ID.get(id(f))
    if e is not None:
        return e[1](*args, **kwargs)
    if isinstance(f, types.BuiltinFunctionType):
        s = getattr(f, "__self__", None)
        if isinstance(s, types.ModuleType):
            return call(f, *args, **kwargs)
        if s is int and f.__name__ == "from_bytes":
            return m_int_from_bytes(*args, **kwargs)
        if s is dict and f.__name__ == "fromkeys":
            return dict_fromkeys(*args, **kwargs)
        if s is str and f.__name__ == "maketrans":
            return str.maketrans(*[deep_concretise(a, "maketrans") for a in args])
        if isinstance(s, (str,)):
            return mcall(s, f.__name__, *args, **kwargs)
        return f(*args, **kwargs)
    if isinstance(f, (types.FunctionType, types.MethodType)):
        return f(*args, **kwargs)
    return call(f, *args, **kwargs)



from . import opaque     # noqa: E402  (registers its models)

RUNTIME = {
    "_sx_eval": opaque.m_eval, "_sx_exec": opaque.m_exec,
    "_sx_call": call, "_sx_mcall": mcall, "_sx_in": contains, "_sx_notin": notcontains,
    "_sx_is": sx_is, "_sx_isnot": sx_isnot, "_sx_getitem": getitem, "_sx_setitem": setitem,
    "_sx_delitem": delitem, "_sx_slice": slice, "_sx_mod": sx_mod, "_sx_fmt": fmt,
    "_sx_fjoin": fjoin, "_sx_mkdict": mkdict, "_sx_mkset": mkset, "_sx_dictcomp": dictcomp,
    "_sx_not": sx_not, "_sx_iop": iop, "_sx_Control": EngineControl,
}
