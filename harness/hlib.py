"""Shared helpers of the harnesses: run a template, reference line matcher."""
import os
from ttp import ttp

# Environment stub (both modes): a string shorter than 16 characters names no
# file or directory, so that such a text is a text and not a path.
_isfile, _isdir = os.path.isfile, os.path.isdir


def _stub_isfile(p):
    return False if len(p) < 16 else _isfile(p)


def _stub_isdir(p):
    return False if len(p) < 16 else _isdir(p)


os.path.isfile = _stub_isfile
os.path.isdir = _stub_isdir

WS = " \t"
DIG = "0123456789\u0663"
NONSPACE_EXCL = " \t\r\n\x0b\x0c\x1c\x85\xa0\u2028"


def mk(template, data=None, **kw):
    if data is None:
        return ttp(template=template, log_level="CRITICAL", **kw)
    return ttp(data=data, template=template, log_level="CRITICAL", **kw)


def run(template, data, **kw):
    p = mk(template, data, **kw)
    p.parse(one=True)
    return p.result()


def only(template, data, **kw):
    """result of the single input of a single template"""
    r = run(template, data, **kw)
    if len(data) == 0 and r == [[]]:
        return {}    # an empty text is not an input
    assert len(r) == 1 and len(r[0]) == 1
    return r[0][0]


def records(template, data, **kw):
    """matches of an anonymous group as a list"""
    return aslist(only(template, data, **kw))


def text(t, s):
    """an input text; ttp://... is a reference and not a text"""
    t.assume(not s.startswith("ttp://"))
    return s


def aslist(r):
    if isinstance(r, list):
        return r
    if r == {}:
        return []
    return [r]


# ------------------------------------------------ reference line matcher
def tokenize(line, exact=False, exact_space=False):
    """template line (variables written {{ name }}) -> token list; written
    from the documentation: literal text is literal, runs of spaces/tabs match
    runs of spaces/tabs, runs of digits match runs of digits"""
    toks = []
    i = 0
    indent = True
    while i < len(line):
        c = line[i]
        if line.startswith("{{", i):
            j = line.index("}}", i)
            parts = [p.strip() for p in line[i + 2:j].split("|")]
            toks.append(("var", parts[0]))
            i = j + 2
            indent = False
        elif c in WS and not indent and not exact_space:
            while i < len(line) and line[i] in WS:
                i += 1
            toks.append(("sp", None))
        elif c in DIG and not exact:
            while i < len(line) and line[i] in DIG:
                i += 1
            toks.append(("dig", None))
            indent = False
        else:
            toks.append(("ch", c))
            if c not in WS:
                indent = False
            i += 1
    return toks


def ref_match(toks, line):
    """captures of the line or None; `line` without its line feed"""
    n = len(line)
    caps = {}

    def tail(i):
        while i < n and line[i] in WS:
            i += 1
        return i == n or (i == n - 1 and line[i] == "\r")

    def go(k, i):
        if k == len(toks):
            return tail(i)
        kind, arg = toks[k]
        if kind == "ch":
            if i < n and line[i] == arg:
                return go(k + 1, i + 1)
            return False
        j = i
        if kind == "sp":
            while j < n and line[j] in WS:
                j += 1
        elif kind == "dig":
            while j < n and line[j] in DIG:
                j += 1
        else:
            while j < n and line[j] not in NONSPACE_EXCL:
                j += 1
        while j > i:
            if go(k + 1, j):
                if kind == "var" and arg != "ignore":
                    caps[arg] = line[i:j]
                return True
            j -= 1
        return False

    if go(0, 0):
        return caps
    return None


def ref_lines(toks, lines):
    out = []
    for l in lines:
        m = ref_match(toks, l)
        if m is not None:
            out.append(m)
    return out


def named(module, jobs):
    """jobs with positional parameters -> jobs with named ones"""
    out = []
    for j in jobs:
        c = module[j[0]].__code__
        names = c.co_varnames[1:c.co_argcount]
        out.append((j[0], dict(zip(names, j[1]))) + tuple(j[2:]))
    return out
