"""Symbolic text through C parsers (XML, eval/exec, csv, json, yaml).

A parser of that kind treats all characters that have no meaning in its syntax
alike: it copies them.  A symbolic character is therefore forked into each
character that is special for the parser (which is then concrete) and the rest,
for which an unused letter is put into the text that the real parser reads; in
what the parser returns these letters are the symbolic characters again.  The
replay of path witnesses on the real code validates this on every run."""
import ast
import csv
import io
import json
import keyword
import xml.etree.ElementTree as ET
from .core import ENG, EngineError, DOM, IDX
from .values import SymStr, SYM, mk_str, mk_bool, elems, elem_in, seq_eq, concretise
from . import models
from .models import model

BASE = 0x4E00
CONTROL = "".join(chr(c) for c in DOM if c < 32)
BREAKS = "\x85\u2028"
LETTER = [chr(c) for c in DOM if chr(c).isalpha() and c < 128]
DIGIT = "0123456789"


class Opaque(object):
    def __init__(self):
        self.fw = {}
        self.bk = {}

    def one(self, e, special):
        """character to put in the text for element e"""
        if isinstance(e, int):
            if BASE <= e < BASE + 4096:
                raise EngineError("placeholder character in text")
            return chr(e)
        p = self.fw.get(e)
        if p is None:
            if special and ENG.fork(elem_in(e, special)):
                return chr(e.at(IDX[ENG.concretise_char(e.var, "character that is special for a parser")]))
            p = chr(BASE + len(self.fw))
            self.fw[e] = p
            self.bk[ord(p)] = e
        elif special and ENG.fork(elem_in(e, special)):
            raise EngineError("character special at one place and not at another")
        return p

    def hide(self, s, special):
        return "".join([self.one(e, special) for e in elems(s)])

    def show(self, s):
        if not isinstance(s, str):
            return s
        cs = [self.bk.get(ord(c), ord(c)) for c in s]
        return mk_str(tuple(cs))

    def deep(self, x):
        c = x.__class__
        if c is str:
            return self.show(x)
        if isinstance(x, dict):
            items = [(self.deep(k), self.deep(v)) for k, v in x.items()]
            dict.clear(x)
            for k, v in items:
                models.setitem(x, k, v)
            return x
        if c is list:
            x[:] = [self.deep(i) for i in x]
            return x
        if c is tuple:
            return tuple([self.deep(i) for i in x])
        if c in (int, float, bool, type(None)) or isinstance(x, SYM):
            return x
        if c in (set, frozenset, bytes):
            raise EngineError("opaque: %r" % c)
        return x


# ------------------------------------------------------------------------ XML
XML_SPECIAL = "<>&\"'" + CONTROL


def xml_tree(op, el):
    for x in el.iter():
        if x.text is not None:
            x.text = op.show(x.text)
        if x.tail is not None:
            x.tail = op.show(x.tail)
        for k, v in list(x.attrib.items()):
            x.attrib[k] = op.show(v)


def m_XML(text, parser=None):
    if isinstance(text, SymBytes):
        text = text.s
    if not isinstance(text, SymStr):
        return ET.XML(text, parser)
    op = Opaque()
    el = ET.XML(op.hide(text, XML_SPECIAL), parser)
    xml_tree(op, el)
    return el


def m_tostring(element, *a, **k):
    if not any(isinstance(v, SymStr) for x in element.iter() for v in [x.text, x.tail] + list(x.attrib.values())):
        return ET.tostring(element, *a, **k)
    op = Opaque()
    done = []
    try:
        for x in list(element.iter()):
            done.append((x, x.text, x.tail, dict(x.attrib)))
            if isinstance(x.text, SymStr):
                x.text = op.hide(x.text, XML_SPECIAL)
            if isinstance(x.tail, SymStr):
                x.tail = op.hide(x.tail, XML_SPECIAL)
            for n, v in list(x.attrib.items()):
                if isinstance(v, SymStr):
                    x.attrib[n] = op.hide(v, XML_SPECIAL)
        k["encoding"] = "unicode"
        r = ET.tostring(element, **k)
    finally:
        for x, t, tail, att in done:
            x.text, x.tail = t, tail
            x.attrib.clear()
            x.attrib.update(att)
    return SymBytes(op.show(r))


class SymBytes(object):
    """what tostring returns: decode() or use as XML text"""

    def __init__(self, s):
        self.s = s

    def decode(self, *a):
        return self.s


model(ET.XML, m_XML)
model(ET.fromstring, m_XML)
model(ET.tostring, m_tostring)


# --------------------------------------------------------------- Python source
def hide_python(op, s):
    """Python literals and names: inside of quotes only the quote, the
    backslash and line ends are special; outside of them letters form words"""
    cs = elems(s)
    out = []
    i, n = 0, len(cs)
    quote = None
    while i < n:
        e = cs[i]
        if quote:
            c = op.one(e, quote + "\\\n\r")
            out.append(c)
            if c == quote:
                quote = None
            elif c == "\\":
                i += 1
                if i < n:
                    c = cs[i]
                    out.append(chr(c) if isinstance(c, int) else concretise(mk_str((c,)), "escape sequence"))
            i += 1
            continue
        if isinstance(e, int):
            c = chr(e)
            out.append(c)
            i += 1
            if c in "'\"":
                quote = c
                if n - i >= 2 and cs[i] == e and cs[i + 1] == e:
                    raise EngineError("triple quoted text")
            elif c == "#":
                raise EngineError("comment")
            elif c.isalnum() or c == "_":
                # rest of a word
                j = i
                while j < n and not isinstance(cs[j], int):
                    j += 1
                if j > i:
                    raise EngineError("symbolic character within a word")
            continue
        # a word of symbolic characters
        j = i
        while j < n and not isinstance(cs[j], int):
            j += 1
        word = mk_str(cs[i:j])
        kind = [ENG.fork(elem_in(x, LETTER)) for x in word.cs]
        if not all(kind) or (j < n and (chr(cs[j]).isalnum() or chr(cs[j]) in "_'\"")):
            w = concretise(word, "source text")
            if "'" in w or '"' in w or "#" in w or "\\" in w:
                raise EngineError("quotes in symbolic source text")
            out.append(w)
        else:
            kw = None
            for k in keyword.kwlist:
                if len(k) == len(word) and ENG.fork(seq_eq(word.cs, elems(k))):
                    kw = k
                    break
            out.append(kw if kw else "".join([op.one(x, "") for x in word.cs]))
        i = j
    return "".join(out)


class NameSpace(dict):
    """names of evaluated text are looked up in the real mapping"""

    def __init__(self, op, real):
        dict.__init__(self)
        self.op = op
        self.real = real

    def __missing__(self, k):
        return models.getitem(self.real, self.op.show(k))


def runtime(g):
    """code made by the modelled compile() needs the runtime names"""
    if isinstance(g, dict):
        g.update(models.RUNTIME)
    return g


def m_eval(src, glob=None, loc=None, frame=None):
    if not isinstance(src, SymStr):
        glob = frame() if glob is None else glob
        if not isinstance(src, str):
            glob = runtime(glob)
        return eval(src, glob, loc)
    op = Opaque()
    text = hide_python(op, src)
    if glob is None:
        r = ast.literal_eval(text.strip())
    else:
        r = eval(text, {"__builtins__": {}}, NameSpace(op, glob))
    return op.deep(r)


class OpaqueCode(object):
    def __init__(self, source, filename, mode):
        self.op = Opaque()
        self.code = compile(hide_python(self.op, source), filename, mode, 0, True)


def m_exec(code, glob=None, loc=None, frame=None):
    if isinstance(code, SymStr):
        code = OpaqueCode(code, "<string>", "exec")
    if not isinstance(code, OpaqueCode):
        glob = frame() if glob is None else glob
        return exec(code, runtime(glob), loc)
    space = {} if loc is None else loc
    before = set(space)
    exec(code.code, dict(glob), space)
    for k in list(space):
        if k not in before:
            space[k] = code.op.deep(space[k])
    return None


# ------------------------------------------------------------------------- csv
class SymReader(object):
    """the reader of the csv module, excel dialect (Modules/_csv.c)"""

    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        START_RECORD, START_FIELD, IN_FIELD, IN_Q, Q_IN_Q, EAT = range(6)
        state = START_RECORD
        fields, field = [], []

        def save():
            fields.append(mk_str(tuple(field)))
            del field[:]
        while True:
            try:
                line = next(self.it)
            except StopIteration:
                if field or state == IN_Q:
                    save()
                    return fields
                raise
            for e in elems(line) + (None,):
                while True:
                    if e is None:
                        nl = True
                    else:
                        nl = ENG.fork(elem_in(e, "\r\n"))
                    if state == START_RECORD:
                        if e is None:
                            break
                        if nl:
                            state = EAT
                            break
                        state = START_FIELD
                        continue
                    if state == START_FIELD:
                        if nl:
                            save()
                            state = START_RECORD if e is None else EAT
                        elif ENG.fork(elem_in(e, '"')):
                            state = IN_Q
                        elif ENG.fork(elem_in(e, ",")):
                            save()
                        else:
                            field.append(e)
                            state = IN_FIELD
                    elif state == IN_FIELD:
                        if nl:
                            save()
                            state = START_RECORD if e is None else EAT
                        elif ENG.fork(elem_in(e, ",")):
                            save()
                            state = START_FIELD
                        else:
                            field.append(e)
                    elif state == IN_Q:
                        if e is None:
                            pass
                        elif ENG.fork(elem_in(e, '"')):
                            state = Q_IN_Q
                        else:
                            field.append(e)
                    elif state == Q_IN_Q:
                        if nl:
                            save()
                            state = START_RECORD if e is None else EAT
                        elif ENG.fork(elem_in(e, '"')):
                            field.append(e)
                            state = IN_Q
                        elif ENG.fork(elem_in(e, ",")):
                            save()
                            state = START_FIELD
                        else:
                            field.append(e)
                            state = IN_FIELD
                    elif state == EAT:
                        if e is None:
                            state = START_RECORD
                        elif not nl:
                            raise csv.Error("new-line character seen in unquoted field - do you need to open the file with newline=''?")
                    break
            if state == START_RECORD:
                return fields


def m_reader(it, *a, **k):
    lines = list(it)
    if a or k or not any(isinstance(x, SymStr) for x in lines):
        return csv.reader(lines, *[models.deep_concretise(x, "csv") for x in a], **k)
    return SymReader(lines)


model(csv.reader, m_reader)


# ----------------------------------------------------------------- json, yaml
def m_loads(s, **k):
    if not isinstance(s, SymStr):
        return json.loads(s, **k)
    quoted(s, '"', True)
    op = Opaque()
    return op.deep(json.loads(op.hide(s, "\"\\" + CONTROL), **k))


model(json.loads, m_loads)


def quoted(s, quotes, escapes):
    """every symbolic character is inside of quotes"""
    q = None
    cs = elems(s)
    i = 0
    while i < len(cs):
        e = cs[i]
        if not isinstance(e, int):
            if q is None:
                raise EngineError("symbolic character outside of quotes")
        elif q:
            if e == q:
                q = None
            elif e == 92 and escapes:
                i += 1
        elif chr(e) in quotes:
            q = e
        i += 1

try:
    import yaml
except ImportError:
    yaml = None

if yaml is not None:
    def m_safe_load(s):
        if not isinstance(s, SymStr):
            return yaml.safe_load(s)
        quoted(s, "\"'", True)
        op = Opaque()
        return op.deep(yaml.safe_load(op.hide(s, "\"'\\ " + CONTROL + BREAKS)))
    model(yaml.safe_load, m_safe_load)


# -------------------------------------------------------------------- StringIO
class SymLines(object):
    """StringIO of symbolic text, as far as reading its lines"""

    def __init__(self, s):
        self.s = s

    def __iter__(self):
        cs = self.s.cs
        i = 0
        for j, e in enumerate(cs):
            if ENG.fork(elem_in(e, "\n")):
                yield mk_str(cs[i:j + 1])
                i = j + 1
        if i < len(cs):
            yield mk_str(cs[i:])


def m_StringIO(s="", *a):
    return SymLines(s) if isinstance(s, SymStr) and not a else io.StringIO(s, *a)


model(io.StringIO, m_StringIO)
