"""P23: arguments and tables written in a template arrive as written."""
import builtins
import os
from hlib import *
# instrument: configparser

COVERS = ["text argument", "word argument", "True, False or None", "number argument", "loaded table", "included"]
BOUNDS = {
    "quick": "match, group, input and output functions with 1-2 quoted text arguments of 0-2 arbitrary characters, bare words of 1-3 letters, numbers of 1-2 digits, lists and dictionaries with such texts, positional "
             "and keyword, one and two functions, directly, through chain and functions attributes; tables of 2x2 cells of 0-2 arbitrary characters in csv (quoted and not, line feeds and other line ends in cells, short and long rows, any key column), json, yaml, python and ini form, "
             "loaded as lookup, variables and input parameters" "; cases beyond usual size (9-20 of a kind): many arguments, long ones",
    "thorough": "texts of up to 3 characters, words of 4, tables of 3 rows",
}
NOXML = "<>&{}|\n\r\x0b\x0c\x1c\x85\u2028"


def record(seen):
    def f(data, *args, **kwargs):
        seen.append([list(args), kwargs])
        return data, None
    return f


def call_args(t, where, src):
    """what a function registered for that place is called with"""
    seen = []
    p = ttp(log_level="CRITICAL")
    f = record(seen)
    if where == "output":
        def g(data, *args, **kwargs):
            f(data, *args, **kwargs)
            return data
        p.add_function(g, scope=where, name="fun")
    elif where in ("group", "group functions", "group chain", "input"):
        def g(data, *args, **kwargs):
            f(data, *args, **kwargs)
            return data, None
        p.add_function(g, scope=where.split()[0], name="fun")
    else:
        p.add_function(f, scope="match", name="fun")
    q = src
    if where == "match":
        tpl = "<group name='g'>\na {{ x | fun(" + src + ") }}\n</group>"
    elif where == "match2":
        tpl = "<group name='g'>\na {{ x | upper | fun(" + src + ") | lower }}\n</group>"
    elif where == "chain":
        tpl = "<vars>\nc = [\"upper\", \"fun(" + src + ")\"]\n</vars>\n<group name='g'>\na {{ x | chain('c') }}\n</group>"
    elif where == "group":
        tpl = '<group name="g" fun="' + src + '">\na {{ x }}\n</group>'
    elif where == "group functions":
        tpl = '<group name="g" functions="contains(x) | fun(' + src + ')">\na {{ x }}\n</group>'
    elif where == "group chain":
        tpl = '<vars>\nc = "fun(' + src + ')"\n</vars>\n<group name="g" chain="c">\na {{ x }}\n</group>'
    elif where == "input":
        tpl = '<input name="i" fun="' + src + '"/>\n<group name="g" input="i">\na {{ x }}\n</group>'
    else:
        tpl = '<output fun="' + src + '"/>\n<group name="g">\na {{ x }}\n</group>'
    p.add_template(tpl)
    if where == "input":
        p.add_input("a b\n", input_name="i")
    else:
        p.add_input("a b\n")
    p.parse(one=True)
    t.eq(p.result(), [[{"g": {"x": "b"}}]] if where not in ("match2", "chain") else [[{"g": {"x": "b" if where == "match2" else "B"}}]], "results")
    return seen


def check(t, where, src, args, kwargs):
    t.eq(call_args(t, where, src), [[args, kwargs]], "arguments of " + where)


def quoted(t, where, quote, n):
    """arguments in quotes"""
    s = t.str("s", 0, n, exclude=NOXML + quote + "\\" + ("\"'\t" if where in ("chain", "group chain") else ("\"\t" if where[:5] != "match" else "")))
    t.cover("text argument")
    form = t.choice("form", ["one", "two", "key", "list", "dict"])
    k = quote + s + quote
    if form == "one":
        check(t, where, k, [s], {})
    elif form == "two":
        check(t, where, k + ", 1, " + k, [s, 1, s], {})
    elif form == "key":
        check(t, where, "k=" + k, [], {"k": s})
    elif form == "list":
        check(t, where, "[" + k + ", 2], k2 = [" + k + "]", [[s, 2]], {"k2": [s]})
    else:
        check(t, where, "{'z': " + k + "}", [{"z": s}], {})


PYWORDS = ["and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or",
           "pass", "raise", "return", "try", "while", "with", "yield"]


def word(t, where, n):
    """bare words: texts, but for true, false and none"""
    s = t.str("s", 1, n, alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
    t.assume(not (s in PYWORDS))
    low = s.lower()
    if low == "true":
        v = True
    elif low == "false":
        v = False
    elif low == "none":
        v = None
    else:
        v = s
    t.cover("word argument" if v is s else "True, False or None")
    check(t, where, s + ", k=" + s, [v], {"k": v})


def words(t, where, fixed):
    """words that are names in the library or in Python"""
    check(t, where, fixed, [fixed], {})
    t.cover("word argument")


def number(t, where, n):
    s = t.str("s", 1, n, alphabet="0123456789")
    t.assume(len(s) == 1 or s[0] != "0")
    sign = t.choice("sign", ["", "-"])
    v = int(s)
    t.cover("number argument")
    check(t, where, sign + s + ", n=" + s, [-v if sign else v], {"n": v})


def spaces(t, where):
    """blanks around and within the arguments"""
    s = t.str("s", 1, 1, exclude=NOXML + "'\"\\\t")
    b = t.choice("blank", ["", " ", "  "])
    check(t, where, b + "'" + s + "'" + b + "," + b + "k" + b + "=" + b + "w_1" + b, [s], {"k": "w_1"})


# ------------------------------------------------------------------ tables
def place(where, load, body, extra=""):
    if where == "lookup":
        return '<lookup name="t" load="' + load + '"' + extra + '>\n' + body + '</lookup>\n<group name="g">\na {{ x }}\n</group>'
    if where == "vars":
        return '<vars name="t" load="' + load + '"' + extra + '>\n' + body + '</vars>\n<group name="g">\na {{ x }}\n</group>'
    return '<input name="i" load="' + load + '"' + extra + '>\n' + body + '</input>\n<group name="g">\na {{ x }}\n</group>'


def loaded(t, where, load, body, extra=""):
    p = ttp(template=place(where, load, body, extra), log_level="CRITICAL")
    if where == "lookup":
        return p._templates[0].lookups.get("t")
    if where == "input":
        d = p.get_input_load()
        return d["_root_template_"]["i"]
    p.add_input("a b\n")
    p.parse(one=True)
    return p.result()[0][0].get("t")


def csvcell(t, name, n):
    """a cell and how it is written"""
    s = t.str(name, 0, n, exclude="<>&\r\x0b\x0c\x1c")
    if s.startswith('"') or "," in s or "\n" in s or t.bool(name + "_q"):
        return s, '"' + s.replace('"', '""') + '"'
    return s, s


def csv(t, where, n, rows, key):
    """table of three columns; one of the cells of each row is arbitrary"""
    heads = ["k", "v", "w"]
    body = ",".join(heads) + "\n"
    want = {}
    kc = key or "k"
    for i in range(rows):
        c = t.choice("c%d" % i, heads)
        row, txt = {}, []
        for h in heads:
            if h == c:
                v, w = csvcell(t, "r%d" % i, n)
            else:
                v = w = h + "1"
            row[h] = v
            txt.append(w)
        line = ",".join(txt)
        t.assume(line.strip() != "")
        body = body + line + "\n"
        if t.bool("blank%d" % i):
            body = body + "\n"
        k = row.pop(kc)
        want[k] = row
    t.cover("loaded table")
    t.eq(loaded(t, where, "csv", body, ' key="%s"' % key if key else ""), want, "csv table")


def csv_rows(t, where, key):
    """rows with fewer and more cells than headers"""
    k = t.choice("cells", range(1, 6))
    cells = []
    for i in range(k):
        cells.append(t.str("x%d" % i, 1, 1, exclude="<>&\n\r\x0b\x0c\x1c\","))
    heads = ["k", "v", "w"]
    body = "k,v,w\nm,n,o\n" + ",".join(cells) + "\n"
    kc = heads.index(key or "k")
    want = {}
    for row in (["m", "n", "o"], cells):
        if kc >= len(row):
            continue
        d = {}
        for h, v in zip(heads, row):
            d[h] = v
        want[d.pop(key or "k")] = d
    t.cover("loaded table")
    t.eq(loaded(t, where, "csv", body, ' key="%s"' % key if key else ""), want, "csv table")


def quoted_table(t, where, load, n):
    """json, yaml and python dictionaries"""
    q = t.choice("quote", ['"'] if load == "json" else ['"', "'"])
    ex = "<>&\n\r\x0b\x0c\x1c\x85\u2028\\\t\"'"
    a = t.str("a", 0, n, exclude=ex)
    k = t.str("k", 1, n, exclude=ex)
    if load == "yaml":
        body = "m:\n  " + q + k + q + ": " + q + a + q + "\n  l: [" + q + a + q + ", 2]\nz: true\n"
    else:
        body = "{" + q + "m" + q + ": {" + q + k + q + ": " + q + a + q + ", " + q + "l" + q + ": [" + q + a + q + ", 2]}, " + q + "z" + q + ": " + ("true" if load == "json" else "True") + "}\n"
    t.assume(k != "l")
    if load == "yaml":
        t.assume(a.strip() == a)
    t.cover("loaded table")
    t.eq(loaded(t, where, load, body), {"m": {k: a, "l": [a, 2]}, "z": True}, load + " table")


def assignments(t, where, n):
    """python variables"""
    ex = "<>&\n\r\x0b\x0c\x1c\x85\u2028\\\t\"'"
    a = t.str("a", 0, n, exclude=ex)
    b = t.str("b", 0, n, exclude=ex)
    t.cover("loaded table")
    t.eq(loaded(t, where, "python", "a = '" + a + "'\nb = ['" + b + "', 1, None]\nc = {'" + b + "': True}\n"), {"a": a, "b": [b, 1, None], "c": {b: True}}, "python variables")


def ini(t, where, n):
    ex = "<>&\n\r\x0b\x0c\x1c\x85\u2028%\xa0"
    v = t.str("v", 0, n, exclude=ex)
    k = t.str("k", 1, n, exclude=ex + "=:#;[]")
    t.assume(k.strip() == k and v.strip() == v)
    t.assume(k != "o")
    sep = t.choice("sep", ["=", " = ", ":"])
    t.cover("loaded table")
    t.eq(loaded(t, where, "ini", "[S]\n" + k + sep + v + "\no = 1\n[T]\no = " + v + "\n"), {"S": {k: v, "o": "1"}, "T": {"o": v}}, "ini table")


def empty(t, where, load):
    """a tag with nothing in it, or blanks only, loads nothing"""
    body = t.str("b", 0, 2, alphabet=" \t") if load in ("python", "csv", "ini") else ""
    t.check(not loaded(t, where, load, body), "nothing is loaded")


DIR = "/virtual-include-dir"
FILES = {}
_isf, _isd, _ls, _open = os.path.isfile, os.path.isdir, os.listdir, builtins.open


class _File(object):
    def __init__(self, s):
        self.s = s

    def read(self, *a):
        return self.s

    def __iter__(self):
        return iter([x + "\n" for x in self.s.split("\n")])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _virtual(p):
    return isinstance(p, str) and p[: len(DIR)] == DIR


os.path.isfile = lambda p: (p[len(DIR) + 1:] in FILES) if _virtual(p) else _isf(p)
os.path.isdir = lambda p: p == DIR if _virtual(p) else _isd(p)
os.listdir = lambda p: list(FILES) if _virtual(p) else _ls(p)
builtins.open = lambda p, *a, **k: _File(FILES[p[len(DIR) + 1:]]) if _virtual(p) else _open(p, *a, **k)


def included(t, where, load, src, n):
    """the table of an included file, or of the files of a directory, joined with what is written in the tag"""
    FILES.clear()
    ex = "<>&\n\r\x0b\x0c\x1c\x85\u2028\\\t\"',%\xa0#;:=[]{}"
    a, b, c = t.str("a", 1, n, exclude=ex), t.str("b", 1, n, exclude=ex), t.str("c", 1, n, exclude=ex)
    for x in (a, b, c):
        t.assume(x.strip() == x)
    own = t.bool("own")                 # written in the tag as well
    two = src == "dir"
    if load == "csv":
        parts = ["k,v\nka," + a, "kb," + b, "kc," + c]
        want = {"ka": {"v": a}}
        more = [("kb", {"v": b}), ("kc", {"v": c})]
        body = parts.pop(0) + "\n" if own else ""
        files = parts
    elif load == "python":
        # a name given twice: the included file is read after the tag
        files = ["q = '" + a + "'", "r = ['" + b + "']"]
        body = "s = '" + c + "'\nq = 'own'\n" if own else ""
    elif load == "yaml":
        files = ["q: '" + a + "'", "r: ['" + b + "']"]
        body = "s: '" + c + "'\n" if own else ""
    elif load == "json":
        t.assume(not own and not two)
        files = ['{"q": "' + a + '"}']
        body = ""
    else:
        # ini: the tag is read after the files and is more specific
        files = ["[S]\nq = " + a + "\nw = 1", "[R]\nr = " + b]
        body = "[S]\nq = " + c + "\n[T]\nt = 2\n" if own else ""
    files = files[:2 if two else 1]
    for i, f in enumerate(files):
        FILES["f%d.txt" % i] = f
    if load == "csv":
        want = {}
        cells = [("ka", a), ("kb", b), ("kc", c)]
        for k, v in cells[:len(files) + (1 if own else 0)]:
            want[k] = {"v": v}
    elif load == "json":
        want = {"q": a}
    elif load == "ini":
        want = {"S": {"q": c if own else a, "w": "1"}}
        if own:
            want["T"] = {"t": "2"}
        if two:
            want["R"] = {"r": b}
    else:
        want = {"q": a}
        if two:
            want["r"] = [b]
        if own:
            want["s"] = c
    t.cover("included")
    extra = ' include="' + DIR + ("" if two else "/f0.txt") + '"'
    if body == "" and t.bool("closed"):
        tpl = place(where, load, "", extra)
        i = tpl.index(">\n</")
        tpl = tpl[:i] + ">" + tpl[i + 2:]
    else:
        tpl = place(where, load, body, extra)
    p = ttp(template=tpl, log_level="CRITICAL")
    if where == "lookup":
        got = p._templates[0].lookups.get("t")
    else:
        p.add_input("a b\n")
        p.parse(one=True)
        got = p.result()[0][0].get("t")
    t.eq(got, want, load + " table of a file")


def plain(t, n):
    """load='text' is the text"""
    s = t.str("s", 1, n, exclude="<>&\r\x0b\x0c\x1c")
    p = ttp(template='<input name="i" load="text">' + s + '</input>\n<group name="g">\na {{ x }}\n</group>', log_level="CRITICAL")
    t.eq(p._templates[0].inputs["i"].data, [("text_data", s)], "text of the input")


WHERE = ["match", "match2", "chain", "group", "group functions", "group chain", "input", "output"]


def large(t, where, kind):
    """many arguments, long ones"""
    s = t.str("s", 0, 2, exclude=NOXML + "'\"\\\t")
    if kind == "args":
        args = ["a%d" % i for i in range(14)]
        args[11] = s
        check(t, where, ", ".join("'" + a + "'" for a in args) + ", 5, True", args + [5, True], {})
    elif kind == "kwargs":
        kw = {"k%s" % c: "a%s" % c for c in "abcdefghijklmn"}
        kw["kk"] = s
        check(t, where, ", ".join(k + "='" + a + "'" for k, a in kw.items()), [], kw)
    else:
        check(t, where, "'" + "long text (with) [brackets], " * 20 + s + "', k='" + s + " = , " * 20 + "'", ["long text (with) [brackets], " * 20 + s], {"k": s + " = , " * 20})


def jobs(tier):
    th = tier == "thorough"
    out = []
    for w in WHERE:
        main = w in ("match", "group", "input", "output")
        if w != "chain":
            out.append(("quoted", (w, "'", 2 if main else 1)))
        if w[:5] == "match" or w == "chain" and 0:
            out.append(("quoted", (w, '"', 2)))
        out.append(("word", (w, 2 + (w == "match") + th)))
        out.append(("word", (w, 5)))
        for f in ("re", "log", "sys", "traceback", "logging", "get_attributes", "args", "kwargs", "str", "len", "print", "item", "line", "options", "__name__", "self", "match", "Vlan10", "_x"):
            out.append(("words", (w, f)))
        out.append(("number", (w, 2)))
        if w not in ("chain",):
            out.append(("spaces", (w,)))
    for w in ("lookup", "vars", "input"):
        for key in (None, "v", "w"):
            out.append(("csv", (w, 2 if w == "lookup" else 1, 1, key)))
            out.append(("csv_rows", (w, key)))
        if w == "lookup" or th:
            out.append(("csv", (w, 1, 2, None)))
        for l in ("json", "yaml", "python"):
            out.append(("quoted_table", (w, l, 2)))
        for l in ("json", "yaml", "python", "csv", "ini"):
            if w != "input":
                out.append(("empty", (w, l)))
        out.append(("assignments", (w, 2)))
        out.append(("ini", (w, 2)))
    out.append(("plain", (3,)))
    for w in ("lookup", "vars"):
        for l in ("csv", "python", "yaml", "json", "ini"):
            out.append(("included", (w, l, "file", 1 + th)))
            if l != "json":
                out.append(("included", (w, l, "dir", 1)))
    out += [("large", (w, k)) for w in ("match", "group", "input", "output") for k in ("args", "kwargs", "long")]
    out = [(f, tuple(p)) for f, p in out]
    return named(globals(), out)
