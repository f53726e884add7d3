"""P18: outputs transform results as documented and change nothing else."""
from hlib import *
import builtins
import json
import json.encoder
import sys
import types
# instrument: json.encoder

# the C accelerator of the json encoder gives way to its Python form
json.encoder.c_make_encoder = None
json.encoder.encode_basestring_ascii = json.encoder.py_encode_basestring_ascii
json.encoder.encode_basestring = json.encoder.py_encode_basestring
json.JSONEncoder = json.encoder.JSONEncoder
json._default_encoder = json.encoder.JSONEncoder()

COVERS = ["traversed", "path absent", "flattened", "not flattened", "equal", "not equal", "table", "cell missing", "cell from key", "csv", "quote in cell", "json", "file written", "printed",
          "returned as is", "condition met", "condition not met", "macro result", "macro without result", "group output", "tabulate", "excel", "jinja2", "deepdiff", "validate", "sent"]
BOUNDS = {
    "quick": "result data of 22 shapes (lists and dictionaries up to 4 deep, 0-3 records, fields present or absent, arbitrary keys of 1-2 characters, arbitrary values of up to 2 characters); traverse, dict_to_list, is_equal, macro, chains; "
             "table, csv, json, raw; tabulate, excel, jinja2, deepdiff, validate and syslog up to the call of the library; self, file and terminal returners; conditions; several outputs; outputs of groups; outputs given to result()" "; cases beyond usual size (9-20 of a kind): many columns and rows",
    "thorough": "values of up to 3 characters, one more record",
}
ASSUMPTIONS = ["tabulate, openpyxl, jinja2, deepdiff, cerberus and the syslog handler are replaced by stand-ins that record what they are given and answer with it; files and the terminal are virtual; "
               "yaml is checked up to the call of its dump function"]
NL = "\n"


# ------------------------------------------------------------- stand-ins
class Rec(object):
    """what a library was given"""
    log = []


def _mod(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items():
        setattr(m, k, v)
    sys.modules[name] = m
    return m


def _tabulate(table, headers=(), *a, **k):
    return ("tabulate", table, headers, a, k)


class _Sheet(object):
    def __init__(self, title, rows=None):
        self.title = title
        self.rows = rows or []

    def append(self, row):
        self.rows.append(list(row))


class _Workbook(object):
    worksheets = True

    def __init__(self, write_only=False, sheets=None):
        self.sheets = sheets or []
        self.saved = []

    def create_sheet(self, title=None):
        self.sheets.append(_Sheet(title))
        return self.sheets[-1]

    def __contains__(self, title):
        for s in self.sheets:
            if s.title == title:
                return True
        return False

    def __getitem__(self, title):
        for s in self.sheets:
            if s.title == title:
                return s
        raise KeyError(title)

    def save(self, path):
        self.saved.append(path)
        Rec.log.append(("saved", path, [(s.title, s.rows) for s in self.sheets]))


def _load_workbook(path):
    return Rec.workbook


class _Tmpl(object):
    def __init__(self, text):
        self.text = text

    def render(self, **kw):
        return ("jinja2", self.text, kw)


class _Env(object):
    def __init__(self, **kw):
        pass

    def from_string(self, text):
        return _Tmpl(text)


def _deepdiff(before, after, **kw):
    return ("diff", before, after, kw)


class _Validator(object):
    allow_unknown = None
    errors = None

    def validate(self, document, schema):
        document = copied(document)
        self.errors = ("errors", document)
        return ("valid", document, schema, self.allow_unknown)


_mod("tabulate", tabulate=_tabulate)
_mod("openpyxl", Workbook=_Workbook, load_workbook=_load_workbook)
_mod("jinja2", Environment=_Env)
_mod("deepdiff", DeepDiff=_deepdiff)
_mod("cerberus", Validator=_Validator)
_yaml = _mod("yaml", dump=lambda data, **kw: ("yaml", data, kw), safe_load=None)

_exists, _mkdir, _open = os.path.exists, os.mkdir, builtins.open


class _VFile(object):
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, text):
        FS[self.path] = FS.get(self.path, "") + text


FS = {}
DIRS = []


def _vexists(p):
    return p in DIRS or p in FS if isinstance(p, str) and p.startswith("/virtual") else _exists(p)


def _vmkdir(p, *a):
    if isinstance(p, str) and p.startswith("/virtual"):
        DIRS.append(p)
    elif isinstance(p, str) and not p.startswith("/"):
        raise OSError(p)
    else:
        _mkdir(p, *a)


def _vopen(p, mode="r", *a, **k):
    if isinstance(p, str) and p.startswith("/virtual"):
        if "w" in mode:
            FS[p] = ""
        return _VFile(p)
    return _open(p, mode, *a, **k)


os.path.exists = _vexists
os.mkdir = _vmkdir
builtins.open = _vopen


# ------------------------------------------------------------------ data
def copied(x):
    if isinstance(x, list):
        return [copied(i) for i in x]
    if isinstance(x, tuple):
        return tuple([copied(i) for i in x])
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    return x


class Gen(object):
    def __init__(self, t, hi=2, excl="", lo=0, keys=None, alpha=None):
        self.keys, self.alpha = keys, alpha
        self.t, self.hi, self.n, self.excl, self.lo = t, hi, 0, excl, lo

    def value(self):
        self.n += 1
        return self.t.str("v%d" % self.n, self.lo, self.hi, alphabet=self.alpha, exclude=self.excl)

    def key(self):
        self.n += 1
        if self.keys:
            return self.t.char("k%d" % self.n, alphabet=self.keys)
        return self.t.str("k%d" % self.n, 1, 2)

    def make(self, shape):
        """'V' arbitrary value; key 'K..' arbitrary key; key '?x' present or not; [shape, n] list of up to n"""
        if shape == "V":
            return self.value()
        if isinstance(shape, list):
            return [self.make(s) for s in shape]
        if isinstance(shape, dict):
            out = {}
            for k, s in shape.items():
                if k.startswith("?"):
                    self.n += 1
                    if not self.t.bool("p%d" % self.n):
                        continue
                    k = k[1:]
                if k.startswith("K"):
                    k = self.key()
                    for o in out:
                        self.t.assume(k != o)
                out[k] = self.make(s)
            return out
        return shape


def parser(data, tmpl, macro=None, **kw):
    """parser whose results are data"""
    p = mk("", **kw) if False else __import__("ttp").ttp(log_level="CRITICAL", **kw)
    p.add_function(lambda d: data, scope="output", name="give")
    p.add_template("<input load='text'>\nzz\n</input>\n<group name='g'>\nx {{ x }}\n</group>\n" + tmpl)
    return p


def through(data, attrs, body="", **kw):
    """data through one output tag"""
    p = parser(data, "<output functions=\"give%s\"%s>%s</output>" % (kw.pop("fn", ""), attrs, body), **kw)
    p.parse(one=True)
    return p.result()


# -------------------------------------------------------------- functions
def r_traverse(data, path, strict):
    if isinstance(data, list):
        return [r_traverse(i, path, strict) for i in data]
    if isinstance(data, dict):
        for k in path:
            if k in data:
                data = data[k]
            elif strict:
                raise KeyError(k)
            else:
                data = {}
    return data


TRAV = [
    ({"?a": {"?b": {"K": "V"}}}, "a.b"), ([{"?a": {"b": ["V", "V"]}}, {"a": {"?b": "V"}}], "a.b"), ([[{"a": "V"}, {"?a": "V"}], {"a": ["V"]}], "a"),
    ({"a": {"b": {"c": {"?d": "V"}}}}, "a.b.c.d"), ({"a": "V"}, " a "), ([], "a"), ({}, "a.b"), ([{"a": {"b": {}}}, {"a": {"b": []}}], "a.b"), ([{"?a": {"b": "V"}}] * 3, "a.b"),
]


def traversal(t, i, style):
    shape, path = TRAV[i]
    data = Gen(t).make(shape)
    keep = copied(data)
    strict = t.choice("strict", ["default", True, False])
    kws = "" if strict == "default" else ", strict=%s" % strict
    if style == "attr":
        p = parser(data, "<output functions='give'/><output traverse=\"path='%s'%s\"/>" % (path, kws))
    else:
        p = parser(data, "<output functions=\"give | traverse('%s'%s)\"/>" % (path, kws))
    try:
        want = r_traverse(keep, [k.strip() for k in path.split(".")], strict is not False)
    except KeyError:
        t.cover("path absent")
        try:
            p.parse(one=True)
        except KeyError:
            return
        t.check(False, "no KeyError for an absent path")
        return
    p.parse(one=True)
    t.cover("traversed")
    t.eq(copied(p.result()), [want], "traverse %s" % path)
    t.eq(data, keep, "results changed by traverse")


FLAT = [
    ({"K1": {"a": "V"}, "K2": {"?b": "V"}}, ""), ({"K1": {"a": "V", "n": "V"}}, ""), ([{"K1": {"a": "V"}}, {"K2": {}, "K3": {"?a": "V"}}], ""), ({"p": {"q": {"K1": {"a": "V"}, "K2": {"a": "V"}}}}, "p.q"),
    ([{"p": {"K1": {"a": "V"}}}, {"p": {"K1": {"?a": "V"}, "K2": {"b": ["V"]}}}], "p"), ({"K1": "V", "K2": {"a": "V"}}, ""), ({"K2": {"a": "V"}, "K1": "V"}, ""), ({}, ""), ([], ""),
    ([{"p": {}}, {"p": {"K1": {}}}], "p"), ({"K1": ["V"]}, ""), ([[{"K1": {"a": "V"}}]], ""), ({"K1": {"K2": {"a": "V"}}}, ""),
]


def r_flat(data, key, path):
    if path:
        data = r_traverse(data, path.split("."), False)
    if isinstance(data, list):
        return [r_flat(i, key, "") for i in data]
    if isinstance(data, dict):
        out = []
        for k, v in data.items():
            if not isinstance(v, dict):
                return data
            out.append(dict(list(v.items()) + [(key, k)]))
        return out
    return data


def flattening(t, i, style):
    shape, path = FLAT[i]
    data = Gen(t, 1).make(shape)
    keep = copied(data)
    name = t.choice("name", ["n", "default"])
    args = [] if name == "default" else ["key_name='n'"]
    if path:
        args.append("path='%s'" % path)
    if not args and style == "attr":
        args = ["key_name='key'"]
    want = copied(r_flat(copied(keep), "key" if name == "default" else name, path))
    if style == "attr":
        p = parser(data, "<output functions='give'/><output dict_to_list=\"%s\"/>" % ", ".join(args))
    elif args:
        p = parser(data, "<output functions=\"give | dict_to_list(%s)\"/>" % ", ".join(args))
    else:
        p = parser(data, "<output functions=\"give | dict_to_list\"/>")
    p.parse(one=True)
    got = copied(p.result())
    t.cover("not flattened" if want == keep and keep else "flattened")
    t.eq(got, [want], "dict_to_list of %s" % (shape,))
    t.eq(data, keep, "results changed by dict_to_list")


EQ = [([{"a": "V"}], '[{"a": "x1"}]'), ({"a": "V", "?b": "V"}, '{"a": "x", "b": "y"}'), ([["V", "V"]], '[["x", "y"]]'), ([{"a": ["V"], "?c": {}}], '[{"a": ["q"]}]'),
      ({"_anonymous_": [{"a": "V"}]}, '[{"a": "x"}]'), ([{"a": "V"}, {"?a": "V"}], '[{"a": "x"}, {}]'), ({"b": "V", "a": "V"}, '{"a": "x", "b": "y"}'),
      ([{"a": "V"}, {"a": "V"}], '[{"a": "x"}]'), ([{"a": "V"}], '[{"a": "x"}, {"a": "y"}]'), ([["V"]], '[["x"], ["y"]]'), ({"_anonymous_": [{"a": "V"}, {"a": "V"}]}, '[{"a": "x"}]'), ({"a": {"b": "V", "?c": "V"}}, '{"a": {"b": "x"}}')]


def equality(t, i, load):
    shape, text_ = EQ[i]
    data = Gen(t, 2).make(shape)
    keep = copied(data)
    want = json.loads(text_)
    same = keep == want or (isinstance(keep, dict) and "_anonymous_" in keep and keep["_anonymous_"] == want)
    desc = t.bool("desc")
    got = through(data, " load='%s' name='out 1'%s" % (load, " description='about it'" if desc else ""), text_, fn=" | is_equal")
    t.cover("equal" if same else "not equal")
    t.eq(got, [{"is_equal": True if same else False, "output_name": "out 1", "output_description": "about it" if desc else "None"}], "is_equal")
    t.eq(data, keep, "results changed by is_equal")


# ------------------------------------------------------------- formatters
def r_table(data, path="", missing="", key="", strict=True, headers=None):
    src = data if isinstance(data, list) else [data]
    rows = []
    for d in src:
        if path:
            d = r_traverse(d, path.split("."), strict)
        if isinstance(d, list):
            rows += d
        elif d:
            if key:
                rows += [dict(list(v.items()) + [(key, k)]) for k, v in d.items()]
            else:
                rows.append(d)
    if not headers:
        names = []
        for r in rows:
            for k in r:
                if k not in names:
                    names.append(k)
        headers = sorted(names)
    return [list(headers)] + [[r[h] if h in r else missing for h in headers] for r in rows]


TAB = [
    # shape, path, key, headers
    ([{"?a": "V", "b": "V"}, {"?a": "V", "?c": "V"}], "", "", None), ([[{"?a": "V"}, {"b": "V"}], {"a": "V"}], "", "", None), ({"a": "V", "?b": "V"}, "", "", ["b", "z", "a"]),
    ([{"p": [{"?a": "V"}, {"b": "V"}]}, {"p": {"a": "V"}}], "p", "", None), ([{"p": {"K1": {"?a": "V"}, "K2": {"b": "V"}}}], "p", "n", ["n", "a", "b"]), ([{"p": {"K1": {"a": "V"}}}, {"?p": {"K2": {"a": "V"}}}], "p", "n", None),
    ([{"p": {"q": [{"a": "V", "l": ["V"]}]}}], "p.q", "", ["l", "a"]), ([], "", "", None), ([{}], "", "", ["a"]), ([[], {"a": "V"}], "", "", None), ({"K1": {"a": "V", "n": "V"}}, "", "n", ["n"]),
    ([{"a": "V"}] * 3, "", "", None), ([{"?p": {"a": "V"}}, {"p": {}}, {"p": []}], "p", "", ["a"]), ([{"a": "V", "b": {"c": "V"}}], "", "", None),
]


def tables(t, i, fmt, how, hi):
    shape, path, key, headers = TAB[i]
    data = Gen(t, hi).make(shape)
    keep = copied(data)
    kw = {}
    if path:
        kw["path"] = path
    if key:
        kw["key"] = key
    if headers:
        kw["headers"] = ", ".join(headers) if how == "tag" or i % 2 else headers
    missing = t.choice("missing", [None, "-", "a b"])
    if missing:
        kw["missing"] = missing
    strict = True
    if "?p" in repr(shape):
        strict = t.choice("strict", [True, False])
    if how == "tag":
        if strict is False:
            # written in the tag text: attributes of a tag are text
            p = parser(data, "<output load='python'>\nfunctions = 'give'\nformat = '%s'\nstrict = False\n%s\n</output>" % (fmt, NL.join("%s = %r" % x for x in kw.items())))
        else:
            p = parser(data, "<output functions='give' format='%s' %s/>" % (fmt, " ".join("%s='%s'" % x for x in kw.items())))
    else:
        p = parser(data, "")
        if strict is False:
            kw["strict"] = False
    try:
        want = r_table(keep, path, missing or "", key, strict, headers)
    except KeyError:
        t.cover("path absent")
        try:
            p.parse(one=True)
            p.result(format=fmt, functions="give", **kw) if how == "call" else None
        except KeyError:
            return
        t.check(False, "no KeyError for an absent path")
        return
    p.parse(one=True)
    got = copied(p.result()) if how == "tag" else copied(p.result(format=fmt, functions="give", **kw))
    t.cover("table")
    if [1 for r in want[1:] if missing and missing in r]:
        t.cover("cell missing")
    if key:
        t.cover("cell from key")
    if fmt == "table":
        t.eq(got, [want], "table of %s" % (shape,))
    else:
        t.cover("tabulate")
        t.eq(got, [("tabulate", want[1:], want[0], (), {})], "tabulate of %s" % (shape,))
    t.eq(data, keep, "results changed by %s" % fmt)


def cell(t, v, quote):
    v = str(v) if not isinstance(v, str) else v
    if quote and quote in v:
        t.cover("quote in cell")
        v = v.replace(quote, quote + quote)
    return quote + v + quote


def csvs(t, i, how, hi):
    shape, path, key, headers = TAB[i]
    data = Gen(t, hi).make(shape)
    keep = copied(data)
    kw = {}
    sep, quote, missing = t.choice("opts", [(None, None, None), (";", "'", "-"), ("||", "", None), ("%s", None, "{}")])
    for n, v in (("path", path), ("key", key), ("headers", ", ".join(headers or [])), ("sep", sep), ("quote", quote)):
        if v or (n == "quote" and v is not None):
            kw[n] = v
    if missing:
        kw["missing"] = missing
    want = r_table(keep, path, missing or "", key, False, headers)
    q = '"' if quote is None else quote
    txt = NL.join([(sep or ",").join([cell(t, v, q) for v in row]) for row in want])
    if how == "tag":
        p = parser(data, "<output load='python'>\nfunctions = 'give'\nformat = 'csv'\nstrict = False\n%s\n</output>" % NL.join("%s = %r" % x for x in kw.items()))
        p.parse(one=True)
        got = p.result()
    else:
        p = parser(data, "")
        p.parse(one=True)
        got = p.result(format="csv", functions="give", strict=False, **kw)
    t.cover("csv")
    t.eq(got, [txt], "csv of %s" % (shape,))
    t.eq(data, keep, "results changed by csv")


ESC = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\x08": "\\b", "\x0c": "\\f"}


def r_str(t, s):
    out = '"'
    for c in s:
        if c in ESC:
            out = out + ESC[t.pick(c)]
        elif " " <= c and c <= "~":
            out = out + c
        else:
            out = out + "\\u%04x" % ord(t.pick(c))
    return out + '"'


def r_json(t, x, ind):
    pad = "    " * (ind + 1)
    if isinstance(x, str):
        return r_str(t, x)
    if isinstance(x, list):
        if not x:
            return "[]"
        return "[\n" + ",\n".join([pad + r_json(t, i, ind + 1) for i in x]) + NL + "    " * ind + "]"
    if not x:
        return "{}"
    return "{\n" + ",\n".join([pad + r_str(t, k) + ": " + r_json(t, x[k], ind + 1) for k in sorted(x)]) + NL + "    " * ind + "}"


ODD = 'ab"\\\n\u0663'
SHAPES = [{"b": "V", "?a": ["V", {}]}, [[{"a": "V"}, []], {}], {"K1": "V", "K2": {"c": "V"}}, [], {}]


def dumped(t, i, fmt, how, hi):
    data = Gen(t, hi, keys=ODD if fmt == "json" else None, alpha=ODD if fmt == "json" and i == 2 else None).make(SHAPES[i])
    keep = copied(data)
    if how == "tag":
        got = through(data, " format='%s'" % fmt)
    else:
        p = parser(data, "")
        p.parse(one=True)
        got = p.result(format=fmt, functions="give")
    if fmt == "json":
        t.cover("json")
        t.eq(got, [r_json(t, keep, 0)], "json")
    elif fmt == "yaml":
        t.check(got[0][0] == "yaml", "yaml not dumped")
        t.eq(got[0][1], keep, "yaml of other data")
        t.eq(got[0][2], {"default_flow_style": False}, "yaml options")
    else:
        t.eq(got, [keep], "raw")
    t.eq(data, keep, "results changed by %s" % fmt)


def excels(t, ntabs, named, update, times):
    data = [{"p": {"K1": "", "x": ""}, "q": []}]
    g = Gen(t, 1)
    data = g.make([{"p": [{"a": "V", "?b": "V"}], "q": {"K1": {"a": "V"}}}])
    keep = copied(data)
    tabs, want = [], []
    for n in range(ntabs):
        tab = [{"path": "p", "headers": "b, a", "missing": "-"}, {"path": "q", "key": "n"}, {}][(n + (named == "some")) % 3]
        tab = dict(tab)
        title = "Sheet%d" % n
        if named and not (named == "some" and n):
            title = "tab %d" % n
            tab["tab_name"] = title
        tabs.append(tab)
        if tab.get("path"):
            rows = r_table(keep, tab["path"], tab.get("missing", ""), tab.get("key", ""), True, ["b", "a"] if "headers" in tab else None)
        else:
            rows = r_table(keep, "", "", "", True, None)
        want.append((title, rows))
    FS.clear()
    del DIRS[:]
    del Rec.log[:]
    DIRS.append("/virtual/d")
    if update:
        FS["/virtual/d/o.xlsx"] = ""
        Rec.workbook = _Workbook(sheets=[_Sheet("old", [["k"]]), _Sheet("tab 0", [["a", "b"], ["1", "2"]])])
    fname = t.choice("name", ["o", "o.xlsx"])
    p = parser(data, "<output load='python'>\nfunctions = 'give'\nformat = 'excel'\nreturner = 'file'\nfilename = '%s'\nurl = '/virtual/d'\nupdate = %s\ntable = %r\n</output>" % (fname, update, tabs))
    for r in range(times):
        p.parse(one=True)
        p.clear_result()
    t.cover("excel")
    exp = [["old", [["k"]]], ["tab 0", [["a", "b"], ["1", "2"]]]] if update else []
    t.check(len(Rec.log) == times, "workbook not saved once for each run")
    for r in range(times):
        if not update:
            exp = []
        for title, rows in want:
            for e in exp:
                if e[0] == title and update:
                    e[1] += rows[1:]
                    break
            else:
                exp.append([title, list(rows)])
        kind, path, sheets = Rec.log[r]
        t.eq(path, "/virtual/d/o.xlsx", "file of the workbook")
        if r == times - 1 or not update:
            t.eq(copied(sheets), [tuple(e) for e in exp], "sheets")
    t.eq(data, keep, "results changed by excel")


FORMATS = [("tablefmt='fancy_grid'", {"tablefmt": "fancy_grid"}), ("numalign='left', tablefmt='grid', missingval='a, b = c'", {"numalign": "left", "tablefmt": "grid", "missingval": "a, b = c"}),
           ("showindex=True, colalign=('left', 'right')", {"showindex": True, "colalign": ("left", "right")}), (None, {})]


def tabulated(t, where):
    """attributes for tabulate are those of the output at work"""
    data = Gen(t, 1).make([{"a": "V", "b": "V"}])
    keep = copied(data)
    n = t.choice("outputs", [1, 2])
    src, want = "", []
    for i in range(n):
        text, kw = t.choice("attributes%d" % i, FORMATS)
        head = t.choice("headers%d" % i, ["", "b, a"])
        rows = r_table(keep, headers=head.split(", ") if head else None)
        want.append(("tabulate", rows[1:], rows[0], (), kw))
        if where == "tag":
            src += '<output functions="give" name="o%d" format="tabulate" %s %s/>\n' % (i, 'headers="%s"' % head if head else "", 'format_attributes="%s"' % text if text else "")
        else:
            src += '<output name="o%d" load="python">\nfunctions = "give"\nformat = "tabulate"\n%s%s</output>\n' % (
                i, "headers = %r\n" % head if head else "", "format_attributes = %r\n" % text if text else "")
    p = parser(data, src)
    p.parse(one=True)
    t.cover("tabulate")
    # each output gets the results and not what the one before made of them: the function gives them anew
    t.eq(copied(p.result()), [want[-1]], "tabulate with attributes")
    t.eq(data, keep, "results changed by tabulate")


def excel_strict(t):
    """tabs of paths that are not in the results: each tab has its own strict and other options"""
    data = Gen(t, 1).make([{"p": [{"a": "V"}]}])
    keep = copied(data)
    tabs, want = [], []
    bad = False
    for n in range(2):
        strict = t.choice("strict%d" % n, [None, True, False])
        path = t.choice("path%d" % n, ["p", "z"])
        tab = {"path": path, "headers": "a, z", "missing": "-%d" % n}
        if strict is not None:
            tab["strict"] = strict
        tabs.append(tab)
        bad = bad or (path == "z" and strict is not False)
        if not bad:
            want.append(("Sheet%d" % n, r_table(keep, path, "-%d" % n, "", False, ["a", "z"])))
    FS.clear()
    del DIRS[:]
    del Rec.log[:]
    DIRS.append("/virtual/d")
    p = parser(data, "<output load='python'>\nfunctions = 'give'\nformat = 'excel'\nreturner = 'file'\nfilename = 'o'\nurl = '/virtual/d'\ntable = %r\n</output>" % (tabs,))
    try:
        p.parse(one=True)
    except KeyError:
        t.check(bad, "KeyError for a path that is not strict")
        return
    t.check(not bad, "no KeyError for an absent path")
    t.check(len(Rec.log) == 1, "workbook saved once")
    t.eq(copied(Rec.log[0][2]), want, "sheets")
    t.cover("excel")


def jinjas(t, group):
    v, w = t.str("v", 1, 2, exclude=NONSPACE_EXCL), t.str("w", 1, 2, exclude=NONSPACE_EXCL)
    txt = "\n{% for i in _data_ %}\n{{ i }}\n{% endfor %}\n"
    p = mk("<group name='g*'%s>\nx {{ x }}\n</group>\n<output name='j' format='jinja2'>%s</output>" % (" output='j'" if group else "", txt), "x " + v + "\nx " + w + NL)
    p.parse(one=True)
    t.cover("jinja2")
    res = {"g": [{"x": v}, {"x": w}]}
    if group:
        t.eq(p.result(), [[[("jinja2", txt, {"_data_": res})]]], "jinja2 of a group")
    else:
        t.eq(p.result(), [("jinja2", txt, {"_data_": [res]})], "jinja2")


def diffs(t, src, add, mode, nafter, others):
    """inputs before, other, after; template before; variable"""
    v = [t.str("v%d" % i, 1, 2, exclude=NONSPACE_EXCL) for i in range(3 + nafter)]
    grp = "<group name='g*'>\nx {{ x }}\n</group>\n"
    opts = []
    if add:
        opts.append("add_field=d")
    if mode:
        opts.append("mode=%s" % mode)
    if others:
        opts.append("ignore_order=False")
    named = lambda n: "input_after=%s" % n
    R = lambda x: {"g": [{"x": x}]}
    if src == "input":
        body = grp + "<output deepdiff=\"%s\"/>" % ", ".join([t.choice("form", ["b, a", "input_before=b, input_after=a"])] + opts)
    elif src == "input only":
        body = grp + "<output deepdiff=\"%s\"/>" % ", ".join(["input_before=b"] + opts)
    elif src == "var":
        body = "<vars>\nold = [{'g': [{'x': '1'}]}]\n</vars>\n" + grp + "<output deepdiff=\"%s\"/>" % ", ".join(["var_before=old"] + (["input_after=a"] if others else []) + opts)
    else:
        body = grp + "<output deepdiff=\"%s\"/>" % ", ".join(["template_before=tb"] + (["input_after=a"] if others else []) + opts)
    if src == "template":
        p = mk("<template name='tb'>\n" + grp + "</template>\n<template name='ta'>\n" + body + "</template>")
        p.add_input("x " + v[0] + NL, template_name="tb")
        tname = {"template_name": "ta"}
    else:
        p = mk(body)
        tname = {}
    order = t.choice("order", [["b", "o", "a"], ["a", "b", "o"], ["o", "a", "b"]])
    res, after, before = [], [], []
    for n in order:
        if n == "o":
            p.add_input("x " + v[1] + NL, input_name="o", **tname)
            res.append(R(v[1]))
        elif n == "b":
            p.add_input("x " + v[2] + NL, input_name="b", **tname)
            res.append(R(v[2]))
            before.append(R(v[2]))
        else:
            for i in range(nafter):
                t.assume(v[3] != v[3 + i] if i else True)
                p.add_input("x " + v[3 + i] + NL, input_name="a", **tname)
                res.append(R(v[3 + i]))
                after.append(R(v[3 + i]))
    p.parse(one=True)
    t.cover("deepdiff")
    if src == "var":
        before = [{"g": [{"x": "1"}]}]
    elif src == "template":
        before = [R(v[0])]
    if src == "input only" or (src in ("var", "template") and not others):
        after = list(res)
    kw = {"ignore_order": False} if others else {}
    if mode == "iterate":
        d = [("diff", before[0], x, kw) for x in after]
    else:
        d = ("diff", before, after, kw)
    want = res + [{"d": d}] if add else d
    got = p.result()[-1]
    if add and src in ("input only", "var", "template") and not (others and src != "input only"):
        # the results compared are the results the comparison is added to
        got = list(got)
        t.eq(got[:-1], res, "results beside the difference")
        dd = got[-1]["d"]
        dd = dd if mode == "iterate" else [dd]
        t.eq([x[1] for x in dd], [before[0]] * len(after) if mode == "iterate" else [before], "compared before")
        return
    t.eq(got, want, "deepdiff")


def validated(t, form, info, errors):
    v, w = t.str("v", 1, 2, exclude=NONSPACE_EXCL), t.str("w", 1, 2, exclude=NONSPACE_EXCL)
    attrs = "sch, allow_unknown=False, result='ok'" + (", info='{x} of {h}'" if info else "") + (", errors='er'" if errors else "")
    per = " results='per_template'" if form == "template" else ""
    p = mk("<template%s>\n<vars>\nsch = {'x': {'type': 'string'}}\nh = 'hh'\n</vars>\n<group name='%s'>\nx {{ x }}\n</group>\n%s<output validate=\"%s\"/>\n</template>"
           % (per, "_" if form != "lists" else "*", "", attrs) if form != "lists" else
           "<vars>\nsch = {'x': {'type': 'string'}}\n</vars>\n<group>\nx {{ x }}\n</group>\n<output validate=\"%s\"/>" % attrs)
    p.add_input("x " + v + NL, input_name="a")
    if form != "template":
        p.add_input("x " + w + "\nx 2\n" if form == "lists" else "x " + w + NL, input_name="b")
    p.parse(one=True)
    t.cover("validate")

    def one(x):
        doc = {"x": x}
        out = {"ok": ("valid", doc, {"x": {"type": "string"}}, False)}
        if info:
            out["info"] = x + " of hh"
        if errors:
            out["er"] = ("errors", doc)
        return out
    if form == "template":
        want = [one(v)]
    elif form == "input":
        want = [[one(v), one(w)]]
    else:
        want = [[[{"x": v}], [{"x": w}, {"x": "2"}]]]
    t.eq(copied(p.result()), want, "validate")


# ------------------------------------------------- running of the outputs
def conditional(t, form):
    """an output with a condition runs if the variable has the value"""
    v = t.str("v", 1, 2, exclude=NONSPACE_EXCL)
    c = t.str("c", 0, 3) if form == "text" else t.choice("c", [True, False, 1, None, "True", "absent"])
    cond = "c, ab" if form == "text" else "c, True"
    p = mk("<group name='g'>\nx {{ x }}\n</group>\n<output condition=\"%s\" format=\"csv\" path=\"g\"/>" % cond, "x " + v + NL, vars={} if c == "absent" and form != "text" else {"c": c})
    p.parse(one=True)
    res = [{"g": {"x": v}}]
    if (form == "text" and c == "ab") or (form != "text" and c is not None and not isinstance(c, str) and c == 1):
        t.cover("condition met")
        t.eq(p.result(), [NL.join(['"x"', cell(t, v, '"')])], "output of a met condition")
    else:
        t.cover("condition not met")
        t.eq(p.result(), [res], "output of an unmet condition")


def macros(t, style, two):
    """macro output functions: their result, or the data if they give none"""
    v = t.str("v", 1, 2, exclude=NONSPACE_EXCL)
    k1, k2 = t.choice("k1", ["wrap", "nothing", "edit", "empty"]), t.choice("k2", ["wrap", "nothing", "refuse"]) if two else None
    body = "<macro>\ndef wrap(data):\n    return {'w': data}\n\ndef nothing(data):\n    pass\n\ndef edit(data):\n    data.append('e')\n\ndef empty(data):\n    return []\n\ndef refuse(data):\n    return False\n</macro>\n"
    if style == "attr":
        outs = "<output macro=\"%s\"/>" % k1 + ("<output macro=\"%s\"/>" % k2 if two else "")
    else:
        outs = "<output functions=\"macro('%s')%s\"/>" % (k1, " | macro('%s')" % k2 if two else "")
    p = mk(body + "<group name='g'>\nx {{ x }}\n</group>\n" + outs, "x " + v + NL)
    p.parse(one=True)
    d = [{"g": {"x": v}}]
    for k in (k1, k2):
        if k in ("nothing", None):
            t.cover("macro without result")
        if k in ("wrap", "empty", "refuse"):
            t.cover("macro result")
        d = {"wrap": {"w": d}, "nothing": d, "edit": d + ["e"] if k == "edit" else d, "empty": [], "refuse": False, None: d}[k]
    t.eq(p.result(), [d], "macros %s %s" % (k1, k2))


def plain(t, how, n):
    """the returners of outputs, alone, together and one after another"""
    vs = [t.str("v%d" % i, 1, 2, exclude=NONSPACE_EXCL + '"') for i in range(n)]
    FS.clear()
    del DIRS[:]
    del Rec.log[:]
    csv = NL.join(['"x"'] + ['"' + v + '"' for v in vs])
    res = {"g": [{"x": v} for v in vs]}
    ret = {"file": "file", "both": "self, file", "terminal": "terminal", "three": "file, terminal,self", "self": "self", "two": "file", "none": None, "unnamed": "file", "default": "file", "vars": "file", "exists": "file"}[how]
    attrs = "format='csv' path='g'"
    if ret:
        attrs += " returner='%s'" % ret
    url = "/virtual/d"
    name = "out.txt"
    if how == "vars":
        name = "{h}_{x2}.txt"
    if how not in ("default", "unnamed"):
        attrs += " filename='%s'" % name
    if how != "unnamed":
        attrs += " name='out1'"
    attrs += " url='%s'" % url
    if how == "exists":
        DIRS.append(url)
        FS[url + "/out.txt"] = "old"
    outs = "<output %s/>" % attrs
    if how == "two":
        outs = "<output returner='file' name='o0' url='/virtual/d' filename='first.txt' format='csv' path='g'/>\n" + outs + "\n<output format='csv' path='g'/>"
    h = t.choice("h", ["host", "{a}"]) if how == "vars" else "h"
    p = mk("<vars>\nh = 'w'\n</vars>\n" if False else "" + "<group name='g*'>\nx {{ x }}\n</group>\n" + outs, "".join("x " + v + NL for v in vs), vars={"h": h, "x2": "q"})
    builtins.print = _vprint
    try:
        p.parse(one=True)
    finally:
        builtins.print = _print
    if how in ("file", "both", "three", "two", "unnamed", "default", "vars", "exists"):
        t.cover("file written")
        t.check(url in DIRS, "directory not made")
        names = sorted(FS)
        if how == "two":
            t.check(names == [url + "/first.txt", url + "/out.txt"], "files %s" % names)
            t.eq(FS[url + "/first.txt"], csv, "file")
        elif how == "vars":
            t.check(names == [url + "/" + h + "_q.txt"], "files %s" % names)
        elif how in ("unnamed", "default"):
            t.check(len(names) == 1, "files %s" % names)
            b = names[0][len(url) + 1:]
            t.check((b.startswith("output_") if how == "unnamed" else b.startswith("out1_output_")) and b.endswith(".txt"), "file name %s" % b)
        else:
            t.check(names == [url + "/out.txt"], "files %s" % names)
        t.eq(FS[names[-1]], csv, "file")
    else:
        t.check(FS == {}, "file written")
    if how in ("terminal", "three"):
        t.cover("printed")
        t.eq(Rec.log, [csv], "printed")
    else:
        t.check(Rec.log == [], "printed")
    if how in ("both", "three", "self", "two", "none"):
        t.eq(p.result(), [csv], "returned")
    else:
        t.cover("returned as is")
        t.eq(p.result(), [[res]], "results")


_print = builtins.print


def _vprint(*a, **k):
    Rec.log.append(a[0])


def rep(s, old, new):
    """every occurrence of old, left to right"""
    out, i, n = "", 0, len(old)
    while i < len(s):
        if i + n <= len(s) and s[i:i + n] == old:
            out = out + new
            i += n
        else:
            out = out + s[i]
            i += 1
    return out


def colours(t, words, hi, default):
    """the words asked for are printed in their colour, the rest of the text as it is"""
    Rec.log = []
    v = t.str("v", 0, hi, alphabet="nofyk \n,")
    text = ("Ok" + v + "Warning" + v[:1] + "False" if default else v)
    m = sys.modules["colorama"] = type(sys)("colorama")
    m.init = lambda *a, **k: None
    kw = "" if default else " ".join("%s='%s'" % (c, ", ".join(w)) for c, w in words)
    p = parser(text, "<output functions='give' returner='terminal' colour='' %s/>" % kw)
    builtins.print = _vprint
    try:
        p.parse(one=True)
    finally:
        builtins.print = _print
    t.cover("printed")
    want = text
    for col, w in ([("red", ["False", "no"]), ("green", ["Ok", "ok"]), ("yellow", ["Warning"])] if default else words):
        for x in w:
            want = rep(want, x, "\033[0;%d;40m" % {"red": 31, "green": 32, "yellow": 33}[col] + x + "\033[0m")
    t.eq(Rec.log, [want], "printed")


def printed(t, hi):
    """results that are not text are printed as Python writes them"""
    Rec.log = []
    v, w = t.str("v", 0, hi, alphabet="ab 1-"), t.int("w", -9, 99)
    p = parser({"a": [v, {"b": w}], "c": None}, "<output functions='give' returner='terminal'/>")
    builtins.print = _vprint
    try:
        p.parse(one=True)
    finally:
        builtins.print = _print
    t.eq(Rec.log, ["{'a': ['" + v + "', {'b': " + str(w) + "}], 'c': None}"], "printed")


class _Handler(object):
    def __init__(self, address, facility):
        self.address, self.facility = address, facility

    def close(self):
        pass


class _Logger(object):
    """logger of the syslog returner: hands every message to its handlers"""

    def __init__(self):
        self.handlers = []

    def setLevel(self, level):
        pass

    def addHandler(self, h):
        self.handlers.append(h)

    def removeHandler(self, h):
        self.handlers.remove(h)

    def info(self, msg, *a):
        for h in self.handlers:
            Rec.log.append((h.address, h.facility, msg))


import logging.handlers
logging.handlers.SysLogHandler = _Handler
import time
Rec.pauses = []
_sleep = time.sleep
time.sleep = lambda s: Rec.pauses.append(s) if s < 1 else _sleep(s)
_getLogger = logging.getLogger
Rec.logger = _Logger()
logging.getLogger = lambda name=None: Rec.logger if name == "_Custom_Syslog_Logger_" else _getLogger(name)


def syslogs(t, nserv, path, iterate, default=False):
    data = Gen(t, 1, lo=1, alpha=ODD).make([{"p": [{"a": "V"}, {"a": "V"}]}, {"?p": {"a": "V"}}, {"p": []}])
    keep = copied(data)
    del Rec.log[:]
    Rec.logger.handlers = []
    serv = ["1.1.1.1", "2.2.2.2"][:nserv]
    attrs = "servers = %r\n" % (serv if nserv > 1 else serv[0]) if nserv else ""
    if not default:
        ms = 5 if path else 250 if iterate else 0
        attrs += "port = '1514'\nfacility = 7\ninterval = %d\n" % ms
    else:
        ms = 1
    del Rec.pauses[:]
    if path:
        attrs += "path = 'p'\n"
    if not iterate:
        attrs += "iterate = False\n"
    p = parser(data, "<output load='python'>\nfunctions = 'give'\nreturner = 'syslog'\n%s</output>" % attrs)
    p.parse(one=True)
    msgs = []
    for d in keep:
        if not d:
            continue
        if path:
            if "p" not in d:
                continue
            d = d["p"]
        if not d:
            continue
        msgs += [r_flatjson(t, i) for i in d] if isinstance(d, list) and iterate else [r_flatjson(t, d)]
    t.cover("sent")
    t.eq(list(Rec.log), [((s, 514), 77, m) if default else ((s, 1514), 7, m) for s in serv for m in msgs], "sent")
    t.eq([x for x in Rec.pauses if x], [ms / 1000 for s in serv for m in msgs if ms], "pauses between messages")
    t.eq(data, keep, "results changed by syslog")


def r_flatjson(t, x):
    if isinstance(x, str):
        return r_str(t, x)
    if isinstance(x, list):
        return "[" + ", ".join([r_flatjson(t, i) for i in x]) + "]"
    return "{" + ", ".join([r_str(t, k) + ": " + r_flatjson(t, v) for k, v in x.items()]) + "}"


# ------------------------------------------------------ outputs of groups
def grouped(t, case, n, mode="per_input", texts=1):
    """an output named by a group gets the results of this group only; the
    other outputs get the results of all"""
    datas = []
    for j in range(texts):
        ls = []
        for i in range(n):
            k = t.pick(t.char("k%d%s" % (i, j or ""), alphabet="xy"))
            ls.append((k, t.char("v%d%s" % (i, j or ""), exclude=NONSPACE_EXCL + '"')))
        datas.append(ls)
    a1, a2, outs = {
        "one": (" output='o1'", "", ["o1"]), "both same": (" output='o1'", " output='o1'", ["o1"]), "each": (" output='o1'", " output='o2'", ["o1", "o2"]), "chain": (" output='o1, o2'", "", ["o1", "o2"]),
        "unknown": (" output='u1, o1'", "", ["o1"]), "unknown two": (" output='u1, u2, o1'", " output='u2'", ["o1"]), "unknown last": (" output='o1, u1,u2'", "", ["o1"]), "reverse": (" output='o2, o1'", "", ["o1", "o2"]),
        "beside": (" output='o1'", "", ["o1", "all"]), "second": ("", " output='o2'", ["o2"]), "shared": (" output='o1,o2'", " output='o2'", ["o2", "o1"]),
    }[case]
    tags = {"o1": "<output name='o1' functions='one'/>", "o2": "<output name='o2' functions='two'/>", "all": "<output name='all' functions='three'/>"}
    p = __import__("ttp").ttp(log_level="CRITICAL")
    p.add_function(lambda d: {"one": d}, scope="output", name="one")
    p.add_function(lambda d: {"two": d}, scope="output", name="two")
    p.add_function(lambda d: {"three": d}, scope="output", name="three")
    p.add_template("<template results='%s'>\n<group name='x*'%s>\nx {{ x }}\n</group>\n<group name='y*'%s>\ny {{ y }}\n</group>\n" % (mode, a1, a2) + NL.join(tags[o] for o in outs) + "\n</template>")
    for j, ls in enumerate(datas):
        p.add_input("".join(k + " " + v + NL for k, v in ls) + "no %d\n" % j)
    p.parse(one=True)
    t.cover("group output")
    each = []
    main, own = {}, []
    for ls, key, attr in [(ls, key, attr) for ls in datas for key, attr in (("x", a1), ("y", a2))]:
        if mode == "per_input" and key == "x":
            main, own = {}, []
            each.append((main, own))
        recs = [{key: v} for k, v in ls if k == key]
        names = [o.strip() for o in attr[9:-1].split(",")] if attr else []
        names = [o for o in names if o in tags]
        if not recs:
            continue
        d = {key: recs}
        if names:
            for o in names:
                d = {{"o1": "one", "o2": "two"}[o]: d}
            own.append(d)
        else:
            main.setdefault(key, []).extend(recs)
    res = [([main] if main else []) + own if own else main for main, own in each]
    if mode == "per_template":
        res = ([main] if main else []) + own if own else main
    if "all" in outs:
        res = {"three": res}
    t.eq(p.result(), [res], "outputs of groups: %s" % case)


def several(t, fmt, n, sel):
    """outputs given to result() run for each selected template, over the
    same results every time"""
    p = mk("<template>\n" + "".join("<template name='t%d'>\n<group name='g*'>\nx {{ x }}\n</group>\n</template>\n" % i for i in range(n)) + "</template>")
    want = {}
    for i in range(n):
        v = t.str("v%d" % i, 1, 2, exclude=NONSPACE_EXCL + '"')
        p.add_input("x " + v + "\nx %d\n" % i, template_name="t%d" % i)
        want["t%d" % i] = [v, str(i)]
    p.parse(one=True)
    keep = copied(p.result())
    names = ["t%d" % i for i in range(n) if not sel or "t%d" % i in sel]
    kw = {"templates": sel} if sel else {}

    def render(vs):
        if fmt == "csv":
            return NL.join(['"x"'] + ['"' + v + '"' for v in vs])
        if fmt == "table":
            return [["x"]] + [[v] for v in vs]
        return [[{"x": v} for v in vs]]
    fk = {"format": fmt, "path": "g"} if fmt != "traverse" else {"functions": "traverse('g')"}
    for s in t.choice("order", [("list", "dictionary", "flat_list"), ("flat_list", "list", "dictionary")]):
        got = copied(p.result(structure=s, **dict(list(kw.items()) + list(fk.items()))))
        exp = [render(want[x]) for x in names]
        if s == "dictionary":
            exp = {x: render(want[x]) for x in names}
        elif s == "flat_list":
            out = []
            for r in exp:
                if isinstance(r, list):
                    for i in r:
                        out += i if isinstance(i, list) else [i]
                else:
                    out.append(r)
            exp = out
        t.eq(got, exp, "result(%s, %s)" % (s, fmt))
    t.eq(copied(p.result()), keep, "results changed by result()")
    t.cover("table" if fmt == "table" else "csv" if fmt == "csv" else "traversed")


def large(t, fmt):
    """many columns and rows"""
    v, w = t.char("v", exclude="\n\r"), t.char("w", exclude="\n\r")
    cols = ["c%02d" % i for i in range(12)]
    data = [[{c: "%s-%d" % (c, r) for c in cols if not (r == 3 and c == "c04")} for r in range(13)]]
    data[0][11]["c10"] = v
    data[0][12]["c11"] = w
    keep = copied(data)
    table = r_table(keep, [], "", "", True, None)
    got = through(data, " format='%s'" % fmt)
    if fmt == "table":
        t.eq(got, [table] if isinstance(got[0][0], list) else table, "many columns and rows")
    else:
        want = NL.join(",".join('"' + str(x).replace('"', '""') + '"' for x in row) for row in table)
        t.eq(got, [want], "many columns and rows")


def jobs(tier):
    q = tier == "quick"
    out = []
    for i in range(len(TRAV)):
        for s in ("attr", "func"):
            out.append(("traversal", (i, s)))
    for i in range(len(FLAT)):
        for s in ("attr", "func"):
            out.append(("flattening", (i, s)))
    for i in range(len(EQ)):
        for load in ("json", "python"):
            out.append(("equality", (i, load)))
    for i in range(len(TAB)):
        for how in ("tag", "call"):
            out.append(("tables", (i, "table", how, 1 if q else 2)))
            if i not in (6, 7, 13):    # cells that are no text; no columns
                out.append(("csvs", (i, how, 1 if q else 2)))
        out.append(("tables", (i, "tabulate", "tag" if i % 2 else "call", 1)))
    for i in range(len(SHAPES)):
        for how in ("tag", "call"):
            out.append(("dumped", (i, "json", how, 1 if q else 2)))
            out.append(("dumped", (i, "yaml", how, 1)))
            out.append(("dumped", (i, "raw", how, 2)))
    for named_ in ("", "all", "some"):
        for update in (False, True):
            out.append(("excels", (2, named_, update, 1)))
            out.append(("excels", (3 if not update else 2, named_, update, 2)))
    out.append(("excel_strict", ()))
    out += [("tabulated", ("tag",)), ("tabulated", ("text",))]
    out += [("jinjas", (False,)), ("jinjas", (True,))]
    for src in ("input", "input only", "var", "template"):
        for add in (False, True):
            for mode in (None, "bulk", "iterate"):
                out.append(("diffs", (src, add, mode, 2 if src == "input" else 1, add)))
        out.append(("diffs", (src, False, None, 1, True)))
    for form in ("template", "input", "lists"):
        for info, errors in ((False, False), (True, False), (False, True)):
            out.append(("validated", (form, info, errors)))
    out += [("conditional", ("text",)), ("conditional", ("bool",))]
    for style in ("attr", "func"):
        for two in (False, True):
            out.append(("macros", (style, two)))
    for how in ("file", "both", "terminal", "three", "self", "two", "none", "unnamed", "default", "vars", "exists"):
        out.append(("plain", (how, 2)))
    out += [("colours", ([("red", ["no"]), ("green", ["ok"]), ("yellow", ["fy"])], 4 if q else 5, False)), ("colours", ([("red", ["no", "fo"]), ("green", ["y"]), ("yellow", ["k k"])], 4 if q else 5, False)),
            ("colours", ([], 3, True)), ("printed", (2,))]
    for nserv in (1, 2):
        for path in (True, False):
            for it in (True, False):
                out.append(("syslogs", (nserv, path, it)))
    out += [("syslogs", (0, False, True)), ("syslogs", (1, True, True, True))]
    for case in ("one", "both same", "each", "chain", "unknown", "unknown two", "unknown last", "reverse", "beside", "second", "shared"):
        out.append(("grouped", (case, 3 if q else 4)))
        for mode in ("per_input", "per_template"):
            out.append(("grouped", (case, 2, mode, 2)))
    for fmt in ("csv", "table", "traverse"):
        out += [("several", (fmt, 2, None)), ("several", (fmt, 2, ["t1"])), ("several", (fmt, 3, "t0"))]
    out += [("large", ("csv",))]
    return named(globals(), out)
