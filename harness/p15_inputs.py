"""P15: each input is parsed by the groups bound to it, once, in any call history."""
from hlib import *
import builtins

COVERS = ["parsed", "same item twice", "cleared", "results cleared", "input of a group", "groups of an input", "file selected", "file not selected", "stopped", "command found"]
BOUNDS = {
    "quick": "every sequence of 4 calls of add_input, set_input (2 input names, with and without groups), clear_input, parse, clear_result followed by parse, and of 3 calls over two templates; texts with one arbitrary value each; "
             "every combination of 4 groups attributes of an input with 4 input attributes of two groups, one name used by two groups; 4 inputs with names that are parts of one another bound to 2 groups; 1-3 urls of files and a directory in every order; directories of 2 files with names of up to 3 arbitrary characters plus extension, 0-2 extensions and filters; "
             "2 macros or custom functions of 6 kinds; extract_commands over 4 lines of 7 kinds; pairs of texts of 3 lines through a template with defaults, joins, checks, nested and dynamic groups, together and alone",
    "thorough": "sequences of 5 calls, file names of up to 4 characters, texts of 4 lines",
}
ASSUMPTIONS = ["file system calls (isfile, isdir, listdir, join, open) answer from a virtual directory in the file jobs"]
NL = "\n"

# ----------------------------------------------------------- call histories
HIST = "<group name='g1'>\na {{ x }}\n</group>\n<group name='g2'>\nb {{ y }}\n</group>\n"
BOUND = HIST.replace("name='g2'", "name='g2' input='I1'")
TAGGED = "<input name='I2' load='text' groups='g2'>\na 1\nb 2\n</input>\n" + HIST

TMPL = {"hist": HIST, "bound": BOUND, "tagged": TAGGED}
OPS = ["add1", "add2", "set1", "set2g", "clear", "parse", "drop"]
PRE = {HIST: [], BOUND: [("I1", [], None)], TAGGED: [("I2", [("1", "2")], ["g2"])]}


class Model(object):
    """inputs and results kept as documented"""

    def __init__(self, tmpl):
        self.bound = tmpl == BOUND
        self.inputs = [[n, list(d), g] for n, d, g in PRE[tmpl]]
        self.results = []

    def add(self, t, name, item, groups):
        if self.bound and name == "I1":
            sel = ["g2"]
        elif self.bound:
            sel = [g for g in (groups or ["g1"]) if g == "g1"]
        else:
            sel = groups or ["g1", "g2"]
        for i in self.inputs:
            if i[0] == name:
                if i[2] is not None:
                    # one selection per input: calls that change it are not made
                    t.assume(i[2] == sel)
                i[2] = sel
                for d in i[1]:
                    if d == item:
                        t.cover("same item twice")
                        return
                i[1].append(item)
                return
        self.inputs.append([name, [item], sel])

    def clear(self):
        self.inputs = []

    def parse(self, t):
        for name, items, sel in self.inputs:
            for x, y in items:
                r = {}
                if "g1" in sel:
                    r["g1"] = {"x": x}
                if "g2" in sel:
                    r["g2"] = {"y": y}
                if self.bound and name == "I1":
                    t.cover("input of a group")
                self.results.append(r)
                t.cover("parsed")


def do(t, p, m, op, i):
    item = None
    if op[:3] in ("add", "set"):
        name = "I" + op[3]
        groups = ["g2"] if op.endswith("g") else None
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        txt = "a " + v + "\nb " + v
        kw = {"groups": groups} if groups else {}
        if op[:3] == "add":
            p.add_input(data=txt, input_name=name, **kw)
        else:
            p.set_input(data=txt, input_name=name, **kw)
            m.clear()
            t.cover("cleared")
        m.add(t, name, (v, v), groups)
    elif op == "clear":
        p.clear_input()
        m.clear()
        t.cover("cleared")
    elif op == "parse":
        p.parse(one=True)
        m.parse(t)
    elif op == "drop":
        p.clear_result()
        m.results = []
        t.cover("results cleared")


def history(t, tmpl, first, n):
    p = mk(TMPL[tmpl])
    m = Model(TMPL[tmpl])
    for i in range(n):
        do(t, p, m, first if i == 0 else t.choice("op%d" % i, OPS), i)
    do(t, p, m, "parse", n)
    t.eq(p.result(), [m.results], "results")


# ----------------------------------------------------------- several templates
TWO = ("<template name='t1'>\n<group name='g1'>\na {{ x }}\n</group>\n</template>\n<template name='t2'>\n<group name='g2'>\nb {{ y }}\n</group>\n</template>\n")


def two(t, first, n):
    p = mk("<template>\n" + TWO + "</template>")
    data = {"t1": [], "t2": []}
    res = {"t1": [], "t2": []}
    for i in range(n + 1):
        op = first if i == 0 else "parse" if i == n else t.choice("op%d" % i, ["add t1", "add t2", "add _all_", "set t1", "set _all_", "clear t2", "clear _all_", "parse", "drop t1", "drop t2", "drop all"])
        kind, _, where = op.partition(" ")
        names = ["t1", "t2"] if where in ("_all_", "all", "") else [where]
        if kind in ("add", "set"):
            v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
            txt = "a " + v + "\nb " + v + "\n"
            getattr(p, kind + "_input")(txt, template_name=where)
            for n_ in names:
                if kind == "set":
                    data[n_] = []
                if not any([v == o for o in data[n_]]):
                    data[n_].append(v)
                else:
                    t.cover("same item twice")
        elif kind == "clear":
            p.clear_input(template_name=where)
            for n_ in names:
                data[n_] = []
            t.cover("cleared")
        elif kind == "parse":
            p.parse(one=True)
            res["t1"] += [{"g1": {"x": v}} for v in data["t1"]]
            res["t2"] += [{"g2": {"y": v}} for v in data["t2"]]
            t.cover("parsed")
        else:
            if where == "all":
                p.clear_result()
            else:
                p.clear_result(templates=t.choice("form%d" % i, [where, [where]]))
            for n_ in names:
                res[n_] = []
            t.cover("results cleared")
    t.eq(p.result(), [res["t1"], res["t2"]], "results")


def dozen(t, how):
    """twelve inputs or texts: results keep the order of inputs and texts, every text is parsed with the groups of its input"""
    vals = [chr(97 + i) + t.char("v%d" % i, exclude=NONSPACE_EXCL) for i in range(12)]
    line = ["x " + v + "\n" for v in vals]
    if how == "texts":
        p = mk("<group name='g'>\nx {{ x }}\n</group>")
        for l in line:
            p.add_input(l)
        order = range(12)
    elif how == "names":
        p = mk("<group name='g'>\nx {{ x }}\n</group>")
        for i, l in enumerate(line):
            p.add_input(l, input_name="in%d" % i)
        order = range(12)
    elif how == "tags":
        p = mk("".join("<input name='in%d' load='text'>\ny 1\n</input>\n" % i for i in range(12)) + "<group name='g'>\nx {{ x }}\n</group>")
        order = [7, 11, 1, 10, 0, 2, 3, 4, 5, 6, 8, 9]
        for i in order:
            p.add_input(line[i], input_name="in%d" % i)
        p.parse(one=True)
        want = []
        for i in range(12):
            want += [{}, {"g": {"x": vals[i]}}]
        t.eq(p.result(), [want], "twelve inputs of tags")
        t.cover("parsed")
        return
    elif how == "groups":
        # group i of input i, group names are parts of one another
        p = mk("".join("<group name='g%d' input='in%d'>\nx {{ x }}\n</group>\n" % (i, i) for i in range(12)))
        order = [11, 1, 0, 10, 2, 3, 9, 4, 5, 6, 7, 8]
        for i in order:
            p.add_input(line[i], input_name="in%d" % i)
        p.parse(one=True)
        t.eq(p.result(), [[{"g%d" % i: {"x": vals[i]}} for i in range(12)]], "twelve groups with inputs")
        t.cover("parsed")
        return
    else:
        # groups attribute of inputs selects by name
        p = mk("".join("<group name='g%d'>\nx {{ x }}\n</group>\n" % i for i in range(12)))
        order = [11, 1, 0, 10, 2, 3, 9, 4, 5, 6, 7, 8]
        for i in order:
            p.add_input(line[i], input_name="in%d" % i, groups=["g%d" % i, "g%d" % ((i + 1) % 12), "g"])
        p.parse(one=True)
        t.eq(p.result(), [[{"g%d" % j: {"x": vals[i]} for j in (i, (i + 1) % 12)} for i in order]], "groups of twelve inputs")
        t.cover("parsed")
        return
    p.parse(one=True)
    t.eq(p.result(), [[{"g": {"x": vals[i]}} for i in order]], "twelve %s" % how)
    t.cover("parsed")


def long(t, how, size):
    """texts longer than any path are texts"""
    v, w = t.char("v", exclude=NONSPACE_EXCL), t.char("w", exclude=NONSPACE_EXCL)
    text = "x " + v + "\n" + "- - -\n" * (size // 6) + "x " + w + "\n"
    if how == "input":
        p = mk("<group name='g*'>\nx {{ x }}\n</group>")
        p.add_input(text)
    else:
        p = __import__("ttp").ttp(data=text, template="<group name='g*'>\nx {{ x }}\n</group>\n" + ("<doc>\n" + "a\n" * (size // 2) + "</doc>\n" if how == "both" else ""), log_level="CRITICAL")
    p.parse(one=True)
    t.eq(p.result(), [[{"g": [{"x": v}, {"x": w}]}]], "long text")
    t.cover("parsed")


# ----------------------------------------------------------- selection
def alike(t, how):
    """names of inputs that are parts of one another: a group is bound to inputs of exactly its names"""
    names = ["one", "one2", "zone", "on"]
    b1 = t.choice("b1", ["one", "one2", "zone", "one2, on", "zone,one"])
    b2 = t.choice("b2", [None, "one", "on", "one2,zone"])
    groups = [("g1", "x", b1), ("g2", "y", b2), ("g3", "z", None)]
    body = "".join("<group name='%s'%s>\n%s {{ %s }}\n</group>\n" % (n, "" if b is None else " input='%s'" % b, k, k) for n, k, b in groups)
    data = {}
    for i, n in enumerate(names):
        data[n] = t.char("v%d" % i, alphabet="pqrst")
        for m in names[:i]:
            t.assume(data[m] != data[n])
    if how == "tag":
        data = dict(zip(names, "pqrs"))
        p = mk("".join("<input name='%s' load='text'>\n%s\n</input>\n" % (n, "\n".join(k + " " + data[n] for k in "xyz")) for n in names) + body)
    else:
        p = mk(body)
        for n in names:
            p.add_input("".join(k + " " + data[n] + NL for k in "xyz"), input_name=n)
    p.parse(one=True)
    want = []
    order = names
    if how == "api":                       # inputs the groups name exist before those given later
        order = []
        for n in [i.strip() for g in groups[:2] for i in (g[2] or "").split(",")] + names:
            if n and n not in order:
                order.append(n)
    for n in order:
        mine = [g for g in groups if g[2] and n in [i.strip() for i in g[2].split(",")]] or [g for g in groups if not g[2]]
        want.append({g: {k: data[n]} for g, k, b in mine})
        t.cover("input of a group")
    t.eq(p.result(), [want], "results of inputs with similar names")


def select(t, gattr, how):
    """groups attribute of an input against input attributes of groups"""
    b1 = t.choice("b1", [None, "I", "J", "J, I"])
    b2 = t.choice("b2", [None, "I", "K,I"])
    b3 = t.choice("b3", [None, "I"])
    v = t.char("v", exclude=NONSPACE_EXCL)
    groups = [("g1", "x", b1), ("g2", "y", b2), ("g1", "z", b3), ("n.g3", "w", None)]
    body = ""
    for n, k, b in groups:
        body += "<group name='%s'%s>\n%s {{ %s }}\n</group>\n" % (n, "" if b is None else " input='%s'" % b, k, k)
    datum = "".join(k + " " + v + NL for n, k, b in groups)
    vv = v + v
    other = "".join(k + " " + vv + NL for n, k, b in groups)
    a = "" if gattr is None else " groups='%s'" % gattr
    if how == "tag":
        tmpl = "<input name='I' load='text'%s>\n%s</input>\n" % (a, "".join(k + " 1\n" for n, k, b in groups)) + body
        p = mk(tmpl)
        v = "1"
    elif how == "load":
        p = mk("<input name='I' load='python'>\ngroups = %r\n</input>\n" % ("all" if gattr is None else [g.strip() for g in gattr.split(",")]) + body)
        p.add_input(datum, input_name="I", **({} if gattr is None else {"groups": [g.strip() for g in gattr.split(",")]}))
    else:
        p = mk(body)
        p.add_input(datum, input_name="I", **({} if gattr is None else {"groups": [g.strip() for g in gattr.split(",")]}))
    p.add_input(other, input_name="Z")
    p.parse(one=True)
    mine = [g for g in groups if g[2] and "I" in [i.strip() for i in g[2].split(",")]]
    if mine:
        t.cover("input of a group")
    elif gattr is None or "all" in [g.strip() for g in gattr.split(",")]:
        mine = [g for g in groups if not g[2]]
    else:
        t.cover("groups of an input")
        mine = [g for g in groups if not g[2] and g[0] in [i.strip() for i in gattr.split(",")]]

    def expect(sel, val):
        r = {}
        for n, k, b in sel:
            d, key = (r.setdefault("n", {}), "g3") if n == "n.g3" else (r, n)
            if key in d:
                d[key] = [d[key], {k: val}]
            else:
                d[key] = {k: val}
        return r
    got = p.result()[0]
    t.eq(len(got), 2, "number of results")
    t.eq(got[0], expect(mine, v), "result of the input")
    t.eq(got[1], expect([g for g in groups if not g[2]], vv), "result of the other input")


# ----------------------------------------------------------- files
DIR = "/virtual-directory-of-inputs/"
FILES = {}
_join, _listdir, _open = os.path.join, os.listdir, builtins.open
_isf, _isd, _size = os.path.isfile, os.path.isdir, os.path.getsize


def _v(p):
    return isinstance(p, str) and len(p) >= len(DIR) and p[: len(DIR)] == DIR


class _File(object):
    def __init__(self, s):
        self.s = s

    def read(self):
        return self.s

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _find(p):
    for n, c in FILES["files"]:
        if DIR + n == p:
            return c
    return None


os.path.join = lambda a, *b: a + b[0] if FILES and _v(a) else _join(a, *b)
os.listdir = lambda p=".": [n for n, c in FILES["files"]] + ["subdir.txt"] if FILES and _v(p) else _listdir(p)
os.path.isfile = lambda p: (_find(p) is not None) if FILES and _v(p) else _isf(p)
os.path.isdir = lambda p: (len(p) == len(DIR) or p == DIR + "subdir.txt") if FILES and _v(p) else _isd(p)
os.path.getsize = lambda p: len(_find(p)) if FILES and _v(p) else _size(p)


def _vopen(p, *a, **k):
    if FILES and _v(p):
        return _File(_find(p))
    return _open(p, *a, **k)


builtins.open = _vopen

FILT = {
    "none": ("", []),
    "ext": ("extensions = 'txt'", []),
    "exts": ("extensions = ['txt', 'log']", []),
    "filter": ("filters = 'a'", ["a"]),
    "filters": ("filters = ['^a', 'b']", ["^a", "b"]),
    "both": ("extensions = ['log']\nfilters = ['a', '1.']", ["a", "1."]),
    "pat": ("filters = [r'[a-c]{2}|^x']", None),
}


def ref_filter(key, n):
    """does the name match one of the filters"""
    if key in ("none", "ext", "exts"):
        return True
    if key == "filter":
        return "a" in n
    if key == "filters":
        return n[0] == "a" or "b" in n
    if key == "both":
        return "a" in n or any([n[i] == "1" for i in range(len(n) - 1)])
    return n[0] == "x" or any([n[i] in "abc" and n[i + 1] in "abc" for i in range(len(n) - 1)])


def files(t, key, form, hi):
    names = []
    # a file name has no / and, as the reference does not define it, no line ends
    for i in range(2):
        stem = t.str("s%d" % i, 1, hi if i == 0 else 1, exclude="/\n.\0")
        ext = t.choice("e%d" % i, ["txt", "log", "cfg"])
        names.append((stem + "." + ext, ext))
    t.assume(names[0][0] != names[1][0])
    FILES.clear()
    vals = [t.char("v%d" % i, exclude=NONSPACE_EXCL) for i in range(2)]
    FILES["files"] = [(n, "a " + vals[i] + NL) for i, (n, e) in enumerate(names)]
    opts = FILT[key][0]
    url = {"str": "url = '%s'" % DIR, "list": "url = ['%s']" % DIR, "base": "url = 'of-inputs/'"}[form]
    inp = "<input name='i' load='python'>\n%s\n%s\n</input>\n<group name='g'>\na {{ x }}\n</group>" % (url, opts)
    if form == "base":
        inp = "<template base_path='/virtual-directory-'>\n" + inp + "</template>"
    try:
        p = mk(inp)
        p.parse(one=True)
        want = []
        for i, (n, e) in enumerate(names):
            ok = e in opts if "extensions" in opts else True
            ok = ok and ref_filter(key, n)
            t.cover("file selected" if ok else "file not selected")
            if ok:
                want.append({"g": {"x": vals[i]}})
        t.eq(p.result(), [want], "results of the files")
    finally:
        FILES.clear()


def urls(t, n, base):
    """the data of every url of the list, in the order of the list; options of directories concern directories"""
    FILES.clear()
    vals = [t.char("v%d" % i, exclude=NONSPACE_EXCL) for i in range(4)]
    FILES["files"] = [(f, "a " + vals[i] + NL) for i, f in enumerate(["one.cfg", "q.txt", "two.cfg", "r.txt"])]
    pool = {"one.cfg": [0], "two.cfg": [2], "": [1, 3]}
    order = []
    for i in range(n):
        order.append(t.choice("u%d" % i, [u for u in ("one.cfg", "two.cfg", "") if u not in order]))
    pre = DIR if not base else "of-inputs/"
    inp = "<input load='python'>\nurl = %r\nextensions = 'txt'\n</input>\n<group name='g'>\na {{ x }}\n</group>" % [pre + u for u in order]
    if base:
        inp = "<template base_path='/virtual-directory-'>\n" + inp + "</template>"
    try:
        p = mk(inp)
        p.parse(one=True)
        t.eq(p.result(), [[{"g": {"x": vals[i]}} for u in order for i in pool[u]]], "results of the urls")
        t.cover("file selected")
    finally:
        FILES.clear()


def onefile(t, api):
    """a path to a file is that file, any other text is text"""
    FILES.clear()
    v = t.char("v", exclude=NONSPACE_EXCL)
    n = t.str("n", 1, 2, exclude="/\n.\0")
    FILES["files"] = [("f1.x", "a " + v + NL)]
    try:
        grp = "<group name='g'>\na {{ x }}\n</group>\n<group name='h'>\n/virtual-directory-of-inputs/{{ h }}\n</group>"
        if api:
            p = mk(grp)
            p.add_input(DIR + n + ".x")
        else:
            p = mk(grp, data=DIR + n + ".x")
        p.parse(one=True)
        if n == "f1":
            t.cover("file selected")
            t.eq(p.result(), [[{"g": {"x": v}}]], "file")
        else:
            t.cover("file not selected")
            blank = any([c in NONSPACE_EXCL for c in n])
            t.assume(not blank)
            t.eq(p.result(), [[{"h": {"h": n + ".x"}}]], "text")
    finally:
        FILES.clear()


# ----------------------------------------------------------- input functions
MACROS = """<macro>
def m_none(data):
    return None

def m_true(data):
    return True

def m_false(data):
    return False

def m_more(data):
    return data + "more 1" + chr(10) * 2

def m_sub(data):
    return data.replace("a ", "b ")

def m_back(data):
    return data.replace("b ", "a ")
</macro>
<group name='g'>
a {{ a }}
</group>
<group name='h'>
b {{ b }}
</group>
<group name='m*'>
more {{ more }}
</group>
"""
NAMES = ["m_none", "m_true", "m_false", "m_more", "m_sub", "m_back", "absent"]


def functions(t, form, k):
    seq = [t.choice("f%d" % i, NAMES) for i in range(k)]
    v = t.char("v", exclude=NONSPACE_EXCL)
    if form == "names":
        a = "macro='%s'" % ", ".join(seq)
    elif form == "funcs":
        a = 'functions="%s"' % " | ".join("macro('%s')" % n for n in seq)
    else:
        a = 'functions="%s"' % " | ".join("f%d" % NAMES.index(n) if n != "absent" else "macro('absent')" for n in seq)
    from ttp import ttp as T
    p = T(log_level="CRITICAL")
    fs = [lambda d: (d, None), lambda d: (d, True), lambda d: (d, False), lambda d: (d + "more 1" + NL + NL, None), lambda d: (d.replace("a ", "b "), None), lambda d: (d.replace("b ", "a "), True)]
    for i, f in enumerate(fs):
        p.add_function(f, scope="input", name="f%d" % i)
    p.add_template("<input name='i' load='python' %s>\nnote = 1\n</input>\n" % a + MACROS)
    t.assume(v not in "ab")
    p.add_input("a " + v + NL, input_name="i")
    p.parse(one=True)
    key, more = "a", 0
    for n in seq:
        if n == "m_false":
            t.cover("stopped")
            break
        if n == "m_more":
            more += 1
        if n == "m_sub":
            key = "b"
        if n == "m_back":
            key = "a"
    want = {"g" if key == "a" else "h": {key: v}}
    if more:
        want["m"] = [{"more": "1"}] * more
    t.eq(p.result(), [[want]], "result")


LINES = ["H#show x", "H>show y", "H# show x", "H#show z", "a ", "show x", "H#show x y"]


def commands(t, host, cmds, attr, k):
    """only the output of the given commands is parsed"""
    lines = [host + "#show z"]
    for i in range(k):
        ln = t.choice("l%d" % i, LINES).replace("H", host)
        if ln == "a ":
            ln = ln + t.char("v%d" % i, exclude=NONSPACE_EXCL + host + "#>")
        lines.append(ln)
    if attr == "attr":
        a = "extract_commands='%s'" % ", ".join(cmds)
    else:
        a = 'functions="extract_commands(%s)"' % ", ".join("'%s'" % c for c in cmds)
    p = mk("<input name='i' load='python' %s>\nnote = 1\n</input>\n<group name='g*'>\na {{ x }}\n</group>" % a)
    p.add_input(NL.join(lines), input_name="i")
    p.parse(one=True)
    out = []
    found = False
    for c in cmds:
        take = False
        done = False
        empty = False
        for i, ln in enumerate(lines):
            if ln.startswith(host + "#") or ln.startswith(host + ">"):
                if take:
                    take = False
                    done = True
                if not done and ln[len(host) + 1:].strip() == c:
                    # output of a command that printed nothing is not defined
                    t.assume(i + 1 < len(lines) and not (lines[i + 1].startswith(host + "#") or lines[i + 1].startswith(host + ">")))
                    take = True
                    found = True
            elif take and ln.startswith("a "):
                out.append({"x": ln[2:]})
    if not found:
        out = [{"x": ln[2:]} for ln in lines if ln.startswith("a ")]
    else:
        t.cover("command found")
    t.eq(p.result(), [[{"g": out} if out else {}]], "result")


# ----------------------------------------------------------- together and alone
FULL = """<vars>
seen = "no"
</vars>
<group name="g*">
i {{ a | _start_ }}
d {{ b | default("dd") }}
j {{ c | joinmatches(",") }}
s {{ s | record("seen") }}
t {{ t | set("seen") }}
<group name="k.{{ k }}">
k {{ k }}
l {{ l | notequal("z") }}
</group>
</group>
<group name="top.{{ n }}**" default="none">
n {{ n }}
q {{ q | to_int }}
</group>
"""
SHORT = """<group name="g*">
i {{ a }}
d {{ b | default("dd") }}
</group>
<group name="top.{{ n }}">
n {{ n }}
q {{ q | let("w", "1") }}
</group>
<group name="d" >
e {{ e | default("nothing") | _start_ }}
f {{ f }}
</group>
"""


def together(t, tmpl, keys, first, k):
    tmpl = {"full": FULL, "short": SHORT}[tmpl]
    texts = []
    for j in range(2):
        s = ""
        for i in range(k):
            key = first[j] if i == 0 else t.pick(t.char("k%d%d" % (j, i), alphabet=keys))
            v = t.char("v%d%d" % (j, i), exclude=NONSPACE_EXCL)
            t.assume(v != "_" and v != "*" and v != "." and v != "/")
            s = s + key + " " + v + NL
        texts.append(s)
    t.assume(texts[0] != texts[1])
    p = mk(tmpl)
    for s in texts:
        p.add_input(s)
    p.parse(one=True)
    alone = []
    for s in texts:
        q = mk(tmpl, data=s)
        q.parse(one=True)
        alone.append(q.result()[0][0])
    t.eq(p.result(), [alone], "together as alone")
    t.cover("parsed")


# ----------------------------------------------------------- rendered results
def rendered(t, form, again):
    """a call history with results that an output renders to text"""
    from ttp import ttp as T
    out = []
    for k in range(2):
        p = T(log_level="CRITICAL")
        p.add_function(lambda d, **kw: ";".join([r["g1"]["x"] for r in d]), scope="formatters", name="mine")
        p.add_function(lambda d: ";".join([r["g1"]["x"] for r in d]), scope="output", name="mine")
        p.add_template("<group name='g1'>\na {{ x }}\n</group>\n<output returner='self' %s/>\n" % form)
        out.append(p)
    p, q = out
    v = t.char("v", exclude=NONSPACE_EXCL)
    w = t.char("w", exclude=NONSPACE_EXCL)
    p.add_input("a " + v)
    p.parse(one=True)
    t.eq(p.result(), [v], "results of the first parse")
    t.finding("P15-parse-after-rendering", again == "parse")
    if again == "clear":
        p.clear_result()
        t.eq(p.result(), [[]], "no results")
        t.cover("results cleared")
    p.set_input("a " + w)
    p.parse(one=True)
    t.eq(p.result(), [w if again == "clear" else v + ";" + w], "results of the second parse")
    q.add_input("a " + v)
    q.add_input("a " + w)
    q.parse(one=True)
    t.eq(q.result(), [v + ";" + w if v != w else v], "results of two inputs")


def jobs(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for tm in TMPL:
        for f in OPS:
            if f in ("parse", "drop") and tm == "hist":
                continue
            out.append(("history", (tm, f, n)))
    for f in ["add t1", "add t2", "add _all_"] + (["set t1", "set _all_"] if tier != "quick" else []):
        out.append(("two", (f, n - 1)))
    for g in (None, "all", "all, g1", "g2,all", "g1", "g2", "g1, n.g3", "n.g3"):
        for how in ("tag", "load", "api"):
            out.append(("select", (g, how)))
    out += [("alike", (h,)) for h in ("tag", "api")]
    out += [("long", (h, 7000)) for h in ("input", "constructor", "both")]
    out += [("dozen", (h,)) for h in ("texts", "names", "tags", "groups", "attr")]
    hi = 2 if tier == "quick" else 3
    for k in FILT:
        for form in ("str", "list", "base"):
            if form == "str" or k in ("none", "both"):
                out.append(("files", (k, form, hi)))
    out += [("urls", (n, b)) for n in (1, 2, 3) for b in (False, True)]
    out += [("onefile", (True,)), ("onefile", (False,))]
    for form in ("names", "funcs", "custom"):
        out.append(("functions", (form, 2 if tier == "quick" else 3)))
    for host in ("c1", "c.1", "c(1)"):
        for cmds in (["show x"], ["show x", "show y"], ["show y", "show x"], ["show z", "show x y"]):
            out.append(("commands", (host, cmds, "attr" if host == "c1" else "call", 3 if tier == "quick" else 4)))
    k = 2 if tier == "quick" else 3
    for a in "idjstknq":
        for b in "ijstnq":
            out.append(("together", ("full", "idjstklnq", a + b, k)))
    for a in "idnqef":
        for b in "inqe":
            out.append(("together", ("short", "idnqef", a + b, k)))
    out += [("rendered", (f, a)) for f in ("format='mine'", "functions='mine'") for a in ("clear", "parse")]
    return named(globals(), out)
