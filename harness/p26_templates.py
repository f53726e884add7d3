"""P26: a template is what its tags say, however it is written and loaded."""
import builtins
import os
from hlib import *

COVERS = ["spelled", "moved", "comment", "loaded", "named", "filtered", "parameters", "written back"]
BOUNDS = {
    "quick": "a template of 8 tags (vars, lookup, macro, doc, groups with a child group, input, output) in every spelling and case of each tag, with each tag moved to every place, with its attributes in every order, "
             "in both quotes and blanks around them, wrapped in a template tag or not, with ## and XML comments of 0-2 arbitrary characters and blank lines at each of 9 places, with unknown tags; loaded as text, file, file of TTP_TEMPLATES_DIR, "
             "directory and ttp:// path, by the constructor and by add_template; 1-3 templates, nested and not, under names of 1-2 arbitrary letters, with every kind of filters; "
             "input parameters of 1-2 arbitrary characters; texts with symbolic values of one character" "; cases beyond usual size (9-20 of a kind): many tags of one kind, many templates",
    "thorough": "comments and values of up to 3 characters, two tags moved at once",
}
ASSUMPTIONS = ["templates are read from a virtual directory (isfile, isdir, listdir, open) and a stand-in of ttp_templates.get_template"]

DIR = "/virtual-templates-dir/"
FILES = {}
_isf, _isd, _ls, _open = os.path.isfile, os.path.isdir, os.listdir, builtins.open


class _File(object):
    def __init__(self, s):
        self.s = s

    def read(self):
        return self.s

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _virtual(p):
    return isinstance(p, str) and p[: len(DIR)] == DIR


def _isfile(p):
    return p[len(DIR):] in FILES if _virtual(p) else _isf(p)


def _isdir(p):
    return p == DIR or p == DIR + "d/" if _virtual(p) else _isd(p)


def _listdir(p):
    if _virtual(p):
        return [f[len(p) - len(DIR):] for f in FILES if (DIR + f)[: len(p)] == p]
    return _ls(p)


def _vopen(p, *a, **k):
    return _File(FILES[p[len(DIR):]]) if _virtual(p) else _open(p, *a, **k)


os.path.isfile, os.path.isdir, os.listdir, builtins.open = _isfile, _isdir, _listdir, _vopen


def val(t, name, hi=1):
    return t.str(name, 1, hi, exclude=NONSPACE_EXCL)


# ------------------------------------------------ the template
SPELL = {
    "vars": ["vars", "v", "variables"], "lookup": ["lookup"], "macro": ["macro"], "doc": ["doc"],
    "group": ["group", "g", "grp"], "output": ["output", "o", "out"], "input": ["input", "i", "in"],
}
CHILD = '<group name="c">\nm {{ m | lookup("L", add_field="r") }}\n</group>\n'
# kind, attributes, text
TAGS = [
    ("vars", [("name", "vs")], '\na = "A"\n'),
    ("lookup", [("name", "L"), ("load", "csv")], "\nid,q\nm,one\n2,two\n"),
    ("macro", [], '\ndef mm(data):\n    return data + "!"\ndef om(data):\n    return [data, "out"]\n'),
    ("doc", [], "\nnotes {{ k }} here\nk k\n"),
    ("group", [("name", "g*"), ("void", "")], '\nk {{ k | macro("mm") }}\n{{ s | set("a") }}\n' + CHILD),
    ("group", [("name", "h"), ("method", "group")], "\nh {{ h }}\nj {{ j }}\n"),
    ("input", [("name", "in1"), ("load", "text"), ("groups", "h")], None),
    ("output", [("name", "o"), ("macro", "om")], ""),
]
NT = len(TAGS)


def write(kind, attrs, text, spell=None, child=None, quote='"', eq="=", sep=" ", closed=False):
    s = "<" + (spell or kind)
    for k, v in attrs:
        s += sep + k + eq + quote + v + quote
    if closed and not text:
        return s + "/>"
    return s + ">" + (text.replace("group", child) if child else text) + "</" + (spell or kind) + ">"


def tags():
    """without the void attribute, which would drop the records of the group"""
    return [(k, [a for a in attrs if a[0] != "void"], text) for k, attrs, text in TAGS]


class Base(object):
    """symbolic values, the texts and the results that follow from the tags"""

    def __init__(self, t, hi=1):
        self.k, self.k2, self.h = val(t, "k", hi), val(t, "k2", hi), t.str("h", 1, hi, exclude=NONSPACE_EXCL + "<>&")
        self.m = t.str("m", 1, 1, alphabet="2m9")
        # text of the default input, to all the groups; text of input in1 to group h
        self.text = "k " + self.k + "\nm " + self.m + "\nk " + self.k2 + "\n"
        self.text1 = "\nk x\nh " + self.h + "\n"

    def tags(self):
        return [(k, a, self.text1 if k == "input" else x) for k, a, x in tags()]

    def groups(self):
        c = {"m": self.m}
        if self.m == "m":
            c["r"] = {"q": "one"}
        elif self.m == "2":
            c["r"] = {"q": "two"}
        return {"g": [{"k": self.k + "!", "s": "A", "c": c}, {"k": self.k2 + "!", "s": "A"}]}

    def results(self):
        return [[[{"h": {"h": self.h}, "vs": {"a": "A"}},
                  dict(self.groups(), vs={"a": "A"})], "out"]]


def results(b, tpl, load=None):
    p = (load or (lambda x: ttp(template=x, log_level="CRITICAL")))(tpl)
    p.add_input(b.text, template_name="_all_")
    p.parse(one=True)
    return p


def expect(t, b, tpl, what, load=None):
    p = results(b, tpl, load)
    got = p.result()
    t.eq(got, b.results(), what)
    return p


def join(parts):
    return "\n".join(parts) + "\n"


# ------------------------------------------------ ways to write it
def spelling(t, which, hi):
    b = Base(t, hi)
    kind = b.tags()[which][0]
    s = t.choice("spelling", SPELL[kind])
    s = t.choice("case", [s, s.upper(), s.capitalize()])
    child = t.choice("child", ["group", "g", "grp"]) if kind == "group" else None
    parts = [write(k, a, x, spell=s, child=child) if i == which else write(k, a, x) for i, (k, a, x) in enumerate(b.tags())]
    w = t.choice("wrap", ["none", "template", "Template", "TEMPLATE"])
    src = join(parts) if w == "none" else "<" + w + ">\n" + join(parts) + "</" + w + ">"
    expect(t, b, src, "tag " + s)
    t.cover("spelled")


def everywhere(t, hi):
    """all the tags in short"""
    b = Base(t, hi)
    n = t.choice("spelling", [0, 1, 2])
    up = t.bool("upper")
    parts = []
    for k, a, x in b.tags():
        s = SPELL[k][n % len(SPELL[k])]
        parts.append(write(k, a, x, spell=s.upper() if up else s))
    expect(t, b, t.choice("before", ["", "\n", "  \n\n"]) + t.choice("between", ["\n", "", "\n\n", "  "]).join(parts), "short tags")
    t.cover("spelled")


def moved(t, which, hi, twice=False):
    """tags in another order"""
    b = Base(t, hi)
    parts = [write(k, a, x) for k, a, x in b.tags()]
    order = list(range(NT))
    for n in range(2 if twice else 1):
        order.remove(which)
        order.insert(t.choice("to" + str(n), list(range(NT))), which)
        which = t.choice("next", [(which + 1) % NT, (which + 3) % NT]) if twice and n == 0 else which
    if t.bool("reverse"):
        order = order[::-1]
    if t.bool("wrapped"):
        expect(t, b, "<template>\n" + join([parts[i] for i in order]) + "</template>", "order")
    else:
        expect(t, b, join([parts[i] for i in order]), "order")
    t.cover("moved")


def attributes(t, which, hi):
    """order, quotes and blanks of attributes"""
    b = Base(t, hi)
    quote = t.choice("quote", ['"', "'"])
    eq = t.choice("equals", ["=", " = ", "= "])
    sep = t.choice("blank", [" ", "\n", "  ", "\t"])
    parts = []
    for i, (k, a, x) in enumerate(b.tags()):
        if i != which:
            parts.append(write(k, a, x))
            continue
        if t.bool("reversed"):
            a = a[::-1]
        parts.append(write(k, a, x, quote=quote, eq=eq, sep=sep, closed=t.bool("closed")))
    expect(t, b, join(parts), "attributes")
    t.cover("spelled")


# ------------------------------------------------ comments
def attribute_case(t, which, hi):
    """names of group attributes are known in any case"""
    v, w = t.char("v", exclude=NONSPACE_EXCL), t.char("w", exclude=NONSPACE_EXCL)
    case = lambda a: t.choice("case_" + a, [a, a.upper(), a.title()])
    if which == "method":
        m = t.choice("method", ["table", "Table", " TABLE "])
        tpl = '<group %s="g*" %s="%s">\nx {{ a }}\ny {{ a }}\n</group>' % (case("name"), case("method"), m)
        want = {"g": [{"a": v}, {"a": w}]}
    elif which == "default":
        tpl = '<group %s="g*" %s="z">\nx {{ a }}\ny {{ b }}\nn {{ c }}\n</group>' % (case("name"), case("default"))
        want = {"g": [{"a": v, "b": w, "c": "z"}]}
    elif which == "functions":
        tpl = '<group %s="g*" %s="set(n, m) | del(b)">\nx {{ a }}\ny {{ b }}\n</group>' % (case("name"), case("functions"))
        want = {"g": [{"a": v, "m": "n"}]}
    elif which == "void":
        tpl = '<group name="k*">\nx {{ a }}\n</group>\n<group %s="g*" %s="">\nx {{ a }}\ny {{ b }}\n</group>' % (case("name"), case("void"))
        want = {"k": [{"a": v}]}
    t.eq(only(tpl, "x " + v + "\ny " + w), want, "attributes in another case")
    t.cover("spelled")


def comment(t, kind, hi, top):
    """comments, blank lines and unknown tags change nothing"""
    b = Base(t, 1)
    c = t.str("c", 0, hi, exclude="<>&-\r\n\x0b\x0c\x1c\x85\u2028")
    if kind == "hash":
        c = t.choice("indent", ["", " ", "\t"]) + "##" + c
        if t.bool("with variable"):
            c += " k {{ k }}"
        c += "\n"
    elif kind == "xml":
        c = "<!--" + c + t.choice("more", ["", "\nk {{ k }}\n", "<group name='z'>\nk {{ k }}\n</group>", "{{ z }}"]) + "-->"
    elif kind == "unknown":
        c = t.choice("tag", ["<foo>" + c + "</foo>", "<groups name='g'>\nk {{ k }}\n" + c + "</groups>\n", "<description/>"])
    else:
        c = t.choice("blank", ["\n", " \n", "\t \n\n"])
    if top:
        parts = [write(k, a, x) for k, a, x in b.tags()]
        n = t.choice("place", [0, 4, 5, NT])
        parts.insert(n, c)
        src = join(parts)
    else:
        g = ['<group name="g*">', 'k {{ k | macro("mm") }}', '{{ s | set("a") }}', '<group name="c">', 'm {{ m | lookup("L", add_field="r") }}', "</group>", "</group>"]
        n = t.choice("place", [1, 2, 3, 4, 5, 6])
        # a comment starts on a line of its own
        g[n - 1] += "\n" + (c[:-1] if c[-1:] == "\n" else c)
        src = join([join(g) if i == 4 else write(k, a, x) for i, (k, a, x) in enumerate(b.tags())])
    expect(t, b, src, "comment")
    t.cover("comment")


# ------------------------------------------------ ways to load it
def loaded(t, way, hi):
    b = Base(t, hi)
    src = join([write(k, a, x) for k, a, x in b.tags()])
    FILES.clear()
    os.environ.pop("TTP_TEMPLATES_DIR", None)
    FILES["other.txt"] = "<group name='z'>\nk {{ k }}\n</group>"
    if way == "text":
        path = src
    elif way == "file":
        FILES["tpl.txt"] = src
        path = DIR + "tpl.txt"
    elif way == "templates dir":
        FILES["some/path/tpl.txt"] = src
        os.environ["TTP_TEMPLATES_DIR"] = DIR
        path = "some/path/tpl.txt"
    elif way == "no templates dir":
        os.environ["TTP_TEMPLATES_DIR"] = DIR
        path = src
    elif way == "directory":
        FILES["d/tpl.txt"] = src
        path = DIR + "d/"
    else:
        import sys
        import types
        m = types.ModuleType("ttp_templates")
        m.get_template = lambda path: src if path == "misc/tpl.txt" else None
        sys.modules["ttp_templates"] = m
        path = "ttp://misc/tpl.txt"
    how = t.choice("how", ["constructor", "add_template", "named"])
    if how == "constructor":
        load = None
    elif how == "add_template":
        def load(x):
            p = ttp(log_level="CRITICAL")
            p.add_template(x)
            return p
    else:
        def load(x):
            p = ttp(log_level="CRITICAL")
            p.add_template(template=x, template_name="T")
            return p
    p = expect(t, b, path, "loaded " + way, load)
    name = "T" if how == "named" else "_root_template_"
    t.eq(p.result(structure="dictionary"), {name: b.results()[0]}, "name")
    os.environ.pop("TTP_TEMPLATES_DIR", None)
    t.cover("loaded")


def directory(t):
    """each file of a directory is a template"""
    k = val(t, "k")
    FILES.clear()
    n = t.choice("files", [0, 1, 2, 3])
    names = ["a.txt", "b", "c.x.y"][:n]
    for i, f in enumerate(names):
        FILES["d/" + f] = "<group name='" + "abc"[i] + "'>\nk {{ k }}\n</group>"
    FILES["e.txt"] = "<group name='e'>\nk {{ k }}\n</group>"
    p = ttp(log_level="CRITICAL")
    p.add_template(DIR + "d/")
    p.add_input("k " + k, template_name="_all_")
    p.parse(one=True)
    t.eq(p.result(), [[{"abc"[i]: {"k": k}}] for i in range(n)], "directory")
    t.cover("loaded")


# ------------------------------------------------ names and filters
def named(t, top, n, hi):
    """names of templates, and filters of add_template"""
    names = [t.str("n" + str(i), 1, hi, alphabet="abT_") for i in range(n)]
    for i in range(n):
        for j in range(i):
            t.assume(names[i] != names[j])
    k = val(t, "k")
    body = lambda i: "<group name='g" + "xyz"[i] + "'>\nk {{ k }}\n</group>\n"
    out = []
    p = ttp(log_level="CRITICAL")
    f = t.choice("filters", ["none", "empty", "one", "two", "other"])
    filters = {"none": None, "empty": [], "one": [t.str("f", 1, hi, alphabet="abT_")], "other": ["zz"]}.get(f)
    if f == "two":
        filters = [t.str("f", 1, hi, alphabet="abT_"), t.str("f2", 1, hi, alphabet="abT_")]
    keep = lambda x: not filters or x in filters
    if top == "each":
        # templates added one by one under names of the argument or of the tag
        for i in range(n):
            if t.bool("tag" + str(i)):
                p.add_template("<template name='" + names[i] + "'>\n" + body(i) + "</template>", template_name="zz" if f != "other" else "zx", filters=filters)
            else:
                p.add_template(body(i), template_name=names[i], filters=filters)
            out.append((names[i], "xyz"[i] if keep(names[i]) else None))
    else:
        src = "".join("<template name='" + names[i] + "'>\n" + body(i) + "</template>\n" for i in range(n))
        if top == "wrapped":
            src = "<template>\n" + src + "</template>"
        elif top == "wrapped named":
            src = "<template name='root'>\n" + src + "</template>"
        p.add_template(src, filters=filters)
        out = [(names[i], "xyz"[i]) for i in range(n) if keep(names[i])]
    p.add_input("k " + k, template_name="_all_")
    p.parse(one=True)
    if top != "each" and out == []:
        got = p.result()
        # nothing is left to parse
        t.check(got == [[{}]] or got == [] or got == [[]], "nothing loaded")
        t.cover("filtered")
        return
    res = [[{"g" + g: {"k": k}} if g else {}] for _, g in out]
    t.eq(p.result(), res, "templates kept")
    t.eq(p.result(structure="dictionary"), {out[i][0]: res[i] for i in range(len(out))}, "names")
    one = t.choice("one", list(range(len(out))))
    t.eq(p.result(templates=out[one][0]), [res[one]], "result of a template by name")
    p.clear_result(templates=out[one][0])
    t.eq(p.result(), [[] if i == one else r for i, r in enumerate(res)], "results cleared by name")
    t.cover("filtered" if filters else "named")


def unnamed(t):
    """nested templates without names have their number for a name"""
    k = val(t, "k")
    n = t.choice("n", [2, 3])
    which = t.choice("named", [None, 0, 1])
    src = ""
    names = []
    for i in range(n):
        names.append("N" if i == which else str(i))
        src += "<template" + (" name='N'" if i == which else "") + ">\n<group name='" + "xyz"[i] + "'>\nk {{ k }}\n</group>\n</template>\n"
    p = ttp(log_level="CRITICAL")
    p.add_template(src)
    p.add_input("k " + k, template_name="_all_")
    p.parse(one=True)
    t.eq(p.result(), [[{"xyz"[i]: {"k": k}}] for i in range(n)], "templates")
    t.eq(p.result(structure="dictionary"), {names[i]: [{"xyz"[i]: {"k": k}}] for i in range(n)}, "numbers")
    t.cover("named")


def inherited(t, load):
    """variables, lookups and base path of the parser arrive in every template"""
    k, v = val(t, "k"), t.str("v", 1, 2, exclude=NOX)
    when = t.choice("when", ["before", "after", "constructor"])
    extra = t.choice("templates", ["one", "two", "nested"])
    g = "<group name='g'>\nk {{ k | lookup('L', add_field='r') }}\n{{ s | set('var') }}\n</group>\n"
    tpls = {"one": [g], "two": [g, g], "nested": ["<template name='a'>\n" + g + "</template>\n<template name='b'>\n" + g + "</template>"]}[extra]
    p = ttp(vars={"var": v}, log_level="CRITICAL") if when == "constructor" else ttp(log_level="CRITICAL")
    table = lambda: p.add_lookup("L", text_data=load[1], load=load[0], **({"key": "id"} if load[0] == "csv" else {}))
    if when == "before":
        p.add_vars({"var": v})
    for x in tpls:
        p.add_template(x)
    if when == "after":
        p.add_vars({"var": v})
    # lookup tables are added to the templates loaded so far
    table()
    p.add_input("k " + k, template_name="_all_")
    p.parse(one=True)
    r = {"k": k, "s": v}
    if k == "x":
        r["r"] = {"q": "one"}
    t.eq(p.result(), [[{"g": r}]] * (1 if extra == "one" else 2), "parser variables and lookups")
    t.cover("named")


NOX = "\r\n\x0b\x0c\x1c\x85\u2028"
LOADS = {"csv": ("csv", "id,q\nx,one\n"), "python": ("python", "{'x': {'q': 'one'}}"), "json": ("json", '{"x": {"q": "one"}}'), "yaml": ("yaml", "x:\n  q: one\n"), "ini": ("ini", "[x]\nq = one\n"), "ini default": ("ini", "[DEFAULT]\nq = one\n[x]\n[yyy]\nq = two\n")}


# ------------------------------------------------ parameters of inputs
def parameters(t, n, load, hi):
    """get_input_load: what the text of each input tag says"""
    src = ""
    exp = {}
    p = ttp(log_level="CRITICAL")
    for i in range(n):
        name = ["A", "B"][i]
        exp[name] = {}
        src += "<template name='" + name + "'>\n"
        m = t.choice("inputs" + str(i), [0, 1, 2])
        for j in range(m):
            s = t.str("s" + str(i) + str(j), 1, hi, exclude=NOX + "<>&'\"\\\t%#{}[]:,= ;")
            # words that mean something else in yaml are out of the question here
            t.assume(not s.isdigit() if load == "yaml" else True)
            named = t.bool("named" + str(i) + str(j)) if m == 1 else j == 0
            iname = "i1" if named else "Default_Input"
            if load == "python":
                body = 'par = "' + s + '"\nnum = 7\nurl = ""\n'
                val_ = {"par": s, "num": 7, "url": ""}
            elif load == "json":
                body = '{"par": "' + s + '", "num": 7}'
                val_ = {"par": s, "num": 7}
            else:
                body = 'par: "' + s + '"\nnum: 7\nlst: [1, x]\n'
                val_ = {"par": s, "num": 7, "lst": [1, "x"]}
            src += "<input" + (" name='i1'" if named else "") + " load='" + load + "'>\n" + body + "</input>\n"
            exp[name][iname] = val_
        src += "<group name='g'>\nk {{ k }}\n</group>\n</template>\n"
    p.add_template(src)
    t.eq(p.get_input_load(), exp, "get_input_load")
    t.cover("parameters")


# ------------------------------------------------ the template written back
def written_back(t, hi):
    """get_template gives a template that parses to the same results"""
    b = Base(t, 1)
    s = t.str("s", 0, hi, exclude=NOX + "\\\"'\t{}|<>&")
    which = t.choice("wrap", ["none", "template"])
    parts = [write(k, a, x) for k, a, x in b.tags()]
    parts[4] = '<group name="g*">\nk {{ k | macro("mm") }}\n{{ s | set("a") }}\n{{ q | set("' + s + '") }}\n' + CHILD + "</group>"
    src = join(parts)
    if which == "template":
        src = "<template results='per_input'>" + src + "</template>"
    p = results(b, src)
    r = p.result()
    exp = b.results()
    for rec in exp[0][0][1]["g"]:
        rec["q"] = s
    t.assume(s != "a" and s != "")
    t.eq(r, exp, "results")
    q = results(b, p.get_template())
    t.eq(q.result(), r, "results of the template written back")
    t.eq(q.get_template(), p.get_template(), "written back twice")
    t.cover("written back")


# ------------------------------------------------ more of it
def large(t, kind):
    """many tags of one kind, many templates"""
    n = 9
    at = t.choice("at", [0, 2, n - 2, n - 1])
    x = val(t, "x", 2)
    L = "abcdefhjk"
    if kind == "templates":
        names = ["T" + c for c in L]
        src = "".join("<template name='T%s'>\n<group name='g%s'>\nk {{ %s }}\n</group>\n</template>\n" % (c, c, c) for c in L)
        keep = t.choice("keep", [None, [names[at]], names[at:]])
        p = ttp(log_level="CRITICAL")
        p.add_template(src, filters=keep)
        p.add_input("k " + x, template_name="_all_")
        p.parse(one=True)
        left = [c for c in L if keep is None or "T" + c in keep]
        t.eq(p.result(), [[{"g" + c: {c: x}}] for c in left], "many templates")
        t.eq(p.result(structure="dictionary"), {"T" + c: [{"g" + c: {c: x}}] for c in left}, "many names")
        t.cover("filtered")
        return
    if kind == "added":
        p = ttp(log_level="CRITICAL")
        for c in L:
            p.add_template("<group name='g%s'>\nk {{ %s }}\n</group>" % (c, c), template_name="T" + c)
        p.add_input("k " + x, template_name="T" + L[at])
        p.parse(one=True)
        t.eq(p.result(structure="dictionary"), {"T" + c: [{"g" + c: {c: x}}] if c == L[at] else [] for c in L}, "many templates added")
        t.cover("named")
        return
    if kind == "vars":
        src = "".join("<vars>\nv%s = '%s'\n</vars>\n" % (c, c * 3) for c in L)
        src += "<group name='g'>\nk {{ k }}\n" + "".join("{{ s%s | set('v%s') }}\n" % (c, c) for c in L) + "</group>"
        want = dict({"s" + c: c * 3 for c in L}, k=x)
    elif kind == "named vars":
        src = "".join("<vars name='p.n%s'>\nv%s = '%s'\n</vars>\n" % (c, c, c * 3) for c in L) + "<group name='g'>\nk {{ k }}\n</group>"
        t.eq(only(src, "k " + x), {"g": {"k": x}, "p": {"n" + c: {"v" + c: c * 3} for c in L}}, "many tags of variables")
        t.cover("written back")
        return
    elif kind == "lookups":
        src = "".join("<lookup name='l%s' load='csv'>\nid,q\nm,1%s\n</lookup>\n" % (c, c) for c in L)
        src += "<group name='g'>\nk {{ k | lookup('l%s', add_field='r') }}\n</group>" % L[at]
        want = {"k": x}
        if x == "m":
            want["r"] = {"q": "1" + L[at]}
    elif kind == "macros":
        src = "".join("<macro>\ndef f%s(data):\n    return data + '%s'\n</macro>\n" % (c, c) for c in L)
        src += "<group name='g'>\nk {{ k | macro('f%s') | macro('f%s') }}\n</group>" % (L[at], L[n - 1 - at])
        want = {"k": x + L[at] + L[n - 1 - at]}
    elif kind == "one macro":
        src = "<macro>\n" + "".join("def f%s(data):\n    return data + '%s'\n\n" % (c, c) for c in L) + "</macro>\n"
        src += "<group name='g'>\nk {{ k | macro('f%s') | macro('f%s') }}\n</group>" % (L[at], L[n - 1 - at])
        want = {"k": x + L[at] + L[n - 1 - at]}
    elif kind == "outputs":
        src = "<group name='g'>\nk {{ k }}\n</group>\n<macro>\n" + "".join("def f%s(data):\n    return [data, '%s']\n\n" % (c, c) for c in L) + "</macro>\n"
        order = L[at:] + L[:at]
        src += "".join("<output macro='f%s'/>\n" % c for c in order)
        res = [[{"g": {"k": x}}]]
        res = res[0]
        for c in order:
            res = [res, c]
        p = results_of(src, "k " + x)
        t.eq(p.result(), [res], "many outputs")
        t.cover("written back")
        return
    else:
        src = "".join("<group name='g%s'>\n%s {{ k }}\n</group>\n" % (c, c) for c in L)
        d = "".join("%s %s\n" % (c, x if c == L[at] else "v") for c in L[::-1])
        t.eq(only(src, d), {"g" + c: {"k": x if c == L[at] else "v"} for c in L}, "many groups")
        t.cover("written back")
        return
    t.eq(only(src, "k " + x), {"g": want}, "many tags")
    t.cover("written back")


def results_of(src, data):
    p = ttp(template=src, log_level="CRITICAL")
    p.add_input(data)
    p.parse(one=True)
    return p


def jobs(tier):
    th = tier == "thorough"
    hi = 2 if th else 1
    out = []
    for i in range(NT):
        if i not in (1, 2, 3):
            out.append((spelling, {"which": i, "hi": hi}))
    for i in (1, 2, 3):
        out.append((spelling, {"which": i, "hi": 1}))
    out.append((everywhere, {"hi": hi}))
    for i in range(NT):
        out.append((moved, {"which": i, "hi": 1}))
        if th:
            out.append((moved, {"which": i, "hi": 1, "twice": True}))
    for i in (0, 1, 5, 6, 7):
        out.append((attributes, {"which": i, "hi": 1}))
    for kind in ("hash", "xml", "blank", "unknown"):
        for top in (True, False):
            if (kind, top) in (("hash", True), ("unknown", False)):
                continue
            out.append((comment, {"kind": kind, "hi": 3 if th else 2, "top": top}))
    for way in ("text", "file", "templates dir", "no templates dir", "directory", "ttp"):
        out.append((loaded, {"way": way, "hi": hi}))
    out.append((directory, {}))
    for top in ("each", "nested", "wrapped", "wrapped named"):
        for n in (1, 2, 3):
            if n == 1 and top == "nested":
                continue
            out.append((named, {"top": top, "n": n, "hi": 1 if n == 3 and not th else 2 if n < 3 else 1}))
    out.append((unnamed, {}))
    for l in LOADS:
        out.append((inherited, {"load": LOADS[l]}))
    for load in ("python", "json", "yaml"):
        for n in (1, 2):
            out.append((parameters, {"n": n, "load": load, "hi": 2 if n == 1 or th else 1}))
    for which in ("method", "default", "functions"):
        out.append((attribute_case, {"which": which, "hi": 1}))
    for kind in ("templates", "added", "vars", "named vars", "lookups", "macros", "one macro", "outputs", "groups"):
        out.append((large, {"kind": kind}))
    out.append((written_back, {"hi": 3 if th else 2}))
    return [(f.__name__, p) for f, p in out]
