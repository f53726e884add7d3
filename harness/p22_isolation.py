"""P22: parser objects do not influence one another or their own next parse."""
import copy
from hlib import *

COVERS = ["two parsers", "one parser again", "parser in between", "objects unchanged"]
BOUNDS = {
    "quick": "20 kinds of templates (macros of match, group, input and output, lookups, template variables, values recorded, counted and set, defaults, registered functions of six scopes, hostnames, dynamic paths, results of another "
             "template, outputs); two parsers of every pair of kinds, every order of 3 calls of parse with arbitrary values of one character; 2-3 templates of one parser with and without variables and lookups; one parser parsing two arbitrary texts after clearing" "; cases beyond usual size (9-20 of a kind): seven templates in one parser",
    "thorough": "every order of 4 calls (3 for lookups and recorded values), values of up to 2 characters, all ordered pairs of kinds",
}

G = "<group name='g*'>\nx {{ x%s }}\n</group>\n"
EXCL = NONSPACE_EXCL


# every kind: (template for a tag, data for value v, results for value v, setup of the parser)
def k_macro(tag):
    return ("<macro>\ndef m(data):\n    return data + '%s'\n</macro>\n" % tag + G % " | macro('m')", lambda v: "x " + v + "\n", lambda v: [{"g": [{"x": v + tag}]}], None)


def k_gmacro(tag):
    return ("<macro>\ndef m(data):\n    data['t'] = '%s'\n    return data\n</macro>\n<group name='g*' macro='m'>\nx {{ x }}\n</group>" % tag, lambda v: "x " + v + "\n", lambda v: [{"g": [{"x": v, "t": tag}]}], None)


def k_imacro(tag):
    return ("<macro>\ndef m(data):\n    return data + 'x %s\\n\\n'\n</macro>\n<input name='i' macro='m'/>\n<group name='g*' input='i'>\nx {{ x }}\n</group>" % tag, lambda v: "x " + v, lambda v: [{"g": [{"x": v}, {"x": tag}]}], None)


def k_omacro(tag):
    return ("<macro>\ndef m(data):\n    return [data, '%s']\n</macro>\n<output macro='m'/>\n" % tag + G % "", lambda v: "x " + v + "\n", lambda v: [[{"g": [{"x": v}]}], tag], None)


def k_lookup(tag):
    return ("<lookup name='t'>\n{'a': '%s', 'b': {'c': '%s'}}\n</lookup>\n" % (tag, tag) + G % " | lookup('t', add_field='f')", lambda v: "x " + v + "\n",
            lambda v: [{"g": [{"x": v, "f": tag} if v == "a" else {"x": v, "f": {"c": tag}} if v == "b" else {"x": v}]}], None)


def k_group_lookup(tag):
    return ("<lookup name='t'>\n{'a': {'c': '%s'}}\n</lookup>\n<group name='g*' lookup=\"'x', name='t', add_field='f'\">\nx {{ x }}\n</group>" % tag, lambda v: "x " + v + "\n",
            lambda v: [{"g": [{"x": v, "f": {"c": tag}} if v == "a" else {"x": v}]}], None)


def k_vars(tag):
    return ("<vars name='v'>\na = '%s'\n</vars>\n<group name='g*'>\nx {{ x | append(a) }}\n{{ y | set(a) }}\n{{ z | default('a') }}\n</group>" % tag, lambda v: "x " + v + "\n",
            lambda v: [{"v": {"a": tag}, "g": [{"x": v + tag, "y": tag, "z": tag}]}], None)


def k_record(tag):
    """the value recorded for a text is not there for the next one that has none"""
    return ("<vars>\nr = '%s'\n</vars>\n<group name='g*'>\nx {{ x }}\ny {{ y | record(r) }}\nz {{ z | set(r) }}\n{{ w | set(r) }}\n</group>" % tag,
            lambda v: "x " + v + "\nz\n" if v == "a" else "x 1\ny " + v + "\nz\n",
            lambda v: [{"g": [{"x": v, "z": tag, "w": tag}]}] if v == "a" else [{"g": [{"x": "1", "y": v, "z": v, "w": v}]}], None)


def k_count(tag):
    return ("<vars>\nc = %d\n</vars>\n<group name='g*'>\nx {{ x | count(c) }}\n{{ n | set(c) }}\n</group>" % (0 if tag == "A" else 5), lambda v: "x " + v + "\nx 2\n",
            lambda v: [{"g": [{"x": v, "n": 2 if tag == "A" else 7}, {"x": "2", "n": 2 if tag == "A" else 7}]}], None)


def k_registered(scope):
    def k(tag):
        def match(data, *a):
            return data + tag, None

        def group(data, *a):
            data["x"] = data["x"] + tag
            return data, None

        def inp(data, *a):
            return data.rstrip("\n") + tag + "\n\n", None

        def output(data, *a):
            return [data, tag]

        def variable(data, name):
            return tag

        def macro(data):
            return data + tag
        use = {"match": G % " | fun", "group": "<group name='g*' fun=''>\nx {{ x }}\n</group>", "input": "<input name='i' fun=''/>\n<group name='g*' input='i'>\nx {{ x }}\n</group>",
               "output": "<output fun=''/>\n" + G % "", "variable": "<vars name='v'>\na = 'fun'\n</vars>\n" + G % "", "macro": G % " | macro('fun')"}
        f = {"match": match, "group": group, "input": inp, "output": output, "variable": variable, "macro": macro}[scope]

        def want(v):
            r = [{"g": [{"x": v if scope in ("output", "variable") else v + tag}]}]
            if scope == "variable":
                r[0]["v"] = {"a": tag}
            return [r, tag] if scope == "output" else r
        return (use[scope], lambda v: "x " + v + "\n", want, lambda p: p.add_function(f, scope=scope, name="fun"))
    return k


def k_hostname(tag):
    return ("<vars name='v'>\nh = 'gethostname'\n</vars>\n" + G % "", lambda v: tag + "#show\nx " + v + "\n", lambda v: [{"v": {"h": tag}, "g": [{"x": v}]}], None)


def k_dynamic(tag):
    return ("<group name='g.{{ x }}'>\nx {{ x }} {{ y }}\n</group>", lambda v: "x 1 " + v + "\n", lambda v: [{"g": {(1 if tag == "A" else "1"): {"y": v}}}], None)


def k_table(tag):
    return ("<output name='%s' format='table' headers='x, %s' missing='%s'/>\n" % (tag, tag, tag) + "<group name='_anonymous_'>\nx {{ x }}\n</group>", lambda v: "x " + v + "\n",
            lambda v: [["x", tag], [v, tag]], None)


def k_equal(tag):
    return ("<output is_equal='' name='%s' load='python'>\n[{'g': [{'x': '%s'}]}]\n</output>\n" % (tag, tag) + G % "", lambda v: "x " + v + "\n",
            lambda v: {"is_equal": v == tag, "output_description": "None", "output_name": tag}, None)


def k_file(tag):
    return (G % " | to_list | joinmatches", lambda v: "x " + v + "\nx 1\n", lambda v: [{"g": [{"x": [v]}, {"x": ["1"]}]}], None)


def k_add_ttp(tag):
    """a function that asks for the parser's own dictionary"""
    space = {}
    exec("def fun(data, *a):\n    return data + _ttp_['vars']['w'] + _ttp_['macro']['mm']('-'), None\n", space)
    return ("<vars>\nw = '%s'\n</vars>\n<macro>\ndef mm(data):\n    return data + '%s'\n</macro>\n" % (tag, tag) + G % " | fun", lambda v: "x " + v + "\n",
            lambda v: [{"g": [{"x": v + tag + "-" + tag}]}], lambda p: p.add_function(space["fun"], scope="match", name="fun", add_ttp=True))


KINDS = {"add_ttp": k_add_ttp, "macro": k_macro, "group macro": k_gmacro, "input macro": k_imacro, "output macro": k_omacro, "lookup": k_lookup, "group lookup": k_group_lookup, "vars": k_vars, "record": k_record, "count": k_count,
         "match": k_registered("match"), "group": k_registered("group"), "input": k_registered("input"), "output": k_registered("output"), "variable": k_registered("variable"), "macro function": k_registered("macro"),
         "hostname": k_hostname, "dynamic": k_dynamic, "table": k_table, "equal": k_equal, "list": k_file}


class Obj(object):
    """a parser of one kind"""

    def __init__(self, kind, tag):
        self.tpl, self.data, self.want, setup = KINDS[kind](tag)
        self.p = ttp(log_level="CRITICAL", dynamic_path_key_to_int=(tag == "A"))
        if setup is not None:
            setup(self.p)
        self.p.add_template(self.tpl)
        self.iname = "i" if "input='i'" in self.tpl else "Default_Input"

    def parse(self, t, v, msg):
        self.p.add_input(text(t, self.data(v)), input_name=self.iname)
        self.p.parse(one=True)
        r = self.p.result()
        t.eq(r, [self.want(v)], msg)
        # clear_input forgets inputs defined by tags; results are cleared as well
        self.p.clear_result()
        for i in self.p._templates[0].inputs.values():
            i.data = []


def schedule(t, ka, kb, steps, n):
    """two parsers and calls of parse of either, in every order"""
    objs = [Obj(ka, "A")]
    late = t.bool("late")            # the second parser made after the first parse of the first
    if not late:
        objs.append(Obj(kb, "B"))
    for i in range(steps):
        if late and i == 1:
            objs.append(Obj(kb, "B"))
        who = 0 if len(objs) == 1 else t.choice("who%d" % i, [0, 1])
        v = t.str("v%d" % i, 1, n, exclude=EXCL)
        objs[who].parse(t, v, "results of parser %s at call %d" % ("AB"[who], i))
    t.cover("two parsers")


def between(t, ka, n):
    """a parser made and used while the first has inputs but has not parsed"""
    a = Obj(ka, "A")
    v = t.str("v", 1, n, exclude=EXCL)
    a.p.add_input(text(t, a.data(v)), input_name=a.iname)
    b = Obj(ka, "B")
    w = t.str("w", 1, n, exclude=EXCL)
    b.parse(t, w, "results of the parser in between")
    a.p.parse(one=True)
    t.eq(a.p.result(), [a.want(v)], "results of the first parser")
    c = Obj(ka, "A")
    c.parse(t, w, "results of a third parser")
    t.cover("parser in between")


def rendering(t, fmt, n):
    """results rendered after other parsers were used"""
    va = t.str("va", 1, n, exclude=EXCL + '"')
    vb = t.str("vb", 1, n, exclude=EXCL + '"')
    ps = []
    for v in (va, vb):
        p = ttp(template="<group name='g*'>\nx {{ x }}\n</group>", log_level="CRITICAL")
        p.add_input(text(t, "x " + v + "\n"))
        p.parse(one=True)
        ps.append(p)
    for p, v in ((ps[0], va), (ps[1], vb), (ps[0], va)):
        if fmt == "table":
            t.eq(p.result(format="table", path="g"), [[["x"], [v]]], "table")
        elif fmt == "csv":
            t.eq(p.result(format="csv", path="g"), ['"x"\n"' + v + '"'], "csv")
        else:
            t.eq(p.result(functions="traverse('g')"), [[[{"x": v}]]], "traverse")
    t.cover("two parsers")


def one(t, kind, n):
    """one parser, two texts, cleared in between; nothing of the template changes"""
    a = Obj(kind, "A")
    tpl = a.p._templates[0]
    snap = [copy.deepcopy({k: v for k, v in tpl.vars.items()}), copy.deepcopy(tpl.lookups), copy.deepcopy([g.defaults for g in tpl.groups])]
    for i in range(2):
        a.parse(t, t.str("v%d" % i, 1, n, exclude=EXCL), "results of call %d" % i)
        t.eq([tpl.vars, tpl.lookups, [g.defaults for g in tpl.groups]], snap, "variables, tables and defaults")
    t.cover("one parser again")
    t.cover("objects unchanged")


CONTAINERS = {
    "lookup": ("<lookup name='t'>\n{'a': {'c': {'d': 'e'}, 'l': ['m']}}\n</lookup>\n<group name='g*'%s>\nx {{ x | lookup('t') }}\n%s</group>", {"c": {"d": "e"}, "l": ["m"]}),
    "lookup field": ("<lookup name='t'>\n{'a': {'c': {'d': 'e'}, 'l': ['m']}}\n</lookup>\n<group name='g*'%s>\nx {{ y | lookup('t', add_field='x') }}\n%s</group>", {"c": {"d": "e"}, "l": ["m"]}),
    "rlookup": ("<lookup name='t'>\n{'a': {'c': {'d': 'e'}, 'l': ['m']}}\n</lookup>\n<group name='g*'%s>\nx {{ x | rlookup('t') }}\n%s</group>", {"c": {"d": "e"}, "l": ["m"]}),
    "group lookup": ("<lookup name='t'>\n{'a': {'c': {'d': 'e'}, 'l': ['m']}}\n</lookup>\n<group name='g*' lookup=\"'x', name='t'\"%s>\nx {{ x }}\n%s</group>", {"c": {"d": "e"}, "l": ["m"]}),
    "set": ("<vars>\nb = {'c': {'d': 'e'}, 'l': ['m']}\n</vars>\n<group name='g*'%s>\nx {{ y }}\n{{ x | set(b) }}\n%s</group>", {"c": {"d": "e"}, "l": ["m"]}),
    "default": ("<vars>\nb = {'c': {'d': 'e'}, 'l': ['m']}\n</vars>\n<group name='g*'%s>\nx {{ y }}\nX {{ x | default(b) }}\n%s</group>", {"c": {"d": "e"}, "l": ["m"]}),
}


def containers(t, how, n, m):
    """a dictionary of a table or variable placed in results: what is put below it by the text of one record is in no other record or parse"""
    tpl, table = CONTAINERS[how]
    kind = t.choice("kind", ["child", "child deep", "child list"])
    child = {"child": "<group name='x'>\nk {{ k }}\n</group>\n", "child deep": "<group name='x.c'>\nk {{ k }}\n</group>\n", "child list": "<group name='x.n*'>\nk {{ k }}\n</group>\n"}[kind]
    p = ttp(template=tpl % ("", child), log_level="CRITICAL")
    for call in range(2):
        body, want = "", []
        for i in range(m):
            body += "x a\n"
            r = {"x": copy.deepcopy(table)}
            if how in ("lookup field", "set", "default"):
                r["y"] = "a"
            if t.bool("k%d%d" % (call, i)):
                v = t.str("v%d%d" % (call, i), 1, n, exclude=EXCL)
                body += "k " + v + "\n"
                if kind == "child deep":
                    r["x"]["c"] = [r["x"]["c"], {"k": v}]
                elif kind == "child list":
                    r["x"]["n"] = [{"k": v}]
                else:
                    r["x"] = [r["x"], {"k": v}]     # a second record of the same path
            want.append(r)
        p.add_input(text(t, body))
        p.parse(one=True)
        t.eq(p.result(), [[{"g": want}]], "results of call %d" % call)
        p.clear_input()
        p.clear_result()
    t.cover("objects unchanged")


def user_changes(t, how):
    """results belong to the user, who may change them"""
    tpl, table = CONTAINERS[how]
    p = ttp(template=tpl % ("", ""), log_level="CRITICAL")
    v = t.str("v", 1, 1, exclude=EXCL)
    for call in range(2):
        p.add_input("x a\n")
        p.parse(one=True)
        r = p.result()[0][0]["g"][0]
        t.eq(r["x"], table, "results of call %d" % call)
        r["x"]["c"]["d"] = v
        r["x"]["l"].append(v)
        p.clear_input()
        p.clear_result()
    t.cover("objects unchanged")


def given_vars(t, n):
    """a dictionary given to several parsers is not changed"""
    v, w = t.str("v", 1, n, exclude=EXCL), t.str("w", 1, n, exclude=EXCL)
    d = {"a": v}
    p = ttp(template=G % " | append(a)", vars=d, log_level="CRITICAL")
    p.add_vars({"b": "1", "a": w})
    t.eq(d, {"a": v}, "dictionary given as variables")
    q = ttp(template=G % " | append(a) | append(b)", vars=d, log_level="CRITICAL")
    q.add_input("x 1\n")
    q.parse(one=True)
    p.add_input("x 1\n")
    p.parse(one=True)
    t.eq(q.result(), [[{"g": [{"x": "1" + v + "b"}]}]], "second parser")
    t.eq(p.result(), [[{"g": [{"x": "1" + w}]}]], "first parser")
    t.cover("two parsers")


def vars_of_templates(t, order, n):
    """variables and lookups of one template are not there for another, variables given to the parser are there for all"""
    v, w, own = t.str("v", 1, n, exclude=EXCL), t.str("w", 1, n, exclude=EXCL), t.str("own", 1, n, exclude=EXCL)
    d = {"a": v, "b": "B"}
    p = ttp(vars=d, log_level="CRITICAL")
    pieces = {
        "tags": "<vars>\nc = 'one'\nb = 'mine'\n</vars>\n<lookup name='L' load='python'>\nL2 = {'k': 'kk'}\n</lookup>\n",
        "named": "<vars name='vv'>\nc = 'one'\nb = 'mine'\n</vars>\n",
        "none": "",
    }
    body = "<group name='g'>\nx {{ x | append(a) }}\ny {{ y | append(c) | append(b) }}\nz {{ z | default(c) }}\n</group>\n"
    have = {"tags": ("one", "mine"), "named": ("one", "mine"), "none": ("c", "B")}
    for i, k in enumerate(order):
        p.add_template(pieces[k] + body, template_name="t%d" % i)
    p.add_input("x %s\ny %s\n" % (w, own), template_name="_all_")
    p.parse(one=True)
    want = []
    for k in order:
        c, b = have[k]
        r = {"g": {"x": w + v, "y": own + c + b, "z": c}}
        if k == "named":
            r["vv"] = {"b": "mine", "c": "one"}
        want.append([r])
    t.eq(p.result(), want, "results of the templates")
    t.eq(d, {"a": v, "b": "B"}, "dictionary given as variables")
    t.cover("two parsers")


def macros_of_templates(t, n):
    """macros of one template are not there for another"""
    v = t.str("v", 1, n, exclude=EXCL)
    p = ttp(template="<template name='one'>\n<macro>\ndef m(data):\n    return 'M'\n</macro>\n<output macro='m'/>\n" + G % "" + "</template>\n<template name='two'>\n<output macro='m'/>\n" + G % "" + "</template>", log_level="CRITICAL")
    p.add_input(text(t, "x " + v + "\n"), template_name="_all_")
    p.parse(one=True)
    t.eq(p.result(), ["M", [{"g": [{"x": v}]}]], "results of two templates")
    t.cover("two parsers")


def macros_registered(t, order, nested, registered, n):
    """macro functions given to the parser are there for all templates, macros of a template for it only"""
    v, w = t.str("v", 1, n, exclude=EXCL), t.str("w", 1, n, exclude=EXCL)
    p = ttp(log_level="CRITICAL")
    for name in registered:
        p.add_function(lambda data, name=name: data + w + name, scope="macro", name=name)
    body = G % " | macro('m') | macro('k')"
    own = {"none": "", "m": "<macro>\ndef m(data):\n    return data + 'M'\n</macro>\n", "k": "<macro>\ndef k(data):\n    return data + 'K'\n</macro>\n"}
    bodies = [own[k] + body for k in order]
    if nested:
        p.add_template("<template>\n" + "".join("<template name='t%d'>\n%s</template>\n" % (i, b) for i, b in enumerate(bodies)) + "</template>")
    else:
        for i, b in enumerate(bodies):
            p.add_template(b, template_name="t%d" % i)
    p.add_input(text(t, "x " + v + "\n"), template_name="_all_")
    p.parse(one=True)
    want = []
    for k in order:
        r = v
        for m in "mk":
            r = r + m.upper() if m == k else r + w + m if m in registered else r
        want.append([{"g": [{"x": r}]}])
    t.eq(p.result(), want, "results of the templates")
    t.cover("two parsers")


TABLES = ("lookup", "group lookup", "record")          # whose values fork


def large(t, nested):
    """seven templates in one parser"""
    vs = [t.char("v%d" % i, exclude=NONSPACE_EXCL) if i in (0, 5, 6) else "%d" % i for i in range(7)]
    body = lambda i: "<vars>\nm = 'm%d'\n</vars>\n<lookup name='l'>\n{'a': 'l%d'}\n</lookup>\n<macro>\ndef f(data):\n    return data + '%d'\n</macro>\n" % (i, i, i) + \
        "<group name='g*'>\ni {{ x | macro('f') }}\n{{ m | set('m') }}\nl {{ l | lookup('l') }}\n</group>\n"
    if nested:
        p = ttp(template="".join("<template name='t%d'>\n%s</template>\n" % (i, body(i)) for i in range(7)), log_level="CRITICAL")
    else:
        p = ttp(log_level="CRITICAL")
        for i in range(7):
            p.add_template(body(i), template_name="t%d" % i)
    for i in range(7):
        p.add_input("i " + vs[i] + "\nl a\n", template_name="t%d" % i)
    p.parse(one=True)
    want = {"t%d" % i: [{"g": [{"x": vs[i] + "%d" % i, "m": "m%d" % i, "l": "l%d" % i}]}] for i in range(7)}
    t.eq(p.result(structure="dictionary"), want, "seven templates")


def add_ttp_again(t, scope):
    """one function object, registered at one parser after another: it works with the parser it was registered at last"""
    space = {}
    exec("def match(data, *a):\n    return data + _ttp_['vars']['w'], None\n"
         "def group(data, *a):\n    data['x'] = data['x'] + _ttp_['vars']['w']\n    return data, None\n"
         "def macro(data):\n    return data + _ttp_['vars']['w']\n", space)
    use = {"match": G % " | fun", "group": "<group name='g*' fun=''>\nx {{ x }}\n</group>", "macro": G % " | macro('fun')"}[scope]
    n = t.choice("parsers", [2, 3])
    keep = []
    for i in range(n):
        w, v = t.str("w%d" % i, 1, 2, exclude="\r\n<>&'\\"), t.str("v%d" % i, 1, 1, exclude=NONSPACE_EXCL)
        p = ttp(vars={"w": w}, log_level="CRITICAL")
        p.add_function(space[scope], scope=scope, name="fun", add_ttp=True)
        p.add_template(use)
        for r in range(2):
            p.add_input("x " + v + str(r) + "\n")
        p.parse(one=True)
        want = [[{"g": [{"x": v + str(r) + w}]} for r in range(2)]]
        keep.append((p, want))
        t.eq(p.result(), want, "function of parser %d" % i)
    for p, want in keep:
        t.eq(p.result(), want, "results of parsers before")


def jobs(tier):
    th = tier == "thorough"
    out = []
    for k in KINDS:
        out.append(("schedule", (k, k, 3 + (th and k not in TABLES), 1)))
        out.append(("between", (k, 1 + th)))
        out.append(("one", (k, 1 + th)))
    for a in KINDS:
        for b in KINDS:
            if a < b or th and a != b:
                out.append(("schedule", (a, b, 3 + (th and a not in TABLES and b not in TABLES), 1)))
    for f in ("table", "csv", "traverse"):
        out.append(("rendering", (f, 1 + th)))
    for how in CONTAINERS:
        out.append(("containers", (how, 1, 2)))
        out.append(("user_changes", (how,)))
    out += [("add_ttp_again", (s,)) for s in ("match", "group", "macro")]
    out.append(("given_vars", (1 + th,)))
    out.append(("macros_of_templates", (1,)))
    for nested in (False, True):
        for reg in ("", "m", "mk"):
            for o in ("m none", "none m", "m k", "none none") + (("m k none", "k m k") if th else ()):
                out.append(("macros_registered", (o.split(), nested, reg, 1)))
    for o in ("tags none", "none tags", "named none", "tags named", "none tags none"):
        out.append(("vars_of_templates", (o.split(), 1 + th)))
    out += [("large", (n,)) for n in (False, True)]
    return named(globals(), out)
