"""P12: lookups answer from the table and only from the table."""
from hlib import *
# instrument: fnmatch
import fnmatch

COVERS = ["found", "not found", "several found", "updated"]
BOUNDS = {
    "quick": "tables of 4-6 keys (one inside another, with dots, digits, spaces, upper case, regular expression characters) in python, json, yaml, ini and csv form, flat and two levels deep, by tag and by add_lookup; every "
             "value of 1-4 characters; group and template results with 2 arbitrary keys of 1-2 characters as tables" "; cases beyond usual size (9-20 of a kind): tables of many entries",
    "thorough": "values of 1-5 characters",
}
NL = "\n"

TABLE = {"a": "1", "ab": "22", "a.b": "3", "A": "4", "651": "5", "x y": "six"}
ROWS = {k: {"v": v, "w": v + "!"} for k, v in TABLE.items()}
TAGS = {
    "python": "<lookup name='t' load='python'>\n{'a': '1', 'ab': '22', 'a.b': '3', 'A': '4', '651': '5', 'x y': 'six'}\n</lookup>",
    "default": "<lookup name='t'>\n{'a': '1', 'ab': '22', 'a.b': '3', 'A': '4', '651': '5', 'x y': 'six'}\n</lookup>",
    "json": "<lookup name='t' load='json'>\n{\"a\": \"1\", \"ab\": \"22\", \"a.b\": \"3\", \"A\": \"4\", \"651\": \"5\", \"x y\": \"six\"}\n</lookup>",
    "yaml": "<lookup name='t' load='yaml'>\na: '1'\nab: '22'\na.b: '3'\nA: '4'\n'651': '5'\nx y: six\n</lookup>",
    "ini": "<lookup name='t' load='ini'>\n[s]\na = 1\nab = 22\na.b: 3\nA: 4\n651 = 5\nx y = six\n[other]\nz = 0\n</lookup>",
    "csv": "<lookup name='t' load='csv'>\nk,v,w\na,1,1!\nab,22,22!\na.b,3,3!\nA,4,4!\n651,5,5!\nx y,six,six!\n</lookup>",
    "csv key": "<lookup name='t' load='csv' key='k'>\nv,k,w\n1,a,1!\n22,ab,22!\n3,a.b,3!\n\n4,A,4!\n5,651,5!\nsix,x y,six!\n</lookup>",
    "deep": "<lookup name='t' load='python'>\n{'p': {'q': {'a': '1', 'ab': '22', 'a.b': '3', 'A': '4', '651': '5', 'x y': 'six'}, 'a': 'no'}, 'a': 'no', 'q': {'z': 'no'}}\n</lookup>",
    "deep yaml": "<lookup name='t' load='yaml'>\np:\n  q:\n    a: '1'\n    ab: '22'\n    a.b: '3'\n    A: '4'\n    '651': '5'\n    x y: six\n  ab: no\n</lookup>",
}
PATH = {"ini": "t.s", "deep": "t.p.q", "deep yaml": "t.p . q"}


def value(t, hi, name="v"):
    return t.char(name + "0", exclude=NONSPACE_EXCL) + t.str(name, 0, hi - 1, exclude=NL)


def find(table, v):
    for k in table:
        if v == k:
            return True, table[k]
    return False, None


def check(t, tags, fn, vs, wants, pre="", api=None):
    """one record per value"""
    p = mk(tags + "\n<group name='g*'>\n" + pre + "i {{ a | re('.+') | " + fn + " }}\n</group>")
    if api:
        api(p)
    p.add_input("".join("i " + v + "\n" for v in vs))
    p.parse(one=True)
    t.eq(p.result()[0][0]["g"], wants, "records of %s" % fn)


def lookup(t, form, field, hi):
    v = value(t, hi)
    ok, x = find(ROWS if form.startswith("csv") else TABLE, v)
    t.cover("found" if ok else "not found")
    name = PATH.get(form, "t")
    if field:
        fn = "lookup('%s', add_field='f')" % name
        want = {"a": v, "f": x} if ok else {"a": v}
    else:
        fn = "lookup('%s')" % name if form != "deep" else "lookup(name='t . p.q')"
        want = {"a": x if ok else v}
    check(t, TAGS[form], fn, [v], [want])


def lookup_cell(t, hi):
    """a path may lead into a row"""
    v = value(t, hi)
    w = "22" if v == "v" else "22!" if v == "w" else v
    t.cover("found" if v == "v" else "not found")
    check(t, TAGS["csv"], "lookup('t.ab')", [v], [{"a": w}])


def lookup_none(t, fn, hi):
    """no such table: nothing changes"""
    v = value(t, hi)
    t.cover("not found")
    check(t, TAGS["deep"], fn, [v], [{"a": v}])


NONE = ["lookup('x')", "lookup('t.x')", "lookup('t.p.q.a')", "lookup('t.p.q.a.b')", "lookup", "lookup(group='g.x')", "lookup(template='zz.x')", "lookup('x', add_field='f')",
        "rlookup('x')", "rlookup('t.p.q.a.c')", "rlookup('t.p.q.a')", "gpvlookup('x')", "gpvlookup('t.p.q.a')", "gpvlookup('t.p.q.a.b', add_field='f')"]


def lookup_api(t, form, when, hi):
    """add_lookup is the same as a tag"""
    v = value(t, hi)
    ok, x = find(ROWS if form.startswith("csv") else TABLE, v)
    t.cover("found" if ok else "not found")
    tag = TAGS[form]
    text = tag[tag.index(">") + 1:tag.index("</")]
    load = form.split()[0].replace("deep", "python").replace("default", "python") if form != "deep yaml" else "yaml"
    kw = {"key": "k"} if form == "csv key" else {}
    fn = "lookup('%s')" % PATH.get(form, "t")
    tpl = "<group name='g*'>\ni {{ a | re('.+') | " + fn + " }}\n</group>"
    if when == "after":
        p = mk(tpl)
        p.add_lookup("t", text_data=text, load=load, **kw)
    elif when == "replace":
        p = mk("<lookup name='t'>\n{'a': 'old', 'zz': 'old'}\n</lookup>\n" + tpl)
        p.add_lookup("t", text_data=text, load=load, **kw)
    p.add_input("i " + v + "\n")
    p.parse(one=True)
    t.eq(p.result()[0][0]["g"], [{"a": x if ok else v}], "add_lookup")


RT = {"-m-": "mel", "b": "bri", "ab": "never first", ".": "dot", "-": "dash"}
RTAG = "<lookup name='r'>\n{'c': {'-m-': 'mel', 'b': 'bri', 'ab': 'never first', '.': 'dot', '-': 'dash'}}\n</lookup>"


def inside(v, k):
    for i in range(len(v) - len(k) + 1):
        if v[i:i + len(k)] == k:
            return True
    return False


def rlookup(t, field, hi):
    v = value(t, hi)
    hit = None
    for k in RT:
        if inside(v, k):
            hit = RT[k]
            break
    t.cover("not found" if hit is None else "found")
    fn = "rlookup('r.c', add_field='f')" if field else "rlookup(name='r.c')"
    if hit is None:
        want = {"a": v}
    else:
        want = {"a": v, "f": hit} if field else {"a": hit}
    check(t, RTAG, fn, [v], [want])


RLT = {"a": 0, "bc": "", "d": [], "e": 5, "f": {"k": "v"}, "-": False}


def rlookup_types(t, field):
    """values of any kind, empty ones as well"""
    v = value(t, 2)
    hit = [k for k in RLT if inside(v, k)]
    t.cover("found" if hit else "not found")
    x = RLT[hit[0]] if hit else None
    fn = "rlookup('r', add_field='f')" if field else "rlookup('r')"
    want = {"a": v} if not hit else {"a": v, "f": x} if field else {"a": x}
    check(t, "<lookup name='r'>\n{'a': 0, 'bc': '', 'd': [], 'e': 5, 'f': {'k': 'v'}, '-': False}\n</lookup>", fn, [v], [want])


def rlookup_numbers(t, load):
    """keys may be numbers"""
    table = {"12": "x", "3": "y", "b": "z"}
    text = {"yaml": "12: x\n3: y\nb: z", "python": "{12: 'x', 3: 'y', 'b': 'z'}"}[load]
    v = t.str("v", 1, 3, alphabet="123b-")
    hit = [k for k in table if inside(v, k)]
    t.cover("found" if hit else "not found")
    check(t, "<lookup name='r' load='%s'>\n%s\n</lookup>" % (load, text), "rlookup('r')", [v], [{"a": table[hit[0]] if hit else v}])


GT = {"corp": ["*W-*", "c?"], "dc": ["D1*", "c[ab]"], "any": ["?", "[!c]x"], "lit": ["a.b", "D1*", "a.*"]}
GTAG = "<lookup name='d'>\n{'N': {'corp': ['*W-*', 'c?'], 'dc': ['D1*', 'c[ab]'], 'any': ['?', '[!c]x'], 'lit': ['a.b', 'D1*', 'a.*']}}\n</lookup>"


def glob(p, v):
    """Unix glob pattern"""
    if len(p) == 0:
        return len(v) == 0
    if p[0] == "*":
        for i in range(len(v) + 1):
            if glob(p[1:], v[i:]):
                return True
        return False
    if len(v) == 0:
        return False
    if p[0] == "?":
        return glob(p[1:], v[1:])
    if p[0] == "[":
        j = p.index("]")
        s = p[1:j]
        if s[0] == "!":
            ok = v[0] not in s[1:]
        else:
            ok = v[0] in s
        return ok and glob(p[j + 1:], v[1:])
    return v[0] == p[0] and glob(p[1:], v[1:])


def hits(v, multi):
    out = []
    for k in GT:
        for p in GT[k]:
            if glob(p, v):
                out.append(k)
                break
        if out and not multi:
            break
    return out


def gpvlookup(t, multi, field, hi):
    v = value(t, hi)
    found = hits(v, multi)
    t.cover("not found" if not found else "found" if len(found) == 1 else "several found")
    fn = "gpvlookup('d.N'%s%s)" % (", multimatch=True" if multi else "", ", add_field='f'" if field else "")
    if not found:
        want = {"a": v}
    else:
        want = {"a": v, "f": found} if field else {"a": found}
    check(t, GTAG, fn, [v], [want])


def gpv_record(t, hi):
    """recorded names can be set in a later record"""
    v = value(t, hi)
    found = hits(v, True)
    p = mk(GTAG + "\n<group name='g*'>\ni {{ a | re('.+') | gpvlookup('d.N', record='dom', multimatch=True) }}\n</group>\n"
           "<group name='h*'>\nj {{ b }}\n{{ dom | set('dom') }}\n</group>")
    p.add_input("i " + v + "\nj 1\n")
    p.parse(one=True)
    r = p.result()[0][0]
    t.eq(r, {"g": [{"a": found if found else v}], "h": [{"b": "1", "dom": found}]}, "recorded lookup")


LTAG = "<lookup name='l'>\n{'a': ['1', '2'], 'b': ['3'], 'c': {'k': 'v'}, 'd': 5, 'e': None, 'f': ''}\n</lookup>"
LT = {"a": ["1", "2"], "b": ["3"], "c": {"k": "v"}, "d": 5, "e": None, "f": ""}


def shared(t, fn):
    """entries are not changed by what is done to the values found"""
    vs = [t.char("v%d" % i, alphabet="abz") for i in range(3)]
    wants = []
    for v in vs:
        ok, x = find(LT, v)
        x = list(x) if ok else v
        if fn == "append('+')":
            w = x + ["+"] if ok else x + "+"
        elif fn == "prepend('+')":
            w = ["+"] + x if ok else "+" + x
        else:
            w = x
        wants.append({"a": w})
    check(t, LTAG, "lookup('l') | " + fn, vs, wants)


def shared_join(t):
    """joined values of one record do not leak into the table"""
    vs = [t.char("v%d" % i, alphabet="ab") for i in range(3)]
    p = mk(LTAG + "\n<group name='g*'>\nx {{ x }}\ni {{ a | lookup('l') | joinmatches }}\n</group>")
    p.add_input("x 1\ni " + vs[0] + "\ni " + vs[1] + "\nx 2\ni " + vs[2] + "\n")
    p.parse(one=True)
    one = lambda v: ["1", "2"] if v == "a" else ["3"]
    t.eq(p.result()[0][0]["g"], [{"x": "1", "a": one(vs[0]) + one(vs[1])}, {"x": "2", "a": one(vs[2])}], "joined lookups")


def types(t, field):
    v = t.str("v", 1, 2, exclude=NONSPACE_EXCL)
    ok, x = find(LT, v)
    t.cover("found" if ok else "not found")
    got = {"a": v, "f": x} if field else {"a": x}
    check(t, LTAG, "lookup('l'%s)" % (", add_field='f'" if field else ""), [v], [got if ok else {"a": v}])


def unhashable(t):
    v = t.str("v", 1, 2, exclude=NONSPACE_EXCL)
    check(t, LTAG, "to_list | lookup('l')", [v], [{"a": [v]}])


GROUPTAG = "<lookup name='t'>\n{'p': {'a': {'k': '1', 'x': 'new'}, 'b': 'two', 'c': 3, 'd': {}}, 'a': 'no'}\n</lookup>"
GROUPT = {"a": {"k": "1", "x": "new"}, "b": "two", "c": 3, "d": {}}


def again(t, p, got, wants, pick):
    """what is done to the results does not change the tables"""
    import copy
    wants = copy.deepcopy(wants)
    for rec in got:
        for x in list(rec.values()):
            if isinstance(x, dict):
                for y in x.values():
                    if isinstance(y, list):
                        y.append("zz")
                x["zz"] = "zz"
            elif isinstance(x, list):
                x.append("zz")
    p.clear_result()
    p.parse(one=True)
    t.eq(pick(p.result()), wants, "records after earlier ones were changed")


def group(t, mode):
    """group lookup: add_field, update, replace, nothing; record by record"""
    opt = {"add": ", add_field='f'", "update": ", update=True", "replace": "", "nothing": ", replace=False", "add first": ", add_field='f', update=True, replace=True", "bad": ""}[mode]
    name = "t.p" if mode != "bad" else "t.p.b"
    p = mk(GROUPTAG + "\n<group name='g*' lookup=\"'k', name='" + name + "'" + opt + "\">\nx {{ x }}\ni {{ k }}\n</group>")
    text, wants = "", []
    for r in range(2):
        text += "x %d\n" % r
        rec = {"x": "%d" % r}
        if t.bool("has%d" % r):
            v = t.str("k%d" % r, 1, 2, exclude=NONSPACE_EXCL)
            text = text + "i " + v + "\n"
            rec["k"] = v
            ok, x = find(GROUPT, v)
            t.cover("found" if ok else "not found")
            if ok and mode in ("add", "add first"):
                rec["f"] = x
            elif ok and mode == "update" and isinstance(x, dict):
                rec.update(x)
                t.cover("updated")
            elif ok and mode in ("replace", "update"):
                rec["k"] = x
        wants.append(rec)
    p.add_input(text)
    p.parse(one=True)
    got = p.result()[0][0]["g"]
    t.eq(got, wants, "records of group lookup")
    again(t, p, got, wants, lambda r: r[0][0]["g"])


def results(t, how, act):
    """results of another group or template are a table as well"""
    opt = {"update": ", update=True", "add": ", add_field='f'", "replace": ""}[act]
    first = "<group name='users.{{ u }}' input='one'>\nu {{ u }} {{ d }}\n</group>\n"
    if how == "group":
        tpl = first + "<group name='g*' lookup=\"'k', group='users'" + opt + "\" input='two'>\ni {{ k }}\n</group>"
    elif how == "match group":
        tpl = first + "<group name='g*' input='two'>\ni {{ k | lookup(group='users'" + opt + ") }}\n</group>"
    elif how == "same input":
        tpl = first.replace(" input='one'", "") + "<group name='g*' lookup=\"'k', group='users'" + opt + "\">\ni {{ k }}\n</group>"
    elif how == "template":
        tpl = "<template name='A'>\n<input name='one' load='text'></input>\n" + first + "</template>\n<template name='B'>\n<group name='g*' lookup=\"'k', template='A.users'" + opt + "\">\ni {{ k }}\n</group>\n</template>"
    elif how == "match template":
        tpl = "<template name='A'>\n" + first.replace(" input='one'", "") + "</template>\n<template name='B'>\n<group name='g*'>\ni {{ k | lookup(template='A.users'" + opt + ") }}\n</group>\n</template>"
    elif how == "per_template":
        tpl = "<template name='A' results='per_template'>\n" + first.replace(" input='one'", "") + "</template>\n<template name='B'>\n<group name='g*'>\ni {{ k | lookup(template='A.users'" + opt + ") }}\n</group>\n</template>"
    p = mk(tpl.replace("<input name='one' load='text'></input>\n", "").replace(" input='one'", "") if "template" in how else tpl)
    u1, d1 = t.str("u1", 1, 2, exclude=NONSPACE_EXCL), t.str("d1", 1, 1, exclude=NONSPACE_EXCL)
    u2 = t.str("u2", 1, 1, exclude=NONSPACE_EXCL)
    t.assume(u1 != u2)
    for c in u1 + u2:
        t.assume(c not in "*")
    k = t.str("k", 1, 2, exclude=NONSPACE_EXCL)
    one = "u " + u1 + " " + d1 + "\nu " + u2 + " 5\n"
    two = "i " + k + "\n"
    if how == "same input":
        p.add_input(one + two)
    elif "template" in how:
        p.add_input(one, template_name="A")
        p.add_input(two, template_name="B")
    else:
        p.add_input(one, input_name="one")
        p.add_input(two, input_name="two")
    p.parse(one=True)
    r = p.result()
    rec = {"k": k}
    row = {"d": d1} if k == u1 else {"d": "5"} if k == u2 else None
    t.cover("not found" if row is None else "found")
    if row is not None:
        if act == "update" and not how.startswith("match") and how != "per_template":
            rec.update(row)
        elif act == "add":
            rec["f"] = row
        else:
            rec["k"] = row
    users = {"users": {u1: {"d": d1}, u2: {"d": "5"}}}
    if how == "same input":
        want = [[dict(users, g=[rec])]]
    elif how == "per_template":
        want = [users, [{"g": [rec]}]]
    elif "template" in how:
        want = [[users], [{"g": [rec]}]]
    else:
        want = [[users, {"g": [rec]}]]
    t.eq(r, want, "results of a lookup in results")
    if how in ("same input", "match group", "group") and row is not None and act != "update":
        rec["f" if act == "add" else "k"]["zz"] = "zz"
        x = r[0][-1]["g"][0]["f" if act == "add" else "k"]
        x["zz"] = "zz"
        t.eq(r, want, "found entry changed later")


def large(t, fn):
    """tables of many entries"""
    keys = [a + b for a in "abcdef" for b in "xyz12"]
    table = {k: "%d" % i for i, k in enumerate(keys)}
    v = t.str("v", 1, 3 if fn == "rlookup" else 2, alphabet="acfxz2q")
    if fn == "lookup":
        want = v
        for k in keys:
            if v == k:
                want = table[k]
                break
        tag = "<lookup name='t'>\n%r\n</lookup>" % table
    elif fn == "csv":
        want = v
        for k in keys:
            if v == k:
                want = {"k%d" % i: table[k] + "_%d" % i for i in range(10)}
                break
        tag = "<lookup name='t' load='csv'>\nk,%s\n%s\n</lookup>" % (",".join("k%d" % i for i in range(10)), "\n".join(k + "," + ",".join(x + "_%d" % i for i in range(10)) for k, x in table.items()))
    else:
        want = v
        for k in keys:
            if k in v:
                want = table[k]
                break
        tag = "<lookup name='t'>\n%r\n</lookup>" % table
    check(t, tag, ("lookup" if fn == "csv" else fn) + "('t')", [v], [{"a": want}])


def jobs(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    for f in TAGS:
        out.append(("lookup", {"form": f, "field": False, "hi": 4 + d}))
        out.append(("lookup", {"form": f, "field": True, "hi": 3 + d}))
        out.append(("lookup_api", {"form": f, "when": "after", "hi": 3 + d}))
    out += [("lookup_api", {"form": "json", "when": "replace", "hi": 3 + d}), ("lookup_cell", {"hi": 3 + d})]
    out += [("lookup_none", {"fn": f, "hi": 3 + d}) for f in NONE]
    out += [("rlookup", {"field": f, "hi": 4 + d}) for f in (False, True)]
    out += [("gpvlookup", {"multi": m, "field": f, "hi": 4 + d}) for m in (False, True) for f in (False, True)]
    out += [("gpv_record", {"hi": 3 + d}), ("unhashable", {}), ("shared_join", {})]
    out += [("shared", {"fn": f}) for f in ("append('+')", "prepend('+')", "to_unicode")]
    out += [("types", {"field": f}) for f in (False, True)]
    out += [("rlookup_numbers", {"load": l}) for l in ("yaml", "python")]
    out += [("rlookup_types", {"field": f}) for f in (False, True)]
    out += [("group", {"mode": m}) for m in ("add", "update", "replace", "nothing", "add first", "bad")]
    for how in ("group", "match group", "same input", "template", "match template", "per_template"):
        for act in ("update", "add", "replace") if not how.startswith("match") and how != "per_template" else ("add", "replace"):
            out.append(("results", {"how": how, "act": act}))
    out += [("large", {"fn": f}) for f in ("lookup", "rlookup", "csv")]
    return out
