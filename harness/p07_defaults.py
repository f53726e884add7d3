"""P07: defaults fill exactly the values that were not matched."""
from hlib import *
from hblocks import *

COVERS = ["default used", "matched value used", "no start found", "child default"]
BOUNDS = {
    "quick": "texts of up to 5 lines of symbolic kind with values of one arbitrary non-blank character over 9 group shapes (several values, joined lines, end lines, children, "
             "two levels of children, group default, start default, checks beside defaults, values converted to 0, empty text, list or dictionary); group default over one variable on two lines; defaults text, empty text, None, 0, True, list, dictionary; parse repeated twice" "; cases beyond usual size (9-20 of a kind): many variables with defaults",
    "thorough": "as quick with 6 lines",
}

FLAT = ("g*", [("i", "a")], [("d", "b", 0), ("e", "c", 0)], None, [])
JOIN = ("g*", [("i", "a")], [("d", "b", 0), ("j", "c", 1)], None, [])
END = ("g*", [("i", "a")], [("d", "b", 0)], "z", [])
CHILD = ("g*", [("i", "a")], [("d", "b", 0)], None, [("c*", [("c", "ca")], [("e", "cb", 0)], None, [])])
DEEP = ("g*", [("i", "a")], [], None, [("c*", [("c", "ca")], [("e", "cb", 0)], None, [("k*", [("k", "ka")], [("l", "kb", 0)], None, [])])])
EMPTY = ("g*", [("i", None)], [("d", "b", 0), ("e", "c", 0)], None, [])

DEF = {  # text of the argument, value
    "text": ('"dd"', "dd"), "empty": ('""', ""), "none": ("None", None), "zero": ("0", 0), "true": ("True", True), "list": ("[]", []), "dict": ("{}", {}),
    "num": ("15", 15), "bare": (None, "None"),
}


def fn(kind):
    txt = DEF[kind][0]
    return " | default" if txt is None else " | default(%s)" % txt


SHAPES = {
    # shape, {variable: default kind}
    "flat": (FLAT, {"b": "text", "c": "none"}),
    "one": (FLAT, {"b": "empty"}),
    "types": (FLAT, {"b": "zero", "c": "true"}),
    "types2": (FLAT, {"b": "list", "c": "dict"}),
    "types3": (FLAT, {"b": "num", "c": "bare"}),
    "join": (JOIN, {"b": "text", "c": "text"}),
    "end": (END, {"b": "text"}),
    "child": (CHILD, {"b": "text", "cb": "num"}),
    "childonly": (CHILD, {"cb": "text"}),
    "deep": (DEEP, {"cb": "text", "kb": "none"}),
    "empty": (EMPTY, {"b": "text", "c": "text"}),
    "start": (FLAT, {"a": "text", "b": "text"}),
    "start2": (FLAT, {"a": "num"}),
}


def fill(t, recs, sh, defs):
    for r in recs:
        for c in sh[4]:
            n = c[0].rstrip("*")
            if n in r:
                fill(t, r[n], c, defs)
        names = [v for k, v in sh[1]] + [v for k, v, j in sh[2]]
        for v in names:
            if v in defs:
                if v not in r:
                    r[v] = DEF[defs[v]][1]
                    t.cover("default used" if sh[0] == "g*" else "child default")
                else:
                    t.cover("matched value used")


def blocks(t, shape, k, first, sfx):
    sh, defs = SHAPES[shape]
    ref = Ref(sh)
    alpha = "".join(keys_of(sh)) + "x"
    data = ""
    started = False
    for i in range(k + 1):
        if i == 0:
            if not first:
                continue
            key = first
        else:
            key = t.pick(t.char("k%d" % i, alphabet=alpha))
        val = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        if key == "i":
            started = True
        if key == sh[3] or (key == "i" and sh is EMPTY):
            data = data + key + "\n"
            ref.line(key, None)
        else:
            data = data + key + " " + val + "\n"
            ref.line(key, val, True)
    t.assume(not ref.odd)
    want = ref.top
    if not want and "a" in defs:
        want = [{}]
        t.cover("no start found")
    fill(t, want, sh, defs)
    if sh is not EMPTY:
        want = prune(want, sh)
    tpl = template_of(sh, {v: sfx + fn(d) for v, d in defs.items()})
    p = mk(tpl, data if data else "x\n")
    p.parse(one=True)
    r = p.result()
    t.eq(r[0][0].get("g", []), want, "records of %s with defaults" % shape)
    # the template's defaults are not changed by a parse
    p.clear_result()
    p.parse(one=True)
    t.eq(p.result(), r, "second parse of %s" % shape)


def group_default(t, k, also):
    """group attribute default applies to all its variables, more specific
    defaults and values win"""
    data = ""
    want = []
    rec = None
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="idex" if not also else "idfe"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + key + " " + v + "\n"
        if key == "i":
            rec = {"a": v}
            want.append(rec)
        elif key in "df" and rec is not None and "b" not in rec:
            rec["b"] = v
        elif key == "e" and rec is not None and "c" not in rec:
            rec["c"] = v
    if not want:
        want = [{}]
        t.cover("no start found")
    for r in want:
        for n, d in (("a", "gd"), ("b", "own"), ("c", "gd")):
            if n not in r:
                r[n] = d
    # the same variable once more on a line of its own, with no default there
    more = "f {{ b }}\n"
    tpl = '<group name="g*" default="gd">\ni {{ a }}\n' + (more if also == "earlier" else "") + 'd {{ b | default("own") }}\n' + (more if also == "later" else "") + 'e {{ c }}\n</group>'
    t.eq(only(tpl, data).get("g", []), want, "group default")


def rejected(t, k):
    """a rejected value is not matched: the default is used"""
    data = "i 1\n"
    want = [{"a": "1"}]
    rec = want[0]
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="id"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + key + " " + v + "\n"
        if key == "i":
            rec = {"a": v}
            want.append(rec)
        elif "b" not in rec and v != "n":
            rec["b"] = v + "!"
    for r in want:
        if "b" not in r:
            r["b"] = "dd"
            t.cover("default used")
    tpl = '<group name="g*">\ni {{ a }}\nd {{ b | notequal("n") | default("dd") | append("!") }}\n</group>'
    t.eq(only(tpl, data).get("g", []), want, "default beside a check")


FALSY = {"to_int": (" | to_int", 5, "5"), "resub": (" | resub('o', '')", "dd", "'dd'"), "macro": (" | macro('m')", "dd", "'dd'")}


def falsy(t, kind, n):
    """a matched value counts as matched whatever it is converted to: 0, empty text, empty list, None"""
    fn_, dv, dtxt = FALSY[kind]
    data, want = "", []
    for i in range(n):
        v = t.char("v%d" % i, alphabet="0o1")
        data = data + "i %d\n" % i
        rec = {"a": "%d" % i}
        if t.bool("has%d" % i):
            data = data + "d " + v + "\n"
            if kind == "to_int":
                rec["b"] = 0 if v == "0" else 1 if v == "1" else "o"
            elif kind == "resub":
                rec["b"] = "" if v == "o" else v
            else:
                rec["b"] = [] if v == "0" else {} if v == "1" else 0
            t.cover("matched value used")
        else:
            rec["b"] = dv
            t.cover("default used")
        want.append(rec)
    tpl = ("<macro>\ndef m(data):\n    return {'0': [], '1': {}, 'o': 0}[data]\n</macro>\n" if kind == "macro" else "") + \
        '<group name="g*">\ni {{ a }}\nd {{ b' + fn_ + ' | default(' + dtxt + ') }}\n</group>'
    t.eq(only(tpl, data)["g"], want, "falsy matched values")


def two_groups(t, k):
    """defaults of one group never show in another one"""
    data = ""
    w = {"g": [], "h": []}
    cur = None
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="ijdx"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + key + " " + v + "\n"
        if key == "i":
            cur = {"a": v}
            w["g"].append(cur)
        elif key == "j":
            w["h"].append({"a": v})
        elif key == "d" and cur is not None and "b" not in cur:
            cur["b"] = v
    for r in w["g"]:
        r.setdefault("b", "gd")
    if not w["h"]:
        w["h"].append({"a": "hd"})
        t.cover("no start found")
    for r in w["h"]:
        r.setdefault("b", "hb")
    if not w["g"]:
        w.pop("g")
    tpl = ('<group name="g*">\ni {{ a }}\nd {{ b | default("gd") }}\n</group>\n'
           '<group name="h*">\nj {{ a | default("hd") }}\nq {{ b | default("hb") }}\n</group>')
    t.eq(only(tpl, data), w, "defaults of two groups")


def dict_default(t):
    """group default given as a template variable holding a dictionary"""
    has = t.choice("lines", [(), ("i",), ("i", "d"), ("i", "i"), ("d",)])
    data = "x\n"
    want = []
    for n, key in enumerate(has):
        v = t.char("v%d" % n, exclude=NONSPACE_EXCL)
        data = data + key + " " + v + "\n"
        if key == "i":
            want.append({"a": v})
        elif want:
            want[-1]["b"] = v
    if not want:
        want = [{}]
        t.cover("no start found")
    for r in want:
        for n, d in (("a", "A"), ("b", "B"), ("z", [1, 2])):
            if n not in r:
                r[n] = d
    tpl = '<vars>\ndv = {"a": "A", "b": "B", "z": [1, 2]}\n</vars>\n<group name="g*" default="dv">\ni {{ a }}\nd {{ b }}\n</group>'
    t.eq(only(tpl, data).get("g"), want, "dictionary default")


def inputs(t):
    """several inputs: each gets its own defaults"""
    datas = []
    want = []
    for n in range(3):
        v = t.char("v%d" % n, exclude=NONSPACE_EXCL)
        w = t.char("w%d" % n, exclude=NONSPACE_EXCL)
        kind = t.choice("k%d" % n, [0, 1, 2])
        rec = {"a": "sd", "b": "bd"}
        d = "x\n"
        if kind > 0:
            d = d + "i " + v + "\n"
            rec["a"] = v
        if kind > 1:
            d = d + "d " + w + "\n"
            rec["b"] = w
        # identical data are one input
        for o in datas:
            t.assume(o != d)
        datas.append(d)
        want.append({"g": [rec]})
    p = mk('<group name="g*">\ni {{ a | default("sd") }}\nd {{ b | default("bd") }}\n</group>')
    for d in datas:
        p.add_input(d)
    p.parse(one=True)
    t.eq(p.result(), [want], "defaults over inputs")


def large(t, how):
    """many variables with defaults"""
    v = t.char("v", exclude=NONSPACE_EXCL)
    names = ["n" + c for c in "abcdefghijklmn"]
    if how == "group":
        tpl = "<group name='g*' default='no'>\ni {{ i }}\n" + "\n".join("%s {{ %s }}" % (n, n) for n in names) + "\n</group>"
        dflt = {n: "no" for n in names}
    elif how == "own":
        tpl = "<group name='g*'>\ni {{ i }}\n" + "\n".join("%s {{ %s | default('d%s') }}" % (n, n, n) for n in names) + "\n</group>"
        dflt = {n: "d" + n for n in names}
    else:
        tpl = "<group name='g*' default='no'>\ni {{ i }}\n" + " ".join("%s {{ %s }}" % (n, n) for n in names) + "\n</group>"
        dflt = {n: "no" for n in names}
    data, want = "", []
    for r in range(2):
        data += "i %d\n" % r
        rec = dict(dflt, i=str(r))
        if how == "line":
            if t.bool("all%d" % r):
                for i, n in enumerate(names):
                    rec[n] = v if i == 11 else "x"
                data += " ".join(n + " " + rec[n] for n in names) + "\n"
        else:
            for i, n in enumerate(names):
                if i in (0, 9, 13) and t.bool("h%d%s" % (r, n)):
                    rec[n] = v if i == 9 else "x"
                    data += n + " " + rec[n] + "\n"
        want.append(rec)
    t.eq(only(tpl, data), {"g": want}, "many defaults")


def jobs(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    for s in SHAPES:
        n = len(keys_of(SHAPES[s][0]))
        types = s.startswith("types") or s == "start2"
        out.append(("blocks", {"shape": s, "k": (4 if types else 5 if n <= 3 else 4) + d, "first": None if n <= 3 else "i", "sfx": ""}))
    if d:
        out.append(("blocks", {"shape": "deep", "k": 5, "first": "i", "sfx": ""}))
    out.append(("blocks", {"shape": "flat", "k": 3 + d, "first": None, "sfx": ' | notequal("~~")'}))
    out += [("group_default", {"k": 5 + d, "also": ""}), ("group_default", {"k": 4 + d, "also": "earlier"}), ("group_default", {"k": 4 + d, "also": "later"}), ("rejected", {"k": 5 + d}), ("two_groups", {"k": 5 + d})] + [("falsy", {"kind": f, "n": 2 + d}) for f in ("to_int", "resub", "macro")] + [("dict_default", {}), ("inputs", {})]
    out += [("large", {"how": h}) for h in ("group", "own", "line")]
    return out
