"""P14: group transformations change what they document and nothing else."""
from hlib import *

COVERS = ["key present", "key absent", "converted", "kept as it is", "recorded", "default"]
BOUNDS = {
    "quick": "groups of a start line and 3 other lines, 2-3 records with every presence of every line, values of 1-2 arbitrary non-blank characters (numbers: 1-3 characters of digits, sign, dot, underscore, letter); "
             "del, set, record, sformat, to_int, expand, itemize, items2dict, macro, str_to_unicode with literal, variable, recorded and default sources (an input's own variable before the recorded one), static, list, deep and dynamic paths" "; cases beyond usual size (9-20 of a kind): many keys in one function, many functions",
    "thorough": "one more record, values one character longer",
}
NL = "\n"
BODY = "x {{ a }}\nb {{ b }}\nc {{ c }}\nd {{ d | joinmatches(',') }}\n"


def val(t, name, hi, exclude=""):
    return t.str(name, 1, hi, exclude=NONSPACE_EXCL + exclude)


def blocks(t, n, hi, lines="bc", start="x", exclude=""):
    """n blocks with any of the lines -> text, records"""
    text, recs = "", []
    for r in range(n):
        a = val(t, "a%d" % r, 1, exclude)
        text = text + start + " " + a + "\n"
        rec = {"a": a}
        for k in lines:
            if t.bool("has_%s%d" % (k, r)):
                v = val(t, "%s%d" % (k, r), hi, exclude)
                text = text + k + " " + v + "\n"
                rec[k] = v
                t.cover("key present")
            else:
                t.cover("key absent")
        recs.append(rec)
    return text, recs


def delete(t, how, keys, n, hi):
    text, recs = blocks(t, n, hi, "bcd")
    at = {"attr": 'del="%s"' % ", ".join(keys), "functions": 'functions="del(%s)"' % ", ".join(repr(k) for k in keys), "twice": 'functions="%s"' % " | ".join("del(%s)" % k for k in keys)}[how]
    tpl = '<group name="g*" %s>\n%s</group>\n<group name="h*">\n%s</group>' % (at, BODY, BODY)
    full = [dict(r) for r in recs]
    for r in recs:
        for k in keys:
            r.pop(k, None)
    t.eq(only(tpl, text), {"g": recs, "h": full}, "del %s" % keys)


SETS = {
    # attribute text, value and target of it
    "var": ("v1", "v1", "one"), "var to": ("v1, t", "t", "one"), "global": ("gl", "gl", "two"), "global to": ("gl, b", "b", "two"), "literal": ("lit", "lit", "lit"), "literal to": ("lit, t", "t", "lit"),
    "default": ("nox, t, dv", "t", "dv"), "default kw": ("nox, default='dv'", "nox", "dv"), "default unused": ("v1, t, dv", "t", "one"), "overwrite": ("v1, b", "b", "one"), "kw": ("source='v1', target='c'", "c", "one"),
    "list": ("v2, t", "t", ["p", "q"]),
}


def set_(t, kind, how, n, hi):
    arg, target, value = SETS[kind]
    text, recs = blocks(t, n, hi, "b")
    if how == "attr":
        at = 'set="%s"' % arg
    else:
        at = 'functions="set(%s)"' % (arg if "=" in arg else ", ".join("'%s'" % i.strip() for i in arg.split(",")))
    tpl = ('<vars>\nv1 = "one"\nv2 = ["p", "q"]\n</vars>\n<group name="r*">\nr {{ r | record("gl") }}\n</group>\n<group name="g*" %s>\n%s</group>' % (at, BODY))
    for r in recs:
        r[target] = value
    t.cover("default" if "default" in kind else "recorded")
    t.eq(only(tpl, "r two\n" + text), {"r": [{"r": "two"}], "g": recs}, "set %s" % arg)


def record(t, form, k, inputs):
    """a value is visible to the records that are completed after the one that recorded it, and not before"""
    args = {"same": ("v", "v", "v"), "renamed": ("v, w", "w, v", "v"), "chain": ("v", "v", "v"), "default": ("v", "v, default='nox'", "v")}[form]
    rec_at = 'record="%s"' % args[0] if form != "chain" else 'functions="record(\'v\')"'
    set_at = 'set="%s"' % args[1] if form != "chain" else 'functions="set(\'v\')"'
    tpl = ('<group name="p*" %s>\np {{ p }}\nv {{ v }}\n<group name="n*" %s>\nn {{ n }}\n</group>\n</group>' % (rec_at, set_at))
    p = mk(tpl)
    want = []
    last = None
    for j in range(inputs):
        text, recs, cur = "p 0\n", [{"p": "0"}], None
        cur = recs[0]
        closed = False
        for i in range(k):
            key = t.choice("k%d%d" % (j, i), ["v", "n", "p"])
            x = t.char("x%d%d" % (j, i), exclude=NONSPACE_EXCL)
            text = text + key + " " + x + "\n"
            if key == "p":
                if not closed and "v" in cur:
                    last = cur["v"]
                cur, closed = {"p": x}, False
                recs.append(cur)
            elif key == "v":
                t.assume(not closed)          # lines of the parent after its children: not specified
                cur.setdefault("v", x)
            else:
                if not closed and "v" in cur:
                    last = cur["v"]
                    t.cover("recorded")
                closed = True
                if last is None:
                    t.cover("default")
                got = last if last is not None else "nox" if form == "default" else args[1].split(",")[0]
                cur.setdefault("n", []).append({"n": x, "v": got})
        if not closed and "v" in cur:
            last = cur["v"]
        # group names p*, n* are lists
        want.append({"p": recs})
        p.add_input("# %d\n" % j + text)
    p.parse(one=True)
    t.eq(p.result(), [want], "recorded values")


FORMATS = {
    "own": ("{a}-{b}", ["a", "b"]), "var": ("{a}:{v1}", ["a", "v1"]), "global": ("{gl}{b}", ["gl", "b"]), "shadow": ("{c}/{v1}", ["c", "v1"]), "missing": ("{a}{zz}", ["zz"]), "none": ("text", []), "twice": ("{a}{a}", ["a"]),
    "braces": ("{{{a}}}", ["a"]), "over": ("<{b}>", ["b"]), "aligned": ("{a:>3}.", ["a"]), "record over var": ("{both}", ["both"]),
}


def set_input_first(t, how, inputs):
    """set takes the variable of this input before the one recorded by any input"""
    init = t.str("init", 1, 2)
    p = mk('<group name="g*" %s>\ni {{ i }}\nr {{ r | record("v") }}\n</group>' % ('set="v, w"' if how == "attr" else "functions=\"set('v', 'w')\""), vars={"v": init})
    want = []
    for j in range(inputs):
        a = t.char("a%d" % j, exclude=NONSPACE_EXCL)
        for w in want:
            t.assume(w["g"][0]["i"] != a)          # inputs of the same text are one input
        text, rec, cur = "i " + a + "\n", {"i": a}, init
        if t.bool("r%d" % j):
            cur = t.char("v%d" % j, exclude=NONSPACE_EXCL)
            text = text + "r " + cur + "\n"
            rec["r"] = cur
            t.cover("recorded")
        rec["w"] = cur
        p.add_input(text)
        want.append({"g": [rec]})
    p.parse(one=True)
    t.eq(p.result(), [want], "set from the variables of the input")


def sformat(t, kind, how, n, hi):
    """group values over template variables over recorded variables"""
    s, used = FORMATS[kind]
    target = "b" if kind == "over" else "f"
    s = s.replace("<", "(").replace(">", ")") if kind == "over" else s
    text, recs = blocks(t, n, hi, "bc")
    at = {"attr": 'sformat="string=\'%s\', add_field=\'%s\'"', "args": 'sformat="\'%s\', \'%s\'"', "functions": 'functions="sformat(\'%s\', \'%s\')"'}[how] % (s.replace(">", "&gt;"), target)
    tpl = ('<vars>\nv1 = "one"\nc = "cv"\nboth = "tv"\n</vars>\n<group name="r*">\nr {{ r | record("gl") }}\nq {{ q | record("both") }}\n</group>\n<group name="g*" %s>\n%s</group>' % (at, BODY))
    for r in recs:
        space = {"gl": "two", "v1": "one", "c": "cv", "both": "three", "a": None}
        space.update(r)
        a, b, c = space["a"], space.get("b"), space["c"]
        out = {"own": lambda: a + "-" + b, "var": lambda: a + ":one", "global": lambda: "two" + b, "shadow": lambda: c + "/one", "missing": lambda: None, "none": lambda: "text", "twice": lambda: a + a,
               "braces": lambda: "{" + a + "}", "over": lambda: "(" + b + ")", "aligned": lambda: " " * (3 - len(a)) + a + ".", "record over var": lambda: "three"}[kind]
        if all([u in space for u in used]):
            r[target] = out()
            t.cover("converted")
        else:
            t.cover("kept as it is")
    t.eq(only(tpl, "r two\nq three\n" + text), {"r": [{"r": "two", "q": "three"}], "g": recs}, "sformat %s" % s)


def number(t, s):
    """value of a text that is an integer or a decimal number of digits, sign and point; None: not a number; text with an underscore or other digits is left out"""
    body = s[1:] if s[0] in "+-" else s
    ip, dot, fp = body.partition(".")
    if not ip and not fp:
        return None
    for c in ip + fp:
        if not "0" <= c <= "9":
            return None
    n = 0
    for c in ip + fp:
        n = n * 10 + (ord(c) - 48)
    if dot:
        for i in range(len(fp)):
            n = n / 10.0
        n = float(n)
    return -n if s[0] == "-" else n


NUM = "0179+-.x"


def to_int(t, keys, n, hi, lines="bc"):
    text, recs = "", []
    for r in range(n):
        rec = {"a": "r%d" % r}
        text += "x r%d\n" % r
        for k in lines:
            if t.bool("has_%s%d" % (k, r)):
                v = t.str("%s%d" % (k, r), 1, hi if k == "b" else 1, alphabet=NUM)
                text = text + k + " " + v + "\n"
                x = number(t, v)
                if keys and k not in keys:
                    x = None
                t.cover("kept as it is" if x is None else "converted")
                rec[k] = v if x is None else x
        recs.append(rec)
    tpl = '<group name="g*" to_int="%s">\n%s</group>' % (", ".join(keys), BODY)
    got = only(tpl, text)["g"]
    t.eq([sorted(r.keys()) for r in got], [sorted(r.keys()) for r in recs], "keys after to_int")
    for g, r in zip(got, recs):
        for k in r:
            t.check(isinstance(g[k], int) == isinstance(r[k], int) and isinstance(g[k], str) == isinstance(r[k], str), "type of %s" % k)
            if isinstance(r[k], float):
                t.check(abs(g[k] - r[k]) < 1e-9, "number of %s" % k)
            else:
                t.eq(g[k], r[k], "value of %s" % k)


def to_int_any(t, hi):
    """any other text is left as it is"""
    v = val(t, "v", hi)
    for c in v:
        t.assume(not c.isdigit())
    t.assume(v.lower() not in ("inf", "nan", "+inf", "-inf", "+nan", "-nan"))
    tpl = '<group name="g*" to_int="">\n%s</group>' % BODY
    t.eq(only(tpl, "x " + v), {"g": [{"a": v}]}, "text")
    t.cover("kept as it is")


def to_int_mixed(t, form):
    """a list of numbers and texts"""
    v = t.str("v", 1, 2, alphabet="08-x")
    x = number(t, v)
    x = v if x is None else x
    first, last = {"number": (5, 5), "text": ("a", "a"), "none": (None, None)}[form]
    tpl = '<macro>\ndef m(data):\n    return [%r, data, "7", %r]\n</macro>\n<group name="g*" to_int="b, intlist=True">\nx {{ a }}\nb {{ b | macro("m") }}\n</group>' % (first, last)
    t.eq(only(tpl, "x 1\nb " + v), {"g": [{"a": "1", "b": [first, x, 7, last]}]}, "to_int of a list")


def to_int_list(t, intlist, hi):
    items = [t.str("i%d" % i, 1, hi, alphabet="08-x") for i in range(2)]
    tpl = '<group name="g*" to_int="b, intlist=%s">\nx {{ a }}\nb {{ b | split(",") }}\n</group>' % intlist
    want = []
    for s in items:
        x = number(t, s) if intlist else None
        want.append(s if x is None else x)
    t.eq(only(tpl, "x 1\nb " + items[0] + "," + items[1]), {"g": [{"a": "1", "b": want}]}, "to_int of a list")


EXPAND = [["p.q", "p.r", "s"], ["p.q.r", "p.q.s", "t"], ["p", "q.r.s.t", "u.v"], ["p.a", "q.a", "r.a"]]


def expand(t, names, n, hi):
    body = "x {{ %s }}\nb {{ %s }}\nc {{ %s }}\n" % tuple(names)
    text, recs = blocks(t, n, hi, "bc")
    want = []
    for r in recs:
        out = {}
        for k, name in zip("abc", names):
            if k in r:
                ref = out
                parts = name.split(".")
                for i in parts[:-1]:
                    ref = ref.setdefault(i, {})
                ref[parts[-1]] = r[k]
        want.append(out)
    t.eq(only('<group name="g*" expand="">\n%s</group>' % body, text), {"g": want}, "expand %s" % names)


def nest(path, value):
    for p in reversed(path):
        value = {p: value}
    return value


def itemize(t, name, conv, n, hi):
    """the items of the records with the key, in order, and nothing else"""
    text, recs = blocks(t, n, hi, "b")
    items, keyed = [], {}
    for r in recs:
        if "b" not in r:
            continue
        v = r["b"]
        if conv == "resub":
            v = v.replace("o", "")
        items.append(v)
        if "{{" in name:
            t.assume(r["a"] != "*")
            hit = [k for k in keyed if k == r["a"]]
            if hit:
                keyed[hit[0]].append(v)
            else:
                keyed[r["a"]] = [v]
    tpl = '<group name="%s" itemize="b">\n%s</group>' % (name, BODY.replace("{{ b }}", "{{ b | resub('o', '', 9) }}") if conv else BODY)
    if "{{" in name:
        want = {"g": keyed} if keyed else {}
    else:
        want = nest(name.rstrip("*").split("."), items) if items else {}
    t.eq(only(tpl, text), want, "itemize into %s" % name)


def itemize_path(t, path, n, hi):
    """path given: items there, records where they were, those without the key are dropped"""
    text, recs = blocks(t, n, hi, "b")
    recs = [r for r in recs if "b" in r]
    keyed = {}
    if "{{" in path:
        for r in recs:
            t.assume(r["a"] != "*")
            hit = [k for k in keyed if k == r["a"]]
            if hit:
                keyed[hit[0]].append(r["b"])
            else:
                keyed[r["a"]] = [r["b"]]
        want = {"l": keyed, "g": [{"b": r["b"]} for r in recs]} if recs else {}
    else:
        want = dict(nest([x.strip() for x in path.rstrip("*").split(".")], [r["b"] for r in recs]), g=recs) if recs else {}
    tpl = '<group name="g*" itemize="b, path=\'%s\'">\n%s</group>' % (path, BODY)
    t.eq(only(tpl, text), want, "itemize to path %s" % path)


def itemize_child(t, name):
    tpl = '<group name="p*">\np {{ p }}\n<group name="%s" itemize="v">\nv {{ v }}\nw {{ w }}\n</group>\n</group>' % name
    text, want = "", []
    for r in range(2):
        x = t.char("p%d" % r, exclude=NONSPACE_EXCL)
        text = text + "p " + x + "\n"
        rec = {"p": x}
        for i in range(2):
            if t.bool("v%d%d" % (r, i)):
                v = t.char("x%d%d" % (r, i), exclude=NONSPACE_EXCL)
                text = text + "v " + v + "\nw 1\n"
                rec.setdefault("l", []).append(v)
        want.append(rec)
    t.eq(only(tpl, text), {"p": want}, "itemize of a child")


def items2dict(t, how, n, hi):
    text, recs = "", []
    for r in range(n):
        k, v = val(t, "k%d" % r, 1), val(t, "v%d" % r, hi)
        w = val(t, "w%d" % r, 1) if t.bool("w%d?" % r) else None
        has_k, has_v = (True, True) if how != "missing" else (t.bool("k%d?" % r), t.bool("v%d?" % r))
        text = text + "s \n" if how == "missing" else text
        text = text + ("k " + k + "\n" if has_k else "") + ("v " + v + "\n" if has_v else "")
        rec = {}
        if w is not None:
            text = text + "w " + w + "\n"
            rec["w"] = w
        hit = [i for i in rec if i == k]
        rec[hit[0] if hit else k] = v
        if has_k and has_v:     # a record without one of them is no pair
            recs.append(rec)
    at = {"missing": 'items2dict="k, v"', "attr": 'items2dict="k, v"', "functions": 'functions="items2dict(\'k\', \'v\')"', "kw": 'items2dict="key_name=\'k\', value_name=\'v\'"'}[how]
    t.eq(only('<group name="g*" %s>\n%sk {{ k }}\nv {{ v }}\nw {{ w }}\n</group>' % (at, "s {{ _start_ }}\n" if how == "missing" else ""), text), {"g": recs} if recs else {}, "items2dict")


MACROS = '''<macro>
def m_true(data):
    return True

def m_none(data):
    data["n"] = "none"

def m_b(data):
    return "b" in data

def m_new(data):
    return {"a": data["a"], "new": "1"}

def m_add(data):
    data["add"] = data.get("b", "-") + "!"
    return data

def m_cut(data):
    return {k: v for k, v in data.items() if k != "b"}
</macro>
'''


def macro(t, names, how, n, hi):
    text, recs = blocks(t, n, hi, "bc")
    want = []
    for r in recs:
        for m in names:
            if m == "m_none":
                r["n"] = "none"
            elif m == "m_b" and "b" not in r:
                r = None
                break
            elif m == "m_new":
                r = {"a": r["a"], "new": "1"}
            elif m == "m_add":
                r["add"] = r.get("b", "-") + "!"
            elif m == "m_cut":
                r.pop("b", None)
        if r is not None:
            want.append(r)
    at = {"attr": 'macro="%s"' % ", ".join(names), "quoted": 'functions="macro(\'%s\')"' % ", ".join(names), "chain": 'functions="%s"' % " | ".join("macro('%s')" % m for m in names)}[how]
    t.eq(only(MACROS + '<group name="g*" %s>\n%s</group>' % (at, BODY), text), {"g": want} if want else {}, "macros %s" % names)


def unicode_(t, n, hi):
    text, recs = blocks(t, n, hi, "bc")
    t.eq(only('<group name="g*" str_to_unicode="">\n%s</group>' % BODY, text), {"g": recs}, "str_to_unicode")


def seq(t, chain, n, hi):
    """several transformations, each sees what the one before it left"""
    text, recs = blocks(t, n, hi, "bc")
    want = []
    for r in recs:
        ok = True
        if chain == "sformat('{a}{b}', 'f') | del('b') | set('f', 'b')":
            if "b" in r:
                r["f"] = r["a"] + r.pop("b")
            r["b"] = "f"
        elif chain == "del('b') | sformat('{a}{b}', 'f')":
            r.pop("b", None)
        elif chain == "sformat('{a}', 'k') | items2dict('k', 'a') | del('b')":
            k = r.pop("a")
            r.pop("b", None)
            hit = [i for i in r if i == k]
            r[hit[0] if hit else k] = k
            t.assume(k != "b")
        elif chain == "macro('m_add') | record('add', 'w') | set('w', 'v') | del('add')":
            r["v"] = r.get("b", "-") + "!"
        elif chain == "contains('b') | itemize('b')":
            ok = "b" in r
            r = r.get("b")
        if ok:
            want.append(r)
    t.eq(only(MACROS + '<group name="g*" functions="%s">\n%s</group>' % (chain, BODY), text), {"g": want} if want else {}, chain)


SEQS = ["sformat('{a}{b}', 'f') | del('b') | set('f', 'b')", "del('b') | sformat('{a}{b}', 'f')", "sformat('{a}', 'k') | items2dict('k', 'a') | del('b')",
        "macro('m_add') | record('add', 'w') | set('w', 'v') | del('add')", "contains('b') | itemize('b')"]


def large(t, kind):
    """many keys in one function, many functions"""
    names = ["n" + c for c in "abcdefghij"]
    has = {n: t.bool("has_" + n) for n in ("na", "ne", "nj")}
    there = [n for n in names if has.get(n, True)]
    v = t.str("v", 1, 1, alphabet="05x")
    rec = dict([("i", v)] + [(n, "0%s" % v if n == "nj" else "7") for n in there])
    data = "i " + v + "\n" + "".join(n + " " + rec[n] + "\n" for n in there)
    if kind == "del":
        attr = 'del="%s"' % ", ".join(names)
        want = {"i": v}
    elif kind == "to_int":
        attr = 'to_int="%s"' % ", ".join(names)
        want = {k: x if k == "i" or (k == "nj" and v == "x") else int(x) if k != "nj" else (5 if v == "5" else 0) for k, x in rec.items()}
    elif kind == "set":
        attr = 'functions="%s"' % " | ".join("set(t%s, s%s)" % (n, n) for n in names)
        want = dict(rec, **{"s" + n: "t" + n for n in names})
    else:
        attr = 'functions="%s"' % " | ".join("sformat('{i}%s', s%s) | del(%s)" % (n, n, n) for n in names)
        want = dict([("i", v)] + [("s" + n, v + n) for n in names])
    tpl = '<group name="g*" %s>\ni {{ i }}\n' % attr + "\n".join("%s {{ %s }}" % (n, n) for n in names) + "\n</group>"
    t.eq(only(tpl, data), {"g": [want]}, "many keys: " + kind)


def jobs(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    for keys in (["b"], ["b", "d"], ["zz"], ["b", "c", "d"], ["c", "b"]):
        for how in ("attr", "functions", "twice"):
            out.append(("delete", {"how": how, "keys": keys, "n": 2, "hi": 1 + d}))
    for k in SETS:
        for how in ("attr", "functions"):
            out.append(("set_", {"kind": k, "how": how, "n": 2, "hi": 1 + d}))
    for f in ("same", "renamed", "chain", "default"):
        out.append(("record", {"form": f, "k": 5 + d, "inputs": 1}))
        out.append(("record", {"form": f, "k": 2 + d, "inputs": 2}))
    out += [("set_input_first", {"how": h, "inputs": 2 + d}) for h in ("attr", "functions")]
    for k in FORMATS:
        for how in ("attr", "args", "functions"):
            out.append(("sformat", {"kind": k, "how": how, "n": 2 if how == "attr" else 1, "hi": 1 + d}))
    for keys in (["b"], [], ["b", "c"], ["zz"]):
        out.append(("to_int", {"keys": keys, "n": 1, "hi": 2 + d + (1 if keys == ["b"] else 0)}))
    out.append(("to_int", {"keys": ["c"], "n": 2, "hi": 1, "lines": "c"}))
    out.append(("to_int_any", {"hi": 3 + d}))
    out += [("to_int_list", {"intlist": b, "hi": 2 + d}) for b in (True, False)]
    out += [("to_int_mixed", {"form": fn}) for fn in ("number", "text", "none")]
    out += [("expand", {"names": e, "n": 2 + d, "hi": 1 + d}) for e in EXPAND]
    for name in ("l", "l*", "p.l", "p.q.l*", "l**", "g.{{ a }}", "g.{{ a }}*"):
        for conv in ("", "resub"):
            out.append(("itemize", {"name": name, "conv": conv, "n": 3 if not conv else 2, "hi": 2 if conv or d else 1}))
    out += [("itemize_path", {"path": p, "n": 2 + d, "hi": 2}) for p in ("l", "l*", "p.q", "p.q*", "l.{{ a }}", "p.l**", "l**", " p . q ")]
    out += [("itemize_child", {"name": n}) for n in ("l", "l*")]
    out += [("items2dict", {"how": h, "n": 2, "hi": 1 + d}) for h in ("attr", "functions", "kw", "missing")]
    for names in (["m_true"], ["m_none"], ["m_b"], ["m_new"], ["m_add", "m_cut"], ["m_cut", "m_add"], ["m_cut", "m_b"], ["m_b", "m_cut"], ["m_none", "m_new"], ["zz", "m_add"], ["m_add", "m_b", "m_new", "m_none"]):
        for how in ("attr", "quoted", "chain"):
            out.append(("macro", {"names": names, "how": how, "n": 2, "hi": 1 + d}))
    out.append(("unicode_", {"n": 2, "hi": 1}))
    out += [("seq", {"chain": c, "n": 2, "hi": 1 + d}) for c in SEQS]
    out += [("large", {"kind": k}) for k in ("del", "to_int", "set", "mixed")]
    return out
