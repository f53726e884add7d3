"""P08: match functions run left to right and yield what each returned."""
from hlib import *

COVERS = ["accepted", "rejected", "extra field", "chain"]
BOUNDS = {
    "quick": "33 functions (library checks and conversions, str/list methods, let/copy, macros with every kind of return value, registered functions, chains): every ordered pair and selected triples, "
             "on values of 2 arbitrary non-blank characters; written in place, as chain of a string and chain of a list; two-variable lines; arguments naming variables with symbolic values" "; cases beyond usual size (9-20 of a kind): a long chain of functions",
    "thorough": "as quick with all triples of 24 functions and pairs on values of 3 characters",
}

REJ = "rejected"
# name -> (text, type needed, model: value, fields -> new value or REJ)


def m_item0(v, f):
    return v[0] if len(v) else v


def put(f, k, v):
    f[k] = v


def m_let(v, f):
    f["n"] = "nv"
    return v


def m_let2(v, f):
    f["n2"] = "n2v"
    return v


def m_copy(v, f):
    f["cp"] = list(v) if isinstance(v, list) else v
    return v


def m_copyn(v, f):
    f["n"] = list(v) if isinstance(v, list) else v
    return v


def keep(cond):
    return lambda v, f: v if cond(v) else REJ


def m_tuple(v, f):
    f["mt"] = v
    return v + "T"


OPS = {
    "upper": ("upper", "s", lambda v, f: v.upper()),
    "lower": ("lower()", "s", lambda v, f: v.lower()),
    "strip": ("strip('a')", "s", lambda v, f: v.strip("a")),
    "rstrip": ("rstrip('0')", "s", lambda v, f: v.rstrip("0")),
    "replace": ("replace('a', 'bb')", "s", lambda v, f: v.replace("a", "bb")),
    "append": ("append('A')", "s", lambda v, f: v + "A"),
    "prepend": ("prepend('a')", "s", lambda v, f: "a" + v),
    "appendl": ("append('L')", "l", lambda v, f: v + ["L"]),
    "prependl": ("prepend('P')", "l", lambda v, f: ["P"] + v),
    "isdigit": ("isdigit", "s", keep(lambda v: v.isdigit())),
    "notdigit": ("notdigit", "s", keep(lambda v: not v.isdigit())),
    "isalpha": ("isalpha", "s", keep(lambda v: v.isalpha())),
    "startswith": ("startswith('a')", "s", keep(lambda v: v.startswith("a"))),
    "endswith": ("endswith('A')", "s", keep(lambda v: v.endswith("A"))),
    "contains": ("contains('a', 'Z')", "s", keep(lambda v: "a" in v or "Z" in v)),
    "exclude": ("exclude('b')", "s", keep(lambda v: "b" not in v)),
    "notequal": ("notequal('aA')", "s", keep(lambda v: v != "aA")),
    "equal": ("equal('aa')", "s", keep(lambda v: v == "aa")),
    "item": ("item(0)", "sl", m_item0),
    "itemm": ("item(-1)", "sl", lambda v, f: v[-1] if len(v) else v),
    "let": ("let('n', 'nv')", "sli", m_let),
    "let2": ("let('n2', 'n2v')", "sli", m_let2),
    "letv": ("let('lv')", "sli", lambda v, f: "lv"),
    "copy": ("copy('cp')", "sli", m_copy),
    "copyn": ("copy('n')", "sli", m_copyn),
    "to_list": ("to_list", "s", lambda v, f: [v]),
    "split": ("split('.')", "s", lambda v, f: v.split(".")),
    "join": ("join('-')", "l", lambda v, f: "-".join(v)),
    "to_str": ("to_str", "s", lambda v, f: v),
    "void": ("void", "sli", lambda v, f: REJ),
    "mup": ("macro('m_app')", "s", lambda v, f: v + "M"),
    "mbool": ("macro('m_bool')", "s", keep(lambda v: v[:1] != "a")),
    "mnone": ("macro('m_none')", "sli", lambda v, f: v),
    "mtuple": ("macro('m_tuple')", "s", m_tuple),
    "fn": ("fn('z')", "s", lambda v, f: v + "z"),
    "fnck": ("fnck", "s", keep(lambda v: v[:1] != "0")),
}
MACROS = '''<macro>
def m_app(data):
    return data + "M"

def m_bool(data):
    return data[:1] != "a"

def m_none(data):
    return None

def m_tuple(data):
    return data + "T", {"mt": data}
</macro>
'''


def kind(v):
    return "l" if isinstance(v, list) else "s"


def model(names, v):
    """expected outcome of the functions on v: (value or REJ, fields)"""
    f = {}
    for n in names:
        text_, need, fn = OPS[n]
        if kind(v) not in need:
            return None, None
        v = fn(v, f)
        if isinstance(v, str) and v == REJ and fn is not m_let:
            return REJ, {}
    return v, f


def parser(tpl, **kw):
    p = ttp(log_level="CRITICAL", **kw)

    def fn(data, arg):
        return data + arg, None

    def fnck(data):
        return data, data[:1] != "0"

    p.add_function(fn, scope="match", name="fn")
    p.add_function(fnck, scope="match", name="fnck")
    p.add_template(tpl)
    return p


def go(t, names, v, how):
    fs = [OPS[n][0] for n in names]
    pre = MACROS if any(n[0] == "m" for n in names) else ""
    if how == "in place":
        var = "{{ a | " + " | ".join(fs) + " }}"
    elif how == "chain":
        pre += '<vars>\nch = "' + " | ".join(fs) + '"\n</vars>\n'
        var = '{{ a | chain("ch") }}'
    else:
        pre += '<vars>\nch = [' + ", ".join('"' + x + '"' for x in fs) + ']\n</vars>\n'
        var = '{{ a | chain(ch) }}'
    p = parser(pre + "<group name='g*'>\nx {{ x }}\ni " + var + "\n</group>")
    p.add_input("x 1\ni " + v + "\n")
    p.parse(one=True)
    return p.result()[0][0]["g"]


def check(t, names, v, how):
    want, f = model(names, v)
    t.assume(f is not None)
    got = go(t, names, v, how)
    if isinstance(want, str) and want == REJ:
        rec = {"x": "1"}
        t.cover("rejected")
    else:
        rec = {"x": "1", "a": want}
        rec.update(f)
        t.cover("extra field" if f else "accepted")
    if how != "in place":
        t.cover("chain")
    t.observe("rec", got)
    t.eq(got, [rec], "value of %s" % " | ".join(names))


def pairs(t, first, n):
    v = t.str("v", n, n, exclude=NONSPACE_EXCL)
    second = t.choice("second", sorted(OPS))
    want, f = model([first], "ab")
    check(t, [first, second], v, "in place")


def triples(t, first, names, how):
    v = t.str("v", 2, 2, alphabet="ab0Az.")
    second = t.choice("second", names)
    third = t.choice("third", names)
    check(t, [first, second, third], v, how)


def ref_vars(t):
    """arguments that name template variables; both sides symbolic"""
    op = t.choice("op", ["contains", "exclude", "equal", "notequal", "append", "prepend", "sformat", "contains2"])
    v = t.str("v", 1, 3, exclude=NONSPACE_EXCL)
    a = t.str("arg", 1, 2, exclude=NONSPACE_EXCL + "{}")
    txt = {"sformat": 'sformat("vn")', "contains2": 'contains("@@@@", vn)'}.get(op, op + "(vn)")
    kw = {"vn": a}
    if op == "sformat":
        a = "[x]"
        kw = {"vn": a + "-{}-" + a}
    tpl = "<group name='g*'>\nx {{ x }}\ni {{ a | " + txt + " }}\n</group>"
    p = mk(tpl, vars=kw)
    p.add_input("x 1\ni " + v + "\n")
    p.parse(one=True)
    got = p.result()[0][0]["g"]
    want = {"contains": lambda: v if a in v else REJ, "exclude": lambda: v if a not in v else REJ, "equal": lambda: v if a == v else REJ, "notequal": lambda: v if a != v else REJ,
            "append": lambda: v + a, "prepend": lambda: a + v, "sformat": lambda: a + "-" + v + "-" + a, "contains2": lambda: v if a in v else REJ}[op]()
    ok = op in ("append", "prepend", "sformat") or want is v
    t.cover("accepted" if ok else "rejected")
    t.eq(got, [{"x": "1", "a": want} if ok else {"x": "1"}], "argument from a variable of %s" % op)


def two_vars(t, first):
    """two variables of a line: functions of one leave the other alone"""
    names = ["let", "copy", "append", "isdigit", "copyn", "mtuple", "letv", "split"]
    f1 = first
    f2 = t.choice("f2", names)
    v = t.char("v", exclude=NONSPACE_EXCL)
    w = t.char("w", exclude=NONSPACE_EXCL)
    r1, e1 = model([f1], v)
    r2, e2 = model([f2], w)
    p = parser(MACROS + "<group name='g*'>\nx {{ x }}\ni {{ a | " + OPS[f1][0] + " }} {{ b | " + OPS[f2][0] + " }} {{ c }}\n</group>")
    p.add_input("x 1\ni " + v + " " + w + " 3\n")
    p.parse(one=True)
    got = p.result()[0][0]["g"]
    rec = {"x": "1"}
    if not (isinstance(r1, str) and r1 == REJ) and not (isinstance(r2, str) and r2 == REJ):
        rec.update({"a": r1})
        rec.update(e1)
        rec.update({"b": r2})
        rec.update(e2)
        rec.update({"c": "3"})
    t.eq(got, [rec], "two variables with functions")


def start_line(t, first):
    """the same on a start line, over two records"""
    second = t.choice("second", ["append", "isdigit", "let", "copy", "contains", "mbool"])
    recs = []
    data = ""
    for i in range(2):
        v = t.char("v%d" % i, alphabet="ab01.A")
        want, f = model([first, second], v)
        t.assume(f is not None)
        data = data + "i " + v + "\n"
        if not (isinstance(want, str) and want == REJ):
            r = {"a": want}
            r.update(f)
            recs.append(r)
    p = parser((MACROS) + "<group name='g*'>\ni {{ a | " + OPS[first][0] + " | " + OPS[second][0] + " }}\n</group>")
    p.add_input(data)
    p.parse(one=True)
    t.eq(p.result()[0][0].get("g", []), recs, "functions on a start line")


def attribute(t):
    """a name that is neither a function nor a method leaves the value alone;
    attributes that are not callable give their value"""
    v = t.str("v", 1, 2, exclude=NONSPACE_EXCL)
    p = mk("<group name='g*'>\nx {{ x }}\ni {{ a | nosuchfunction | append('A') }}\n</group>")
    p.add_input("x 1\ni " + v + "\n")
    p.parse(one=True)
    t.eq(p.result()[0][0]["g"], [{"x": "1", "a": v + "A"}], "unknown name")


def macro_values(t):
    """every kind of macro return value; errors of macros are not swallowed
    into another function"""
    v = t.str("v", 1, 2, exclude=NONSPACE_EXCL)
    kind_ = t.choice("kind", ["True", "False", "None", "data", "[data]", "(data, {'k': data})", "('x', {})", "{'z': data}", "0", "''", "1"])
    p = mk("<macro>\ndef m(data):\n    return " + kind_ + "\n</macro>\n<group name='g*'>\nx {{ x }}\ni {{ a | macro('m') }}\n</group>")
    p.add_input("x 1\ni " + v + "\n")
    p.parse(one=True)
    r = {"True": {"a": v}, "False": {}, "None": {"a": v}, "data": {"a": v}, "[data]": {"a": [v]}, "(data, {'k': data})": {"a": v, "k": v}, "('x', {})": {"a": "x"},
         "{'z': data}": {"a": {"z": v}}, "0": {"a": 0}, "''": {"a": ""}, "1": {"a": 1}}[kind_]
    rec = {"x": "1"}
    rec.update(r)
    t.eq(p.result()[0][0]["g"], [rec], "macro returning " + kind_)


def large(t, kind):
    """a long chain of functions"""
    v = t.char("v", exclude=NONSPACE_EXCL)
    names = "abcdefghijkm"
    if kind == "append":
        chain = " | ".join("append('%s')" % c for c in names)
        want = {"x": v + names}
    elif kind == "copy":
        chain = " | ".join("append('%s') | copy('c%s')" % (c, c) for c in names)
        want = dict([("x", v + names)] + [("c" + c, v + names[:i + 1]) for i, c in enumerate(names)])
    elif kind == "checks":
        chain = " | ".join("notequal('%s')" % c for c in names)
        want = {"x": v} if v not in names else None
    else:
        chain = " | ".join("append('%s') | contains_re('%s$')" % (c, c if c != "k" else "[k~]") for c in names) + " | notequal('~%s')" % names
        want = {"x": v + names} if v != "~" else None
    t.eq(only("<group name='g*'>\ni {{ x | %s }}\n</group>" % chain, "i " + v), {} if want is None else {"g": [want]}, "long chain")


def jobs(tier):
    d = tier == "thorough"
    out = [("pairs", {"first": f, "n": 3 if d else 2}) for f in OPS]
    small = ["append", "upper", "isdigit", "contains", "let", "copy", "split", "join", "mbool", "fn", "exclude", "to_list", "itemm", "copyn"]
    if d:
        small = small + ["replace", "appendl", "mtuple", "letv", "startswith", "strip", "prepend", "notequal", "fnck", "mnone"]
    for f in small:
        out.append(("triples", {"first": f, "names": small, "how": "in place"}))
    for f in ["append", "upper", "isdigit", "let", "split", "mbool", "fn"]:
        for how in ("chain", "chain list"):
            out.append(("triples", {"first": f, "names": ["append", "contains", "copy", "join"] if not d else small, "how": how}))
    out += [("ref_vars", {}), ("attribute", {}), ("macro_values", {})]
    out += [("two_vars", {"first": f}) for f in ["let", "copy", "append", "isdigit", "copyn", "mtuple", "letv", "split"]]
    out += [("start_line", {"first": f}) for f in ["upper", "append", "isdigit", "let", "split", "notequal", "mup"]]
    out += [("large", {"kind": k}) for k in ("append", "copy", "checks", "both")]
    return out
