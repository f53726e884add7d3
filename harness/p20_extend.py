"""P20: extend is the same as writing the extended text in place."""
import builtins
import os
from hlib import *

COVERS = ["plain text", "groups", "other tags", "nested extend", "filtered", "macro"]
BOUNDS = {
    "quick": "9 parent templates (top, in a group before/between/after lines and child groups, in a child group, in a group written g/grp, in a nested template) with 2 places each, "
             "every pair of 13 extended templates (plain text, groups, variables, lookups, macros, wrapped in template, nested extends 1-3 levels deep, empty), filters of every kind by name and index, "
             "extend macros written before and after the tag, TTP_TEMPLATES_DIR and ttp:// paths; texts of 12-14 lines in 3 orders with symbolic values",
    "thorough": "3 places, values of 1-2 characters, orders of lines chosen freely among 6",
}
ASSUMPTIONS = ["extended templates are read from a virtual directory (isfile, open) and a stand-in of ttp_templates.get_template"]

DIR = "/virtual-templates-dir/"
FILES = {}
_isf, _open = os.path.isfile, builtins.open


class _File(object):
    def __init__(self, s):
        self.s = s

    def read(self):
        return self.s

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _isfile(p):
    if isinstance(p, str) and p[: len(DIR)] == DIR:
        return p[len(DIR):] in FILES
    return _isf(p)


def _vopen(p, *a, **k):
    if isinstance(p, str) and p[: len(DIR)] == DIR:
        return _File(FILES[p[len(DIR):]])
    return _open(p, *a, **k)


os.path.isfile, builtins.open = _isfile, _vopen


def val(t, name, hi=1, exclude=""):
    return t.str(name, 1, hi, exclude=NONSPACE_EXCL + exclude)


# ---- templates in pieces: a string, ("ext", file, attributes) or ("tag", kind, text); files: name -> pieces
def ext(f, **kw):
    return ("ext", f, kw)


def tag(kind, name, text):
    return ("tag", kind, name, text)


GK = tag("group", "k*", '<group name="k*">\nk {{ k }}\n</group>\n')
GM = tag("group", "m*", '<group name="m*">\nm {{ m }}\n</group>\n')
GN = tag("group", "n.{{ n }}", '<group name="n.{{ n }}">\nn {{ n }}\no {{ o }}\n</group>\n')
VA = tag("vars", "v", '<vars name="v">\na = "A"\nmn = "MN"\n</vars>\n')
VB = tag("vars", "w", '<vars name="w">\nb = "B"\n</vars>\n')
LK = tag("lookup", "L", '<lookup name="L" load="csv">\nid,q\n1,one\n2,two\n</lookup>\n')
GL = tag("group", "l*", '<group name="l*">\nm {{ m | lookup("L", add_field="r") }}\n</group>\n')
MC = tag("macro", None, '<macro>\ndef mm(data):\n    return data + "!"\n</macro>\n')
GC = tag("group", "c", '<group name="c*">\nk {{ k | macro("mm") }}\n{{ s | set("mn") }}\n</group>\n')
DEEP = {
    "px": ["x {{ x }}\n"],
    "py": ["\n  \ny {{ y }}\nz {{ z }}"],
    "k": [GK],
    "mn": [GM, GN],
    "vm": [VA, GM],
    "lk": [LK, GL],
    "mc": [MC, GC],
    "wrap": ["<template>\n", GK, GM, "</template>"],
    "wraplain": ["<template>\ny {{ y }}\n</template>"],
    "nest": [ext("vm"), tag("group", "n2", '<group name="n2">\nn {{ n }}\n</group>\n')],
    "nest3": [ext("nest"), ext("k")],
    "nestg": [("tagext", "group", "q", ['<group name="q">\nn {{ n }}\n', ext("px"), "o {{ o }}\n", ext("k"), "</group>\n"])],
    "empty": [""],
}
SLOTS = ["px", "py", "k", "mn", "vm", "lk", "mc", "wrap", "wraplain", "nest", "nest3", "nestg", "empty"]
PLAIN = ("px", "py", "wraplain", "empty")


def write(pieces):
    """text of a template with extend tags"""
    out = ""
    for p in pieces:
        if isinstance(p, str):
            out += p
        elif p[0] == "ext":
            out += '<extend template="%s"%s/>\n' % (DIR + p[1] + ".txt" if "/" not in p[1] else p[1], "".join(' %s="%s"' % kv for kv in sorted(p[2].items())))
        elif p[0] == "tag":
            out += p[3]
        else:
            out += write(p[3])
    return out


def inline(pieces, ingroup=False, filters=None):
    """the same with the extended text in place of the tags; in a group groups (and lines) only"""
    out = ""
    f = dict((k, [i.strip() for i in v.split(",")]) for k, v in (filters or {}).items())
    gi = 0
    for p in pieces:
        if isinstance(p, str):
            if p in ("<template>\n", "</template>"):
                continue
            out += p.replace("<template>\n", "").replace("</template>", "")
        elif p[0] == "ext":
            out += inline(DEEP[p[1]], ingroup, {k: v for k, v in p[2].items() if k != "macro"}) + "\n"
        else:
            kind, name = p[1], p[2]
            if kind == "group":
                sel = f.get("groups")
                mine, gi = gi, gi + 1
                if sel and name not in sel and str(mine) not in sel:
                    continue
            elif ingroup:
                continue
            else:
                sel = f.get({"vars": "vars", "lookup": "lookups", "input": "inputs", "output": "outputs"}.get(kind, "-"))
                if sel and name not in sel:
                    continue
            out += p[3] if p[0] == "tag" else inline(p[3], True)
    return out


TOP = tag("group", "t", '<group name="t*">\nt {{ t }}\nd {{ d }}\n</group>\n')
PARENTS = {
    "top": lambda a, b: ([ext(a), TOP, ext(b)], False),
    "top2": lambda a, b: ([ext(a), ext(b)], False),
    "lines": lambda a, b: ([ext(a), "d {{ d }}\n", ext(b)], False),
    "start": lambda a, b: ([('G', '<group name="g*">\n', [ext(a), "d {{ d }}\n", ext(b)])], True),
    "mid": lambda a, b: ([('G', '<group name="g*">\n', ["t {{ t }}\n", ext(a), "d {{ d }}\n", ext(b), "w {{ w }}\n"])], True),
    "after": lambda a, b: ([('G', '<group name="g*">\n', ["t {{ t }}\n", ('G', '<group name="h*">\n', ["w {{ w }}\n"]), ext(a), ext(b), "d {{ d }}\n"])], True),
    "child": lambda a, b: ([('G', '<group name="g*">\n', ["t {{ t }}\n", ('G', '<group name="h*">\n', ["d {{ d }}\n", ext(a), "w {{ w }}\n"]), ext(b)])], True),
    "alias": lambda a, b: ([('G', '<g name="g*">\n', ["t {{ t }}\n", ext(a), ('G', '<grp name="h*">\n', ["d {{ d }}\n", ext(b)])])], True),
    "both": lambda a, b: ([('G', '<group name="g*">\n', ["t {{ t }}\n", ext(a)]), ext(b)], True),
}


def wr(pieces):
    out = ""
    for p in pieces:
        if not isinstance(p, str) and p[0] == "G":
            out += p[1] + wr(p[2]) + "</%s>\n" % p[1][1:].split()[0]
        else:
            out += write([p])
    return out


def il(pieces, ingroup=False):
    out = ""
    for p in pieces:
        if not isinstance(p, str) and p[0] == "G":
            out += p[1] + il(p[2], True) + "</%s>\n" % p[1][1:].split()[0]
        else:
            out += inline([p], ingroup)
    return out


ORDERS = ["tdwxyzkmnopq", "txkmdyznowk", "xtynowmkdzmx", "kmxtddwwyz", "ytmnonxkdw", "dtwkxnomyz"]


def text_of(t, order, hi):
    text = ""
    for i, c in enumerate(order):
        text += c + " " + val(t, "v%d" % i, hi) + "\n"
    return text


def results(tpl, text):
    p = ttp(template=tpl, log_level="CRITICAL")
    if text is not None:
        p.add_input(text)
    p.parse(one=True)
    return p.result()


def files():
    FILES.clear()
    for k, p in DEEP.items():
        FILES[k + ".txt"] = write(p)


def compare(t, parent, a, norders, hi):
    files()
    b = t.choice("b", SLOTS)
    order = t.choice("order", ORDERS[:norders])
    pieces, ingroup = PARENTS[parent](a, b)
    text = text_of(t, order, hi)
    got = results(wr(pieces), text)
    want = results(il(pieces), text)
    t.eq(got, want, "%s of %s and %s: extended and written in place" % (parent, a, b))
    cov(t, (a, b))


def cov(t, used):
    for x in used:
        t.cover("plain text" if x in PLAIN else "groups")
        if x in ("vm", "lk", "mc"):
            t.cover("other tags")
        if x[:4] == "nest":
            t.cover("nested extend")


# ---- absolute expectations
def absolute(t, which, hi):
    files()
    v = [val(t, "v%d" % i, hi) for i in range(6)]
    E = '<extend template="%s%%s.txt"/>' % DIR
    if which == "group lines":
        tpl = '<group name="g*">\nt {{ t }}\n' + E % "px" + "\nd {{ d }}\n" + E % "k" + "\nw {{ w }}\n</group>"
        text = "t %s\nx %s\nd %s\nk %s\nw %s\n" % tuple(v[:5])
        want = {"g": [{"t": v[0], "x": v[1], "d": v[2], "k": [{"k": v[3]}], "w": v[4]}]}
        t.cover("plain text")
    elif which == "two plain":
        tpl = '<group name="g*">\n' + E % "px" + E % "py" + "</group>"
        text = "x %s\ny %s\nz %s\n" % tuple(v[:3])
        want = {"g": [{"x": v[0], "y": v[1], "z": v[2]}]}
        t.cover("plain text")
    elif which == "plain alone":
        tpl = E % "px"
        text = "x %s\nx %s\n" % tuple(v[:2])
        want = [{"x": v[0]}, {"x": v[1]}]
        t.cover("plain text")
    elif which == "nested tags":
        tpl = E % "nest3"
        text = "m %s\nk %s\nn %s\n" % tuple(v[:3])
        want = {"v": {"a": "A", "mn": "MN"}, "m": [{"m": v[0]}], "k": [{"k": v[1]}], "n2": {"n": v[2]}}
        t.cover("nested extend")
        t.cover("other tags")
    else:
        tpl = E % "mc" + E % "vm" + E % "lk"
        text = "k %s\nm %s\n" % tuple(v[:2])
        l = {"m": v[1]}
        if v[1] == "1":
            l["r"] = {"q": "one"}
        elif v[1] == "2":
            l["r"] = {"q": "two"}
        want = {"v": {"a": "A", "mn": "MN"}, "c": [{"k": v[0] + "!", "s": "MN"}], "m": [{"m": v[1]}], "l": [l]}
        t.cover("groups")
    t.eq(results(tpl, text), [[want]], which)


# ---- filters
ALL = [VA, VB, LK, tag("input", "i1", '<input name="i1" load="text">\nk 8\nm 8\n</input>\n'), tag("input", "i2", '<in name="i2" load="text">\nk 9\n</in>\n'),
       GK, GM, GL, GN, tag("output", "o1", '<output name="o1" macro="oo"/>\n'), tag("output", "o2", '<out name="o2" macro="op"/>\n'),
       tag("macro", None, '<macro>\ndef oo(data):\n    return [data, "o1"]\ndef op(data):\n    return [data, "o2"]\n</macro>\n')]
FILTERS = {
    "groups": ["k*", "0", "k*, m*", "1,3", "n.{{ n }}", "3, k*", "k", "l*,0,zz"],
    "vars": ["v", "w", "v, w", "none"],
    "inputs": ["i1", "i2", "i1,i2", "none"],
    "lookups": ["L", "none"],
    "outputs": ["o1", "o2", " o1 , o2 ", "none"],
}


def top_filter(t, kind, other, hi):
    """tags of the filtered kind that are not named are left out, all others stay; the tags after the extend are not affected"""
    DEEP["all"] = ALL
    files()
    kw = {kind: t.choice("sel", FILTERS[kind])}
    if other:
        kw[other] = t.choice("sel2", FILTERS[other])
    after = t.bool("after")
    pieces = [ext("all", **kw)] + ([ext("px")] if t.bool("plain") else []) + ([ext("k")] if after else []) + [TOP]
    text = "t %s\nk %s\nm %s\nn %s\no %s\nx 1\n" % tuple(val(t, "v%d" % i, hi) for i in range(5))
    got = results(wr(pieces), text)
    want = results(il(pieces), text)
    t.eq(got, want, "filters %r" % kw)
    t.cover("filtered")


def group_filter(t, where, hi):
    DEEP["gs"] = [VA, GK, GM, ext("px"), ("tagext", "group", "q", ['<group name="q">\nn {{ n }}\n', ext("vm"), "</group>\n"])]
    DEEP["gf"] = [ext("gs", groups="m*"), GN]
    files()
    sel = t.choice("sel", ["k*", "0", "1, q", "q", "none", "2", "m*,0"])
    if where == "group":
        pieces = [('G', '<group name="g*">\n', ["t {{ t }}\n", ext("gs2", groups=sel), "d {{ d }}\n", ext("k")])]
    elif where == "child":
        pieces = [('G', '<group name="g*">\n', ["t {{ t }}\n", ('G', '<group name="h*">\n', ["d {{ d }}\n", ext("gs2", groups=sel), ext("gf2")])])]
    else:
        pieces = [ext("gs2", groups=sel), ext("gf2"), TOP]
    DEEP["gs2"] = [VA, GK, GM, ("tagext", "group", "q", ['<group name="q">\nn {{ n }}\n', ext("vm"), "</group>\n"])]
    DEEP["gf2"] = [ext("gs2", groups="m*"), GN]
    files()
    text = "t %s\nd %s\nk %s\nm %s\nn %s\nm %s\no 1\n" % tuple(val(t, "v%d" % i, hi) for i in range(6))
    got = results(wr(pieces), text)
    want = results(il(pieces), text)
    t.eq(got, want, "groups filter %r" % sel)
    t.cover("filtered")


def many_groups(t, where):
    """groups selected by index or name in a template of twelve groups"""
    DEEP["tw"] = ["<group name='%s%d'>\n%s {{ v }}\n</group>\n" % ("ga"[i % 2], i // 2, chr(97 + i)) for i in range(12)]
    names = ["ga"[i % 2] + str(i // 2) for i in range(12)]
    files()
    sel = t.choice("sel", ["1", "10", "11", "1,11", "0, 10", "2,1,12", "g1", "a5", "a1, 10", "g5,3", "1,g1", "g,a,01"])
    top = where == "top"
    use = ext("tw", groups=sel)
    vals = [t.char("v%d" % i, exclude=NONSPACE_EXCL) for i in range(12)]
    text = "s 1\n" + "".join(chr(97 + i) + " " + vals[i] + "\n" for i in range(12))
    tpl = wr([use]) if top else wr([('G', "<group name='z'>\n", ["s {{ s }}\n", use])])
    keep = [s.strip() for s in sel.split(",")]
    want = {n: {"v": vals[i]} for i, n in enumerate(names) if str(i) in keep or n in keep}
    if not top:
        want = {"z": dict(want, s="1")}
    t.eq(results(tpl, text), [[want]] if want else [[{}]], "groups %s of twelve" % sel)
    t.cover("filtered")


# ---- macro of the tag, paths
def with_macro(t, where, hi):
    """the macro's text is what is extended"""
    v, w, x = val(t, "v", hi), val(t, "w", hi), val(t, "x", hi)
    DEEP2 = {"blk.txt": '<group name="b*">\nb {{ b }}\nc {{ c }}\n</group>\n', "ln.txt": "c {{ c }}\n"}
    FILES.clear()
    FILES.update(DEEP2)
    mac = '<macro>\ndef ind(data):\n    return "\\n".join("  " + l for l in data.splitlines())\ndef other(data):\n    return data.replace("c {{ c }}", "e {{ c }}")\n</macro>\n'
    f, m = t.choice("f", ["blk", "ln"]), t.choice("m", ["ind", "other", None])
    e = '<extend template="%s%s.txt"%s/>\n' % (DIR, f, ' macro="%s"' % m if m else "")
    body = DEEP2[f + ".txt"]
    if m == "ind":
        body = "\n".join("  " + l for l in body.splitlines()) + "\n"
    elif m == "other":
        body = body.replace("c {{ c }}", "e {{ c }}")
    if where == "group":
        tpl = '<group name="g*">\nt {{ t }}\n%s</group>\n'
    else:
        tpl = '%s<group name="t">\nt {{ t }}\n</group>\n'
    # the macros of a template are known wherever they are written in it
    tpl = mac + tpl if t.choice("macro", ["first", "last"]) == "first" else tpl + mac
    text = "t 1\nb %s\nc %s\ne %s\n  b %s\n  c %s\n" % (v, w, x, w, x)
    t.eq(results(tpl % e, text), results(tpl % body, text), "macro %s" % m)
    if where == "group" and f == "ln":
        want = {"ind": x, "other": x, None: w}[m]
        t.eq(results(tpl % e, text), [[{"g": [{"t": "1", "c": want}]}]], "macro, absolute")
    t.cover("macro")


def paths(t, how, hi):
    """the template is found by path, below TTP_TEMPLATES_DIR, or in the ttp_templates package; none: an error"""
    import sys
    files()
    v = val(t, "v", hi)
    if how == "env":
        os.environ["TTP_TEMPLATES_DIR"] = DIR
        name = "k.txt"
    elif how == "ttp":
        class M(object):
            @staticmethod
            def get_template(path):
                return FILES[path]
        old = sys.modules.get("ttp_templates")
        sys.modules["ttp_templates"] = M
        name = "ttp://k.txt"
    elif how == "missing":
        name = DIR + "nosuch.txt"
    else:
        name = DIR + "k.txt"
    tpl = '<group name="g">\nt {{ t }}\n<extend template="%s"/>\n</group>\n' % name
    try:
        try:
            p = ttp(template=tpl, log_level="CRITICAL")
            os.environ.pop("TTP_TEMPLATES_DIR", None)
            p.add_input("t 1\nk %s\n" % v)
            p.parse(one=True)
            got = p.result()
        except FileNotFoundError:
            got = "error"
        t.eq(got, "error" if how == "missing" else [[{"g": {"t": "1", "k": [{"k": v}]}}]], "path")
        t.cover("groups")
    finally:
        os.environ.pop("TTP_TEMPLATES_DIR", None)
        if how == "ttp":
            if old is None:
                del sys.modules["ttp_templates"]
            else:
                sys.modules["ttp_templates"] = old


def nested_template(t, a, hi):
    """extend in a template tag extends that template only"""
    files()
    b = t.choice("b", SLOTS)
    pieces, ig = PARENTS["top"](a, b)
    text = text_of(t, ORDERS[1], hi)

    def go(body):
        p = ttp(template='<template name="one">\n' + body + '</template>\n<template name="two">\n<group name="z">\nt {{ t }}\n</group>\n</template>\n', log_level="CRITICAL")
        p.add_input(text, template_name="_all_")
        p.parse(one=True)
        return p.result()
    got = go(wr(pieces))
    t.eq(got, go(il(pieces)), "extend in a nested template")
    t.cover("nested extend")
    cov(t, (a, b))


def jobs(tier):
    th = tier == "thorough"
    hi = 1 + th
    out = []
    for p in PARENTS:
        for a in SLOTS:
            out.append(("compare", (p, a, 6 if th else 2, hi)))
    for w in ("group lines", "two plain", "plain alone", "nested tags", "all"):
        out.append(("absolute", (w, 2)))
    for k in FILTERS:
        out.append(("top_filter", (k, None, hi)))
        for o in FILTERS:
            if o < k and (th or k == "vars" or o == "groups"):
                out.append(("top_filter", (k, o, hi)))
    for w in ("group", "child", "top"):
        out.append(("group_filter", (w, hi)))
    for w in ("top", "group"):
        out.append(("many_groups", (w,)))
    for w in ("group", "top"):
        out.append(("with_macro", (w, hi)))
    for h in ("file", "env", "ttp", "missing"):
        out.append(("paths", (h, 2)))
    for a in SLOTS if th else ("px", "vm", "nest3", "mc"):
        out.append(("nested_template", (a, hi)))
    return named(globals(), out)
