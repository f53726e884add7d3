"""P16: result structures are views of the same results."""
from hlib import *
from p05_paths import place, final, full, gtag

COVERS = ["list", "dictionary", "flat_list", "selected", "per_template", "per_input", "combined", "no input", "anonymous"]
BOUNDS = {
    "quick": "1-3 templates, each per_input or per_template, with named, list, nested or anonymous groups and 0-2 inputs of one text each of 0-2 records with arbitrary values; 3 structures, every selection of templates by text or list, with and without an output format; "
             "per_template: 20 group paths, 10 pairs of paths, 8 parent/child paths with 2 inputs of up to 3 lines, dynamic paths with arbitrary keys, variables in results, start defaults",
    "thorough": "as quick with inputs of up to 4 lines, 3 inputs",
}
NL = "\n"


def flat(results):
    out = []
    for r in results:
        if isinstance(r, list):
            for x in r:
                if isinstance(x, list):
                    out += x
                else:
                    out.append(x)
        else:
            out.append(r)
    return out


def copied(x):
    if isinstance(x, list):
        return [copied(i) for i in x]
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    return x


KINDS = {"named": ("g*", None), "single": ("g", None), "anon": (None, None), "both": (None, "n.g"), "deep": ("a.b*", "c")}


def combine(kind, mode, data):
    """data: per input the values of the records -> results of the template"""
    p1, p2 = KINDS[kind]
    roots = [{} for d in data] if mode == "per_input" else [{}]
    for i, recs in enumerate(data):
        root = roots[i if mode == "per_input" else 0]
        for key, p in (("i", p1), ("j", p2)):
            for k, v in recs:
                if k == key:
                    place(root, ["_anonymous_*"] if p is None else p.split("."), {"x" if k == "i" else "y": v})
    roots = [final(r) for r in roots]
    return roots if mode == "per_input" else roots[0]


def template(name, kind, mode):
    p1, p2 = KINDS[kind]
    body = gtag(p1, "i {{ x }}")
    if p2:
        body += "\n" + gtag(p2, "j {{ y }}")
    return "<template name='%s' results='%s'>\n%s\n</template>\n" % (name, mode, body)


def structures(t, kinds, modes, nin, fmt):
    n = len(kinds)
    names = ["t1", "t10", "t"][:n]
    p = mk("<template>\n" + "".join(template(names[i], kinds[i], modes[i]) for i in range(n)) + "</template>")
    want = []
    c = 0
    for i in range(n):
        data = []
        for j in range(nin[i]):
            recs = []
            text = "z\n"
            for r in range(t.choice("n%d%d" % (i, j), [0, 1, 2] if i == 0 else [1])):
                k = "j" if KINDS[kinds[i]][1] and r else "i"
                # values are a letter of their own and an arbitrary character: no two texts are the same
                v = chr(97 + c) + t.char("v%d" % c, exclude=NONSPACE_EXCL)
                c += 1
                recs.append((k, v))
                text = text + k + " " + v + NL
            data.append(recs)
            p.add_input(text + "zz\n" * j, template_name=names[i])
        if not data:
            t.cover("no input")
        t.cover(modes[i])
        if "anon" in kinds[i] or kinds[i] == "both":
            t.cover("anonymous")
        want.append(combine(kinds[i], modes[i], data) if data or modes[i] == "per_input" else {})
    p.parse(one=True)
    sel = t.choice("sel", [None, "t1", ["t1"], names[-1], [names[-1], "t1"], ["t10", "none"], "t10", "none", []])
    keep = names if not sel else [x for x in names if x == sel or (isinstance(sel, list) and x in sel)]
    if sel:
        t.cover("selected")
    kw = {"format": "raw"} if fmt else {}
    if sel is not None:
        kw["templates"] = sel
    res = {names[i]: want[i] for i in range(n)}
    for s in ("list", "dictionary", "flat_list", "List", None):
        if s is None:
            got = p.result(**kw)
        else:
            got = p.result(structure=s, **kw)
        if s == "dictionary":
            exp = {x: res[x] for x in keep}
        elif s == "flat_list":
            exp = flat([res[x] for x in keep])
        else:
            exp = [res[x] for x in keep]
        if s and s != "List":
            t.cover(s)
        t.eq(copied(got), copied(exp), "structure %s of %s" % (s, sel))


# ----------------------------------------------------------- per_template
PATHS = ["a", "a.b", "a*", "a.b*", "a*.b", "a*.b*", "a**", "a.b**", "a**.b", "a*.b.c", "a.b*.c", "a.b.c", "/a.b", "/a*", None, "_.a", "_.a*", "a**.b*", "a*.b**"]


def per_template(body):
    return "<template results='per_template'>\n" + body + "\n</template>"


def texts(t, n, k, alpha, least=1):
    out = []
    for d in range(n):
        ls = []
        for i in range(t.choice("n%d" % d, list(range(least, k + 1)))):
            key = t.pick(t.char("k%d%d" % (d, i), alphabet=alpha)) if len(alpha) > 1 else alpha
            ls.append((key, t.char("v%d%d" % (d, i), exclude=NONSPACE_EXCL)))
        out.append(ls)
    return out


def feed(p, data):
    """inputs of different names, so that equal texts are not one input"""
    for d, ls in enumerate(data):
        p.add_input("z\n" + "".join(k + " " + v + NL for k, v in ls), input_name="in%d" % d)


def one_result(t, p, msg, want):
    p.parse(one=True)
    t.cover("combined")
    t.cover("per_template")
    t.eq(p.result(), [want], msg)


def combined(t, path, n, k):
    p = mk(per_template(gtag(path, "i {{ x }}")))
    data = texts(t, n, k, "i", 0)
    feed(p, data)
    root = {}
    for ls in data:
        for _, v in ls:
            place(root, full(path), {"x": v})
    one_result(t, p, "combined at %s" % path, final(root))


PAIRS = [("a.x", "a.y"), ("a*.x", "a*.y"), ("a.x*", "a.y*"), ("a", "b"), ("a.x", "a.x"), (None, "b"), (None, "b*"), (None, None), ("a.b.x", "a.c.x*"), ("a**.x", "a**.y")]


def pairs(t, p1, p2, n, k):
    p = mk(per_template(gtag(p1, "i {{ x }}") + NL + gtag(p2, "j {{ y }}")))
    data = texts(t, n, k, "ij")
    feed(p, data)
    root = {}
    for ls in data:
        for key, path, var in (("i", p1, "x"), ("j", p2, "y")):
            for kk, v in ls:
                if kk == key:
                    place(root, full(path), {var: v})
    one_result(t, p, "combined at %s and %s" % (p1, p2), final(root))


KIDS = [("a*", "b"), ("a*", "b*"), ("a", "b*"), ("a", "b"), (None, "b*"), ("a*", "b.c*"), ("a**", "b*"), ("a.z*", "b")]


def kids(t, p1, p2, n, k):
    """children of a text belong to parents of the same text"""
    p = mk(per_template("<group%s>\ni {{ x }}\n%s\n</group>" % ("" if p1 is None else " name='%s'" % p1, gtag(p2, "j {{ y }}"))))
    data = texts(t, n, k, "ij")
    feed(p, data)
    root = {}
    for ls in data:
        started = False
        for kk, v in ls:
            if kk == "i":
                place(root, full(p1), {"x": v})
                started = True
            elif started:
                place(root, full(p1) + p2.split("."), {"y": v})
    one_result(t, p, "combined at %s and %s" % (p1, p2), final(root))


def dynamic(t, star, n):
    p = mk(per_template("<group name='d.{{ k }}%s'>\nk {{ k }}\nv {{ v }}\n</group>" % star))
    want = {}
    for i in range(n):
        k = t.str("k%d" % i, 1, 2, exclude=NONSPACE_EXCL + "*./_{}")
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        p.add_input("k " + k + "\nv " + v + NL, input_name="in%d" % i)
        if k in want:
            old = want[k]
            if isinstance(old, list):
                old.append({"v": v})
            elif star == "**":
                pass
            else:
                want[k] = [old, {"v": v}]
        else:
            want[k] = [{"v": v}] if star == "*" else {"v": v}
    one_result(t, p, "dynamic paths", {"d": want})


def defaulted(t, mode):
    p = mk("<template results='%s'>\n<group name='d*'>\ni {{ x | default('none') | _start_ }}\nj {{ y | default('dd') }}\n</group>\n</template>" % mode)
    data = texts(t, 2, 2, "ij")
    feed(p, data)
    want = []
    for ls in data:
        recs = []
        for kk, v in ls:
            if kk == "i":
                recs.append({"x": v, "y": "dd"})
            elif recs and recs[-1]["y"] == "dd":
                t.assume(v != "d")
                recs[-1]["y"] = v
        want.append(recs or [{"x": "none", "y": "dd"}])
    p.parse(one=True)
    t.cover(mode)
    if mode == "per_input":
        t.eq(p.result(), [[{"d": w} for w in want]], "defaults per input")
    else:
        t.eq(p.result(), [{"d": want[0] + want[1]}], "defaults per template")


def dozen(t, named):
    """twelve templates: results in the order of templates, selected by exactly their names"""
    names = ["t%d" % i if named else str(i) for i in range(12)]
    p = mk("<template>\n" + "".join("<template%s>\n<group name='g'>\nx {{ x }}\n</group>\n</template>\n" % (" name='%s'" % x if named else "") for x in names) + "</template>")
    order = [11, 1, 0, 10, 2, 3, 9, 4, 5, 6, 7, 8]
    v = [t.char("v%d" % i, exclude=NONSPACE_EXCL) for i in range(12)]
    for i in order:
        p.add_input("x " + v[i] + "\n", template_name=names[i])
    p.parse(one=True)
    sel = t.choice("sel", [None, [names[1]], names[11], [names[10], names[1]], [names[2], "t", "1x"]])
    keep = [i for i, x in enumerate(names) if not sel or x == sel or isinstance(sel, list) and x in sel]
    kw = {} if sel is None else {"templates": sel}
    t.eq(p.result(**kw), [[{"g": {"x": v[i]}}] for i in keep], "list of twelve")
    t.eq(p.result(structure="dictionary", **kw), {names[i]: [{"g": {"x": v[i]}}] for i in keep}, "dictionary of twelve")
    t.eq(p.result(structure="flat_list", **kw), [{"g": {"x": v[i]}} for i in keep], "flat list of twelve")
    t.cover("selected")


def jobs(tier):
    q = tier == "quick"
    out = []
    for fmt in (False, True):
        for kinds, modes, nin in [
            (["named"], ["per_input"], [2]), (["single"], ["per_template"], [2]), (["anon"], ["per_input"], [2]), (["anon"], ["per_template"], [2]),
            (["both"], ["per_input"], [1]), (["both"], ["per_template"], [2]), (["deep"], ["per_template"], [1]), (["named"], ["per_input"], [0]), (["anon"], ["per_template"], [0]),
            (["named", "anon"], ["per_input", "per_input"], [1, 2]), (["anon", "both"], ["per_template", "per_input"], [1, 1]),
            (["deep", "single"], ["per_template", "per_template"], [1, 0]), (["both", "anon"], ["per_input", "per_template"], [0, 2]),
            (["named", "single", "anon"], ["per_input", "per_template", "per_input"], [1, 1, 1]),
            (["anon", "named", "both"], ["per_input", "per_input", "per_template"], [2, 0, 1]),
        ]:
            out.append(("structures", (kinds, modes, nin, fmt)))
    n, k = (2, 2) if q else (3, 2)
    for p in PATHS:
        out.append(("combined", (p, n, k)))
    for a, b in PAIRS:
        out.append(("pairs", (a, b, 2, 2 if q else 3)))
    for a, b in KIDS:
        out.append(("kids", (a, b, 2, 3 if q else 4)))
    for s in ("", "*", "**"):
        out.append(("dynamic", (s, 2 if q else 3)))
    out += [("dozen", (True,)), ("dozen", (False,))]
    out += [("defaulted", ("per_input",)), ("defaulted", ("per_template",))]
    return named(globals(), out)
