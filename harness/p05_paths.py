"""P05: records are placed at the path of their group and none is lost."""
from hlib import *

COVERS = ["list", "merged", "single", "child", "null path", "absolute"]
BOUNDS = {
    "quick": "22 single-group paths (dots, *, **, /, _, no name) with up to 4 records, 16 pairs of top groups with 5 lines and 28 parent/child path pairs with 5-6 lines, two children, three levels; "
             "the order and kind of the lines and all values (non-blank characters) symbolic" "; cases beyond usual size (9-20 of a kind): long paths, many records",
    "thorough": "as quick with 5-6 lines",
}


# ------------------------------------------------ reference placement
def items(path):
    out = []
    for p in path:
        n = p.rstrip("*")
        out.append((n, p[len(n):]))
    return out


def place(root, path, rec):
    """documented placement: dots nest, repetition makes a list, * always a
    list, ** always a dictionary, _ adds no level, lists are entered at their
    last item"""
    its = [i for i in items(path)]
    # a null item adds no level
    real = [i for i in its if i[0] != "_"]
    merge = len(its) and its[-1][0] == "_"
    cur = root
    for i, (n, s) in enumerate(real):
        last = i == len(real) - 1
        if isinstance(cur, list):
            if not cur:
                cur.append({})
            cur = cur[-1]
        if n not in cur:
            if last and not merge:
                cur[n] = [dict(rec)] if s == "*" else dict(rec)
                return
            cur[n] = [{}] if s == "*" else {}
            cur = cur[n]
            continue
        if last and not merge:
            old = cur[n]
            if isinstance(old, list):
                old.append(dict(rec))
            elif s == "**":
                for k in rec:
                    if k not in old:
                        old[k] = rec[k]
            elif old == {}:
                old.update(rec)
            else:
                cur[n] = [old, dict(rec)]
            return
        cur = cur[n]
    if isinstance(cur, list):
        if not cur:
            cur.append({})
        cur = cur[-1]
    cur.update(rec)


def final(root):
    """anonymous records come first, at the top"""
    if "_anonymous_" in root:
        out = root.pop("_anonymous_")
        if root:
            out.append(root)
        return out
    return root


def gtag(name, body):
    return '<group%s>\n%s\n</group>' % ("" if name is None else ' name="%s"' % name, body)


def full(name, parent=None):
    """path of a group"""
    if name is None:
        return list(parent) if parent else ["_anonymous_*"]
    if name.startswith("/"):
        if name == "/":
            return ["_anonymous_*"]
        return name[1:].split(".")
    return (list(parent) if parent else []) + name.split(".")


SINGLE = ["a", "a.b", "a*", "a.b*", "a*.b", "a*.b*", "a**", "a.b**", "a**.b", "a*.b.c", "a.b*.c", "a.b*.c*", "a.b.c", "/a.b", "/a*", None,
          "_.a", "_.a*", "a-1.b c", "a.b**.c**", "a**.b*", "a*.b**"]


def single(t, path, k):
    """up to k records of one group"""
    n = t.choice("n", list(range(1, k + 1)))
    data = ""
    root = {}
    two = None
    recs = []
    for i in range(n):
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + "i " + v + "\n"
        rec = {"x": v}
        if t.choice("two%d" % i, [False, True]):
            w = t.char("w%d" % i, exclude=NONSPACE_EXCL)
            data = data + " d " + w + "\n"
            rec["y"] = w
        recs.append(rec)
    for rec in recs:
        place(root, full(path), rec)
    want = final(root)
    t.cover("single" if n == 1 else "merged" if path and path.endswith("**") else "list")
    t.eq(only(gtag(path, "i {{ x }}\n d {{ y }}"), data), want, "placement at %s" % path)


PAIRS = [("a.x", "a.y"), ("a*.x", "a*.y"), ("a.x*", "a.y*"), ("a", "b"), ("a.x", "a.x"), ("a*", "a*"), ("a*", "b.c*"), (None, "b"), (None, "b*"), (None, None),
         ("a.b.x", "a.b.y"), ("a.b.x", "a.c.x*"), ("a**.x", "a**.y"), ("a**", "a**"), ("/a.x", "a.y"), ("a.x**", "a.y")]


def pair(t, p1, p2, k):
    """two top groups"""
    data = ""
    root = {}
    n = 0
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="ijx"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + key + " " + v + "\n"
        if key == "i":
            place_in(t, root, full(p1), {"x": v})
        elif key == "j":
            place_in(t, root, full(p2), {"y": v})
    # the results hold the records of the first group before those of the second
    got = only(gtag(p1, "i {{ x }}") + "\n" + gtag(p2, "j {{ y }}"), data)
    r2 = {}
    for path, rec in sorted_by_group(root, full(p1)):
        place(r2, path, rec)
    t.eq(got, final(r2), "placement of %s and %s" % (p1, p2))


def place_in(t, root, path, rec):
    root.setdefault("log", []).append((path, rec))


def sorted_by_group(root, p1):
    log = root.get("log", [])
    return [e for e in log if "x" in e[1]] + [e for e in log if "y" in e[1]]


KIDS = [  # parent path, child path
    ("a", "b"), ("a", "b*"), ("a*", "b"), ("a*", "b*"), ("a.b", "c"), ("a.b*", "c*"), ("a*", "b.c"), ("a*", "b*.c"), ("a*", "b.c*"), ("a*", "b**"), ("a**", "b"), ("a**", "b**"),
    ("a*", "/z"), ("a", "/z*"), ("a*", "/z.y"), ("a*", "/z.y.x"), ("a*", "/z.y*.x*"), ("a*", "_"), ("a", "_"), ("a*", "_.n"), ("a", "_.n"), ("a*", None), (None, "b"), (None, "b*"), (None, "/z"),
    ("a*", "_.n*"), ("a.b", "_"), ("a*", "/a2**.y**"), (None, "/"), ("a*", "b.c.d"),
]


def kid(t, parent, child, k, first):
    """records of a child group under the last record of its parent"""
    data = ""
    root = {}
    pp = full(parent)
    cp = full(child, pp)
    open_ = False
    n = 0
    seen = False
    for i in range(k + (1 if first else 0)):
        key = first if i == 0 and first else t.pick(t.char("k%d" % i, alphabet="icx"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + key + " " + v + "\n"
        if key == "i":
            place(root, pp, {"x": v})
            open_ = True
        elif key == "c" and open_:
            place(root, cp, {"y": v})
            t.cover("child")
            if child and "_" in child:
                t.cover("null path")
            if child and child[0] == "/":
                t.cover("absolute")
    tpl = gtag(parent, "i {{ x }}\n" + gtag(child, "c {{ y }}"))
    t.eq(only(tpl, data), final(root), "placement of %s in %s" % (child, parent))


def two_kids(t, c1, c2, k):
    """two child groups of one parent"""
    data = "i 1\n"
    root = {}
    pp = ["g*"]
    place(root, pp, {"x": "1"})
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="icd"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + key + " " + v + "\n"
        if key == "i":
            place(root, pp, {"x": v})
        elif key == "c":
            place(root, full(c1, pp), {"y": v})
        else:
            place(root, full(c2, pp), {"z": v})
    tpl = gtag("g*", "i {{ x }}\n" + gtag(c1, "c {{ y }}") + "\n" + gtag(c2, "d {{ z }}"))
    t.eq(only(tpl, data), final(root), "placement of %s and %s" % (c1, c2))


def deep(t, names, k):
    """three levels"""
    a, b, c = names
    data = ""
    root = {}
    pa = full(a)
    pb = full(b, pa)
    pc = full(c, pb)
    lvl = 0
    for i in range(k):
        if i == 0:
            key = "i"
        else:
            key = t.pick(t.char("k%d" % i, alphabet="ijk"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + key + " " + v + "\n"
        if key == "i":
            place(root, pa, {"x": v})
            lvl = 1
        elif key == "j":
            place(root, pb, {"y": v})
            lvl = 2
        else:
            t.assume(lvl == 2)
            place(root, pc, {"z": v})
    tpl = gtag(a, "i {{ x }}\n" + gtag(b, "j {{ y }}\n" + gtag(c, "k {{ z }}")))
    t.eq(only(tpl, data), final(root), "three levels %s" % (names,))


def empty_parent(t, parent, child, k):
    """the parent's start line has no values"""
    data = ""
    root = {}
    pp = full(parent)
    cp = full(child, pp)
    pend = False
    open_ = False
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="ic"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        if key == "i":
            data = data + "i\n"
            open_ = pend = True
        else:
            data = data + "c " + v + "\n"
            if open_:
                if pend:
                    pend = False
                    if pp[-1].endswith("*"):
                        place(root, pp, {})
                place(root, cp, {"y": v})
    tpl = gtag(parent, "i {{ _start_ }}\n" + gtag(child, "c {{ y }}"))
    got = only(tpl, data)
    if not root:
        return      # how an empty record shows is not specified
    t.eq(got, final(root), "%s in valueless %s" % (child, parent))


def empty_other(t, parent, child, other, k):
    """records with nothing in them are not seen in records of other groups"""
    data, mine, others = "", [], []
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="ico"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + (key if key == "i" else key + " " + v) + "\n"
        if key == "o":
            others.append(v)
        else:
            mine.append((key, v))
    pp = full(parent)
    cp = full(child, pp)
    root, pend, open_, kids = {}, False, False, 0
    for key, v in mine:
        if key == "i":
            open_ = pend = True
        elif open_:
            if pend and pp[-1].endswith("*"):
                place(root, pp, {})
            pend = False
            place(root, cp, {"y": v})
            kids += 1
    for v in others:
        place(root, full(other), {"z": v})
    if not kids:
        return      # how an empty record shows is not specified
    tpl = gtag(parent, "i {{ _start_ }}\n" + gtag(child, "c {{ y }}")) + "\n" + gtag(other, "o {{ z }}")
    t.eq(only(tpl, data), final(root), "%s in valueless %s, then %s" % (child, parent, other))


def large(t, path):
    """long paths, many records"""
    data, root = "", {}
    for i in range(12):
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL) if i in (0, 10, 11) else "v"
        data += "i " + v + "\n"
        place(root, path.split("."), {"x": v})
    t.eq(only(gtag(path, "i {{ x }}"), data), final(root), "records at " + path)


def jobs(tier):
    more = 1 if tier == "thorough" else 0
    out = [("single", {"path": p, "k": 3 + more}) for p in SINGLE]
    out += [("pair", {"p1": a, "p2": b, "k": 5 + more}) for a, b in PAIRS]
    out += [("kid", {"parent": a, "child": b, "k": 5 + more, "first": "i"}) for a, b in KIDS]
    out += [("kid", {"parent": "a*", "child": "b*", "k": 4 + more, "first": None})]
    out += [("two_kids", {"c1": a, "c2": b, "k": 5 + more}) for a, b in (("b", "c"), ("b*", "c*"), ("n.b", "n.c"), ("b*", "_"), ("_.n", "_.m"), ("b**", "/z"))]
    out += [("deep", {"names": n, "k": 5 + more}) for n in (("a", "b", "c"), ("a*", "b*", "c*"), ("a.b", "_.n", "c"), ("a*", "b.c", "/z"), ("a*", "_", "c"), (None, "b*", "_"))]
    out += [("empty_parent", {"parent": a, "child": b, "k": 4 + more}) for a, b in (("a*", "b"), ("a*", "b*"), ("a*", "_"), ("a*", "_.n"), ("a.b*", "_.n"))]
    out += [("empty_other", {"parent": a, "child": b, "other": o, "k": 4 + more}) for a, b, o in (("a*", "b", "r.s"), ("a*", "b", "r.s*"), ("a.b*", "c", "a.d.e"), ("a*", "b*", "r"))]
    out += [("large", {"path": p}) for p in ("a.b.c.d.e.f.h.i*", "a.b.c*.d.e.f.h.i*", "a.b.c.d.e.f.h.i", "a.b**.c.d.e*.f.h", "a.b.c.d.e.f.h**.i*")]
    return out
