"""P04: a value rejected by a check never reaches the results."""
from hlib import *
from hblocks import *

COVERS = ["rejected start", "rejected value", "accepted"]
BOUNDS = {
    "quick": "texts of 4 lines (5 for small shapes) after an optional first start, each line's kind symbolic, every value an arbitrary non-blank "
             "character put to the check by the solver; 9 group shapes with checks on start lines, value lines, joined lines and child starts; "
             "lines matched by several template lines with complementary checks" "; cases beyond usual size (9-20 of a kind): a rejected record among many",
    "thorough": "as quick with 5-6 lines",
}

CHECK = {  # text after the variable, predicate
    "isdigit": (' | isdigit', lambda v: v in "0123456789\u00b2\u0663"),
    "eq": (' | equal("1")', lambda v: v == "1"),
    "ne": (' | notequal("1")', lambda v: v != "1"),
    "two": (' | notequal("1") | exclude("2")', lambda v: v != "1" and v != "2"),
}

FSH = {
    # shape, checked variables
    "flat": (("g*", [("i", "a")], [("d", "b", 0)], None, []), ["a", "b"]),
    "starts": (("g*", [("i", "a"), ("s", "a2")], [("d", "b", 0)], None, []), ["a", "a2"]),
    "join": (("g*", [("i", "a")], [("j", "c", 1)], None, []), ["a", "c"]),
    "end": (("g*", [("i", "a")], [("d", "b", 0)], "z", []), ["a"]),
    "child": (("g*", [("i", "a")], [("d", "b", 0)], None, [("c*", [("c", "ca")], [("e", "cb", 0)], None, [])]), ["a"]),
    "childf": (("g*", [("i", "a")], [], None, [("c*", [("c", "ca")], [("e", "cb", 0)], None, [])]), ["ca", "cb"]),
    "childff": (("g*", [("i", "a")], [], None, [("c*", [("c", "ca")], [("e", "cb", 0)], None, [])]), ["a", "ca"]),
    "sibling": (("g*", [("i", "a")], [], None, [("c*", [("c", "ca")], [("e", "cb", 0)], None, []), ("k*", [("k", "ka")], [("l", "kb", 0)], None, [])]), ["a", "ca"]),
    "deep": (("g*", [("i", "a")], [], None, [("c*", [("c", "ca")], [], None, [("k*", [("k", "ka")], [("l", "kb", 0)], None, [])])]), ["a"]),
    "deepmid": (("g*", [("i", "a")], [], None, [("c*", [("c", "ca")], [], None, [("k*", [("k", "ka")], [("l", "kb", 0)], None, [])])]), ["ca"]),
}


def var_of(ref, key):
    r = ref.roles.get(key)
    return None if r is None else r[2]


def blocks(t, shape, check, k, first):
    sh, checked = FSH[shape]
    extra, pred = CHECK[check]
    ref = Ref(sh)
    alpha = "".join(keys_of(sh)) + "x"
    data = ""
    rej_s = rej_v = False
    for i in range(k + 1):
        if i == 0:
            if not first:
                continue
            key = first
        else:
            key = t.pick(t.char("k%d" % i, alphabet=alpha))
        val = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        var = var_of(ref, key)
        if key == sh[3]:
            data = data + key + "\n"
            ref.line(key, None)
            continue
        data = data + key + " " + val + "\n"
        ok = True
        if var in checked:
            ok = bool(pred(val))
            if not ok:
                if ref.roles[key][0] == "start":
                    rej_s = True
                else:
                    rej_v = True
        ref.line(key, val, ok)
    t.assume(not ref.odd)
    want = prune(ref.top, sh)
    tpl = template_of(sh, {v: extra for v in checked})
    got = only(tpl, data).get("g", [])
    t.observe("got", got)
    if rej_s:
        t.cover("rejected start")
    if rej_v:
        t.cover("rejected value")
    if want:
        t.cover("accepted")
    t.eq(got, want, "records of %s with %s" % (shape, check))


def two_vars(t, k):
    """a line with two variables is dropped as a whole when either is rejected"""
    tpl = '<group name="g*">\ni {{ a }}\nd {{ b | isdigit }} {{ c | notequal("x") | let("n", "new") }}\n</group>'
    data = "i 1\n"
    rec = {"a": "1"}
    want = [rec]
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="id"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        w = t.char("w%d" % i, exclude=NONSPACE_EXCL)
        if key == "i":
            data = data + "i " + v + "\n"
            rec = {"a": v}
            want.append(rec)
        else:
            data = data + "d " + v + " " + w + "\n"
            if v in "0123456789\u00b2\u0663" and w != "x":
                if "b" not in rec:
                    rec.update({"b": v, "c": w, "n": "new"})
    t.eq(only(tpl, data).get("g", []), want, "two checked variables in a line")


def alternatives(t, k):
    """the same line text matched by two start lines and two value lines with
    different checks: the accepting one is used"""
    tpl = ('<group name="g*">\ni {{ a | equal("1") | _start_ }}\ni {{ b | equal("2") | _start_ }}\n'
           'd {{ c | isdigit }}\nd {{ e | notdigit }}\n</group>')
    data = ""
    want = []
    rec = None
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="id"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + key + " " + v + "\n"
        if key == "i":
            if v == "1":
                rec = {"a": v}
                want.append(rec)
            elif v == "2":
                rec = {"b": v}
                want.append(rec)
            else:
                rec = None
                t.cover("rejected start")
        elif rec is not None:
            f = "c" if v in "0123456789\u00b2\u0663" else "e"
            if f not in rec:
                rec[f] = v
    t.eq(only(tpl, data).get("g", []), want, "complementary checks")


def line_start(t, k):
    """start line made of _line_ with a check"""
    tpl = '<group name="g*">\n{{ a | _line_ | contains("s") | _start_ }}\nd {{ b }}\n</group>'
    data = ""
    want = []
    rec = None
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="sdx"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL + "s")
        l = key + " " + v
        data = data + l + "\n"
        if key == "s":
            rec = {"a": l}
            want.append(rec)
        elif key == "d":
            if rec is not None and "b" not in rec:
                rec["b"] = v
        else:
            rec = None           # a rejected start line ends the record
    t.eq(only(tpl, data).get("g", []), want, "_line_ start with contains")


def checked_end(t, k, child):
    """an end line that is rejected does not end the group"""
    tpl = '<group name="g*">\ni {{ a }}\nd {{ b }}\nz {{ e | equal("1") | _end_ }}\n%s</group>' % ('<group name="c*">\nc {{ ca }}\nq {{ ce | notequal("1") | _end_ }}\nd {{ cb }}\n</group>\n' if child else "")
    data = "i 1\n"
    rec = {"a": "1"}
    want = [rec]
    crec = None
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="idzcqx" if child else "idzx"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + key + " " + v + "\n"
        if key == "i":
            rec, crec = {"a": v}, None
            want.append(rec)
        elif key == "z":
            if v == "1":
                rec = crec = None
            else:
                t.cover("rejected value")
        elif key == "c" and rec is not None:
            crec = {"ca": v}
            rec.setdefault("c", []).append(crec)
        elif key == "q":
            if v != "1":
                crec = None
            elif crec is not None:
                t.cover("rejected value")
        elif key == "d":
            to, f = (crec, "cb") if crec is not None else (rec, "b")
            if to is not None and f not in to:
                t.assume(to is not rec or not child or "c" not in rec)      # lines of a parent around child records: see P03
                to[f] = v
    t.eq(only(tpl, data).get("g", []), want, "checks on end lines")


def no_checks_same(t, k):
    """accepting checks leave the results as they are without the checks"""
    sh, checked = FSH["childf"]
    alpha = "".join(keys_of(sh)) + "x"
    data = ""
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet=alpha))
        v = t.char("v%d" % i, alphabet="abc")
        data = data + key + " " + v + "\n"
    a = only(template_of(sh), data)
    b = only(template_of(sh, {v: ' | notequal("q") | notdigit | contains("a", "b", "c")' for v in ("a", "ca", "cb")}), data)
    t.eq(b, a, "accepting checks change nothing")


def large(t, child):
    """a rejected record among many"""
    v = [t.char("v%d" % i, exclude=NONSPACE_EXCL) for i in range(3)]
    tpl = "<group name='g*'>\ni {{ a | notequal('~') }}\nj {{ b }}\n" + ("<group name='c*'>\nc {{ c }}\n</group>\n" if child else "") + "</group>"
    data, want = "", []
    for i in range(14):
        a = v[0] if i == 2 else v[1] if i == 11 else v[2] if i == 12 else "%d" % i
        data += "i %s\nj b%d\n" % (a, i) + ("c c%d\n" % i if child else "")
        if a != "~":
            r = {"a": a, "b": "b%d" % i}
            if child:
                r["c"] = [{"c": "c%d" % i}]
            want.append(r)
    t.eq(only(tpl, data), {"g": want}, "one of many rejected")


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for s in FSH:
        n = len(keys_of(FSH[s][0]))
        for c in CHECK:
            if c in ("eq", "two") and (s not in ("flat", "child", "starts")) and not deep:
                continue
            if n <= 3:
                out.append(("blocks", {"shape": s, "check": c, "k": 5 if deep else 4, "first": None}))
            else:
                out.append(("blocks", {"shape": s, "check": c, "k": 4 if deep else 3, "first": "i"}))
    if True:
        out.append(("blocks", {"shape": "deep", "check": "ne", "k": 5 if deep else 4, "first": "i"}))
    out += [("checked_end", {"k": 5 if deep else 4, "child": False}), ("checked_end", {"k": 4 if deep else 3, "child": True})]
    out += [("two_vars", {"k": 4 if deep else 3}), ("alternatives", {"k": 5 if deep else 4}), ("line_start", {"k": 6 if deep else 5}),
            ("no_checks_same", {"k": 4 if deep else 3})]
    out += [("large", {"child": c}) for c in (False, True)]
    return out
