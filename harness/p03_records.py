"""P03: a record holds values of its own block of text only."""
from hlib import *
from hblocks import *

COVERS = ["several", "joined", "child", "ended"]
BOUNDS = {
    "quick": "texts of 4-5 lines, each line's kind an arbitrary symbolic character (start, value, joined value, end, child start, child value, junk), "
             "every value an arbitrary non-blank character; 12 template shapes (one group, several starts, valueless start, table, end, "
             "joinmatches, _line_, one and two levels of children, two sibling children, two top groups)" "; cases beyond usual size (9-20 of a kind): more records, levels and children than usual",
    "thorough": "as quick with 6-7 lines",
}

# shape: name, start keys [(key, var or None)], values [(key, var, join)], end key, children
SH = {
    "flat": ("g*", [("i", "a")], [("d", "b", 0), ("m", "c", 0)], None, []),
    "starts": ("g*", [("i", "a"), ("s", "a2")], [("d", "b", 0)], None, []),
    "empty": ("g*", [("s", None)], [("d", "b", 0), ("m", "c", 0)], None, []),
    "end": ("g*", [("i", "a")], [("d", "b", 0)], "z", []),
    "join": ("g*", [("i", "a")], [("d", "b", 0), ("j", "c", 1)], None, []),
    "joinend": ("g*", [("i", "a")], [("j", "c", 1)], "z", []),
    "child": ("g*", [("i", "a")], [("d", "b", 0)], None, [("c*", [("c", "ca")], [("e", "cb", 0)], None, [])]),
    "childend": ("g*", [("i", "a")], [("d", "b", 0)], "z", [("c*", [("c", "ca")], [("e", "cb", 0)], None, [])]),
    "childend2": ("g*", [("i", "a")], [], None, [("c*", [("c", "ca")], [("e", "cb", 0)], "z", [])]),
    "two": ("g*", [("i", "a")], [], None, [("c*", [("c", "ca")], [("e", "cb", 0)], None, []), ("k*", [("k", "ka")], [("l", "kb", 0)], None, [])]),
    "deep": ("g*", [("i", "a")], [], None, [("c*", [("c", "ca")], [], None, [("k*", [("k", "ka")], [("l", "kb", 0)], None, [])])]),
    "deepend": ("g*", [("i", "a")], [], "z", [("c*", [("c", "ca")], [], None, [("k*", [("k", "ka")], [], None, [])])]),
    "childjoin": ("g*", [("i", "a")], [], None, [("c*", [("c", "ca")], [("j", "cb", 1)], None, [])]),
    "emptychild": ("g*", [("s", None)], [("d", "b", 0)], None, [("c*", [("c", "ca")], [("e", "cb", 0)], None, [])]),
}


def lines_of(t, alpha, k, vals=True):
    ls = []
    for i in range(k):
        key = t.char("k%d" % i, alphabet=alpha)
        val = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        ls.append((key, val))
    return ls


def data_of(ls):
    data = ""
    for key, val in ls:
        data = data + key + " " + val + "\n"
    return data


def blocks(t, shape, k, first=None):
    sh = SH[shape]
    alpha = "".join(keys_of(sh)) + "x"
    noval = [key for key, v in sh[1] if v is None] + ([sh[3]] if sh[3] else []) + [c[3] for c in sh[4] if c[3]]
    ls = lines_of(t, alpha, k)
    if first:
        ls = [(first, "0")] + ls
    data = ""
    ref = Ref(sh)
    nend = 0
    for key, val in ls:
        key = str(t.pick(key))
        if key in noval:
            data = data + key + "\n"
        else:
            data = data + key + " " + val + "\n"
        ref.line(key, val)
        if key == sh[3]:
            nend += 1
    t.assume(not ref.odd)
    want = prune(ref.top, sh)
    got = only(template_of(sh), data)
    got = got.get("g", [])
    t.observe("got", got)
    if len(want) > 1:
        t.cover("several")
    if nend:
        t.cover("ended")
    if any("c" in r for r in want):
        t.cover("child")
    if any("," in r.get("c", "") for r in want if not isinstance(r.get("c", ""), list)):
        t.cover("joined")
    t.eq(got, want, "records of %s" % shape)


def table(t, k):
    """method table: every line is a start"""
    tpl = '<group name="g*" method="table">\na {{ a }}\nb {{ b }} {{ c }}\n</group>'
    data = ""
    want = []
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="abx"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        w = t.char("w%d" % i, exclude=NONSPACE_EXCL)
        if key == "a":
            data = data + "a " + v + "\n"
            want.append({"a": v})
        elif key == "b":
            data = data + "b " + v + " " + w + "\n"
            want.append({"b": v, "c": w})
        else:
            data = data + "x " + v + "\n"
    got = only(tpl, data)
    t.eq(got.get("g", []), want, "table rows")


def table_tail(t, k):
    """lines of a table group after its child group belong to the record before them"""
    tpl = '<group name="g*" method="table">\na {{ a }}\nd {{ d }}\n<group name="c*">\nc {{ c }}\n</group>\nb {{ b }}\n</group>'
    data, want = "", []
    for key, val in lines_of(t, "abcdx", k):
        key = t.pick(key)
        data = data + key + " " + val + "\n"
        if key in "ad":
            want.append({key: val})
        elif key == "c" and want:
            want[-1].setdefault("c", []).append({"c": val})
        elif key == "b" and want:
            want[-1].setdefault("b", val)
    t.eq(only(tpl, data).get("g", []), want, "table rows with lines after a child group")


def tail_start(t, k, empty):
    """a start line may be written after a child group; it is looked for after the first start line written before it"""
    tpl = '<group name="g*">\ni {{ a }}\n<group name="c*">\nc {{ c }}\n</group>\n' + ("s {{ _start_ }}" if empty else "s {{ s | _start_ }}") + '\nb {{ b }}\n</group>'
    data, want = "x 0\ni 0\n", [{"a": "0"}]
    for key, val in lines_of(t, "isbcx", k):
        key = t.pick(key)
        data = data + ("s" if empty and key == "s" else key + " " + val) + "\n"
        if key == "i":
            want.append({"a": val})
        elif key == "s":
            want.append({} if empty else {"s": val})
        elif key == "c" and want:
            want[-1].setdefault("c", []).append({"c": val})
        elif key == "b" and want:
            want[-1].setdefault("b", val)
    t.eq(only(tpl, data).get("g", []), [r for r in want if r], "records of a group with a start line after its child group")


def two_groups(t, k):
    """two top groups see the same text independently"""
    tpl = '<group name="g*">\ni {{ a }}\nd {{ b }}\n</group>\n<group name="h*">\ns {{ a }}\nd {{ b }}\n</group>'
    data = ""
    rg = Ref(("g*", [("i", "a")], [("d", "b", 0)], None, []))
    rh = Ref(("h*", [("s", "a")], [("d", "b", 0)], None, []))
    for key, val in lines_of(t, "isdx", k):
        key = t.pick(key)
        data = data + key + " " + val + "\n"
        rg.line(key, val)
        rh.line(key, val)
    want = {}
    if rg.top:
        want["g"] = rg.top
    if rh.top:
        want["h"] = rh.top
    t.eq(only(tpl, data), want, "two top groups")


def unmatched_lines(t, k):
    """_line_ collects, in order and joined, the lines nothing else matches"""
    tpl = '<group name="g*">\ni {{ a }}\nd {{ b }}\n{{ rest | _line_ }}\n! {{ _end_ }}\n</group>'
    data = ""
    want = []
    open_ = False
    rec = None
    for key, val in lines_of(t, "id!x", k):
        key = t.pick(key)
        if key == "!":
            data = data + "!\n"
            if rec is not None:
                open_ = False
            continue
        l = key + " " + val
        data = data + l + "\n"
        if key == "i":
            rec = {"a": val}
            want.append(rec)
            open_ = True
        elif not open_:
            continue
        elif key == "d":
            if "b" not in rec:
                rec["b"] = val
        elif key == "x":
            rec["rest"] = rec["rest"] + "\n" + l if "rest" in rec else l
    t.eq(only(tpl, data).get("g", []), want, "_line_ collects unmatched lines")


def line_blocks(t, k, two):
    """_line_ as a start line: every line that no other line of the group matches opens a record, up to the
    last _end_ line"""
    tpl = '<group name="g*">\n{{ a | _line_ | _start_ }}\n%sd {{ b }}\n! {{ _end_ }}\n</group>' % ("f {{ c | _line_ | _start_ }}\n" if two else "")
    keys = []
    data = ""
    for key, val in lines_of(t, "xd!f" if two else "xd!", k):
        key = t.pick(key)
        keys.append((key, val))
        data = data + (key if key == "!" else key + " " + val) + "\n"
    last = max([i for i, kv in enumerate(keys) if kv[0] == "!"] or [k])
    want = []
    rec = None
    for key, val in keys[:last]:
        if key == "!":
            rec = None
        elif key == "d":
            if rec is not None and "b" not in rec:
                rec["b"] = val
        else:
            rec = {"a": key + " " + val}
            want.append(rec)
    got = only(tpl, data).get("g", [])
    if two:       # f lines are matched by both start lines
        t.eq(len(got), len(want), "number of records")
        want = [dict([("c", w["a"][2:])] + [(x, w[x]) for x in w if x != "a"]) if w["a"][0] == "f" and "c" in g else w for g, w in zip(got, want)]
    t.eq(got, want, "_line_ start with an end line")


def joined(t, k, sep):
    """joinmatches joins every match of the record in text order"""
    tpl = '<group name="g*">\ni {{ a }}\nj {{ c | joinmatches%s }}\n</group>' % (('(%s)' % sep if sep.startswith("char") else '("%s")' % sep) if sep else "")
    s = (sep[6:-1] if sep.startswith("char") else sep) or "\n"
    data = "i 1\n"
    rec = {"a": "1"}
    want = [rec]
    for key, val in lines_of(t, "ijx", k):
        key = t.pick(key)
        val = val + val
        data = data + key + " " + val + "\n"
        if key == "i":
            rec = {"a": val}
            want.append(rec)
        elif key == "j":
            rec["c"] = rec["c"] + s + val if "c" in rec else val
    t.cover("joined")
    t.eq(only(tpl, data).get("g", []), want, "joinmatches")


def joined_lists(t, k):
    tpl = '<group name="g*">\ni {{ a }}\nj {{ c | split(",") | joinmatches }}\nn {{ d | to_list | joinmatches }}\n</group>'
    data = "i 1\n"
    rec = {"a": "1"}
    want = [rec]
    for key, val in lines_of(t, "ijnx", k):
        key = t.pick(key)
        data = data + key + " " + val + ",q\n"
        if key == "i":
            rec = {"a": val + ",q"}
            want.append(rec)
        elif key == "j":
            rec["c"] = rec.get("c", []) + (val + ",q").split(",")
        elif key == "n":
            rec["d"] = rec.get("d", []) + [val + ",q"]
    t.eq(only(tpl, data).get("g", []), want, "joinmatches of lists")



ENDS = {"one": ["! {{ x | _end_ }} {{ y }}"], "last": ["! {{ x }} {{ y | _end_ }}"], "ignored": ["! {{ ignore }} {{ x | _end_ }}"], "join": ["! {{ x | _end_ }} {{ y | joinmatches }}"],
        "two": ["! {{ _end_ }}", "{{ x }} ? {{ _end_ }}"], "number": ["! {{ x | DIGIT | _end_ }} {{ y }}"]}


def end_forms(t, form, k, child):
    """the end line may hold variables, before and after _end_, and there may be several end lines"""
    tpl = '<group name="g*">\ni {{ a }}\nd {{ b }}\n' + ("<group name='c*'>\nc {{ c }}\n</group>\n" if child else "") + "\n".join(ENDS[form]) + '\n</group>'
    data, want = "", []
    open_ = False
    for key, val in lines_of(t, "id!?x" + ("c" if child else ""), k):
        key = t.pick(key)
        if form == "number":
            t.assume(val < "\x7f")
        t.assume(val != "?")
        if key == "!":
            data = data + ("! \n" if form == "two" else "! " + val + " 7\n")
            open_ = open_ and form == "number" and val not in "0123456789"
            continue
        if key == "?":
            t.assume(val not in "idc!")
            data = data + val + " ?\n"
            open_ = open_ and form != "two"
            continue
        data = data + key + " " + val + "\n"
        if key == "i":
            want.append({"a": val})
            open_ = True
        elif key == "d" and open_:
            want[-1].setdefault("b", val)
        elif key == "c" and open_:
            want[-1].setdefault("c", []).append({"c": val})
        elif key in "dc" and not open_:
            t.cover("ended")
    t.eq(only(tpl, data).get("g", []), want, "records ended by %s" % ENDS[form])


def large(t, kind):
    """more records, levels and children than usual"""
    v, w = t.str("v", 1, 1, exclude=NONSPACE_EXCL), t.str("w", 1, 1, exclude=NONSPACE_EXCL)
    if kind == "records":
        tpl = "<group name='g*'>\ni {{ a }}\nj {{ b }}\n<group name='c*'>\nc {{ c }}\n</group>\n</group>"
        data, want = "", []
        for i in range(15):
            r = {"a": w if i == 12 else "a%d" % i}
            data += "i %s\n" % r["a"]
            if i not in (0, 10, 14) or t.bool("j%d" % i):
                r["b"] = v if i == 10 else "b%d" % i
                data += "j %s\n" % r["b"]
            for k in range(i % 3):
                data += "c c%d\n" % k
                r.setdefault("c", []).append({"c": "c%d" % k})
            want.append(r)
        t.eq(only(tpl, data), {"g": want}, "many records")
    elif kind == "levels":
        tpl = ""
        for i in range(6):
            tpl += "<group name='%s*'>\n%s {{ %s }}\n" % ("abcdef"[i], "abcdef"[i], "uvwxyz"[i])
        tpl += "</group>\n" * 6
        # a full branch, then a branch from any level
        data, path, root = "", [], {}
        back = t.choice("back", [0, 1, 2, 3, 4, 5])
        for n, i in enumerate(list(range(6)) + list(range(back, 6))):
            x = v if n == 3 else w if n == 6 else "%d" % n
            data += "abcdef"[i] + " " + x + "\n"
            at = root
            for j in range(i):
                at = at["abcdef"[j]][-1]
            at.setdefault("abcdef"[i], []).append({"uvwxyz"[i]: x})
        t.eq(only(tpl, data), root, "six levels")
    else:
        names = "bcdefghk"
        tpl = "<group name='g*'>\ni {{ a }}\n" + "".join("<group name='%s*'>\n%s {{ x }}\n</group>\n" % (n, n) for n in names) + "</group>"
        order = t.choice("order", ["bcdefghk", "khgfedcb", "bkbkbkcc", "hhgdbbbk"])
        data, want = "i 1\n", {"a": "1"}
        for i, n in enumerate(order):
            x = v if i == 1 else w if i == 6 else "%d" % i
            data += n + " " + x + "\n"
            want.setdefault(n, []).append({"x": x})
        t.eq(only(tpl, data), {"g": [want]}, "eight children")


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for s in SH:
        n = len(keys_of(SH[s])) + 1
        k = 5 if n <= 4 else 4
        if deep:
            k += 2 if n <= 4 else 1
        first = SH[s][1][0][0]
        if SH[s][1][0][1] is None:
            first = None
        if n > 4:
            for f in ([first, "x"] if first else [None]):
                out.append(("blocks", {"shape": s, "k": k, "first": f}))
        else:
            out.append(("blocks", {"shape": s, "k": k, "first": None}))
    out += [("table", {"k": 5 if deep else 4}), ("two_groups", {"k": 6 if deep else 5}), ("unmatched_lines", {"k": 6 if deep else 5}),
            ("joined", {"k": 6 if deep else 5, "sep": ","}), ("joined", {"k": 5, "sep": ""}), ("joined", {"k": 4, "sep": " + "}), ("joined", {"k": 4, "sep": 'char=", "'}),
            ("line_blocks", {"k": 5 if deep else 4, "two": False}), ("line_blocks", {"k": 4 if deep else 3, "two": True}), ("joined_lists", {"k": 5 if deep else 4})]
    out += [("tail_start", {"k": 5 if deep else 4, "empty": e}) for e in (False, True)]
    out += [("table_tail", {"k": 5 if deep else 4})]
    out += [("end_forms", {"form": f, "k": 4 + deep, "child": child}) for f in ENDS for child in (False, True)]
    out += [("large", {"kind": k}) for k in ("records", "levels", "children")]
    return out
