"""P25: a text line matched by several lines of the template is used once, by the group it belongs to."""
from hlib import *
from hblocks import *

COVERS = ["start over value", "own group", "outer group", "line", "rejected", "joined", "end"]
BOUNDS = {
    "quick": "texts of 4-5 lines after an optional first start, each line's kind an arbitrary symbolic character, every value an arbitrary non-blank character; 11 shapes of one top group with "
             "one or two levels of child groups that share value lines, joined lines, _line_ and start lines (two of them of the same name; with and without variables, with complementary checks)" "; cases beyond usual size (9-20 of a kind): a line of many groups, each of its own parent",
    "thorough": "as quick with 6 lines",
}
ASSUMPTIONS = ["a line shared by two open groups neither of which is the group of the record opened last, and an end line shared by a group and its child, and child start lines outside their parent, are not specified and left out"]

# shape: name, start keys [(key, var or None)], values [(key, var, join)], end key, children
SH = {
    "sib": ("g*", [("i", "a")], [("d", "b", 0)], None, [("c*", [("c", "ca")], [("d", "cb", 0)], None, []), ("k*", [("k", "ka")], [("d", "kb", 0)], None, [])]),
    "only": ("g*", [("i", "a")], [], None, [("c*", [("c", "ca")], [("d", "cb", 0)], None, []), ("k*", [("k", "ka")], [("d", "kb", 0)], None, [])]),
    "ended": ("g*", [("i", "a")], [("d", "b", 0)], None, [("c*", [("c", "ca")], [("d", "cb", 0)], "z", [])]),
    "gended": ("g*", [("i", "a")], [("d", "b", 0)], "z", [("c*", [("c", "ca")], [("d", "cb", 0)], None, [])]),
    "deep": ("g*", [("i", "a")], [("d", "b", 0)], None, [("c*", [("c", "ca")], [], None, [("k*", [("k", "ka")], [("d", "kb", 0)], None, [])])]),
    "join": ("g*", [("i", "a")], [("j", "b", 1)], None, [("c*", [("c", "ca")], [("j", "cb", 1)], None, [])]),
    "joinend": ("g*", [("i", "a")], [("j", "b", 1)], None, [("c*", [("c", "ca")], [("j", "cb", 1)], "z", [])]),
    "startval": ("g*", [("i", "a")], [("c", "b", 0)], None, [("c*", [("c", "ca")], [("d", "cb", 0)], None, [])]),
    "startjoin": ("g*", [("i", "a")], [("c", "b", 1)], None, [("c*", [("c", "ca")], [("c", "cb", 1)], None, [])]),
    "twin": ("g*", [("i", "a")], [], None, [("c*", [("c", "ca"), ("s", "cs")], [("d", "cb", 0)], None, []), ("c*", [("k", "ka"), ("s", "ks")], [("d", "kb", 0)], None, [])]),
    "prefix": ("g*", [("i", "a")], [], None, [("ck", [("c", "ca")], [], None, [("x*", [("s", "xa")], [("d", "xb", 0)], None, [])]), ("c", [("k", "ka")], [], None, []),
                                              ("m*", [("s", "ma")], [("d", "mb", 0)], None, [])]),
    "prefix2": ("g*", [("i", "a")], [], None, [("ck", [("c", "ca")], [], None, [("c", [("s", "xa")], [], None, [])]), ("c", [("k", "ka")], [], None, []), ("ckc", [("s", "ma")], [], None, [])]),
    "starts": ("g*", [("i", "a")], [], None, [("c*", [("s", "ca")], [("d", "cb", 0)], None, []), ("k*", [("k", "ka"), ("s", "ks")], [("d", "kb", 0)], None, [])]),
}


class Shared(Ref):
    """lines may have roles in several groups: the role is chosen before the line is put"""

    def __init__(self, sh):
        self.all = {}
        Ref.__init__(self, sh)

    def index(self, sh, parent):
        name, starts, vals, end, children = sh
        for k, v in starts:
            self.all.setdefault(k, []).append(("start", sh, v, parent))
        for k, v, j in vals:
            self.all.setdefault(k, []).append(("join" if j else "val", sh, v, parent))
        if end:
            self.all.setdefault(end, []).append(("end", sh, None, parent))
        for c in children:
            self.index(c, sh)

    def choose(self, key, refused=()):
        """refused: variables that do not accept the value"""
        roles = [r for r in self.all.get(key, []) if r[2] not in refused]
        cur = self.open[-1][0] if self.open else None
        starts = [r for r in roles if r[0] == "start" and (r[3] is None or self.depth(r[3]) >= 0)]
        if any(r[0] == "start" for r in roles) and not starts:
            self.odd = True
            return None, None
        if starts:
            own = [r for r in starts if r[1] is cur]
            return (own or starts)[0], "start over value" if len(roles) > len(starts) else "own group" if own and len(starts) > 1 else None
        live = [r for r in roles if self.depth(r[1]) >= 0]
        own = [r for r in live if r[1] is cur]
        if not own and len(live) > 1:
            self.odd = True
            return None, None
        if not live:
            return None, None
        return (own or live)[0], ("own group" if own else "outer group") if len(roles) > 1 else None

    def put(self, key, val, refused=()):
        r, what = self.choose(key, refused)
        if r is not None:
            self.roles = {key: r}
            self.line(key, val)
        return r, what


def some(records):
    """a list of child records with nothing in them may be left empty or out"""
    return [{k: v for k, v in r.items() if v != []} for r in records]


def single(recs, sh):
    """the only record of a group whose name has no * is kept as such"""
    for r in recs:
        for c in sh[4]:
            n = c[0].rstrip("*")
            if n in r:
                single(r[n], c)
                if n == c[0] and len(r[n]) == 1:
                    r[n] = r[n][0]
    return recs


def shared(t, shape, k, first):
    sh = SH[shape]
    alpha = "".join(sorted(set(keys_of(sh)))) + "x"
    ref = Shared(sh)
    ends = [x[3] for x in [sh] + sh[4] if x[3]]
    data = ""
    for i in range(k):
        key = first if i == 0 and first else str(t.pick(t.char("k%d" % i, alphabet=alpha)))
        val = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + (key if key in ends else key + " " + val) + "\n"
        r, what = ref.put(key, val)
        if what:
            t.cover(what)
        if r is not None and r[0] == "end":
            t.cover("end")
        if r is not None and r[0] == "join":
            t.cover("joined")
    t.assume(not ref.odd)
    want = single(prune(ref.top, sh), sh)
    got = only(template_of(sh), data).get("g", [])
    t.observe("got", got)
    t.eq(got, want, "records of %s" % shape)


def checked(t, k, empty):
    """the same start line in two child groups with complementary checks: the accepting one is opened"""
    tpl = ('<group name="g*">\ni {{ a }}\n<group name="c*">\ns {{ ca | equal("1") }}\nd {{ cb }}\n</group>\n'
           '<group name="k*">\ns {{ ka | notequal("1") }}\nd {{ kb }}\n</group>\n</group>')
    if empty:
        tpl = ('<group name="g*">\ni {{ a }}\n<group name="c*">\ns {{ ca | equal("1") | _start_ }}\nr y {{ _start_ }}\nd {{ cb }}\n</group>\n'
               '<group name="k*">\ns {{ ka | notequal("1") | _start_ }}\nr w {{ _start_ }}\nd {{ kb }}\n</group>\n</group>')
    data = "i 1\n"
    want = [{"a": "1"}]
    cur = (want[0], "b")
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="isdr" if empty else "isdx"))
        val = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + key + " " + val + "\n"
        if key == "i":
            want.append({"a": val})
            cur = None
        elif key == "s" or key == "r":
            if key == "s":
                n = "c" if val == "1" else "k"
            else:
                if not (val == "y" or val == "w"):
                    continue
                n = "c" if val == "y" else "k"
            rec = {n + "a": val} if key == "s" else {}
            want[-1].setdefault(n, []).append(rec)
            cur = (rec, n)
            t.cover("rejected")
        elif key == "d" and cur is not None and cur[1] != "b":
            cur[0].setdefault(cur[1] + "b", val)
    for w in want:
        for n in ("c", "k"):
            if n in w:
                w[n] = [r for r in w[n] if r]
    t.eq(some(only(tpl, data).get("g", [])), some(want), "child groups with complementary checks")


def valueless(t, k, two):
    """a valueless _start_ line is preferred to other lines that match the text"""
    tpl = ('<group name="g*">\ni {{ a }}\nc {{ b }}\n<group name="c*">\nc y {{ _start_ }}\nd {{ cb }}\n</group>\n%s</group>'
           % ('<group name="k*">\nk {{ _start_ }}\nc y {{ _start_ }}\nd {{ kb }}\n</group>\n' if two else ""))
    data = "i 1\n"
    want = [{"a": "1"}]
    cur = None
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="icdk" if two else "icdx"))
        val = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        data = data + (key if key == "k" else key + " " + val) + "\n"
        if key == "i":
            want.append({"a": val})
            cur = None
        elif key == "k" or (key == "c" and val == "y"):
            n = "k" if key == "k" else cur[1] if cur is not None else "c"
            cur = ({}, n)
            want[-1].setdefault(n, []).append(cur[0])
            t.cover("start over value")
        elif key == "c":
            want[-1].setdefault("b", val)
            cur = None
        elif key == "d" and cur is not None:
            cur[0].setdefault(cur[1] + "b", val)
    for w in want:
        for n in ("c", "k"):
            if n in w:
                w[n] = [r for r in w[n] if r]
    t.eq(some(only(tpl, data).get("g", [])), some(want), "valueless start")


def unmatched(t, k, end):
    """_line_ of the group being filled gets the line"""
    tpl = ('<group name="g*">\ni {{ a }}\nd {{ b }}\n{{ r | _line_ | joinmatches(",") }}\n<group name="c*">\nc {{ ca }}\nd {{ cb }}\n{{ q | _line_ | joinmatches("+") }}\n%s</group>\n</group>'
           % ("z {{ _end_ }}\n" if end else ""))
    data = "i 1\n"
    want = [{"a": "1"}]
    cur = None
    for i in range(k):
        key = t.pick(t.char("k%d" % i, alphabet="icdxz" if end else "icdx"))
        val = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        l = "z" if key == "z" else key + " " + val
        data = data + l + "\n"
        if key == "i":
            want.append({"a": val})
            cur = None
        elif key == "c":
            cur = {"ca": val}
            want[-1].setdefault("c", []).append(cur)
        elif key == "z":
            t.assume(cur is not None)       # an end line outside of its group: not specified
            cur = None
            t.cover("end")
        elif key == "d":
            if cur is not None:
                cur.setdefault("cb", val)
            else:
                want[-1].setdefault("b", val)
        else:
            t.cover("line")
            to, n, ch = (cur, "q", "+") if cur is not None else (want[-1], "r", ",")
            to[n] = to[n] + ch + l if n in to else l
    t.eq(only(tpl, data).get("g", []), want, "_line_ in a group and its child")


def large(t, n):
    """a line of many groups, each of its own parent"""
    ls = "abcdefghjk"[:n]
    order = t.choice("order", [ls, ls[::-1], ls[2:] + ls[:2], ls[0] + ls[-1] + ls[0]])
    tpl = "".join("<group name='p%s*'>\n%s {{ x }}\n<group name='c*'>\nshared {{ y }}\n</group>\n</group>\n" % (c, c) for c in ls)
    data, want = "", {}
    for i, c in enumerate(order):
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL) if i < 3 else "v"
        data += c + " x\nshared " + v + "\n"
        want.setdefault("p" + c, []).append({"x": "x"})
    # top groups are matched each on its own: every group takes the lines after its start
    for c in ls:
        recs = want.get("p" + c, [])
        k = -1
        for i, d in enumerate(order):
            if d == c:
                k += 1
            if k >= 0:
                recs[k].setdefault("c", []).append({"y": "v%d" % i})
    got = only(tpl, data)
    vals = [l[7:] for l in data.split("\n") if l[:7] == "shared "]
    for recs in want.values():
        for r in recs:
            r["c"] = [{"y": vals[int(y["y"][1:])]} for y in r["c"]]
    t.eq(got, want, "line of many groups")


def large_kids(t, n):
    """a line of many children of one group: it is taken by the child the record of which is open"""
    ls = "abcdefghjk"[:n]
    who = t.choice("who", list(range(n)))
    v, w = t.char("v", exclude=NONSPACE_EXCL), t.char("w", exclude=NONSPACE_EXCL)
    tpl = "<group name='p*'>\np {{ x }}\n" + "".join("<group name='c%s*'>\n%s {{ x }}\nshared {{ y }}\n</group>\n" % (c, c) for c in ls) + "</group>\n"
    c = ls[who]
    data = "p 1\n" + "".join("%s x\n" % d for d in ls if d != c) + "%s x\nshared " % c + v + "\np 2\n%s x\nshared " % c + w + "\n"
    want = [dict([("x", "1")] + [("c" + d, [{"x": "x", "y": v} if d == c else {"x": "x"}]) for d in ls]), {"x": "2", "c" + c: [{"x": "x", "y": w}]}]
    t.eq(only(tpl, data), {"p": want}, "line of many children")


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for s in SH:
        n = len(set(keys_of(SH[s])))
        k = (6 if n <= 4 else 5) + (1 if deep else 0)
        out.append(("shared", (s, k, "i")))
        if n <= 3 or deep:
            out.append(("shared", (s, k - 1, None)))
    for e in (False, True):
        out += [("checked", (4 if deep else 3, e)), ("valueless", (5 if deep else 4, e)), ("unmatched", (5 if deep else 4, e))]
    out += [("large", (8,)), ("large_kids", (8,))]
    return named(globals(), out)
