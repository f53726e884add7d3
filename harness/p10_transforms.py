"""P10: match transformations compute the documented value."""
from hlib import *

COVERS = ["index inside", "index clipped", "truncated", "not truncated", "replaced", "nothing to replace", "expanded", "kept", "converted", "not converted",
          "uptime", "no uptime", "joined", "list joined"]
BOUNDS = {
    "quick": "values of 1-5 arbitrary characters (first non-blank, no line feed) for item, append, prepend, join, sformat, let, set, copy, to_str, to_list; of 1-5 characters over small alphabets "
             "holding every character the function looks at for truncate, replaceall, resub, resuball, unrange, to_int, to_float, uptimeparse and string methods; up to 3 joined lines; "
             "variables with arbitrary text for the arguments that can name them" "; cases beyond usual size (9-20 of a kind): many replacements, in their order",
    "thorough": "values of 1-6 characters, up to 4 joined lines",
}
NL = "\n"


def value(t, hi, alphabet=None, name="v"):
    if alphabet is None:
        return t.char(name + "0", exclude=NONSPACE_EXCL) + t.str(name, 0, hi - 1, exclude=NL)
    first = alphabet.replace(" ", "").replace("\t", "")
    return t.char(name + "0", alphabet=first) + t.str(name, 0, hi - 1, alphabet=alphabet)


def go(t, fn, v, vars=None, var="{{ a | re('.+') | %s }}", tags="", glob=None):
    kw = {"vars": vars} if vars else {}
    p = mk(tags + "<group name='g*'>\nx {{ x }}\ni " + var % fn + "\n</group>", **kw)
    p.add_input("x 1\ni " + v + "\n")
    p.parse(one=True)
    g = p.result()[0][0]["g"]
    t.eq(len(g), 1, "one record")
    return g[0]


def expect(t, fn, v, want, vars=None, **kw):
    got = go(t, fn, v, vars, **kw)
    t.eq(got, {"x": "1", "a": want}, "value of %s" % fn)
    t.check(type(got["a"]) is type(want) or isinstance(want, str), "type of the value of %s" % fn)


def clip(t, seq, k):
    n = len(seq)
    if 0 <= k < n or -n <= k < 0:
        t.cover("index inside")
        return seq[k]
    t.cover("index clipped")
    return seq[n - 1] if k > 0 else seq[0]


def item(t, hi):
    k = t.choice("k", [0, 1, 2, 3, 4, 9, -1, -2, -3, -4, -9])
    v = value(t, hi)
    expect(t, "item(%d)" % k, v, clip(t, v, k))


def item_list(t, hi):
    k = t.choice("k", [0, 1, 2, 3, -1, -2, -3, -4])
    v = value(t, hi, "a,b ")
    parts = [""]
    for c in v:
        if c == ",":
            parts.append("")
        else:
            parts[-1] = parts[-1] + c
    expect(t, "split(',') | item('%d')" % k, v, clip(t, parts, k))


def truncate(t, hi):
    k = t.choice("k", [1, 2, 3])
    v = value(t, hi, "ab \t")
    out = ""
    spaces = 0
    for c in v:
        if c == " ":
            spaces += 1
            if spaces == k:
                break
        out = out + c
    t.cover("truncated" if len(out) < len(v) else "not truncated")
    expect(t, "truncate(%d)" % k, v, out)


def rep(v, old, new):
    out, i, n = "", 0, len(old)
    while i < len(v):
        if v[i:i + n] == old:
            out = out + new
            i += n
        else:
            out = out + v[i]
            i += 1
    return out


REPLACE = {
    "replaceall('ab')": (None, [("ab", "")]),
    "replaceall('a', 'b')": (None, [("b", "a")]),
    "replaceall('', 'b', 'a')": (None, [("b", ""), ("a", "")]),
    "replaceall('x', 'aa', 'a.')": (None, [("aa", "x"), ("a.", "x")]),
    "replaceall('ab', 'b', 'a')": (None, [("b", "ab"), ("a", "ab")]),
    "replaceall('$', '.')": (None, [(".", "$")]),
    "replaceall('\\\\1', 'ab')": (None, [("ab", "\\1")]),
    "replaceall(vl)": ({"vl": ["ab", ".", "b"]}, [("ab", ""), (".", ""), ("b", "")]),
    "replaceall('x', vl)": ({"vl": ["ab", "."]}, [("ab", "x"), (".", "x")]),
    "replaceall('x', 'b', 'vl')": ({"vl": ["ab", "a"]}, [("b", "x"), ("ab", "x"), ("a", "x")]),
    "replaceall(vd)": ({"vd": {"x": ["ab", "."], "yy": "b"}}, [("ab", "x"), (".", "x"), ("b", "yy")]),
    "replaceall('n', vd)": ({"vd": {"x": ["b."], "": ["a"]}}, [("b.", "x"), ("a", "")]),
    "replaceall('a') | replaceall('bb', 'b')": (None, [("a", ""), ("b", "bb")]),
    "replace('ab', 'x')": (None, [("ab", "x")]),
    "replace('b', '') | replace('.', 'b.')": (None, [("b", ""), (".", "b.")]),
}


def replaceall(t, fn, hi):
    v = value(t, hi, "ab.")
    vars, steps = REPLACE[fn]
    out = v
    for old, new in steps:
        out = rep(out, old, new)
    t.cover("nothing to replace" if out == v else "replaced")
    expect(t, fn, v, out, vars)


def replace_any(t, hi):
    """the texts to replace are arbitrary and held by a list variable"""
    v = value(t, hi)
    a = t.str("old", 1, 2, exclude=NL)
    expect(t, "replaceall('=+', vl)", v, rep(v, a, "=+"), {"vl": [a]})


ANY = None


def longest(toks, v, i):
    cur = [i]
    for chars, lo, hi in toks:
        nxt = []
        for s in cur:
            j, n = s, 0
            while True:
                if n >= lo and j not in nxt:
                    nxt.append(j)
                if n == hi or j >= len(v) or (chars is not ANY and v[j] not in chars):
                    break
                j += 1
                n += 1
        cur = nxt
    return max(cur) if cur else -1


def rsub(v, toks, new, count=99, start=False, end=False):
    """leftmost longest non-empty matches replaced"""
    out, i, done = "", 0, 0
    while i < len(v):
        e = -1
        if done < count and not (start and i > 0):
            e = longest(toks, v, i)
            if end and e != len(v):
                e = -1
        if e > i:
            out = out + (new if isinstance(new, str) else new(v[i:e]))
            done += 1
            i = e
        else:
            out = out + v[i]
            i += 1
    return out


A1 = [("a", 1, 1)]
AP = [("a", 1, 9)]
AB = [("a", 1, 1), ("b", 1, 1)]
DOTB = [(ANY, 1, 1), ("b", 1, 1)]
CL = [("a.", 1, 9)]
RESUB = {
    "resub('a', 'x')": (None, lambda v: rsub(v, A1, "x", 1)),
    "resub('a+', '')": (None, lambda v: rsub(v, AP, "", 1)),
    "resub('a', 'x', 2)": (None, lambda v: rsub(v, A1, "x", 2)),
    "resub(old='ab', new='y', count=2)": (None, lambda v: rsub(v, AB, "y", 2)),
    "resub('a', 'x', 0)": (None, lambda v: rsub(v, A1, "x")),
    "resub('^ab', 'x', 3)": (None, lambda v: rsub(v, AB, "x", 3, start=True)),
    "resub('[a.]+', '-')": (None, lambda v: rsub(v, CL, "-", 1)),
    "resub('.b', '', 9)": (None, lambda v: rsub(v, DOTB, "")),
    "resub('(a)b', '\\\\1')": (None, lambda v: rsub(v, AB, "a", 1)),
    "resub(vn, 'x')": ({"vn": "a."}, lambda v: rsub(v, [("a", 1, 1), (".", 1, 1)], "x", 1)),
    "resuball('a')": (None, lambda v: rsub(v, A1, "")),
    "resuball('x', 'a+')": (None, lambda v: rsub(v, AP, "x")),
    "resuball('x', 'a+', 'b')": (None, lambda v: rsub(rsub(v, AP, "x"), [("b", 1, 1)], "x")),
    "resuball('b', '^a', '.b')": (None, lambda v: rsub(rsub(v, A1, "b", start=True), DOTB, "b")),
    "resuball('x', vl)": ({"vl": ["^ab", "[.]"]}, lambda v: rsub(rsub(v, AB, "x", start=True), [(".", 1, 1)], "x")),
    "resuball(vd)": ({"vd": {"x": ["^ab", "a+"], "y": "[.]b"}},
                     lambda v: rsub(rsub(rsub(v, AB, "x", start=True), AP, "x"), [(".", 1, 1), ("b", 1, 1)], "y")),
    "resuball('x', vn)": ({"vn": "a."}, lambda v: rsub(v, [("a", 1, 1), (".", 1, 1)], "x")),
    "resuball('', vn, 'b+')": ({"vn": ".."}, lambda v: rsub(rsub(v, [(".", 2, 2)], ""), [("b", 1, 9)], "")),
}


def resub(t, fn, hi):
    v = value(t, hi, "ab.")
    vars, f = RESUB[fn]
    out = f(v)
    t.cover("nothing to replace" if out == v else "replaced")
    expect(t, fn, v, out, vars)


def digits(s):
    for c in s:
        if c not in "0123456789":
            return False
    return len(s) > 0


def unrange(t, kinds, rng, join):
    """numbers, ascending ranges; a range with a text for a bound is kept"""
    n = len(kinds)
    vs, want, bad = [], [], False
    for i, kind in enumerate(kinds):
        a = t.int("a%d" % i, 8, 11) if kind == "r" else t.int("a%d" % i, 0, 120)
        if kind == "n":
            vs.append(str(a))
            want.append(str(a))
        elif kind == "e":
            vs.append("")
        elif kind == "r":
            d = t.choice("d%d" % i, [1, 2, 4])
            vs.append(str(a) + rng + str(a + d))
            want += [str(a + j) for j in range(d + 1)]
        else:
            bad = True
            x = t.char("x%d" % i, exclude=NONSPACE_EXCL + rng + join + "0123456789\u00b2\u0663")
            side = t.choice("side%d" % i, ["left", "right", "no start", "no end"])
            if side == "left":
                vs.append(x + rng + str(a))
            elif side == "right":
                vs.append(str(a) + rng + x)
            elif side == "no start":
                t.assume(n == 1)
                vs.append(rng + str(a))
            else:
                t.assume(n == 1)
                vs.append(str(a) + rng)
    v = join.join(vs)
    t.cover("kept" if bad else "expanded")
    expect(t, "unrange('%s', '%s')" % (rng, join) if rng != "-" else "unrange(rangechar='-', joinchar='%s')" % join, v, v if bad else join.join(want))


def unrange_none(t, hi):
    v = value(t, hi)
    t.assume("-" not in v)
    expect(t, "unrange('-', ',')", v, v)


def simple(t, kind, hi):
    v = value(t, hi)
    if kind == "append":
        expect(t, "append(' - x')", v, v + " - x")
    elif kind == "prepend":
        expect(t, "prepend('x ')", v, "x " + v)
    elif kind == "both":
        expect(t, "append('.') | prepend('[') | append(']')", v, "[" + v + ".]")
    elif kind == "append var":
        s = t.str("s", 0, 2)
        expect(t, "append(vn)", v, v + s, {"vn": s})
    elif kind == "prepend var":
        s = t.str("s", 0, 2)
        expect(t, "prepend('vn')", v, s + v, {"vn": s})
    elif kind == "append list":
        expect(t, "to_list | append('x') | prepend('y')", v, ["y", v, "x"])
    elif kind == "join list":
        expect(t, "to_list | append('x') | append('y') | join('.')", v, v + ".x.y")
    elif kind == "join":
        out = v[0]
        for c in v[1:]:
            out = out + "-+" + c
        expect(t, "join('-+')", v, out)
    elif kind == "to_str":
        expect(t, "to_str", v, v)
    elif kind == "to_list":
        expect(t, "to_list", v, [v])
    elif kind == "to_list2":
        expect(t, "to_list | to_list", v, [v])
    elif kind == "to_unicode":
        expect(t, "to_unicode", v, v)
    elif kind == "sformat":
        expect(t, "sformat('a {} b')", v, "a " + v + " b")
    elif kind == "sformat2":
        expect(t, "sformat('{0}:{0}')", v, v + ":" + v)
    elif kind == "let1":
        expect(t, "let('other')", v, "other")
    elif kind == "let2":
        t.eq(go(t, "let('b', 'other')", v), {"x": "1", "a": v, "b": "other"}, "let of two arguments")
    elif kind == "let3":
        t.eq(go(t, "let('b', True) | let('c', 5) | append('!')", v), {"x": "1", "a": v + "!", "b": True, "c": 5}, "lets")
    elif kind == "copy":
        t.eq(go(t, "copy('b') | append('!')", v), {"x": "1", "a": v + "!", "b": v}, "copy before a change")
    elif kind == "copy2":
        t.eq(go(t, "append('!') | copy('b') | append('?') | copy('c')", v), {"x": "1", "a": v + "!?", "b": v + "!", "c": v + "!?"}, "copies")
    elif kind == "copy list":
        t.eq(go(t, "to_list | copy('b') | append('z')", v), {"x": "1", "a": [v, "z"], "b": [v]}, "copy of a list is not changed")


SIMPLE = ["append", "prepend", "both", "append var", "prepend var", "append list", "join list", "join", "to_str", "to_list", "to_list2", "to_unicode", "sformat", "sformat2",
          "let1", "let2", "let3", "copy", "copy2", "copy list"]


def set_line(t, hi, kind):
    """set gives its value exactly when the line is the text before it"""
    s = t.str("s", 1, 2, exclude=NL)
    l = t.str("l", 1, hi, alphabet="ab \t")
    line = {"const": "ab {{ a | set('T') }}", "var": "ab {{ a | set(vn) }}", "two": "ab {{ a | set('T') }} {{ b | set('vn') }}", "bool": "ab {{ a | set(True) }}",
            "none": "ab {{ a | set('None') }}"}[kind]
    p = mk("<group name='g*'>\nx {{ x }}\n" + line + "\n</group>", vars={"vn": s})
    p.add_input("x 1\n" + l + "\n")
    p.parse(one=True)
    want = {"x": "1"}
    m = l[:2] == "ab"
    if m:
        for c in l[2:]:
            if c not in " \t":
                m = False
                break
    if m:
        want["a"] = {"const": "T", "var": s, "two": "T", "bool": True, "none": "None"}[kind]
        if kind == "two":
            want["b"] = s
        t.cover("converted")
    t.eq(p.result()[0][0]["g"], [want], "set")


def to_int(t, hi):
    v = value(t, hi, "05+-.ea ")
    s = v.strip(" ")
    neg = False
    if s[0] in "+-":
        neg = s[0] == "-"
        s = s[1:]
    if digits(s):
        n = 0
        for c in s:
            n = n * 10 + ord(c) - 48
        t.cover("converted")
        expect(t, "to_int", v, -n if neg else n)
    else:
        t.cover("not converted")
        expect(t, "to_int", v, v)


def to_int_any(t):
    """what is no number is kept, whatever it is"""
    v = t.str("v", 1, 3, exclude=NONSPACE_EXCL + "0123456789\u00b2\u0663")
    expect(t, "to_int", v, v)


def to_float(t, hi):
    v = value(t, hi, "05.-a")
    s = v[1:] if v[0] == "-" else v
    dots = 0
    ok = False
    for c in s:
        if c == ".":
            dots += 1
        elif c in "05":
            ok = True
        else:
            dots = 9
            break
    if ok and dots <= 1:
        n, scale, seen = 0, 1, False
        for c in s:
            if c == ".":
                seen = True
            else:
                n = n * 10 + (5 if c == "5" else 0)
                if seen:
                    scale *= 10
        t.cover("converted")
        got = go(t, "to_float", v)
        t.check(type(got["a"]) is float, "a float")
        t.eq(round(float(got["a"]) * scale), -n if v[0] == "-" else n, "value of to_float")
    else:
        t.cover("not converted")
        expect(t, "to_float", v, v)


def to_int_float(t):
    n = t.choice("n", [0, 7, 12])
    expect(t, "to_int | to_float", str(n), float(n))


METHODS = {
    "upper": lambda v: up(v),
    "lower": lambda v: low(v),
    "strip": lambda v: v.strip(" "),
    "strip('a')": lambda v: stripc(v, "a", True, True),
    "lstrip('a')": lambda v: stripc(v, "a", True, False),
    "rstrip('ab')": lambda v: stripc(v, "ab", False, True),
    "rstrip": lambda v: stripc(v, " ", False, True),
    "split('a')": lambda v: cut(v, "a"),
    "startswith('a')": lambda v: None,
}


def up(v):
    out = ""
    for c in v:
        out = out + ("A" if c == "a" else "B" if c == "b" else c)
    return out


def low(v):
    out = ""
    for c in v:
        out = out + ("b" if c == "B" else c)
    return out


def stripc(v, chars, left, right):
    i, j = 0, len(v)
    while left and i < j and v[i] in chars:
        i += 1
    while right and j > i and v[j - 1] in chars:
        j -= 1
    return v[i:j]


def cut(v, sep):
    parts = [""]
    for c in v:
        if c == sep:
            parts.append("")
        else:
            parts[-1] = parts[-1] + c
    return parts


def method(t, fn, hi):
    v = value(t, hi, "abB 1")
    expect(t, fn, v, METHODS[fn](v))


UNITS = [("years", ["year", "years"], 31536000), ("months", ["months", "month"], 2592000), ("weeks", ["week", "w"], 604800), ("days", ["days", "d"], 86400),
         ("hours", ["hours", "hour"], 3600), ("mins", ["minutes", "min"], 60), ("secs", ["seconds", "s"], 1)]


def uptime(t, skip, form, sep, case=None):
    """every subset of units with any numbers"""
    vs, total, want = [], 0, {}
    for i, (name, words, mult) in enumerate(UNITS):
        if i in skip or not t.bool("has_%s" % name):
            continue
        n = t.int("n%d" % i, 0, 99)
        w = words[i % 2 if sep == ", " else 0]
        vs.append(str(n) + " " + (w.upper() if case == "upper" else w.capitalize() if case == "capital" else w))
        total = total + n * mult
        want[name] = str(n)
    t.assume(len(vs) > 0)
    t.cover("uptime")
    v = sep.join(vs)
    if form == "dict":
        expect(t, "uptimeparse(format='dict')", v, want)
    else:
        expect(t, "uptimeparse" if sep == " " else "uptimeparse(format='seconds')", v, total)


def uptime_text(t, hi):
    """grammar of the shortest unit names: years 'y', hours 'h'; anything else is kept"""
    v = value(t, hi, "12 ,yhx.")
    i, n = 0, len(v)
    total, ok = 0, True
    order = ["y", "h"]

    def blanks(i):
        while i < n and v[i] == " ":
            i += 1
        return i

    def number(i):
        j = i
        while j < n and v[j] in "12":
            j += 1
        return j

    used = False
    for u in order:
        j = number(i)
        if j == i:
            continue
        k = blanks(j)
        if k < n and v[k] == u:
            num = 0
            for c in v[i:j]:
                num = num * 10 + ord(c) - 48
            total += num * (31536000 if u == "y" else 3600)
            used = True
            i = blanks(k + 1)
            if i < n and v[i] == ",":
                i = blanks(i + 1)
    if used and i == n:
        t.cover("uptime")
        expect(t, "uptimeparse", v, total)
    else:
        t.cover("no uptime")
        expect(t, "uptimeparse", v, v)


def joinmatches(t, n, kind):
    """lines joined in text order, per record, with lines of others in between"""
    fn, ch = {"default": ("joinmatches", "\n"), "comma": ("joinmatches(',')", ","), "word": ("joinmatches(' and ')", " and "), "empty": ("joinmatches('')", ""),
              "list": ("to_list | joinmatches", None), "split": ("split(',') | joinmatches(',')", None), "upper": ("append('.') | joinmatches('; ')", "; ")}[kind]
    p = mk("<group name='g*'>\nx {{ x }}\ni {{ a | re('.+') | " + fn + " }}\nz {{ z }}\n</group>")
    text, recs = "", []
    m = 1 if kind == "split" else t.int("records", 1, 2)
    for r in range(m):
        text += "x %d\n" % r
        rec = {"x": "%d" % r}
        for i in range(t.int("lines%d" % r, 0, n if r == 0 else 1)):
            if r == 0 and i == 1 and t.bool("between"):
                text += "z 5\n"
                rec["z"] = "5"
            v = value(t, 2, name="v%d_%d" % (r, i)) if kind != "split" else value(t, 3 if i == 0 else 2, "a,", name="v%d_%d" % (r, i))
            text = text + "i " + v + "\n"
            if kind == "list":
                rec["a"] = rec.get("a", []) + [v]
            elif kind == "split":
                rec["a"] = rec.get("a", []) + cut(v, ",")
            else:
                x = v + "." if kind == "upper" else v
                rec["a"] = rec["a"] + ch + x if "a" in rec else x
            t.cover("list joined" if ch is None else "joined")
        recs.append(rec)
    p.add_input(text)
    p.parse(one=True)
    t.eq(p.result()[0][0]["g"], recs, "joined matches")


def join_mixed(t, order):
    """texts, lists and numbers of one variable on different lines make one list"""
    lines = {"s": "s {{ a | joinmatches(',') }}", "l": "l {{ a | to_list | joinmatches(',') }}", "n": "n {{ a | to_int | joinmatches(',') }}"}
    p = mk("<group name='g*'>\nx {{ x }}\n" + "\n".join(lines[k] for k in sorted(set(order))) + "\n</group>")
    text, vals = "x 1\n", []
    for i, k in enumerate(order):
        if k == "n":
            v = t.int("v%d" % i, 0, 99)
            text = text + "n " + str(v) + "\n"
        else:
            v = t.str("v%d" % i, 1, 2, exclude=NONSPACE_EXCL)
            text = text + k + " " + v + "\n"
        vals.append((k, v))
    want = None
    for k, v in vals:
        if want is None:
            want = [v] if k == "l" else v
        elif isinstance(want, list):
            want = want + [v]
        elif isinstance(want, str) and k == "s":
            want = want + "," + v
        else:
            want = [want, v]
    p.add_input(text)
    p.parse(one=True)
    t.eq(p.result()[0][0]["g"], [{"x": "1", "a": want}], "mixed values")


def join_two(t, n):
    """two variables of a line are joined each"""
    p = mk("<group name='g*'>\nx {{ x }}\ni {{ a | joinmatches(',') }} {{ b | joinmatches(',') }}\n</group>")
    text, a, b = "x 1\n", [], []
    for i in range(t.int("n", 1, n)):
        a.append(t.str("a%d" % i, 1, 2, exclude=NONSPACE_EXCL))
        b.append(t.str("b%d" % i, 1, 1, exclude=NONSPACE_EXCL))
        text = text + "i " + a[-1] + " " + b[-1] + "\n"
    p.add_input(text)
    p.parse(one=True)
    t.eq(p.result()[0][0]["g"], [{"x": "1", "a": ",".join(a), "b": ",".join(b)}], "two joined variables")


def large(t, how):
    """many replacements, in their order"""
    v = t.str("v", 1, 3, alphabet="abcdzj")
    olds = ["a", "b", "za", "c", "zz", "d", "q", "jz", "j"]
    want = v
    for o in olds:
        want = want.replace(o, "z")
    if how == "args":
        got = only("<group name='g*'>\ni {{ x | replaceall('z', %s) }}\n</group>" % ", ".join("'%s'" % o for o in olds), "i " + v)
    elif how == "list":
        got = only("<vars>\nvl = %r\n</vars>\n<group name='g*'>\ni {{ x | replaceall('z', 'vl') }}\n</group>" % olds, "i " + v)
    else:
        got = only("<group name='g*'>\ni {{ x | resuball('z', %s) }}\n</group>" % ", ".join("'%s'" % o for o in olds), "i " + v)
    t.eq(got, {"g": [{"x": want}]}, "many replacements")


def jobs(tier):
    d = 1 if tier == "thorough" else 0
    out = [("item", {"hi": 5 + d}), ("item_list", {"hi": 5 + d}), ("truncate", {"hi": 5 + d}), ("replace_any", {"hi": 4 + d}), ("unrange_none", {"hi": 5 + d}), ("to_int", {"hi": 4 + d}),
           ("to_int_any", {}), ("to_float", {"hi": 4 + d}), ("to_int_float", {}), ("uptime_text", {"hi": 5 + d}), ("join_two", {"n": 3})]
    out += [("replaceall", {"fn": fn, "hi": 5 + d}) for fn in REPLACE]
    out += [("resub", {"fn": fn, "hi": 5 + d}) for fn in RESUB]
    for rng, join in (("-", ","), (":", " ")):
        out += [("unrange", {"kinds": k, "rng": rng, "join": join}) for k in (("ner", "re", "er") if join == "," else ()) + ("r", "t", "nr", "rn", "rr", "nt", "tn", "nnr", "nrn") + (("rnr", "rrr", "rnt") if d else ())]
    out += [("simple", {"kind": k, "hi": 5 + d}) for k in SIMPLE]
    out += [("set_line", {"kind": k, "hi": 5 + d}) for k in ("const", "var", "two", "bool", "none")]
    out += [("method", {"fn": fn, "hi": 4 + d}) for fn in METHODS if METHODS[fn]("a") is not None]
    out += [("uptime", {"skip": [0, 1], "form": "seconds", "sep": ", "}), ("uptime", {"skip": [4, 5], "form": "seconds", "sep": " "}), ("uptime", {"skip": [2, 3], "form": "dict", "sep": ", "}),
            ("uptime", {"skip": [0, 2, 6], "form": "seconds", "sep": ", ", "case": "upper"}), ("uptime", {"skip": [1, 3, 5], "form": "seconds", "sep": " ", "case": "capital"})]
    out += [("joinmatches", {"n": 3 + d, "kind": k}) for k in ("default", "comma", "word", "empty", "list", "split", "upper")]
    out += [("join_mixed", {"order": list(o)}) for o in ("sl", "ls", "sn", "ns", "ln", "nl", "nn", "ssl", "sls", "ssn", "nsl")]
    out += [("large", {"how": h}) for h in ("args", "list")]
    return out
