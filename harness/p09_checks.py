"""P09: match checks accept exactly the values they name."""
from hlib import *

COVERS = ["accepted", "rejected", "number accepted", "number rejected"]
BOUNDS = {
    "quick": "every value of 1-5 characters (first one non-blank, line feed excluded); every argument of 1-3 characters by variable, 2-3 arguments of which two are variables of 1-2 arbitrary characters, 8 fixed arguments written in the template (incl. integers, several "
             "arguments, variables holding alternatives); 8 regular expressions for the six _re checks; numbers of up to 4 digits" "; cases beyond usual size (9-20 of a kind): many texts in one check",
    "thorough": "values of 1-6 characters, arguments of 1-3",
}
NL = "\n"


def value(t, hi):
    """a value: anything but line feeds, first character non-blank"""
    v = t.char("v0", exclude=NONSPACE_EXCL)
    return v + t.str("v", 0, hi - 1, exclude=NL)


def go(t, fn, v, vars=None):
    kw = {"vars": vars} if vars else {}
    p = mk("<group name='g*'>\nx {{ x }}\ni {{ a | re('.+') | " + fn + " }}\n</group>", **kw)
    p.add_input("x 1\ni " + v + "\n")
    p.parse(one=True)
    return p.result()[0][0]["g"]


def verdict(t, fn, v, ok, vars=None):
    got = go(t, fn, v, vars)
    t.cover("accepted" if ok else "rejected")
    t.eq(got, [{"x": "1", "a": v}] if ok else [{"x": "1"}], "verdict of %s" % fn)


def by_var(t, fn, hi, ahi):
    """the argument is an arbitrary text held by a template variable"""
    v = value(t, hi)
    a = t.str("arg", 1, ahi, exclude=NL)
    if fn == "equal":
        ok = v == a
    elif fn == "notequal":
        ok = v != a
    else:
        found = False
        for i in range(len(v) - len(a) + 1):
            if v[i:i + len(a)] == a:
                found = True
                break
        ok = found if fn == "contains" else not found
    verdict(t, fn + "(vn)", v, ok, {"vn": a})


def several(t, fn, hi, ahi):
    """several arguments, each a literal or the name of a variable of the template holding arbitrary text"""
    v = value(t, hi)
    a = t.str("arg", 1, ahi, exclude=NL)
    b = t.str("brg", 1, ahi, exclude=NL)
    shape = t.choice("shape", ["va, 'lit', vb", "'lit', va", "va, vb", "'va', nov, vb"])
    items = {"va, 'lit', vb": [a, "lit", b], "'lit', va": ["lit", a], "va, vb": [a, b], "'va', nov, vb": [a, "nov", b]}[shape]
    found = False
    for w in items:
        for i in range(len(v) - len(w) + 1):
            if v[i:i + len(w)] == w:
                found = True
                break
    verdict(t, "%s(%s)" % (fn, shape), v, found, {"va": a, "vb": b})


FIXED = {
    "contains('a', 'bc')": lambda v: "a" in v or "bc" in v,
    "contains('a b')": lambda v: "a b" in v,
    "contains(ab)": lambda v: "ab" in v,
    "equal('a b')": lambda v: v == "a b",
    "notequal('.*')": lambda v: v != ".*",
    "exclude('a.')": lambda v: "a." not in v,
    "exclude('$')": lambda v: "$" not in v,
    "contains('\\\\')": lambda v: "\\" in v,
    "void": lambda v: False,
    "startswith('ab')": lambda v: v[:2] == "ab",
    "endswith(' b')": lambda v: v[-2:] == " b",
    "contains('a') | exclude('b')": lambda v: "a" in v and "b" not in v,
    "contains('x', 'y') | contains('y', 'z')": lambda v: "y" in v or ("x" in v and "z" in v),
}


def fixed(t, fn, hi):
    v = value(t, hi)
    verdict(t, fn, v, bool(FIXED[fn](v)))


DIGITS = "0123456789\u00b2\u0663"     # the digits of the character domain
DECIMAL = "0123456789\u0663"
BLANK = " \t\r\x0b\x0c\x1c\x85\xa0\u2028"


def strip(v):
    i, j = 0, len(v)
    while i < j and v[i] in BLANK:
        i += 1
    while j > i and v[j - 1] in BLANK:
        j -= 1
    return v[i:j]


def allin(s, chars):
    for c in s:
        if c not in chars:
            return False
    return len(s) > 0


def digits(t, fn, hi):
    v = value(t, hi)
    d = allin(strip(v), DIGITS)
    verdict(t, fn, v, d if fn == "isdigit" else not d)


def number(t, fn, arg, hi):
    v = value(t, hi)
    s = strip(v)
    ok = False
    if allin(s, DECIMAL):
        n = 0
        for c in s:
            n = n * 10 + (3 if c == "\u0663" else ord(c) - 48)
        lim = int(arg.strip("'\" "))
        ok = n > lim if fn == "greaterthan" else n < lim
        t.cover("number accepted" if ok else "number rejected")
    verdict(t, "%s(%s)" % (fn, arg), v, bool(ok))


def number_bad(t, fn):
    """an argument that is no number accepts nothing"""
    v = value(t, 2)
    verdict(t, fn + "('a5')", v, False)


ANY = None
# name: (argument text, variable or None, alternatives of [(characters or ANY, min, max)])
RE = {
    "lit": ("'ab'", None, [[("a", 1, 1), ("b", 1, 1)]]),
    "dot": ("'a.c'", None, [[("a", 1, 1), (ANY, 1, 1), ("c", 1, 1)]]),
    "class": ("'[ab]x+'", None, [[("ab", 1, 1), ("x", 1, 9)]]),
    "num": ("'[0-9]+'", None, [[("0123456789", 1, 9)]]),
    "opt": ("'ab?c'", None, [[("a", 1, 1), ("b", 0, 1), ("c", 1, 1)]]),
    "alt": ("vn", "a|bc", [[("a", 1, 1)], [("b", 1, 1), ("c", 1, 1)]]),
    "alt2": ("vn", "ab|c|d", [[("a", 1, 1), ("b", 1, 1)], [("c", 1, 1)], [("d", 1, 1)]]),
    "esc": ("vn", "\\.x", [[(".", 1, 1), ("x", 1, 1)]]),
    "star": ("'b*'", None, [[("b", 0, 9)]]),
}


def ends(toks, v, i):
    """positions where a match that starts at i can end"""
    cur = [i]
    for chars, lo, hi in toks:
        nxt = []
        for s in cur:
            j = s
            n = 0
            while True:
                if n >= lo and j not in nxt:
                    nxt.append(j)
                if n == hi or j >= len(v) or (chars is not ANY and v[j] not in chars):
                    break
                j += 1
                n += 1
        cur = nxt
    return cur


def regex(t, fn, pat, hi):
    v = value(t, hi)
    arg, var, alts = RE[pat]
    n = len(v)
    ok = False
    base = fn[3:] if fn.startswith("not") else "contains_re" if fn == "exclude_re" else fn
    for alt in alts:
        if base == "startswith_re":
            ok = ok or len(ends(alt, v, 0)) > 0
        else:
            for i in range(n + 1):
                e = ends(alt, v, i)
                if base == "contains_re" and e or base == "endswith_re" and n in e:
                    ok = True
                    break
    if fn.startswith("not") or fn == "exclude_re":
        ok = not ok
    verdict(t, "%s(%s)" % (fn, arg), v, bool(ok), {"vn": var} if var else None)


def not_text(t):
    """checks on a list"""
    v = t.str("v", 1, 3, exclude=NONSPACE_EXCL)
    verdict_list(t, "split('.') | contains('a')", v, lambda l: "a" in l)
    verdict_list(t, "split('.') | exclude('a')", v, lambda l: "a" not in l)


def verdict_list(t, fn, v, pred):
    l = v.split(".")
    got = go(t, fn, v)
    t.eq(got, [{"x": "1", "a": l}] if pred(l) else [{"x": "1"}], "verdict of %s" % fn)


def large(t, fn):
    """many texts in one check"""
    v = t.str("v", 1, 2, alphabet="abcdefghijkz")
    names = ["b", "da", "c", "ee", "f", "gz", "h", "i", "jz", "k"]
    if fn == "contains":
        ok = False
        for n in names:
            if n in v:
                ok = True
                break
        chain = "contains(%s)" % ", ".join("'%s'" % n for n in names)
    else:
        ok = True
        for n in names:
            if n in v:
                ok = False
                break
        chain = " | ".join("exclude('%s')" % n for n in names)
    t.eq(only("<group name='g*'>\ni {{ x | %s }}\n</group>" % chain, "i " + v), {"g": [{"x": v}]} if ok else {}, "many texts in " + fn)


def jobs(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    for fn in ("contains", "exclude", "equal", "notequal"):
        out.append(("by_var", {"fn": fn, "hi": 5 + d, "ahi": 3 + d}))
    out.append(("several", {"fn": "contains", "hi": 4 + d, "ahi": 2}))
    out += [("fixed", {"fn": fn, "hi": 4 + 2 * d}) for fn in FIXED]
    out += [("digits", {"fn": fn, "hi": 4 + d}) for fn in ("isdigit", "notdigit")]
    for fn in ("greaterthan", "lessthan"):
        for a in ("'5'", "12", "'100'", "0", "' 7 '", "'007'"):
            out.append(("number", {"fn": fn, "arg": a, "hi": 3 + d}))
        out.append(("number_bad", {"fn": fn}))
    for fn in ("startswith_re", "endswith_re", "contains_re", "notstartswith_re", "notendswith_re", "exclude_re"):
        for pat in RE:
            out.append(("regex", {"fn": fn, "pat": pat, "hi": 5 + d if not pat == "star" else 3}))
    out.append(("not_text", {}))
    out += [("large", {"fn": f}) for f in ("contains", "exclude")]
    return out
