"""P01: a template line matches exactly the data lines it describes and the
captured values are the verbatim text."""
from hlib import *

COVERS = ["match", "nomatch"]
BOUNDS = {
    "quick": "one arbitrary literal character (every printable domain character except < & { }) between fixed text; data "
             "lines with 0-2 arbitrary characters at the literal and 1 in the value; 39 concrete template lines, 8 with set, 5 with _start_, against "
             "fully arbitrary data lines of up to 4-5 characters; up to 3 lines per text with LF/CRLF endings" "; cases beyond usual size (9-20 of a kind): lines and groups larger than usual ones",
    "thorough": "as quick with two adjacent arbitrary literal characters, arbitrary data lines of up to 6 characters, 4 lines per text",
}
LITERALS = [c for c in "".join(chr(i) for i in range(33, 127)) if c not in "<&{}"] + [" ", "\t", "\u00e9", "\u00b2", "\u00c9", "\u0663"]


def compare(t, template, data, lines, toks):
    got = records(template, data)
    want = ref_lines(toks, lines)
    t.cover("match" if want else "nomatch")
    t.observe("got", got)
    t.eq(got, want, "records of %r" % template)


def literal(t, pool, n):
    chars = t.choice("literal", pool)
    """template 'k<c> {{ v }}' for literal text c, data 'k<d> <w>'"""
    line = "k" + chars + " {{ v }}"
    d = t.str("d", 0, n, exclude="\n")
    w = t.str("w", 1, 1, exclude="\n")
    data = "k" + d + " " + w
    compare(t, line, data, [data], tokenize(line))


def literal_end(t, pool, n):
    chars = t.choice("literal", pool)
    """literal text at the end of the line, after the variable"""
    line = "{{ v }} k" + chars
    d = t.str("d", 0, n, exclude="\n")
    data = "x k" + d
    compare(t, line, data, [data], tokenize(line.rstrip()))


def literal_start(t, pool, n):
    chars = t.choice("literal", pool)
    line = chars + "k {{ v }}"
    if chars == "#":
        return t.check(True)
    d = t.str("d", 0, n, exclude="\n")
    data = d + "k x"
    compare(t, line, data, [data], tokenize(line))


LINES = [
    ("{{ a }}", {}), (" {{ a }}", {}), ("\t{{ a }}", {}), ("  {{ a }}", {}), ("a {{ x }}", {}), (" a {{ x }}", {}),
    ("{{ a }} {{ b }}", {}), ("{{ a }}:{{ b }}", {}), ("{{ a }} : {{ b }}", {}), ("{{ a }}  x", {}), ("a{{ x }}", {}),
    ("{{ x }}a", {}), ("{{ a }}1", {}), ("1{{ a }}", {}), ("v1 {{ a }}", {}), ("1.2 {{ a }}", {}), ("a\t{{ x }}", {}),
    ("{{ ignore }} {{ x }}", {}), ("{{ x }} {{ ignore }}", {}), ("{{ ignore }}:{{ x }}", {}), ("{{ my-var.a }}/{{ 2b }}", {}),
    ("({{ x }})", {}), ("[{{ x }}]*", {}), ("{{ x }}.", {}), ("{{ x }},{{ y }},{{ z }}", {}), ("{{ x }}$", {}), ("^{{ x }}", {}),
    ("\\{{ x }}", {}), ("{{ x }}+", {}), ("a|{{ x }}", {}), ("{{ x }} -> ", {}), ("{{ x }}?", {}),
    ("1 {{ x | _exact_ }}", {"exact": True}), ("12{{ x | _exact_ }}", {"exact": True}), ("a 1 {{ x | _exact_ }}", {"exact": True}),
    ("a  {{ x | _exact_space_ }}", {"exact_space": True}), ("a {{ x | _exact_space_ }}", {"exact_space": True}),
    ("{{ x | _exact_space_ }} 1", {"exact_space": True}), ("a\t{{ x | _exact_space_ }}", {"exact_space": True}),
]


def whole_line(t, i, n):
    line, opts = LINES[i]
    data = text(t, t.str("line", 0, n, exclude="\n"))
    compare(t, line, data, [data], tokenize(line.rstrip(), **opts))


def whole_line_small(t, i, n, alpha):
    line, opts = LINES[i]
    data = t.str("line", 0, n, alphabet=alpha)
    compare(t, line, data, [data], tokenize(line.rstrip(), **opts))


def several_lines(t, k, n, crlf, last):
    """every line of the text is looked at on its own; LF or CRLF endings,
    with or without a final line feed, blank first line"""
    line = "a{{ x }}"
    ls = []
    data = ""
    for i in range(k):
        l = "a" + t.str("l%d" % i, 0, n, alphabet="a 1\t") if i % 2 == 0 else t.str("l%d" % i, 0, n, alphabet="a 1\t")
        ls.append(l)
        data = data + l
        if i < k - 1 or last:
            data = data + ("\r\n" if crlf else "\n")
    compare(t, line, data, ls, tokenize(line))


# lines that hold no match variable to be captured: name of the variable set, or None for _start_
MARKS = [("a b {{ q | set('Q') }}", {}), (" a1 {{ q | set('Q') }}", {}), ("a {{ q | set('Q') }}", {}), ("a\tb {{ q | set('Q') }}", {}), ("1. {{ q | set('Q') }}", {}), ("a*{{ q | set('Q') }}", {}),
         ("1 a {{ q | set('Q') | _exact_ }}", {"exact": True}), ("a  b {{ q | set('Q') | _exact_space_ }}", {"exact_space": True})]
STARTS = ["a b {{ _start_ }}", " a1 {{ _start_ }}", "a {{ _start_ }}", "(a) {{ _start_ }}", "a\t1 {{ _start_ }}"]


def mark(t, i, n, alpha):
    """a line without variables: set gives its value where the line is found"""
    line, opts = MARKS[i]
    d = t.str("line", 0, n, alphabet=alpha) if alpha else text(t, t.str("line", 0, n, exclude="\n"))
    t.assume(not (d.startswith("s") and len(d) > 2))
    lit = line[:line.index("{{")].rstrip()
    got = records("s {{ x }}\n" + line, "s 1\n" + d)
    ok = ref_match(tokenize(lit, **opts), d) is not None
    if ok:                  # set compares the text before it: other blanks or digits are not specified
        t.assume(ref_match(tokenize(lit, exact=True, exact_space=True), d) is not None)
    t.cover("match" if ok else "nomatch")
    t.eq(got, [{"x": "1", "q": "Q"}] if ok else [{"x": "1"}], "set of %r" % line)


def start(t, i, n, alpha):
    """a _start_ line without variables opens a record where it is found"""
    line = STARTS[i]
    d = t.str("line", 0, n, alphabet=alpha) if alpha else text(t, t.str("line", 0, n, exclude="\n"))
    t.assume(not (d.startswith("v") and len(d) > 2))
    got = only("<group name='g*'>\n" + line + "\nv {{ v }}\n</group>", d + "\nv 1\r\n" + d + "\nv 2")
    ok = ref_match(tokenize(line[:line.index("{{")].rstrip()), d) is not None
    t.cover("match" if ok else "nomatch")
    t.eq(got, {"g": [{"v": "1"}, {"v": "2"}]} if ok else {}, "records of %r" % line)


def surrounded(t, n):
    """text before and after a matching line does not change its capture"""
    pre = t.str("pre", 0, n, exclude="k")
    v = t.str("v", 1, 1, exclude=NONSPACE_EXCL)
    post = t.str("post", 0, n, exclude="k")
    got = records("k {{ v }}", pre + "\nk " + v + "\n" + post)
    t.eq(got, [{"v": v}], "match between other lines")
    t.cover("match")


SHORT = "a1 \t:.\r\u00e9"


def large(t, kind):
    """lines and groups larger than usual ones"""
    vs = [t.str("v%d" % i, 1, 1, exclude=NONSPACE_EXCL) for i in range(3)]
    at = {1: vs[0], 9: vs[1], 13: vs[2]}
    val = lambda i: at.get(i, "x" + chr(97 + i))
    if kind == "line":        # 14 variables in a line
        tpl = "<group name='g*'>\n" + " ".join("w%s {{ n%s }}" % (chr(97 + i), chr(97 + i)) for i in range(14)) + "\n</group>"
        cut = t.choice("cut", [14, 13, 12])
        data = " ".join("w%s " % chr(97 + i) + val(i) for i in range(cut)) + "\n"
        want = {"g": [{"n" + chr(97 + i): val(i) for i in range(14)}]} if cut == 14 else {}
    elif kind == "lines":     # 14 lines in a group, given in another order
        tpl = "<group name='g*'>\ni {{ i }}\n" + "\n".join("w%s {{ n%s }}" % (chr(97 + i), chr(97 + i)) for i in range(14)) + "\n</group>"
        has = {1: t.bool("h1"), 9: t.bool("h9"), 13: t.bool("h13")}
        there = [i for i in reversed(range(14)) if has.get(i, True)]
        data = "i 1\n" + "".join("w%s " % chr(97 + i) + val(i) + "\n" for i in there)
        want = {"g": [dict([("i", "1")] + [("n" + chr(97 + i), val(i)) for i in there])]}
    elif kind == "text":      # line of 400 characters of text around
        word = "some-text " * 20
        tpl = "<group name='g*'>\n" + word + "{{ a }} " + word + "{{ b }}\n</group>"
        end = t.choice("end", ["", "  ", " x"])
        data = word + vs[0] + " " + word + vs[1] + end + "\n" + word + vs[2] + "\n"
        want = {"g": [{"a": vs[0], "b": vs[1]}]} if end != " x" else {}
    else:                     # match far in the text
        tpl = "<group name='g*'>\ni {{ a }}\nj {{ b }}\n</group>"
        data = "i " + vs[0] + "\n" + "other line\n" * 150 + "j " + vs[1] + "\n" + "other line\n" * 150 + "i " + vs[2] + "\n"
        want = {"g": [{"a": vs[0], "b": vs[1]}, {"a": vs[2]}]}
    t.eq(only(tpl, data), want, "large: " + kind)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    singles = LITERALS
    pairs = [c + LITERALS[(i * 7 + 3) % len(LITERALS)] for i, c in enumerate(LITERALS)]
    if deep:
        pairs = [c + d for c in LITERALS for d in LITERALS[::2]]
    for pool, n in ((singles, 2), (pairs, 3)):
        size = 16 if pool is singles else 24
        for k in range(0, len(pool), size):
            for fn in ("literal", "literal_end", "literal_start"):
                out.append((fn, {"pool": pool[k:k + size], "n": n}))
    for i in range(len(LINES)):
        out.append(("whole_line", {"i": i, "n": 8 if deep else 6}))
        out.append(("whole_line_small", {"i": i, "n": 9 if deep else 6, "alpha": SHORT}))
    for i in range(len(MARKS)):
        out.append(("mark", {"i": i, "n": 7 if deep else 5, "alpha": None}))
        out.append(("mark", {"i": i, "n": 7 if deep else 6, "alpha": "ab1 \t\r."}))
    for i in range(len(STARTS)):
        out.append(("start", {"i": i, "n": 6 if deep else 5, "alpha": None}))
        out.append(("start", {"i": i, "n": 7 if deep else 5, "alpha": "ab1 \t\r()"}))
    for crlf in (0, 1):
        for last in (0, 1):
            out.append(("several_lines", {"k": 3 if deep else 2, "n": 2, "crlf": crlf, "last": last}))
            out.append(("several_lines", {"k": 4 if deep else 3, "n": 1, "crlf": crlf, "last": last}))
    out.append(("surrounded", {"n": 4 if deep else 3}))
    out += [("large", {"kind": k}) for k in ("line", "lines", "text", "far")]
    return out
