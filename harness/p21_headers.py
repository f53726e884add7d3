"""P21: table headers slice rows at the header's columns."""
from hlib import *

COVERS = ["row", "too short", "header line", "value containing a header name", "empty value"]
BOUNDS = {
    "quick": "1-4 headers of 1-3 characters in columns of 2-4, indented by 0-2 blanks or a tab, every number of mandatory columns and the default; 1-2 symbolic rows of up to 7-9 characters (any character), LF, CRLF; "
             "header lines before, between and after rows, other lines, end lines, child and named groups, template variables named as headers" "; cases beyond usual size (9-20 of a kind): a table of many columns and rows",
    "thorough": "rows of up to 11 characters, 3 rows, more layouts",
}


def layout(cols, indent=""):
    """header line and column widths of [(name, width)]"""
    line, widths = indent, []
    for i, (n, w) in enumerate(cols):
        line += n + " " * (w - len(n)) if i < len(cols) - 1 else n
        widths.append(w)
    widths[0] += len(indent.replace("\t", "    "))
    return line, widths


def ref(t, cols, widths, m, row):
    """record of a row or None"""
    need = sum(widths[:m - 1]) + 1
    while len(row) and row[-1] == "\r":
        row = row[:-1]
    if len(row) < need:
        t.cover("too short")
        return None
    rec, pos = {}, 0
    for i, (n, w) in enumerate(cols):
        cell = row[pos:] if i == len(cols) - 1 else row[pos:pos + widths[i]]
        pos += widths[i]
        v = cell.strip()
        if v == n:
            t.cover("header line")
            return None
        rec[n] = v
    t.cover("row")
    return rec


def default_m(cols):
    return max(1, len(cols) - 2)


def clamp(m, cols):
    return default_m(cols) if m is None else min(max(1, m), len(cols))


def tpl_of(line, m, name="g*", extra="", pre=""):
    return '%s<group name="%s">\n%s   {{ _headers_%s }}\n%s</group>\n' % (pre, name, line, "" if m is None else " | columns(%d)" % m, extra)


def out(recs):
    return [[{"g": recs} if recs else {}]]


def rows(t, cols, indent, m, n, hi, eol, head):
    """every text of n lines with or without the header line"""
    line, widths = layout(cols, indent)
    mm = clamp(m, cols)
    texts = [t.str("r%d" % i, 0, hi, exclude="\n") for i in range(n)]
    lines = []
    if head:
        lines.append(line.replace("\t", "    "))
    lines += texts
    txt = "".join([l + eol for l in lines])
    recs = [ref(t, cols, widths, mm, l) for l in lines]
    recs = [r for r in recs if r is not None]
    for r in recs:
        if "" in [r[n_] for n_, w in cols]:
            t.cover("empty value")
    t.eq(run(t, tpl_of(line, m), [txt]), out(recs), "rows of the table")


def run(t, template, texts, **kw):
    p = ttp(template=template, log_level="CRITICAL")
    for x in texts:
        p.add_input(text(t, x))
    p.parse(one=True)
    return p.result()


def cells(t, cols, indent, m, eol, hi):
    """rows written cell by cell: every cell a text that fits its column"""
    line, widths = layout(cols, indent)
    mm = clamp(m, cols)
    vals, row = [], ""
    for i, (n, w) in enumerate(cols):
        last = i == len(cols) - 1
        v = t.str("c%d" % i, 0, hi if last else min(hi, widths[i]), exclude=NONSPACE_EXCL)
        vals.append(v)
        if not last:
            v = v + " " * (widths[i] - len(v))
        row = row + v
    rec = {}
    for (n, w), v in zip(cols, vals):
        rec[n] = v
        if n in v and v != n:
            t.cover("value containing a header name")
    same = False
    for (n, w), v in zip(cols, vals):
        if v == n:
            same = True
    cut = t.bool("cut")              # the row without trailing blanks
    if cut:
        row = row.rstrip()
    need = sum(widths[:mm - 1]) + 1
    ok = len(row) >= need and not same
    txt = line.replace("\t", "    ") + eol + row + eol
    t.eq(run(t, tpl_of(line, m), [txt]), out([rec] if ok else []), "cells of the row")
    t.cover("row" if ok else "too short")


def crow(t, name, cols, widths):
    """a row of one symbolic character or nothing per column, the first or last ones missing"""
    k = t.choice(name + "_cells", range(0, len(cols) + 1))
    row = ""
    for i in range(k):
        v = t.str("%s_%d" % (name, i), 1, 1, exclude=NONSPACE_EXCL + "=")
        if i == 0 and k > 1 and t.bool(name + "_no"):
            v = ""
        row = row + v
        if i < k - 1:
            row = row + " " * (widths[i] - len(v))
    return row


def mixed(t, cols, m):
    """rows, header lines repeated anywhere, end line: rows after the end line are of no table until a header group starts again"""
    line, widths = layout(cols)
    mm = clamp(m, cols)
    lines, want = [], []
    for i in range(3):
        k = t.choice("k%d" % i, ["row", "head", "blank"])
        if k == "row":
            r = crow(t, "r%d" % i, cols, widths)
            lines.append(r)
        else:
            lines.append(line if k == "head" else "")
    for l in lines:
        r = ref(t, cols, widths, mm, l)
        if r is not None:
            want.append(r)
    t.eq(run(t, tpl_of(line, m), ["".join([l + "\n" for l in lines])]), out(want), "rows and header lines")


def variables(t, cols, m, hi):
    """template variables named as a header change nothing"""
    line, widths = layout(cols)
    mm = clamp(m, cols)
    pre = "<vars>\n%s = 'zz'\n%s = 'q'\n</vars>\n" % (cols[0][0], cols[-1][0])
    r = t.str("r", 0, hi, exclude="\n\r")
    lines = [line, r]
    want = [x for x in [ref(t, cols, widths, mm, l) for l in lines] if x is not None]
    t.eq(run(t, tpl_of(line, m, pre=pre), ["".join([l + "\n" for l in lines])]), out(want), "rows, variables with names of headers")


def child(t, cols, m):
    """a table in a child group belongs to the parent record; the rows before it to none"""
    line, widths = layout(cols)
    mm = clamp(m, cols)
    tpl = '<group name="p*">\n={{ title }}\n%s</group>\n' % tpl_of(line, m, name="rows*")
    lines = []
    par = []
    v = t.str("v", 1, 1, exclude=NONSPACE_EXCL)
    a, b = crow(t, "a", cols, widths), crow(t, "b", cols, widths)
    lines = [a, "=" + v, b] if t.bool("before") else ["=" + v, a, b]
    for l in lines:
        if l[:1] == "=":
            par.append({"title": v})
            continue
        r = ref(t, cols, widths, mm, l)
        if r is not None and par:
            par[-1].setdefault("rows", []).append(r)
    # the title line is too short for a row
    t.assume(sum(widths[:mm - 1]) + 1 > 2)
    t.eq(run(t, tpl, ["".join([l + "\n" for l in lines])]), [[{"p": par}]], "table of a child group")


def functions(t, cols):
    """group functions run on the rows"""
    line, widths = layout(cols)
    mm = default_m(cols)
    n0 = cols[0][0]
    r = [crow(t, "r%d" % i, cols, widths) for i in range(2)]
    recs = [x for x in [ref(t, cols, widths, mm, l) for l in r] if x is not None]
    want = [x for x in recs if x[n0] != "u"]
    tpl = '<group name="g*" exclude_val="%s, u">\n%s {{ _headers_ }}\n</group>\n' % (n0, line)
    t.eq(run(t, tpl, [r[0] + "\n" + r[1] + "\n"]), out(want), "rows that pass a group check")


def two_inputs(t, cols):
    line, widths = layout(cols)
    mm = default_m(cols)
    a, b = crow(t, "a", cols, widths), crow(t, "b", cols, widths)
    t.assume(a != b)
    want = []
    for l in (a, b):
        r = ref(t, cols, widths, mm, l)
        want.append({"g": [r]} if r is not None else {})
    t.eq(run(t, tpl_of(line, None), [line + "\n" + a + "\n", line + "\n" + b + "\n"]), [want], "two texts")


L2 = [("A", 2), ("Bb", 3)]
L3 = [("A", 3), ("B_", 3), ("C", 2)]
L3n = [("ab", 3), ("b", 2), ("title", 5)]
L4 = [("A", 2), ("B", 2), ("C", 2), ("D", 2)]
L5 = [("A", 2), ("B", 2), ("C", 2), ("D", 2), ("E", 2)]
L1 = [("Abc", 3)]


def large(t, m):
    """a table of many columns and rows"""
    cols = [("H%s" % c * (1 + i % 3), 4 + (i % 3) * 4) for i, c in enumerate("abcdefghjk")]
    cols = [(n, max(w, len(n) + 1)) for n, w in cols]
    line, widths = layout(cols)
    data, recs = line + "\n", []
    k = clamp(m, cols)
    for r in range(11):
        row = ""
        for i, w in enumerate(widths):
            x = t.char("v%d" % r, exclude="\n\r\t \x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0" + NONSPACE_EXCL) if (r, i) in ((2, 3), (10, 9)) else "%d" % r
            row = row + x + " " * (w - 1) if i < 9 else row + x
        if r == 5:
            row = row[:sum(widths[:t.choice("cut", [3, 7, 8])])]
        data += row + "\n"
        rec = ref(t, cols, widths, k, row)
        if rec is not None:
            recs.append(rec)
    t.eq(run(t, tpl_of(line, m), [data]), out(recs), "a large table")


def jobs(tier):
    th = tier == "thorough"
    x = 2 if th else 0
    out_ = []
    for cols in (L1, L2, L3, L3n, L4, L5):
        for m in [None] + list(range(1, len(cols) + 1)) + [9]:
            hi = min(sum(w for n, w in cols) + 1, 6) + x
            out_.append(("rows", (cols, "", m, 1, hi, "\n", True)))
            if m in (None, 1, len(cols)):
                out_.append(("rows", (cols, "", m, 1, hi, "\r\n", False)))
                out_.append(("rows", (cols, " ", m, 1, hi, "\n", False)))
                out_.append(("rows", (cols, "\t", m, 1, hi, "\n", True)))
                if cols in (L1, L2):
                    out_.append(("rows", (cols, "", m, 2, 3 + th, "\n", False)))
            out_.append(("cells", (cols, "", m, "\n", (2 if len(cols) < 4 else 1) + th)))
            out_.append(("cells", (cols, "  ", m, "\r\n", 2 if len(cols) < 4 else 1)))
        if len(cols) < 4 or th:
            out_.append(("mixed", (cols, None)))
            out_.append(("mixed", (cols, len(cols))))
        out_.append(("variables", (cols, None, 5)))
        if len(cols) > 1:
            out_.append(("child", (cols, len(cols))))
        out_.append(("functions", (cols,)))
        out_.append(("two_inputs", (cols,)))
    out_ += [("large", (m,)) for m in (None, 1, 4, 10)]
    return named(globals(), out_)
