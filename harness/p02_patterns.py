"""P02: pattern formatters accept and capture exactly their language."""
from hlib import *

COVERS = ["match", "nomatch"]
BOUNDS = {
    "quick": "value texts: fully arbitrary up to 4 characters for the word patterns and re(...), up to 8 characters over digits/dots for IP, 9 for "
             "PREFIX, 6 over hex/colon for IPV6 plus 6-9 groups with arbitrary digits, MAC with every one of its 14/17 (+-1) characters arbitrary; "
             "value at the end of the line, before further text, and at the start of the line" "; cases beyond usual size (9-20 of a kind): many patterns of one variable",
    "thorough": "as quick with arbitrary texts up to 7 characters, 10 for IP, 12 for PREFIX, 8 for IPV6",
}
HEX = "0123456789abcdefABCDEF"


def words(s, sep):
    """split at single separators; None if any word is empty or holds a blank"""
    parts = s.split(sep)
    for p in parts:
        if len(p) == 0:
            return None
        for c in p:
            if c in NONSPACE_EXCL:
                return None
    return parts


def is_word(s):
    return len(s) > 0 and not any(c in NONSPACE_EXCL for c in s)


def is_phrase(s):
    w = words(s, " ")
    return w is not None and len(w) >= 2


def is_row(s):
    if len(s) == 0 or s[0] == " " or s[-1] == " ":
        return False
    n = 0
    for c in s:
        if c == " ":
            n += 1
        elif c in NONSPACE_EXCL:
            return False
    return n > 0


def is_digit(s):
    return len(s) > 0 and all(c in DIG for c in s)


def groups_of(s, sep, lo, hi, alpha):
    for g in s.split(sep):
        if len(g) < lo or len(g) > hi or not all(c in alpha for c in g):
            return False
    return True


def is_ip(s):
    return s.count(".") == 3 and groups_of(s, ".", 1, 3, "0123456789")


def is_prefix(s):
    if s.count("/") != 1:
        return False
    a, m = s.split("/")
    return is_ip(a) and 1 <= len(m) <= 2 and all(c in "0123456789" for c in m)


def is_ipv6(s):
    """at most seven colon-terminated groups of at most four hex digits, then
    one more group or nothing or a colon"""
    n = s.count(":")
    if n < 1 or n > 8:
        return False
    if not groups_of(s, ":", 0, 4, HEX):
        return False
    if n == 8:
        return s[-1] == ":" and s[-2] == ":" if len(s) > 1 else False
    return True


def is_prefix6(s):
    if s.count("/") != 1:
        return False
    a, m = s.split("/")
    return is_ipv6(a) and 1 <= len(m) <= 3 and all(c in "0123456789" for c in m)


def is_mac(s):
    if len(s) == 17:
        step = 3
    elif len(s) == 14:
        step = 5
    else:
        return False
    for i in range(len(s)):
        if i % step == step - 1:
            if s[i] not in ":.-":
                return False
        elif s[i] not in HEX:
            return False
    return True


def is_abx(s):
    return 2 <= len(s) and s[-1] == "x" and all(c in "ab" for c in s[:-1])


def union(*fs):
    return lambda s: any(f(s) for f in fs)


VARS = "<vars>\nMYRE = '[ab]+x'\nIP = '[ab]+x'\nMYALT = 'a+|b+'\n</vars>\n<group name='_anonymous_'>\n%s\n</group>"


def is_a_or_b(s):
    return len(s) > 0 and (all(c == "a" for c in s) or all(c == "b" for c in s))


PATS = {
    "": is_word, "WORD": is_word, "PHRASE": is_phrase, "ORPHRASE": union(is_word, is_phrase), "ROW": is_row, "DIGIT": is_digit,
    "IP": is_ip, "PREFIX": is_prefix, "IPV6": is_ipv6, "PREFIXV6": is_prefix6, "MAC": is_mac,
    're("[ab]+x")': is_abx, 're("DIGIT")': is_digit, "DIGIT | PHRASE": union(is_digit, is_phrase),
    'IP | re("[ab]+x")': union(is_ip, is_abx), 're("MYRE")': is_abx, 're("IP")': is_ip, "IP#v": is_abx, 're("IP")#v': is_abx, 're("MYALT")': is_a_or_b, "IP | PREFIX": union(is_ip, is_prefix),
    're("[ab]+x") | DIGIT': union(is_abx, is_digit), "IP | IPV6": union(is_ip, is_ipv6),
    "ROW | WORD": union(is_row, is_word), "PHRASE | re(\"[ab]+x\")": union(is_phrase, is_abx), "re(\"MYRE\") | DIGIT": union(is_abx, is_digit),
}


def value_of(t, shape):
    kind = shape[0]
    if kind == "any":
        return t.str("s", 0, shape[1], exclude="\n")
    if kind == "of":
        return t.str("s", shape[1], shape[2], alphabet=shape[3])
    if kind == "slots":      # fixed text with arbitrary characters at '?'
        out = ""
        for i, c in enumerate(shape[1]):
            if c == "?":
                out = out + t.char("c%d" % i, exclude="\n" if len(shape) < 3 else "", alphabet=None if len(shape) < 3 else shape[2])
            else:
                out = out + c
        return out


def blank(c):
    return c == " " or c == "\t"


def check(t, pat, shape, where="end"):
    s = value_of(t, shape)
    ok = PATS[pat]
    use_vars = "MY" in pat or pat.endswith("#v")
    pat = pat.replace("#v", "")
    var = "{{ v | %s }}" % pat if pat else "{{ v }}"
    if where == "end":
        line, data = "k " + var, "k " + s
    elif where == "mid":
        line, data = "k " + var + " up", "k " + s + " up"
    elif where == "start":
        line, data = var + " up", s + " up"
    elif where == "glued":
        line, data = "k(" + var + ")", "k(" + s + ")"
    template = (VARS % line) if use_vars else line
    got = records(template, text(t, data))
    # reference: strip the blanks that belong to the line, not to the value
    v = s
    if where == "end" and len(v) and v[-1] == "\r":
        v = v[:-1]
    if where in ("end", "mid"):
        while len(v) and blank(v[0]):
            v = v[1:]
    if where != "glued":
        while len(v) and blank(v[-1]):
            v = v[:-1]
    want = [{"v": v}] if ok(v) else []
    t.observe("got", got)
    t.cover("match" if want else "nomatch")
    t.eq(got, want, "capture of %s" % var)


def line_pattern(t, n, lead):
    """_line_ takes the whole rest of the line"""
    s = t.str("s", 0, n, exclude="\n\r")
    if lead:
        template, data = "k {{ v | _line_ }}", "k " + s
        r = " " + s
        i = 0
        while i < len(r) and blank(r[i]):
            i += 1
        if i == len(r):
            i = len(r) - 1
        want = [{"v": r[i:]}] if i > 0 and i < len(r) else []
    else:
        template, data = "{{ v | _line_ }}", s
        want = [{"v": s}] if len(s) else []
    got = records(template, data)
    if not lead and len(s) == 0:
        return t.check(got == [], "no line")
    t.observe("got", got)
    if not lead:
        # blank second line of the text is no line: '.' needs a character
        t.eq(got, want, "_line_ capture")
    else:
        t.eq(got, want, "_line_ capture after text")


IGN = {
    "ignore": is_word, 'ignore("[ab]+x")': is_abx, 'ignore("DIGIT")': is_digit, 'ignore("PHRASE")': is_phrase,
    'ignore("IP")#v': is_abx, 'ignore("MYRE")': is_abx, 'ignore("MYALT")': is_a_or_b, 'ignore("IP")': is_ip, 'ignore("ROW")': is_row,
}


def ignored(t, pat, shape):
    s = value_of(t, shape)
    line = "k {{ %s }} {{ v }}" % pat.replace("#v", "")
    template = (VARS % line) if "MY" in pat or pat.endswith("#v") else line
    data = "k " + s + " z"
    got = records(template, data)
    v = s
    while len(v) and blank(v[0]):
        v = v[1:]
    while len(v) and blank(v[-1]):
        v = v[:-1]
    want = [{"v": "z"}] if IGN[pat](v) else []
    t.observe("got", got)
    t.cover("match" if want else "nomatch")
    t.eq(got, want, "ignore")


def ignore_two(t, n):
    """two ignores of different kinds in one line"""
    a = t.str("a", 0, n, alphabet="ab1x ")
    b = t.str("b", 0, n, alphabet="ab1x ")
    line = "{{ ignore(\"DIGIT\") }}:{{ v }}:{{ ignore(\"[ab]+x\") }}"
    data = a + ":q:" + b
    bb = b
    while len(bb) and bb[-1] == " ":
        bb = bb[:-1]
    want = [{"v": "q"}] if is_digit(a) and is_abx(bb) else []
    t.eq(records(line, data), want, "two ignores")


def large(t, kind):
    """many patterns of one variable"""
    v = t.str("v", 1, 4, alphabet="abcx1")
    words = ["a", "bb", "ab1", "ccc", "b", "cab", "1a", "x1x1"]
    line = "i {{ x | " + " | ".join("re('%s')" % w for w in words) + " }}"
    if kind == "two":
        line += " j {{ y | re('x') | re('1') | re('a+') }}"
    data = "i " + v + (" j aa" if kind == "two" else "") + "\n"
    want = {}
    if v in words:
        want = {"g": [{"x": v, "y": "aa"} if kind == "two" else {"x": v}]}
    t.eq(only("<group name='g*'>\n" + line + "\n</group>", data), want, "many patterns")


def jobs(tier):
    deep = tier == "thorough"
    n = 7 if deep else 4
    out = []
    for pat in ("", "IP#v", 're("IP")#v', "WORD", "PHRASE", "ORPHRASE", "ROW", "DIGIT", 're("[ab]+x")', 're("DIGIT")', "DIGIT | PHRASE", "ROW | WORD", 're("MYRE")', 're("MYALT")',
                're("[ab]+x") | DIGIT', "PHRASE | re(\"[ab]+x\")", "re(\"MYRE\") | DIGIT"):
        for where in ("end", "mid", "start", "glued"):
            out.append(("check", {"pat": pat, "shape": ["any", n if where in ("end", "mid") else n - 1], "where": where}))
            if where == "end" or deep:
                out.append(("check", {"pat": pat, "shape": ["of", 3, n + 1, "ax 1\t"], "where": where}))
    for pat in ("IP", "re(\"IP\")"):
        out.append(("check", {"pat": pat, "shape": ["of", 0, 10 if deep else 8, "17."]}))
        for s in ("1?3.?.?2.33?", "?1.2.3.4", "1.2.3.4?", "123.123.123.12?", "1.2?3.4", "????.1.1.1", "1.1.1.????", "1.????.1.1"):
            out.append(("check", {"pat": pat, "shape": ["slots", s]}))
    for pat in ("PREFIX", "IP | PREFIX"):
        if pat == "PREFIX" or deep:
            out.append(("check", {"pat": pat, "shape": ["of", 7, (12 if deep else 9) if pat == "PREFIX" else 8, "1./"]}))
        for s in ("1.2.3.4?24", "1.2.3.4/???", "?.2.3.4/8", "1.2.3.4/??", "10.2.3.4/1", "1.2.3.4?", "123.123.123.123/??"):
            out.append(("check", {"pat": pat, "shape": ["slots", s]}))
    for pat in ("IPV6", "IP | IPV6"):
        out.append(("check", {"pat": pat, "shape": ["of", 0, 8 if deep else (6 if pat == "IPV6" else 5), "aF:9g"]}))
        for s in ("1:2:3:4:5:6:7:?", "1:2:3:4:5:6:7:8?9", "a?c?:1::", "fe80::?", "2001:db8:1:2:3:4:5:????", "::?", "1:2:3:4:5:6:7::?", "1:2:3:4:5:6::?", "????:1",
                  "abcd:????::1", "1:2:3:4:5:6:?:8", "1:2:3:4:5:6:7:8:?"):
            out.append(("check", {"pat": pat, "shape": ["slots", s]}))
    for s in ("1::?8", "::1/???", "fe80::1/??", "1:2:3:4:5:6:7:8/?", "::/?", "?:/64", "fe80::1/1?8", "::1/12?4", "a:b/?"):
        out.append(("check", {"pat": "PREFIXV6", "shape": ["slots", s]}))
    out.append(("check", {"pat": "PREFIXV6", "shape": ["of", 3, 7 if deep else 6, "a:/9"]}))
    for k in (13, 14, 15, 16, 17, 18):
        out.append(("check", {"pat": "MAC", "shape": ["slots", "".join("?" for _ in range(k)), "aF0:.-g /"]}))
        out.append(("check", {"pat": "MAC", "shape": ["slots", ("00?11-?2:33.4??55" + "?") [:k]]}))
    for s in ("?0:11:22:33:44:55", "00?11:22:33:44:55", "00:11:22:33:44:5?", "001?.2233.4455", "0011?2233.4455", "0011.2233.445?"):
        out.append(("check", {"pat": "MAC", "shape": ["slots", s]}))
    out.append(("check", {"pat": 'IP | re("[ab]+x")', "shape": ["of", 0, 7, "1.ax"]}))
    out.append(("line_pattern", {"n": n, "lead": 0}))
    out.append(("line_pattern", {"n": n, "lead": 1}))
    for pat in IGN:
        out.append(("ignored", {"pat": pat, "shape": ["any", n - 1]}))
        out.append(("ignored", {"pat": pat, "shape": ["of", 3, n + 1, "ax 1."]}))
    out.append(("ignored", {"pat": 'ignore("IP")', "shape": ["of", 7, 8, "1."]}))
    out.append(("ignore_two", {"n": 4 if deep else 3}))
    out += [("large", {"kind": k}) for k in ("one", "two")]
    return out
