"""P24: the device hostname found is the one in the prompt."""
from hlib import *

COVERS = ["Nokia SROS", "Cisco IOS XR", "Cisco IOS privileged", "Juniper", "Huawei", "Cisco IOS exec", "Fortigate", "no prompt"]
BOUNDS = {
    "quick": "one arbitrary line of up to 6 characters; each kind of prompt with an arbitrary host name of 1-3 characters, an arbitrary rest of the line of 0-2 characters and an arbitrary line of up to 3 characters before or "
             "after it; byte order marks; two texts" "; cases beyond usual size (9-20 of a kind): a prompt far in a long text",
    "thorough": "longer lines, host names and rests by one character",
}
NSP = NONSPACE_EXCL


def word(l, i=0):
    """end of the run of non-blank characters at i"""
    while i < len(l) and l[i] not in NSP:
        i += 1
    return i


def last(l, c, lo, hi):
    """last position of c in l[lo:hi] or -1"""
    for j in range(hi - 1, lo - 1, -1):
        if l[j] == c:
            return j
    return -1


def sros(l):
    n = word(l)
    for k in (2, 1):
        if k < n and l[k] == ":":
            for j in range(k + 2, n):
                if l[j] in ">#":
                    return l[k + 1:j]
    return None


def xr(l):
    n = word(l)
    for k in range(n - 1, 0, -1):
        if l[k] == ":":
            j = last(l, "#", k + 2, n)
            if j > 0:
                return l[k + 1:j]
    return None


def priv(l):
    j = last(l, "#", 1, word(l))
    return l[:j] if j > 0 else None


def juniper(l):
    n = word(l)
    for k in range(n - 1, -1, -1):
        if l[k] == "@":
            j = last(l, ">", k + 2, n)
            if j > 0:
                return l[k + 1:j]
    return None


def huawei(l):
    if l[:1] != "<":
        return None
    j = last(l, ">", 2, word(l))
    return l[1:j] if j > 0 else None


def ios(l):
    j = last(l, ">", 1, word(l))
    return l[:j] if j > 0 else None


def forti(l):
    n = word(l)
    if n == 0 or l[n:n + 2] != " (":
        return None
    m = word(l, n + 1)
    if m - n < 4 or l[m - 1] != ")" or l[m:m + 2] != " #":
        return None
    return l[:m]


KINDS = [("Nokia SROS", sros), ("Cisco IOS XR", xr), ("Cisco IOS privileged", priv), ("Juniper", juniper), ("Huawei", huawei), ("Cisco IOS exec", ios), ("Fortigate", forti)]


def ref(t, lines):
    """host of the first line that is a prompt of the first kind found"""
    for name, f in KINDS:
        for l in lines:
            h = f(l)
            if h is not None:
                t.cover(name)
                return h
    t.cover("no prompt")
    return None


TPL = '<vars name="v">\nh = "gethostname"\na = "A"\n</vars>\n<group name="g">\nkeyword {{ x }}\n</group>'


def host(t, lines):
    """hostname found in the lines; a line of the group makes the variables part of the results"""
    p = ttp(template=TPL, log_level="CRITICAL")
    p.add_input(text(t, "\n".join(lines + ["keyword 1"])))
    p.parse(one=True)
    r = p.result()
    t.eq(r[0][0]["g"], {"x": "1"}, "match")
    t.eq(r[0][0]["v"]["a"], "A", "other variable")
    return r[0][0]["v"].get("h")


def line(t, first, n):
    l = t.str("l", 0, n - 1, exclude="\n")
    l = first + l if first else t.str("c", 0, 1, exclude="\n" + "".join(FIRST)) + l
    t.eq(host(t, [l]), ref(t, [l]), "hostname of a line")


FORMS = {
    "sros": ("A:", ">"), "sros config": ("*A:", ">config>x#"), "xr": ("RP/0/4/CPU0:", "#"), "priv": ("", "#"), "juniper": ("some.user@", ">"), "huawei": ("<", ">"), "exec": ("", ">"), "forti": ("", " (root) #"),
    "config": ("", "(config-if)#"),
}


def prompt(t, form, n, r):
    """a prompt with an arbitrary host and rest of the line"""
    a, b = FORMS[form]
    h = t.str("h", 1, n, exclude="\n")
    rest = t.str("r", 0, r, exclude="\n")
    l = a + h + b + rest
    got = host(t, [l])
    t.eq(got, ref(t, [l]), "hostname of a prompt")
    plain = True
    for c in h:
        if c in NSP or c in ":@<>#()":
            plain = False
    if plain and (rest == "" or rest[0] in NSP):
        t.eq(got, h + (" (root)" if form == "forti" else "(config-if)" if form == "config" else ""), "host of the prompt")


def around(t, form, n, before):
    """other lines around the prompt"""
    a, b = FORMS[form]
    h = t.str("h", 1, 1, exclude=NSP)
    o = t.str("o", 0, n, exclude="\n")
    l = a + h + b + "show run"
    lines = [o, l] if before else [l, o]
    t.eq(host(t, lines), ref(t, lines), "hostname and other lines")


def order(t, f1, f2):
    """prompts of two kinds"""
    out = []
    for i, f in enumerate((f1, f2)):
        a, b = FORMS[f]
        out.append(a + t.str("h%d" % i, 1, 1, exclude=NSP) + b)
    t.eq(host(t, out), ref(t, out), "hostname with two kinds of prompts")


def bom(t, mark):
    """a byte order mark at the start of the text is not part of the name"""
    h = t.str("h", 1, 2, alphabet="abcXYZ019-_.")
    t.eq(host(t, [mark + h + "#show"]), h, "hostname after a byte order mark")
    t.cover("Cisco IOS privileged")


def two(t):
    """each text has its own hostname"""
    hs = [t.str("h%d" % i, 0, 1, alphabet="abc") for i in range(2)]
    t.assume(hs[0] != hs[1])
    p = ttp(template=TPL, log_level="CRITICAL")
    for h in hs:
        p.add_input("keyword 1\n" + h + ("#show\n" if h else "show\n"))
    p.parse(one=True)
    t.eq([x["v"].get("h") for x in p.result()[0]], [h if h else None for h in hs], "hostnames of two texts")


FIRST = ["a:", ":", "@", "<", "ab:", "b@", "x "]


def large(t, kind):
    """a prompt far in a long text"""
    h = t.str("h", 1, 2, alphabet="aB1-")
    prompt = {"sros": "A:" + h + "#", "ios": h + "#", "exec": h + ">", "juniper": "u@" + h + ">"}[kind]
    lines = "some line of the output of a command, the 1st of many\n"
    p = ttp(template="<vars>\nh = 'gethostname'\n</vars>\n<group name='g'>\n{{ h | set('h') }}\nlast {{ x }}\n</group>", log_level="CRITICAL")
    data = lines * 120 + prompt + "show version\n" + lines * 60 + "last line\n"
    p.add_input(data)
    p.parse(one=True)
    t.eq(p.result(), [[{"g": {"h": h, "x": "line"}}]], "prompt far in the text")


def jobs(tier):
    th = tier == "thorough"
    out = []
    for f in [""] + FIRST:
        out.append(("line", (f, (5 if f else 6) + th)))
    for f in FORMS:
        out.append(("prompt", (f, 3, 1 + th)))
        for b in (False, True):
            out.append(("around", (f, 3, b)))
        for f2 in FORMS:
            out.append(("order", (f, f2)))
    for m in ("\ufeff", "\u00ef\u00bb\u00bf", "\u00fe\u00ff", "\u00ff\u00fe"):
        out.append(("bom", (m,)))
    out.append(("two", ()))
    out += [("large", (k,)) for k in ("sros", "ios", "exec", "juniper")]
    return named(globals(), out)
