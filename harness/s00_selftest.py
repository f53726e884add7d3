"""Engine self-test: every path witness is re-run with plain CPython and the
observations must agree."""
import re
import ipaddress
COVERS = []

METHODS = [
    ("strip", lambda s: s.strip()), ("split", lambda s: s.split()), ("split,", lambda s: s.split(",")),
    ("split1", lambda s: s.split(None, 1)), ("rsplit", lambda s: s.rsplit(None, 1)), ("rsplit,", lambda s: s.rsplit(",", 1)),
    ("upper", lambda s: s.upper()), ("title", lambda s: s.title()), ("cap", lambda s: s.capitalize()),
    ("swap", lambda s: s.swapcase()), ("isdigit", lambda s: bool(s.isdigit())), ("isalpha", lambda s: bool(s.isalpha())),
    ("islower", lambda s: bool(s.islower())), ("isupper", lambda s: bool(s.isupper())), ("istitle", lambda s: bool(s.istitle())),
    ("find", lambda s: s.find("a")), ("rfind", lambda s: s.rfind("aa")), ("count", lambda s: s.count("aa")),
    ("replace", lambda s: s.replace("a", "bc")), ("replace1", lambda s: s.replace("aa", "", 1)), ("partition", lambda s: s.partition("-")),
    ("rpartition", lambda s: s.rpartition("-")), ("splitlines", lambda s: s.splitlines()), ("splitlinesk", lambda s: s.splitlines(True)),
    ("zfill", lambda s: s.zfill(5)), ("center", lambda s: s.center(6, "*")), ("expandtabs", lambda s: s.expandtabs(4)),
    ("fmt", lambda s: "{}-{:>5}-{x}".format(s, s, x=s)), ("pct", lambda s: "%s|%5s|%r" % (s, s, "q")), ("fs", lambda s: f"{s!r} {s:<4}|"),
    ("cmp", lambda s: [bool(s < "b"), bool(s >= "ab"), bool("a" > s)]), ("in", lambda s: ["a" in s, s in "abcabc", s in ["a", "bb"], s in {"a": 1}]),
    ("starts", lambda s: [bool(s.startswith("a")), bool(s.endswith(("b", "c")))]), ("mul", lambda s: s * 2 + "x" + s[::-1]),
    ("join", lambda s: s.join(["1", "2", s])), ("ident", lambda s: [bool(s.isidentifier()), bool(s.isascii()), bool(s.isprintable())]),
]


def _int(s):
    try:
        v = int(s)
        return [v, v + 1, v * 2, v // 3, v % 7, -v, abs(v), v > 5, str(v)]
    except ValueError:
        return "VE"


def _float(s):
    try:
        return float(s) == 1.0
    except ValueError:
        return "VE"


METHODS += [("int", _int), ("float", _float)]

REGEX = [r"a+b", r"(a|ab)(c|bcd)?", r"^\s*(\S+)$", r"\d+", r"[^a-c]+?b", r"(?i)AbC", r"\bab\b", r"(?:\S+ )*\S+", r"(a)|b", r"a*?$",
         r"(?=a)\w+", r"(?!a)\w+", r"(?<=a)b", r"(?<!a)b", r"(\w)\1", r"(?P<x>a)?(?(x)b|c)", r"a{2,3}", r"", r"x*", r"\n *(\S+) *(?=\n)",
         r"(?m)^a$", r"(?s).+", r".+", r"[\t ]+", r"(?>a+)ab", r"a++b", r"\W\B", r"(?:a|b)*c"]


def str_method(t, i, n):
    name, f = METHODS[i]
    s = t.str("s", 0, n, alphabet=None)
    try:
        r = f(s)
    except Exception as e:
        r = type(e).__name__
    t.observe(name, r)
    t.check(True)


def str_method_small(t, i, n, alpha):
    name, f = METHODS[i]
    s = t.str("s", 0, n, alphabet=alpha)
    try:
        r = f(s)
    except Exception as e:
        r = type(e).__name__
    t.observe(name, r)
    t.check(True)


def rx(t, i, n, alpha):
    s = t.str("s", 0, n, alphabet=alpha)
    p = REGEX[i]
    m = re.search(p, s)
    t.observe("search", None if m is None else [m.span(), m.group(0), list(m.groups())])
    m = re.match(p, s)
    t.observe("match", None if m is None else [m.span(), m.lastindex])
    t.check(True)


def rx2(t, i, n, alpha):
    s = t.str("s", 0, n, alphabet=alpha)
    p = REGEX[i]
    t.observe("finditer", [m.span() for m in re.finditer(p, s)])
    t.observe("sub", re.sub(p, "<>", s))
    t.observe("split", re.split(p, s))
    t.observe("fullmatch", re.fullmatch(p, s) is None)
    t.observe("findall", re.findall(p, s))
    t.check(True)


def ip(t, n):
    s = "10.1." + t.str("s", 1, n, alphabet="0123456789./a") + ".7"
    try:
        r = str(ipaddress.ip_address(s))
    except ValueError:
        r = "VE"
    t.observe("ip", r)
    try:
        r = ipaddress.ip_interface(s)
        r = [str(r), str(r.network), r.network.num_addresses > 1, str(r.netmask)]
    except ValueError:
        r = "VE"
    t.observe("ip", r)
    t.check(True)


def ip2(t):
    s = "10.1.2.3/" + t.str("s", 0, 3, alphabet="0123456789.a")
    try:
        r = ipaddress.ip_interface(s)
        r = [str(r), str(r.network), str(r.netmask), str(r.hostmask), r.network.prefixlen]
    except ValueError:
        r = "VE"
    t.observe("ip", r)
    t.check(True)


def ip6(t):
    s = t.str("s", 0, 3, alphabet="0f:g") + "::" + t.str("u", 0, 2, alphabet="0f:1")
    try:
        r = str(ipaddress.ip_address(s))
    except ValueError:
        r = "VE"
    t.observe("ip", r)
    t.check(True)


def dicts(t):
    a = t.str("a", 0, 2, alphabet="ab")
    b = t.str("b", 0, 2, alphabet="ab")
    d = {a: 1, b: 2, "ab": 3}
    d["b"] = 4
    d.setdefault(a, 9)
    t.observe("d", sorted(d.items()))
    t.observe("s", sorted({a, b, "a"}))
    t.observe("g", [d.get("a"), d.get("zz", 0), "ba" in d, d.pop("aa", None)])
    t.observe("l", [[a, b, "a"].count("a"), [a, "b", b].index(b), a in [b], {x: 1 for x in [a, b]}])
    d[a] = 7
    del d[a]
    t.observe("x", len(d))
    t.check(True)


def ints(t):
    x = t.int("x", -20, 300)
    t.observe("s", str(x))
    t.observe("b", [x >> 2, x & 12, x | 5, x ^ 3, divmod(x, 7)])
    t.check(x < 301)


def jobs(tier):
    out = []
    for i in range(len(METHODS)):
        out.append(("str_method", {"i": i, "n": 2}))
        out.append(("str_method_small", {"i": i, "n": 5, "alpha": "aB1-, _\t"}))
    for i in range(len(REGEX)):
        out.append(("rx", {"i": i, "n": 4, "alpha": "aAbc \n1"}))
        out.append(("rx2", {"i": i, "n": 4, "alpha": "aAbc \n1"}))
    out += [("ip", {"n": 4}), ("ip2", {}), ("ip6", {}), ("dicts", {}), ("ints", {})]
    return out
# instrument: ipaddress
