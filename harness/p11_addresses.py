"""P11: address functions agree with address arithmetic."""
from hlib import *
# instrument: ipaddress

COVERS = ["ip accepted", "ip rejected", "inside", "outside", "mac", "no mac", "prefix accepted", "prefix rejected", "v6 accepted", "v6 rejected"]
BOUNDS = {
    "quick": "is_ip: every text of up to 9 characters over '025./', four fields of up to 3 arbitrary digits, prefixes of up to 3 digits, IPv6 texts of up to 5 characters; cidr_match/to_ip/to_net/ip_info: every "
             "IPv4 address (4 symbolic bytes, up to 2 at a time), all 33 masks, 9 prefixes, IPv6 with a symbolic group; mac_eui: 12 arbitrary hexadecimal digits of either case in 5 notations, 1-12 digits, any text of "
             "up to 4 characters",
    "thorough": "is_ip texts of up to 10 characters, IPv6 texts of up to 6",
}
NL = "\n"


def go(t, fn, v, vars=None):
    kw = {"vars": vars} if vars else {}
    p = mk("<group name='g*'>\nx {{ x }}\ni {{ a | re('.+') | " + fn + " }}\n</group>", **kw)
    p.add_input("x 1\ni " + v + "\n")
    p.parse(one=True)
    g = p.result()[0][0]["g"]
    t.eq(len(g), 1, "one record")
    return g[0]


def keep(t, fn, v, ok, vars=None):
    got = go(t, fn, v, vars)
    t.eq(got, {"x": "1", "a": v} if ok else {"x": "1"}, "verdict of %s" % fn)


# ------------------------------------------------------------- reference
def octet(s):
    """value of a field of an address, -1 when it is none"""
    if len(s) < 1 or len(s) > 3 or (len(s) > 1 and s[0] == "0"):
        return -1
    n = 0
    for c in s:
        if c not in "0123456789":
            return -1
        n = n * 10 + ord(c) - 48
    return n if n < 256 else -1


def split(v, sep):
    parts = [""]
    for c in v:
        if c == sep:
            parts.append("")
        else:
            parts[-1] = parts[-1] + c
    return parts


def v4(s):
    p = split(s, ".")
    if len(p) != 4:
        return None
    out = []
    for x in p:
        n = octet(x)
        if n < 0:
            return None
        out.append(n)
    return out


MASKS = []
for _p in range(33):
    _n = (0xffffffff << (32 - _p)) & 0xffffffff
    MASKS.append("%d.%d.%d.%d" % (_n >> 24, (_n >> 16) & 255, (_n >> 8) & 255, _n & 255))
HOSTMASKS = [".".join(str(255 - int(x)) for x in m.split(".")) for m in MASKS]


def v4_text(v):
    parts = split(v, "/")
    if len(parts) > 2 or v4(parts[0]) is None:
        return False
    if len(parts) == 1:
        return True
    m = parts[1]
    if len(m) == 0:
        return False
    n = 0
    for c in m:
        if c not in "0123456789":
            return v4(m) is not None and (m in MASKS or m in HOSTMASKS)
        n = n * 10 + ord(c) - 48
    return n <= 32


def is_ip_text(t, lo, hi, arg):
    """any text over the characters of addresses"""
    v = t.char("v0", alphabet="025./") + t.str("v", lo - 1, hi - 1, alphabet="025./")
    ok = v4_text(v)
    t.cover("ip accepted" if ok else "ip rejected")
    keep(t, "is_ip" + arg, v, ok)


def is_ip_fields(t, which):
    """three arbitrary characters as fields of an address"""
    f = t.str("f", 0, 3, alphabet="0123456789a ")
    fs = ["1", "22", "133", "0"]
    fs[which] = f
    v = ".".join(fs)
    if which == 0:
        t.assume(v[0] != " ")
    ok = octet(f) >= 0
    if which == 3 and not ok:
        # a mask may follow after a space
        p = split(f, " ")
        ok = len(p) == 2 and octet(p[0]) >= 0 and v4_text("1.1.1.1/" + p[1])
    t.cover("ip accepted" if ok else "ip rejected")
    keep(t, "is_ip", v, ok)


def is_ip_prefix(t, arg):
    m = t.str("m", 0, 3, alphabet="0123456789-. ")
    sep = t.choice("sep", ["/", " "])
    v = "10.0.0.1" + sep + m
    if sep == " ":
        t.assume(" " not in m)
    ok = len(m) > 0
    n = 0
    for c in m:
        if c not in "0123456789":
            ok = False
            break
        n = n * 10 + ord(c) - 48
    ok = ok and n <= 32
    if arg == "('ipv6')":
        ok = False
    t.cover("prefix accepted" if ok else "prefix rejected")
    keep(t, "is_ip" + arg, v, ok)


def is_ip_mask(t, sep, shape):
    """dotted masks: exactly the contiguous ones and their complements"""
    n = t.int("n", 0, 255)
    m = shape.replace("x", "%d") % n
    i = shape.split(".").index("x")
    ok = n in [int(x.split(".")[i]) for x in MASKS + HOSTMASKS if [y for k, y in enumerate(x.split(".")) if k != i] == [y for y in shape.split(".") if y != "x"]]
    t.cover("prefix accepted" if ok else "prefix rejected")
    keep(t, "is_ip", "10.0.0.1" + sep + m, ok)


def group6(s):
    if not 1 <= len(s) <= 4:
        return False
    for c in s:
        if c not in "0123456789abcdefABCDEF":
            return False
    return True


def v6(v):
    p = split(v, ":")
    if "::" not in v:
        if len(p) != 8:
            return False
        for g in p:
            if not group6(g):
                return False
        return True
    # exactly one place where groups are left out
    i = v.index("::")
    left, right = v[:i], v[i + 2:]
    if "::" in right or right[:1] == ":":
        return False
    lg = split(left, ":") if len(left) else []
    rg = split(right, ":") if len(right) else []
    for g in lg + rg:
        if not group6(g):
            return False
    return len(lg) + len(rg) <= 7


def is_ip6_text(t, hi, arg):
    v = t.char("v0", alphabet="1F:g") + t.str("v", 0, hi - 1, alphabet="1F:g")
    ok = v6(v)
    t.cover("v6 accepted" if ok else "v6 rejected")
    keep(t, "is_ip" + arg, v, ok if arg != "('ipv4')" else False)


def is_ip6_groups(t, n, gap):
    """any number of groups, with and without a gap"""
    gs = [t.choice("g%d" % i, ["0", "fe80", "12345"]) if i == 1 else "ab1" for i in range(n)]
    v = ":".join(gs[:gap]) + "::" + ":".join(gs[gap:]) if gap is not None else ":".join(gs)
    t.assume(len(v) > 0)
    ok = v6(v)
    t.cover("v6 accepted" if ok else "v6 rejected")
    keep(t, "is_ip", v, ok)


def is_ip6_prefix(t):
    m = t.str("m", 0, 3, alphabet="0123456789")
    ok = len(m) > 0
    n = 0
    for c in m:
        n = n * 10 + ord(c) - 48
    ok = ok and n <= 128
    t.cover("prefix accepted" if ok else "prefix rejected")
    keep(t, "is_ip('ipv6')", "fe80::1/" + m, ok)


# ------------------------------------------------------------ conversions
def address(t, free):
    """an address with the bytes at `free` symbolic -> text, number"""
    b = [10, 1, 128, 5]
    for i in free:
        b[i] = t.int("b%d" % i, 0, 255)
    return ".".join(str(x) for x in b), b


def net(b, plen):
    """network bytes"""
    out = []
    for i in range(4):
        keepbits = min(8, max(0, plen - 8 * i))
        step = 1 << (8 - keepbits)
        out.append(b[i] - b[i] % step)
    return out


def top(b, plen):
    out = []
    for i, x in enumerate(net(b, plen)):
        out.append(x + (1 << (8 - min(8, max(0, plen - 8 * i)))) - 1)
    return out


def dot(b):
    return ".".join(str(x) for x in b)


PREFIXES = ["10.0.0.0/8", "10.1.128.0/17", "10.1.128.4/30", "10.1.128.5/32", "0.0.0.0/0", "192.168.0.0/16", "10.1.0.0/255.255.0.0", "128.0.0.0/1", "10.1.128.0/18"]


def inside(b, mask, prefix):
    """addresses b/mask and the prefix share an address"""
    a, p = prefix.split("/")
    p = MASKS.index(p) if "." in p else int(p)
    m = min(mask, p)
    return net(b, m) == net([int(x) for x in a.split(".")], m)


def cidr(t, prefix, free, mask, how, form):
    v, b = address(t, free)
    if mask is not None:
        v = v + ("/" + str(mask) if how == "len" else " " + MASKS[mask])
    ok = inside(b, 32 if mask is None else mask, prefix)
    t.cover("inside" if ok else "outside")
    if form == "var":
        keep(t, "cidr_match(vn)", v, ok, {"vn": prefix})
    elif form == "obj":
        got = go(t, "to_ip | cidr_match('%s') | to_str" % prefix, v)
        t.check(("a" in got) == bool(ok), "cidr_match of an address object")
    else:
        keep(t, "cidr_match('%s')" % prefix, v, ok)


def cidr6(t, prefix, at):
    h = [t.char("h%d" % i, alphabet="0123456789abcdef") if i == at else "1200"[i] for i in range(4)]
    v = "fe80::" + "".join(h)
    want = {"fd00::/16": False, "fe80::/10": True, "10.0.0.0/8": False}.get(prefix)
    if prefix == "fe80::1200/120":
        want = h[0] == "1" and h[1] == "2"
    elif prefix == "fe80::8000/113":
        want = h[0] in "89abcdef"
    t.cover("inside" if want else "outside")
    keep(t, "cidr_match('%s')" % prefix, v, bool(want))


def to_ip(t, free, mask, how, arg):
    v, b = address(t, free)
    if mask is None:
        got = go(t, "to_ip%s | to_str" % arg, v)
        t.eq(got, {"x": "1", "a": v}, "to_ip of an address")
        return
    txt = v + ("/" + str(mask) if how == "len" else " " + MASKS[mask] if how == "mask" else "/" + MASKS[mask])
    got = go(t, "to_ip%s | copy('b') | with_prefixlen" % arg, txt)
    t.eq(got["a"], v + "/" + str(mask), "to_ip of an address with a mask")
    t.eq(str(got["b"].ip), v, "address of the interface")
    t.eq(str(got["b"].network), dot(net(b, mask)) + "/" + str(mask), "network of the interface")


def to_net(t, free, mask, how):
    b = [10, 1, 128, 0]
    for i in free:
        b[i] = t.int("b%d" % i, 0, 255)
    b = net(b, mask)
    v = dot(b) + "/" + (str(mask) if how == "len" else MASKS[mask])
    got = go(t, "to_net('ipv4') | to_str" if how == "len" else "to_net | to_str", v)
    t.eq(got, {"x": "1", "a": dot(b) + "/" + str(mask)}, "to_net")


def to_cidr(t):
    m = t.choice("m", list(range(33)))
    t.eq(go(t, "to_cidr", MASKS[m]), {"x": "1", "a": m}, "to_cidr")


def to_cidr_text(t):
    f = t.str("f", 1, 3, alphabet="2a.x-")
    bad = False
    for p in split(f, "."):
        if len(p) == 0:
            bad = True
        for i in range(len(p)):
            if p[i] != "2" and not (p[i] == "-" and i == 0 and len(p) > 1):
                bad = True
                break
    t.assume(bad)
    v = "255.255." + f
    keep(t, "to_cidr", v, True)


def ip_info(t, free, mask, how, arg):
    v, b = address(t, free)
    txt = v if mask is None else v + ("/" + str(mask) if how == "len" else " " + MASKS[mask])
    got = go(t, ("to_ip | ip_info" if how == "obj" else "ip_info") + arg, txt)["a"]
    t.check(isinstance(got, dict), "ip_info is a dictionary")
    t.eq(got["ip"], v, "ip")
    t.eq(got["version"], 4, "version")
    t.eq(got["max_prefixlen"], 32, "max_prefixlen")
    t.check(got["is_loopback"] == (b[0] == 127), "is_loopback")
    t.check(got["is_multicast"] == (224 <= b[0] < 240), "is_multicast")
    t.check(got["is_link_local"] == (b[0] == 169 and b[1] == 254), "is_link_local")
    t.check(got["is_reserved"] == (b[0] >= 240), "is_reserved")
    t.check(got["is_unspecified"] == (dot(b) == "0.0.0.0"), "is_unspecified")
    if mask is None:
        t.eq(got["compressed"], v, "compressed")
        t.check("network" not in got, "an address has no network")
        return
    n, k = dot(net(b, mask)), str(mask)
    t.eq(got["network"], n + "/" + k, "network")
    t.eq(got["network_address"], n, "network_address")
    t.eq(got["broadcast_address"], dot(top(b, mask)), "broadcast_address")
    t.eq(got["netmask"], MASKS[mask], "netmask")
    t.eq(got["hostmask"], HOSTMASKS[mask], "hostmask")
    t.eq(got["num_addresses"], 1 << (32 - mask), "num_addresses")
    t.eq(got["prefixlen"], mask, "prefixlen")
    t.eq(got["with_prefixlen"], v + "/" + k, "with_prefixlen")
    t.eq(got["with_netmask"], v + "/" + MASKS[mask], "with_netmask")
    t.eq(got["with_hostmask"], v + "/" + HOSTMASKS[mask], "with_hostmask")
    t.eq(got["hosts"], (1 << (32 - mask)) - 2, "hosts")


def ip_info_text(t):
    v = t.str("v", 1, 4, alphabet="1a.x/")
    keep(t, "ip_info", v, True)


NET6 = {0: "::", 8: "f{}00::", 64: "f{}80::", 124: "f{}80::12{}0", 127: "f{}80::12{}e", 128: "f{}80::12{}f"}
LAST6 = {0: "ffff" + ":ffff" * 7, 8: "f{}ff" + ":ffff" * 7, 64: "f{}80::" + ":".join(["ffff"] * 4), 124: "f{}80::12{}f", 127: "f{}80::12{}f", 128: "f{}80::12{}f"}


def fill(s, a, b):
    p = s.split("{}")
    return p[0] if len(p) == 1 else p[0] + a + p[1] if len(p) == 2 else p[0] + a + p[1] + b + p[2]


def ip6(t, fn, mask, arg):
    """IPv6: two arbitrary hexadecimal digits"""
    low = mask is not None and mask > 100
    a = t.char("a", alphabet="8e" if low else "0123456789abcdef")
    b = t.char("b", alphabet="0123456789abcdef") if low else "1"
    v = "f" + a + "80::12" + b + "f"
    txt = v if mask is None else v + "/" + str(mask)
    if fn == "to_ip":
        if mask is None:
            t.eq(go(t, "to_ip%s | to_str" % arg, txt), {"x": "1", "a": v}, "to_ip of an IPv6 address")
            return
        got = go(t, "to_ip%s" % arg, txt)["a"]
        t.eq(got.with_prefixlen, txt, "to_ip of an IPv6 interface")
        t.eq(str(got.network), fill(NET6[mask], a, b) + "/" + str(mask), "network of the interface")
    elif fn == "to_net":
        n = fill(NET6[mask], a, b) + "/" + str(mask)
        t.eq(go(t, "to_net%s | to_str" % arg, n), {"x": "1", "a": n}, "to_net of an IPv6 network")
    elif fn == "cidr":
        prefix, form = arg
        p, k = prefix.split("/")
        k = int(k)
        # the prefixes used are cut at or before the first digit, or at the last but one
        ok = (a in ("89abcdef" if k == 5 else "cd" if k == 7 else "e") or mask == 0) if k != 124 else (a == "e" and b == "1") if mask in (None, 124, 128, 127) else a == "e" if mask in (8, 64) else True
        t.cover("inside" if ok else "outside")
        if form == "obj":
            t.check(("a" in go(t, "to_ip | cidr_match('%s') | to_str" % prefix, txt)) == bool(ok), "cidr_match of an IPv6 object")
        else:
            keep(t, "cidr_match('%s')" % prefix, txt, bool(ok))
    else:
        got = go(t, fn + arg, txt)["a"]
        long = "f" + a + "80" + ":0000" * 6 + ":12" + b + "f"
        t.check(isinstance(got, dict), "ip_info is a dictionary")
        want = {"ip": v, "version": 6, "max_prefixlen": 128, "is_loopback": False, "is_unspecified": False}
        t.check(got["is_link_local"] == (a == "e"), "is_link_local")
        t.check(got["is_multicast"] == (a == "f"), "is_multicast")
        t.check(got["is_reserved"] == (a in "0123456789ab"), "is_reserved")
        if mask is None:
            want["compressed"] = v
            want["exploded"] = long
            t.check("network" not in got, "an address has no network")
        else:
            n, k = fill(NET6[mask], a, b), str(mask)
            want.update({"compressed": txt, "exploded": long + "/" + k, "network": n + "/" + k, "network_address": n, "broadcast_address": fill(LAST6[mask], a, b),
                         "num_addresses": 1 << (128 - mask), "prefixlen": mask, "with_prefixlen": txt, "hosts": (1 << (128 - mask)) - 2})
        for w in want:
            t.eq(got[w], want[w], w + " of IPv6")


def mac_digits(t, sep, at):
    """12 digits in any notation"""
    raw, low = "", ""
    for i in range(12):
        if i in at:
            raw = raw + sep
        if i and i % 2 == 0:
            low = low + ":"
        c = t.char("c%d" % i, alphabet="0123456789abcdefABCDEF")
        raw = raw + c
        low = low + c.lower()
    t.cover("mac")
    t.eq(go(t, "mac_eui", raw), {"x": "1", "a": low}, "mac_eui")


def mac_short(t, sep):
    """trailing zeroes left out by the device"""
    n = t.choice("n", [1, 2, 3, 5, 7, 8, 10, 11])
    raw, low = "", ""
    for i in range(12):
        if i and i % 2 == 0:
            low = low + ":"
        if i < n:
            if i and i % 4 == 0:
                raw = raw + sep
            c = t.char("c%d" % i, alphabet="059afAF") if i in (0, n - 1) else "b"
            raw = raw + c
            low = low + (c.lower())
        else:
            low = low + "0"
    t.cover("mac")
    t.eq(go(t, "mac_eui", raw), {"x": "1", "a": low}, "mac_eui of a short address")


def mac_text(t, hi):
    """a text that holds anything but hexadecimal digits is kept"""
    v = t.char("v0", exclude=NONSPACE_EXCL) + t.str("v", 0, hi - 1, exclude=NL)
    bad = False
    for c in v:
        if c not in "0123456789abcdefABCDEF.:-":
            bad = True
            break
    t.assume(bad)
    t.cover("no mac")
    keep(t, "mac_eui", v, True)


def mac_long(t):
    n = t.choice("n", [13, 14, 16])
    v = "0011.2233.4455" + t.str("v", n - 12, n - 12, alphabet="0af")
    t.cover("no mac")
    keep(t, "mac_eui", v, True)


def group_to_ip(t, mask, free):
    """group to_ip joins address and mask of a record"""
    v, b = address(t, free)
    p = mk("<group name='g*' to_ip=\"'ip', 'mask'\">\nx {{ x }}\nip {{ ip }}\nmask {{ mask }}\n</group>")
    has_ip, has_mask = t.bool("has_ip"), t.bool("has_mask")
    text = "x 1\n"
    want = {"x": "1"}
    if has_ip:
        text = text + "ip " + v + "\n"
        want["ip"] = v
    if has_mask:
        text = text + "mask " + mask + "\n"
        want["mask"] = mask
    p.add_input(text + "x 2\n")
    p.parse(one=True)
    got = p.result()[0][0]["g"]
    if has_ip and has_mask:
        m = MASKS.index(mask) if mask in MASKS else int(mask) if mask.isdigit() and int(mask) <= 32 else None
        if m is not None:
            t.eq(str(got[0]["ip"]), v + "/" + str(m), "group to_ip")
            t.check(not isinstance(got[0]["ip"], str), "an address object")
            got[0]["ip"] = v
    t.eq(got, [want, {"x": "2"}], "records of group to_ip")


def jobs(tier):
    th = tier == "thorough"
    d = 1 if th else 0
    out = [("is_ip_text", {"lo": 7, "hi": 8, "arg": ""}), ("is_ip_text", {"lo": 9, "hi": 9 + d, "arg": ""}), ("is_ip_text", {"lo": 1, "hi": 6, "arg": ""}), ("is_ip_text", {"lo": 7, "hi": 7, "arg": "('ipv4')"})]
    out += [("is_ip_fields", {"which": i}) for i in range(4)]
    out += [("is_ip_prefix", {"arg": a}) for a in ("", "('ipv4')", "('ipv6')")]
    out += [("is_ip_mask", {"sep": "/ "[i % 2], "shape": m}) for i, m in enumerate(("255.255.x.0",) + (("0.0.0.x", "255.x.255.0", "x.0.0.0", "255.x.0.0", "255.255.255.x", "0.x.255.255", "x.255.0.0") if th else ()))]
    out += [("is_ip6_text", {"hi": 5 + d, "arg": a}) for a in ("", "('ipv6')")] + [("is_ip6_text", {"hi": 3, "arg": "('ipv4')"})]
    out += [("is_ip6_groups", {"n": n, "gap": g}) for n, g in ((7, None), (8, None), (9, None), (2, 1), (7, 0), (7, 4), (7, 7), (8, 8), (8, 3), (5, 2))]
    out += [("is_ip6_prefix", {})]
    for i, pr in enumerate(PREFIXES):
        for free in ([0, 1], [2, 3]) if th else ([0, 1],) if i in (0, 6) else ([2],) if i in (1, 8) else ([0],):
            out.append(("cidr", {"prefix": pr, "free": free, "mask": None, "how": "", "form": ["arg", "var", "obj"][i % 3]}))
        for mask in ((0, 7, 16, 17, 24, 29, 31, 32) if th else (0, 16, 17, 29, 32)):
            out.append(("cidr", {"prefix": pr, "free": [1] if mask < 17 else [2], "mask": mask, "how": "len" if mask % 2 else "mask", "form": ["var", "arg", "obj"][(i + mask) % 3]}))
    out += [("cidr6", {"prefix": p, "at": i}) for i in range(4) for p in ("fe80::/10", "fd00::/16", "fe80::1200/120", "fe80::8000/113", "10.0.0.0/8")]
    for mask in [None] + list(range(33)):
        free = [0, 3] if mask is None else [min(3, max(0, (mask - 1) // 8))]
        for how in (["len"] if mask is None else ["len", "mask", "dotted"] if th or mask % 5 == 3 else ["len", "mask"]):
            out.append(("to_ip", {"free": free, "mask": mask, "how": how, "arg": "('ipv4')" if mask is not None and mask % 2 and how == "len" else ""}))
    for mask in range(33):
        out.append(("to_net", {"free": [min(3, max(0, (mask - 1) // 8))], "mask": mask, "how": "len" if mask % 2 else "mask"}))
    out += [("to_cidr", {}), ("to_cidr_text", {}), ("ip_info_text", {})]
    for mask, free in ((None, [0]), (None, [1]), (0, [0]), (8, [0]), (12, [1]), (16, [1]), (20, [2]), (24, [2]), (29, [3]), (30, [3]), (31, [3]), (32, [3])):
        out.append(("ip_info", {"free": free, "mask": mask, "how": "len" if mask and mask % 3 == 0 else "mask", "arg": ""}))
    out.append(("ip_info", {"free": [3], "mask": None, "how": "obj", "arg": ""}))
    for mask in [None] + list(NET6):
        out += [("ip6", {"fn": f, "mask": mask, "arg": a}) for f, a in (("ip_info", ""), ("ip_info", "('ipv6')"), ("to_ip | ip_info", ""), ("to_ip", ""), ("to_ip", "('ipv6')"))]
        if mask is not None:
            out += [("ip6", {"fn": "to_net", "mask": mask, "arg": a}) for a in ("", "('ipv6')")]
        out += [("ip6", {"fn": "cidr", "mask": mask, "arg": [p, f]}) for p in ("f800::/5", "fc00::/7", "fe80::/10", "fe80::1210/124") for f in ("arg", "obj")]
    for sep, at in ((".", [4, 8]), (":", [2, 4, 6, 8, 10]), ("-", [2, 4, 6, 8, 10]), ("", []), ("-", [4, 8])):
        out.append(("mac_digits", {"sep": sep, "at": at}))
    out += [("mac_short", {"sep": s}) for s in ("", ".")] + [("mac_text", {"hi": 4 + d}), ("mac_long", {})]
    out += [("group_to_ip", {"mask": m, "free": [0, 3]}) for m in ("24", "255.255.255.0", "33", "x", "0")]
    return out
