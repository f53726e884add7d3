"""P28: answers of name servers, address databases and libraries are used as documented."""
from hlib import *
import builtins
import json
import json.encoder
import sys
import types
# instrument: json.encoder

json.encoder.c_make_encoder = None
json.encoder.encode_basestring_ascii = json.encoder.py_encode_basestring_ascii
json.encoder.encode_basestring = json.encoder.py_encode_basestring
json.JSONEncoder = json.encoder.JSONEncoder
json._default_encoder = json.encoder.JSONEncoder()

COVERS = ["answered", "no answer", "field added", "value replaced", "own servers", "machine's servers", "no address", "found", "not found", "database missing", "diagram", "valid", "not valid", "library made", "library given", "model failed"]
BOUNDS = {
    "quick": "1-3 dns and rdns lookups of arbitrary names in one text, through 6 lines with different record types, timeouts, servers and fields; every answer of 0-3 records or failure of 8 kinds for each; "
             "geoip lookups of 1-2 arbitrary addresses in 3 databases with present and absent values, missing databases and files; diagrams of 2 modules over 1-3 results with 0-2 path keys, 3 methods and options; "
             "yangson validation of 0-3 results with arbitrary values, every verdict, 3 scopes and contents, with a library given in the tag, in a file or made from 1-3 modules with features, revisions and submodules, two directories in turn",
    "thorough": "one more lookup, result or record",
}
ASSUMPTIONS = ["dnspython, geoip2, N2G and yangson are replaced by stand-ins that record what they are asked and give arbitrary answers; the directories of YANG modules are virtual"]
NL = "\n"


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__path__ = []
    for k, v in kw.items():
        setattr(m, k, v)
    sys.modules[name] = m
    if "." in name:
        parent, _, leaf = name.rpartition(".")
        setattr(sys.modules[parent], leaf, m)
    return m


# ------------------------------------------------------------------ dns
class DNSException(Exception):
    pass


class NXDOMAIN(DNSException):
    pass


class NoAnswer(DNSException):
    pass


class Timeout(DNSException):
    pass


class LifetimeTimeout(Timeout):
    pass


class NoNameservers(DNSException):
    pass


class EmptyLabel(DNSException):
    pass


class DnsSyntaxError(DNSException):
    pass


class _Record(object):
    def __init__(self, s):
        self.s = s

    def to_text(self):
        return self.s


class Net(object):
    asked = []
    answers = []


class Resolver(object):
    def __init__(self, filename=None, configure=True):
        self.nameservers = ["d1", "d2"] if configure else []
        self.timeout, self.lifetime = 2.0, 5.0

    def query(self, name, rdtype="A", *a, **k):
        Net.asked.append((name, rdtype, list(self.nameservers), self.timeout, self.lifetime))
        if not Net.answers:
            raise NoAnswer()
        r = Net.answers.pop(0)
        if isinstance(r, list):
            return r
        raise r

    resolve = query


def _from_address(text, *a):
    if "!" in text:
        raise DnsSyntaxError("Text input is malformed")
    return "rev " + text


_mod("dns")
_mod("dns.exception", DNSException=DNSException, Timeout=Timeout, SyntaxError=DnsSyntaxError)
_mod("dns.name", EmptyLabel=EmptyLabel)
_mod("dns.reversename", from_address=_from_address)
_mod("dns.resolver", Resolver=Resolver, NXDOMAIN=NXDOMAIN, NoAnswer=NoAnswer, Timeout=Timeout, LifetimeTimeout=LifetimeTimeout, NoNameservers=NoNameservers, dns=sys.modules["dns"])

FAIL = {"nxdomain": NXDOMAIN, "noanswer": NoAnswer, "timeout": Timeout, "lifetime": LifetimeTimeout, "noservers": NoNameservers, "label": EmptyLabel, "oserror": OSError}

# line key: (function text, record type, timeout, servers asked, field, reverse)
LOOKUPS = {
    "a": ("dns", "A", 1, None, None),
    "b": ("dns(record='AAAA', timeout=3, servers='s1')", "AAAA", 3, ["s1"], None),
    "c": ("dns(add_field='F', servers='s2, s3')", "A", 1, ["s2", "s3"], "F"),
    "d": ("rdns", "PTR", 1, None, None),
    "e": ("rdns(timeout=2, servers='s4,s5', add_field='F')", "PTR", 2, ["s4", "s5"], "F"),
    "f": ("dns('TXT', 4, add_field='F')", "TXT", 4, None, "F"),
}
DNS = "".join("<group name='%s*'>\n%s {{ %s | %s }}\n</group>\n" % (k, k, k, LOOKUPS[k][0]) for k in sorted(LOOKUPS))


def names(t, keys, recs):
    """every lookup asks once for its own name, at its own servers, whatever was asked before, and puts the answer in the record; a failure leaves the record alone"""
    Net.asked, Net.answers = [], []
    data, want, asked = "", {}, []
    for i, k in enumerate(keys):
        fn, rd, tm, servers, field = LOOKUPS[k]
        v = t.str("v%d" % i, 1, 2 if i == 0 else 1, exclude=NONSPACE_EXCL)
        data = data + k + " " + v + NL
        rec = {k: v}
        want.setdefault(k, []).append(rec)
        ptr = rd == "PTR"
        if ptr and "!" in v:
            t.cover("no address")
            continue
        kind = t.choice("answer%d" % i, ["records"] + sorted(FAIL))
        asked.append(("rev " + v if ptr else v, rd, servers or ["d1", "d2"], tm, tm * (2 if servers is None else len(servers))))
        t.cover("own servers" if servers else "machine's servers")
        if kind == "records":
            n = t.choice("n%d" % i, list(range(1, recs + 1)))
            r = [t.str("r%d%d" % (i, j), 1, 1, exclude=NONSPACE_EXCL + ".") for j in range(n)]
            if ptr:
                Net.answers.append([x + "." for x in r])
                ans = r[0]
            else:
                Net.answers.append([_Record(x) for x in r])
                ans = sorted(r)
            if field:
                rec[field] = ans
                t.cover("field added")
            else:
                rec[k] = ans
                t.cover("value replaced")
            t.cover("answered")
        else:
            Net.answers.append(FAIL[kind]())
            t.cover("no answer")
    p = mk(DNS)
    p.add_input(data)
    p.parse(one=True)
    t.eq(p.result(), [[want]], "results of %s" % (keys,))
    t.eq([x[:2] for x in Net.asked], [x[:2] for x in asked], "names and record types asked")
    t.eq([sorted(x[2]) for x in Net.asked], [sorted(x[2]) for x in asked], "servers asked")
    t.eq([x[3:] for x in Net.asked], [x[3:] for x in asked], "timeouts")


# ------------------------------------------------------------------ geoip
class _Obj(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Geo(object):
    files = ()
    table = {}
    asked = []


class AddressNotFoundError(Exception):
    pass


class Reader(object):
    def __init__(self, path, *a, **k):
        if path not in Geo.files:
            raise IOError(path)
        self.path = path

    def _get(self, kind, ip):
        Geo.asked.append((self.path, kind, ip))
        for a, r in Geo.table.get(self.path, ()):
            if a == ip:
                return r
        raise AddressNotFoundError(ip)

    def country(self, ip):
        return self._get("country", ip)

    def city(self, ip):
        return self._get("city", ip)

    def asn(self, ip):
        return self._get("asn", ip)


_mod("geoip2")
_mod("geoip2.database", Reader=Reader)
_mod("geoip2.errors", AddressNotFoundError=AddressNotFoundError)

GEO = {"city": "p1", "asn": "p2", "country": "p3"}


def geo_answer(t, kind, i):
    """an answer of the database and what of it is documented to be added"""
    s = [t.str("g%d%d" % (i, j), 1, 1, alphabet="kqz") for j in range(3)]
    net = _Obj(with_prefixlen=s[0] + "/16")
    if kind == "asn":
        num = t.int("asn%d" % i, 0, 99)
        return _Obj(autonomous_system_number=num, autonomous_system_organization=s[1], network=net), {"ASN": num, "organization": s[1], "network": s[0] + "/16"}
    named = t.bool("en%d" % i)
    names_ = {"en": s[1], "de": "x" + s[1]} if named else {"de": s[1]}
    en = s[1] if named else ""
    if kind == "country":
        return (_Obj(continent=_Obj(names={"en": s[2], "de": "D"}, code="CC"), country=_Obj(iso_code="IS" + s[0], names=names_), traits=_Obj(network=net)),
                {"continent": s[2], "continent_code": "CC", "country_iso_code": "IS" + s[0], "country": en, "network": s[0] + "/16"})
    lat = t.int("lat%d" % i, -9, 9)
    return (_Obj(city=_Obj(name=s[2]), continent=_Obj(names=names_, code="CC"), country=_Obj(iso_code="IS", names={"en": "C" + s[0]}), location=_Obj(latitude=lat, longitude=lat + 1, accuracy_radius=7),
                 postal=_Obj(code="P" + s[1]), subdivisions=_Obj(most_specific=_Obj(name="S" + s[0], iso_code="SI" + s[1])), traits=_Obj(network=net)),
            {"city": s[2], "continent": en, "country_iso_code": "IS", "country": "C" + s[0], "latitude": lat, "longitude": lat + 1, "accuracy_radius": 7, "postal_code": "P" + s[1],
             "state": "S" + s[0], "state_iso_code": "SI" + s[1], "network": s[0] + "/16"})


def geo(t, kind, spelled, form, n):
    """the record gets the database's answer for its own address below the field; no answer leaves it alone"""
    have = t.choice("have", ["all", "mine", "others", "no tag"])
    Geo.asked = []
    Geo.files = tuple(v for k, v in GEO.items() if have == "all" or (k == kind) == (have == "mine")) if have != "no tag" else ()
    spell = {k: spelled if k == kind else k for k in GEO}
    tag = "" if have == "no tag" else "<lookup name='gt' database='geoip2' load='python'>\n%s</lookup>\n" % "".join("%s = '%s'\n" % (spell[k], GEO[k]) for k in sorted(GEO))
    field = {"default": "geoip_lookup", "kw": "F", "pos": "F"}[form]
    arg = {"default": "'gt.%s'", "kw": "db_name='gt.%s', add_field='F'", "pos": "'gt.%s', 'F'"}[form] % spelled
    ans = [geo_answer(t, kind, i) for i in range(n)]
    ips = [t.str("ip%d" % i, 1, 2 if n == 1 else 1, exclude=NONSPACE_EXCL) for i in range(n)]
    known = t.str("known", 1, 1, exclude=NONSPACE_EXCL)
    Geo.table = {GEO[kind]: [(known, ans[0][0])]}
    data, want = "", []
    for i, ip in enumerate(ips):
        data = data + "i " + ip + NL
        r = {"i": ip}
        if have in ("all", "mine") and ip == known:
            r[field] = ans[0][1]
            t.cover("found")
        elif have in ("all", "mine"):
            t.cover("not found")
        else:
            t.cover("database missing")
        want.append(r)
    p = mk(tag + "<group name='g*'>\ni {{ i | geoip_lookup(%s) }}\n</group>" % arg, data)
    p.parse(one=True)
    t.eq(p.result(), [[{"g": want}]], "records")
    t.eq(Geo.asked, [(GEO[kind], kind, ip) for ip in ips] if have in ("all", "mine") else [], "questions asked")


# ------------------------------------------------------------------ N2G
class Diagram(object):
    made = []
    module = None

    def __init__(self, **kw):
        self.kw, self.calls = kw, []
        Diagram.made.append(self)

    def _call(self, name, data, kw):
        self.calls.append((name, data, kw))

    def from_list(self, data, **kw):
        self._call("from_list", data, kw)

    def from_dict(self, data, **kw):
        self._call("from_dict", data, kw)

    def from_csv(self, data, **kw):
        self._call("from_csv", data, kw)

    def layout(self, **kw):
        self._call("layout", None, kw)

    def dump_xml(self):
        return "xml of %s" % self.module


class Yed(Diagram):
    module = "yed"


class Drawio(Diagram):
    module = "drawio"


_mod("N2G", yed_diagram=Yed, drawio_diagram=Drawio)

N2G = [
    ("", "yed", "from_list", {}, {}), ("path = 'a'\n", "yed", "from_list", {}, {}), ("path = 'a.b'\nmodule = 'DrawIO'\n", "drawio", "from_list", {}, {}),
    ("method = 'from_dict'\nmodule = 'yEd'\npath = 'a'\n", "yed", "from_dict", {}, {}), ("method = 'from_csv'\nmethod_kwargs = {'q': 1}\n", "yed", "from_csv", {}, {"q": 1}),
    ("node_dups = 'log'\nlink_dups = 'update'\n", "yed", "from_list", {"node_duplicates": "log", "link_duplicates": "update"}, {}),
    ("node_dups = 'update'\nalgo = 'kk'\nmodule = 'drawio'\n", "drawio", "from_list", {"node_duplicates": "update"}, {}),
    ("link_dups = 'log'\n", "yed", "from_list", {"link_duplicates": "log"}, {}),
    ("module = 'other'\n", None, None, {}, {}),
]


def parser(data, tmpl):
    p = ttp(log_level="CRITICAL")
    p.add_function(lambda d: data, scope="output", name="give")
    p.add_template("<input load='text'>\nzz\n</input>\n<group name='g'>\nx {{ x }}\n</group>\n" + tmpl)
    return p


def diagram(t, case, n):
    """every result goes into one diagram, in order; the result is the diagram's text"""
    opts, module, method, dups, kw = N2G[case]
    path = ["a", "b"] if "a.b" in opts else ["a"] if "path" in opts else []
    Diagram.made = []
    data, want = [], []
    for i in range(n):
        v = t.str("v%d" % i, 0, 2)
        item = [{"x": v}]
        want.append(item)
        for k in reversed(path):
            item = {k: item}
        data.append(item)
    p = parser(data, "<output load='python'>\nfunctions = 'give'\nformat = 'n2g'\n%s</output>" % opts)
    p.parse(one=True)
    if module is None:
        t.eq(p.result(), [data], "results without a diagram")
        t.check(not Diagram.made, "no diagram")
        return
    t.eq(p.result(), ["xml of %s" % module], "result")
    t.eq(len(Diagram.made), 1, "number of diagrams")
    d = Diagram.made[0]
    full = {"node_duplicates": "skip", "link_duplicates": "skip"}
    full.update(dups)
    t.eq(d.kw, full, "options of the diagram")
    calls = [(method, w, kw) for w in want]
    if "algo" in opts:
        calls.append(("layout", None, {"algo": "kk"}))
    t.eq(d.calls, calls, "what the diagram was given")
    t.cover("diagram")


# ------------------------------------------------------------------ yangson
class Yang(object):
    libs = []
    runs = []
    verdicts = {}
    files = {}
    fail = False


class _Stmt(object):
    def __init__(self, keyword, argument=None, subs=()):
        self.keyword, self.argument, self.substatements = keyword, argument, list(subs)

    def find1(self, kw, *a, **k):
        for s in self.substatements:
            if s.keyword == kw:
                return s
        return None


class ModuleParser(object):
    def __init__(self, text, *a, **k):
        self.text = text

    def statement(self):
        return Yang.files["modules"][self.text]

    parse = statement


class _Xml(object):
    def __init__(self, s):
        self.s = s


class _Instance(object):
    def __init__(self, raw):
        self.raw = raw

    def validate(self, scope=None, ctype=None):
        Yang.runs.append((scope, ctype))
        if "bad" in self.raw:
            raise ValueError("bad")

    def to_xml(self, *a, **k):
        import xml.etree.ElementTree as E
        e = E.Element("data")
        e.text = self.raw["n"]
        return e


class DataModel(object):
    def __init__(self, yltxt, mod_path=(".",), description=None):
        if Yang.fail:
            raise ValueError("model")
        Yang.libs.append((yltxt, mod_path))

    def from_raw(self, raw):
        if "raw" in raw:
            raise KeyError("raw")
        return _Instance(raw)


class ValidationScope(object):
    syntax, semantics, all = "S.syntax", "S.semantics", "S.all"


class ContentType(object):
    config, nonconfig, all = "C.config", "C.nonconfig", "C.all"


_mod("yangson", DataModel=DataModel)
_mod("yangson.statement", ModuleParser=ModuleParser)
_mod("yangson.enumerations", ValidationScope=ValidationScope, ContentType=ContentType)
sys.modules["yangson"].enumerations = sys.modules["yangson.enumerations"]

DIRS = ("/virtual-yang-one", "/virtual-yang-two")
_listdir, _open = os.listdir, builtins.open


class _File(object):
    def __init__(self, s):
        self.s = s

    def read(self):
        return self.s

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


os.listdir = lambda p=".": list(Yang.files[p]) if p in DIRS else _listdir(p)


def _vopen(p, *a, **k):
    if isinstance(p, str) and p.startswith("/virtual-yang"):
        return _File(Yang.files["texts"].get(p, p))
    return _open(p, *a, **k)


builtins.open = _vopen


def items(t, n, xml):
    """results and the verdict on each"""
    out = []
    for i in range(n):
        v = t.choice("verdict%d" % i, ["ok", "bad", "raw"])
        # the text of an XML element is written by a C library: some texts
        r = {"n": t.choice("n%d" % i, ["p", "q<r"]) if xml else t.str("n%d" % i, 1, 1, alphabet="pqrs")}
        if v != "ok":
            r[v] = "1"
        out.append((r, v == "ok"))
        t.cover("valid" if v == "ok" else "not valid")
    return out


def keyset(d):
    return sorted(d) if isinstance(d, dict) else bool(d)


def yang(t, n, opts, src, shape):
    """each result is validated by itself in the scope asked for; verdicts stand at its index"""
    Yang.libs, Yang.runs, Yang.fail, Yang.files = [], [], t.bool("fails"), {}
    Yang.files = {"texts": {"/virtual-yang-lib": "the library"}}
    its = items(t, n, opts.get("to_xml"))
    data = [r for r, ok in its] if shape == "list" else its[0][0]
    args = ["yang_mod_dir='%s'" % DIRS[0]] + ["%s=%r" % kv for kv in sorted(opts.items())]
    if src == "file":
        args.append("yang_mod_lib='/virtual-yang-lib'")
    p = ttp(log_level="CRITICAL")
    p.add_function(lambda d: data, scope="output", name="give")
    p.add_template("<input load='text'>\nzz\n</input>\n<group name='g'>\nx {{ x }}\n</group>\n<output functions=\"give | validate_yangson(%s)\">%s</output>" % (", ".join(args), "\nthe library\n" if src == "tag" else ""))
    p.parse(one=True)
    got = p.result()[0]
    meta, xml = opts.get("metadata", True), opts.get("to_xml", False)
    if Yang.fail:
        t.cover("model failed")
        if not meta:
            t.eq(got, False, "no model, no metadata")
        else:
            t.eq(got["result"], [] if xml else data, "results without a model")
            t.check(got["exception"] and got["comment"] and got["valid"] == {}, "message")
        return
    t.cover("library given")
    t.eq(len(Yang.libs), 1, "models")
    t.eq(Yang.libs[0][0].strip(), "the library", "library")
    t.eq(list(Yang.libs[0][1]), [DIRS[0]], "directory")
    out = ["<data>" + r["n"].replace("<", "&lt;") + "</data>" for r, ok in its if ok] if xml else [r for r, ok in its]
    if shape == "dict":
        out = out[0] if out else []
    if not meta:
        t.eq(got, out if all([ok for r, ok in its]) else False, "results without metadata")
    else:
        t.eq(got["result"], out, "results")
        bad = [i for i, (r, ok) in enumerate(its) if not ok]
        if shape == "list":
            t.eq(got["valid"], {i: ok for i, (r, ok) in enumerate(its)}, "verdicts")
            t.eq(sorted(got["exception"]), bad, "errors")
        else:
            t.eq(got["valid"], its[0][1], "verdict")
            t.eq(bool(got["exception"]), bool(bad), "error")
        t.eq(got["comment"], "", "comment")
    want = ("S." + opts.get("validation_scope", "all"), "C." + opts.get("content_type", "all"))
    stop = None
    if not meta:
        for i, (r, ok) in enumerate(its):
            if not ok:
                stop = i
                break
    ran = [r for i, (r, ok) in enumerate(its) if "raw" not in r and (stop is None or i <= stop)]
    t.eq(Yang.runs, [want] * len(ran), "scopes of the validations")


def module(t, name, sub=False, few=False):
    """a module or submodule and its entry in the library"""
    revs = t.choice("rev_" + name, [["r2", "r1"], ["r1"], []][:2 if few else 3])
    feats = t.choice("feat_" + name, [["f" + name, "e" + name], [], ["f" + name]][:2 if few else 3])
    kind = t.choice("kind_" + name, ["container", None, "leaf-list"][:2 if few else 3])
    subs = [_Stmt("namespace", "urn:" + name)] if not sub else [_Stmt("belongs-to", "x")]
    subs += [_Stmt("revision", r) for r in revs]
    subs += [_Stmt("feature", f) for f in feats]
    subs.append(_Stmt("typedef", "td"))
    if kind:
        subs.append(_Stmt(kind, "node"))
    return subs, (revs[0] if revs else ""), feats, kind is None


def library(t, nmods, sub, twice):
    """the library lists the modules of the directory, each once, with what they declare - those of this directory only"""
    Yang.libs, Yang.runs, Yang.fail = [], [], False
    Yang.files = {"texts": {}, "modules": {}, DIRS[0]: ["readme.txt"], DIRS[1]: []}
    want = {d: [] for d in DIRS}
    todo = [(DIRS[0], "m%d" % i) for i in range(nmods)] + ([(DIRS[1], "other")] if twice else [])
    for d, m in todo:
        subs, rev, feats, imp = module(t, m, few=sub or d == DIRS[1])
        entry = {"name": m, "revision": rev, "namespace": "urn:" + m}
        feats = list(feats)
        if sub and m == "m0":
            ssubs, srev, sfeats, simp = module(t, "s0", True, True)
            ask = srev if t.bool("ask") else None
            subs.append(_Stmt("include", "s0", [_Stmt("revision-date", ask)] if ask else []))
            text = "/virtual-yang text of s0"
            Yang.files["modules"][text] = _Stmt("submodule", "s0", ssubs)
            Yang.files[d].append("s0.yang")
            Yang.files["texts"][d + "/s0.yang"] = text
            t.assume(imp == simp)          # data nodes in one of them only: not specified
            feats = feats + sfeats
            entry["submodule"] = [{"name": "s0", "revision": srev}]
        if feats:
            entry["feature"] = feats
        entry["conformance-type"] = "import" if imp else "implement"
        text = "/virtual-yang text of " + m
        Yang.files["modules"][text] = _Stmt("module", m, subs)
        Yang.files[d].append(m + ".yang")
        Yang.files["texts"][d + "/" + m + ".yang"] = text
        want[d].append(entry)
    dirs = [DIRS[0], DIRS[1], DIRS[0]] if twice else [DIRS[0]]
    for i, d in enumerate(dirs):
        p = parser([{"n": "v"}], "<output functions=\"give | validate_yangson(yang_mod_dir='%s')\"/>" % d)
        p.parse(one=True)
        t.eq(p.result()[0]["valid"], {0: True}, "verdict")
        got = json.loads(Yang.libs[i][0])["ietf-yang-library:modules-state"]["module"]
        t.eq(got, want[d], "library of %s, call %d" % (d, i))
    t.cover("library made")


def jobs(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    for a in sorted(LOOKUPS):
        out.append(("names", {"keys": a, "recs": 3 + d}))
        for b in sorted(LOOKUPS):
            if a < b:
                out.append(("names", {"keys": a + b, "recs": 2}))
    out += [("names", {"keys": k, "recs": 1}) for k in ("aa", "bb", "dd", "cf") + (("abc", "ade", "bdf", "aad") if d else ("abd",))]
    for kind, spelled in (("city", "citY"), ("city", "city"), ("asn", "AsN"), ("asn", "asn"), ("country", "Country")):
        for form in ("default", "kw", "pos"):
            out.append(("geo", {"kind": kind, "spelled": spelled, "form": form, "n": 1}))
        out.append(("geo", {"kind": kind, "spelled": spelled, "form": "kw", "n": 2 + d}))
    out += [("diagram", {"case": i, "n": n}) for i in range(len(N2G)) for n in (1, 2 + d)]
    for src in ("tag", "file"):
        for shape in ("list", "dict"):
            for opts in ({}, {"metadata": False}, {"to_xml": True}, {"to_xml": True, "metadata": False}, {"validation_scope": "semantics"}, {"validation_scope": "syntax", "content_type": "nonconfig"},
                         {"content_type": "config", "metadata": False}):
                out.append(("yang", {"n": (2 + d if src == "tag" else 1) if shape == "list" else 1, "opts": opts, "src": src, "shape": shape}))
    out += [("library", {"nmods": n, "sub": s, "twice": w}) for n, s, w in ((1, False, False), (2, False, False), (1, True, False), (1, False, True)) + (((1, True, True),) if d else ())]
    return out
