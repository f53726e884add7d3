"""P13: group checks keep exactly the records that satisfy them."""
import sys

from hlib import *

COVERS = ["kept", "dropped", "kept and dropped"]
BOUNDS = {
    "quick": "groups of a start line and 3 other lines (one with a default, one repeated with joining); 2-3 records, every presence of every line, values of 1-3 characters; every check with 1-3 names, written as an attribute, "
             "in functions, in chain, in a template variable; values compared with a variable of 0-2 arbitrary characters; chains of 2-3 functions in every order; named, list, dynamic, unnamed and nested groups" "; cases beyond usual size (9-20 of a kind): many names in one check, many checks",
    "thorough": "3-4 records, values of 1-4 characters, more chains",
}
NL = "\n"


class _Validator(object):
    """stand-in for the cerberus library: accepts the documents whose b is not a digit, names the others' b as the error"""
    calls = []

    def validate(self, document, schema):
        _Validator.calls.append((dict(document), schema, self.allow_unknown))
        bad = "b" in document and document["b"] in "0123456789"
        self.errors = {"b": [document["b"]]} if bad else {}
        return not bad


_cerberus = sys.modules["cerberus"] = type(sys)("cerberus")
_cerberus.Validator = _Validator
VARS = "<vars>\nw = 'mn'\nwlong = 'a b'\n</vars>\n"
# b: plain, c: plain with default, d: joined, e: a constant
BODY = "x {{ a }}\nb {{ b }}\nc {{ c | default('dd') }}\nd {{ d | joinmatches(',') }}\ne {{ e | set('E') }}\n"


def val(t, name, hi):
    return t.str(name, 1, hi, exclude=NONSPACE_EXCL)


def make(t, n, hi, lines="bcd"):
    """n blocks with any of the lines -> text, matched values, records"""
    text, matched, recs = "", [], []
    for r in range(n):
        a = val(t, "a%d" % r, 1)
        text = text + "x " + a + "\n"
        m = {"a": a}
        for k in lines:
            if t.bool("has_%s%d" % (k, r)):
                if k == "e":
                    text += "e \n"
                    m["e"] = "E"
                    continue
                v = val(t, "%s%d" % (k, r), hi)
                text = text + k + " " + v + "\n"
                m[k] = v
                if k == "d" and t.bool("again%d" % r):
                    v = val(t, "dd%d" % r, 1)
                    text = text + "d " + v + "\n"
                    m["d"] = m["d"] + "," + v
        if "c" in m:
            t.assume(m["c"] != "dd")       # a matched value equal to the default counts as a default
        rec = dict(m)
        if "c" not in rec:
            rec["c"] = "dd"
        matched.append(m)
        recs.append(rec)
    return text, matched, recs


def keep(t, fn, args, m, rec):
    if fn == "contains":
        return any([a in m for a in args])
    if fn == "containsall":
        return all([a in m for a in args])
    if fn == "exclude":
        return not any([a in m for a in args])
    if fn == "excludeall":
        return not all([a in m for a in args])
    if fn == "void":
        return False
    k, v = args
    v = {"w": "mn", "wlong": "a b"}.get(v, v)
    if fn == "equal":
        return k in rec and rec[k] == v
    if fn == "exclude_val":
        return not (k in rec and rec[k] == v)
    if fn == "contains_val":
        t.assume(k in rec)                 # a record without the key: not specified
        return v in rec[k]
    raise AssertionError(fn)


def written(fn, args):
    return "%s(%s)" % (fn, ", ".join(repr(a) for a in args))


def tag(how, fn, args, name="g*", body=BODY):
    q = ", ".join(repr(a) for a in args)
    if how == "attr":
        at = '%s="%s"' % (fn, q)
    elif how == "bare":
        at = '%s="%s"' % (fn, ", ".join(args))
    elif how == "functions":
        at = 'functions="%s"' % written(fn, args)
    elif how == "chain":
        at = 'chain="%s"' % written(fn, args)
    else:
        at = 'chain="cv"'
    n = 'name="%s" ' % name if name else ""
    return '<group %s%s>\n%s</group>' % (n, at, body)


def result(t, tpl, text, kept, name="g", n=None):
    r = run(tpl, text)
    t.eq(r, [[{name: kept} if kept else {}]] if name else [[kept]], "records kept")
    t.cover("kept" if kept else "dropped")
    if n and 0 < len(kept) < n:
        t.cover("kept and dropped")


def one(t, how, fn, args, n, hi, lines="bcd"):
    text, matched, recs = make(t, n, hi, lines)
    kept = [r for m, r in zip(matched, recs) if keep(t, fn, args, m, r)]
    tpl = VARS + tag(how, fn, args)
    if how == "var":
        tpl = "<vars>\ncv = %r\n</vars>\n" % written(fn, args) + tpl
    if how == "list var":
        tpl = "<vars>\ncv = [%r]\n</vars>\n" % written(fn, args) + tpl
    result(t, tpl, text, kept, n=n)


def var_val(t, fn, how, n, hi):
    """the value is the name of a variable of the template that holds any text, no text as well"""
    v = t.str("var", 0, hi)
    text, matched, recs = make(t, n, hi, "b")
    at = '%s="b, vv"' % fn if how == "attr" else "chain=\"%s('b', 'vv')\"" % fn
    kept = []
    for r in recs:
        if fn == "contains_val":
            t.assume("b" in r)
            ok = False
            for i in range(len(r["b"]) - len(v) + 1):
                if r["b"][i:i + len(v)] == v:
                    ok = True
                    break
        else:
            ok = ("b" in r and r["b"] == v) == (fn == "equal")
        if ok:
            kept.append(r)
    p = mk("<group name='g*' %s>\n%s</group>" % (at, BODY), vars={"vv": v})
    p.add_input(text)
    p.parse(one=True)
    t.eq(p.result(), [[{"g": kept} if kept else {}]], "records kept")
    t.cover("kept" if kept else "dropped")


def seq(t, how, fns, n, hi):
    """functions run in the order written: checks see what earlier functions left"""
    text, matched, recs = make(t, n, hi, [k for k in "bcd" if any([k in a for f, a in fns])] or "b")
    kept = []
    for m, r in zip(matched, recs):
        ok = True
        for fn, args in fns:
            if fn == "del":
                for a in args:
                    m.pop(a, None)
                    r.pop(a, None)
            elif fn == "set":
                r[args[1]] = m[args[1]] = args[0]
            elif not keep(t, fn, args, m, r):
                ok = False
                break
        if ok:
            kept.append(r)
    chain = " | ".join(written(f, a) for f, a in fns)
    if how == "two attrs":
        pre, at = "", 'functions="%s" chain="%s"' % (written(*fns[0]), " | ".join(written(f, a) for f, a in fns[1:]))
    elif how == "var":
        pre, at = "<vars>\ncv = %r\n</vars>\n" % chain, 'chain="cv"'
    elif how == "list var":
        pre, at = "<vars>\ncv = %r\n</vars>\n" % [written(*f) for f in fns], 'functions="cv"'
    else:
        pre, at = "", '%s="%s"' % (how, chain)
    result(t, pre + VARS + '<group name="g*" %s>\n%s</group>' % (at, BODY), text, kept, n=n)


def placed(t, name, fn, args, n, hi):
    """the rest of the records are where they would be without the dropped ones"""
    text, matched, recs = make(t, n, hi, "b")
    kept = [r for m, r in zip(matched, recs) if keep(t, fn, args, m, r)]
    tpl = tag("attr", fn, args, name)
    if name is None:
        got = only(tpl, text)
        t.eq(aslist(got) if got else [], kept, "records of a group without name")
    elif name == "g":
        got = only(tpl, text)
        t.eq(got, {} if not kept else {"g": kept[0] if len(kept) == 1 else kept}, "records of a group")
    elif name == "p.q*":
        got = only(tpl, text)
        t.eq(got, {} if not kept else {"p": {"q": kept}}, "records of a deep group")
    else:                                   # g.{{ a }}
        for i in range(n):
            for j in range(i):
                t.assume(recs[i]["a"] != recs[j]["a"])
            t.assume(recs[i]["a"] != "*")
        want = {}
        for r in kept:
            want[r["a"]] = {k: v for k, v in r.items() if k != "a"}
        got = only(tpl, text)
        t.eq(got, {} if not kept else {"g": want}, "records by key")
    t.cover("kept" if kept else "dropped")


def child(t, fn, args, hi):
    """a check of a child group drops records of the child only"""
    tpl = ('<group name="g*">\nx {{ a }}\n<group name="k*" %s="%s">\ny {{ y }}\nb {{ b }}\n</group>\n</group>\n<group name="o*">\nz {{ z }}\n</group>'
           % (fn, ", ".join(repr(a) for a in args)))
    text, want, other = "", [], []
    for r in range(2):
        a = val(t, "a%d" % r, 1)
        text = text + "x " + a + "\n"
        rec = {"a": a}
        for s in range(2):
            kind = t.choice("line%d%d" % (r, s), ["none", "y", "yb", "z"])
            if kind == "none":
                continue
            if kind == "z":
                other.append({"z": "1"})
                text += "z 1\n"
                continue
            v = val(t, "y%d%d" % (r, s), 1)
            m = {"y": v}
            text = text + "y " + v + "\n"
            if kind == "yb":
                m["b"] = val(t, "b%d%d" % (r, s), hi)
                text = text + "b " + m["b"] + "\n"
            if keep(t, fn, args, m, m):
                rec.setdefault("k", []).append(m)
                t.cover("kept")
            else:
                t.cover("dropped")
        want.append(rec)
    want = {"g": want}
    if other:
        want["o"] = other
    t.eq(only(tpl, text), want, "records of parents and children")


def parent(t, fn, args, hi):
    """records of the children of a dropped record are not given to another record"""
    tpl = '<group name="g*" %s="%s">\nx {{ a }}\nb {{ b }}\n<group name="k*">\ny {{ y }}\n</group>\n</group>' % (fn, ", ".join(repr(a) for a in args))
    text, want = "", []
    orphan = False
    for r in range(2):
        a = val(t, "a%d" % r, 1)
        text = text + "x " + a + "\n"
        rec = {"a": a}
        if t.bool("b%d" % r):
            rec["b"] = val(t, "v%d" % r, hi)
            text = text + "b " + rec["b"] + "\n"
        m = dict(rec)
        if t.bool("y%d" % r):
            y = val(t, "w%d" % r, hi)
            text = text + "y " + y + "\n"
            rec["k"] = [{"y": y}]
        if keep(t, fn, args, m, m):
            want.append(rec)
            t.cover("kept")
        else:
            t.cover("dropped")
            if "k" in rec and want:
                orphan = True
            elif "k" in rec:
                t.assume(False)            # no record before it: its children form a record of their own (void with children relies on it)
    # recorded finding: child records of a dropped record go to the record before it
    t.finding("P13-children-of-dropped-record", orphan)
    r = run(tpl, text)
    t.eq(r, [[{"g": want} if want else {}]], "records of a group with children")


def two_groups(t, hi):
    """checks of one group do not concern another one that reads the same lines"""
    text, matched, recs = make(t, 2, hi, "bc")
    tpl = tag("attr", "contains", ["b"], "g*") + "\n" + tag("attr", "exclude", ["b"], "h*").replace("default('dd')", "default('ee')")
    g = [r for m, r in zip(matched, recs) if "b" in m]
    h = []
    for m, r in zip(matched, recs):
        if "c" in m:
            t.assume(m["c"] != "ee")
        if "b" not in m:
            h.append(dict(m) if "c" in m else dict(m, c="ee"))
    want = {}
    if g:
        want["g"] = g
        t.cover("kept")
    if h:
        want["h"] = h
        t.cover("dropped")
    t.eq(only(tpl, text), want, "records of two groups")


def defaults_only(t, fn, args, want):
    """a group that is not in the text has its defaults; checks treat them as not matched"""
    tpl = '<group name="g*" %s="%s">\nx {{ a | default("0") }}\nb {{ b | default("1") }}\n</group>' % (fn, ", ".join(args))
    s = t.str("s", 1, 3, exclude="\n")
    t.assume(not s.startswith("x"))
    t.assume(not s.startswith("b"))
    got = run(tpl, text(t, s + "\n"))
    t.eq(got, [[{"g": [{"a": "0", "b": "1"}]} if want else {}]] if len(s) else [[]], "defaults")


CHECKS = [("contains", ["b"]), ("contains", ["b", "c"]), ("contains", ["c", "d"]), ("containsall", ["b", "d"]), ("containsall", ["c", "a"]), ("containsall", ["b", "c", "d"]),
          ("exclude", ["b"]), ("exclude", ["c", "d"]), ("exclude", ["b", "c", "d"]), ("excludeall", ["b", "d"]), ("excludeall", ["b", "c"]), ("excludeall", ["b", "c", "d"]), ("excludeall", ["d"]),
          ("contains", ["zz"]), ("exclude", ["zz"]), ("excludeall", ["b", "zz"]), ("containsall", ["b", "zz"]), ("excludeall", ["d", "b"])]
VALS = [("equal", ["b", "mn"]), ("equal", ["b", "w"]), ("equal", ["c", "dd"]), ("equal", ["d", "1,2"]), ("equal", ["zz", "mn"]), ("exclude_val", ["b", "mn"]), ("exclude_val", ["b", "w"]),
        ("exclude_val", ["c", "dd"]), ("exclude_val", ["d", "p,q"]), ("exclude_val", ["zz", "mn"]), ("contains_val", ["a", "m"]), ("contains_val", ["b", "mn"]), ("contains_val", ["b", "w"]),
        ("contains_val", ["c", "d"]), ("contains_val", ["c", "wlong"])]
CHAINS = [[("contains", ["b"]), ("del", ["b"])], [("del", ["b"]), ("contains", ["b"])], [("del", ["b", "d"]), ("exclude", ["b"])], [("exclude", ["b"]), ("del", ["c"])],
          [("contains", ["b", "c"]), ("exclude", ["d"])], [("containsall", ["b"]), ("del", ["b"]), ("excludeall", ["b"])], [("set", ["v", "t"]), ("equal", ["t", "v"])],
          [("equal", ["t", "v"]), ("set", ["v", "t"])], [("exclude_val", ["b", "mn"]), ("set", ["mn", "b"])], [("set", ["mn", "b"]), ("exclude_val", ["b", "mn"])],
          [("void", []), ("contains", ["a"])], [("contains", ["d"]), ("contains", ["b"]), ("contains", ["c"])], [("contains_val", ["a", "m"]), ("del", ["a"])]]


def schema(t, fn, opts, n, missing):
    """validation against a schema: the library gets the record, the schema and the options; its verdict decides"""
    _Validator.calls = []
    args = ["'sch'"] + ["%s=%r" % kv for kv in sorted(opts.items())]
    tpl = ("" if missing else "<vars>\nsch = {'b': {'type': 'string'}}\n</vars>\n") + "<group name='g*' %s=\"%s\">\nx {{ a }}\nb {{ b }}\n</group>" % (fn, ", ".join(args))
    text, want, docs = "", [], []
    for i in range(n):
        a = t.char("a%d" % i, exclude=NONSPACE_EXCL)
        text = text + "x " + a + "\n"
        r = {"a": a}
        if t.bool("has%d" % i):
            r["b"] = t.char("b%d" % i, alphabet="0k{")
            text = text + "b " + r["b"] + "\n"
        docs.append(dict(r))
        ok = not ("b" in r and r["b"] == "0")
        errors = {} if ok else {"b": [r["b"]]}
        if missing:
            ok = True
        elif fn == "validate":
            r[opts.get("result", "valid")] = ok
            if "info" in opts:
                r["info"] = "of " + a
            if "errors" in opts:
                r[opts["errors"]] = errors
            ok = True
        elif opts.get("add_errors") and not ok:
            r["validation_errors"] = errors
            ok = True
        if ok:
            want.append(r)
        t.cover("kept" if ok else "dropped")
    got = only(tpl, text).get("g", [])
    t.eq(got, want, "records of %s" % fn)
    t.eq([c[0] for c in _Validator.calls], [] if missing else docs, "documents given to the library")
    for c in _Validator.calls:
        t.check(c[1] == {"b": {"type": "string"}} and c[2] is opts.get("allow_unknown", True), "schema and options")


def large(t, fn):
    """many names in one check, many checks"""
    names = ["n" + c for c in "abcdefghij"]
    has = {n: t.bool("has_" + n) for n in ("na", "ne", "nj")}
    there = [n for n in names if has.get(n, fn not in ("contains", "exclude"))]
    v = t.char("v", exclude=NONSPACE_EXCL)
    if fn == "equals":
        attr = 'functions="%s"' % " | ".join("contains_val(%s, x)" % n for n in names)
        ok = len(there) == 10
    else:
        attr = '%s="%s"' % (fn, ", ".join(names))
        ok = {"contains": len(there) > 0, "containsall": len(there) == 10, "exclude": not there, "excludeall": len(there) < 10}[fn]
    tpl = '<group name="g*" %s>\ni {{ i }}\n' % attr + "\n".join("%s {{ %s }}" % (n, n) for n in names) + "\n</group>"
    data = "i " + v + "\n" + "".join(n + " x\n" for n in there)
    t.eq(only(tpl, data), {"g": [dict([("i", v)] + [(n, "x") for n in there])]} if ok else {}, "many names in " + fn)


def jobs(tier):
    th = tier == "thorough"
    n, hi = (3, 3) if th else (2, 2)
    out = []
    for fn, args in CHECKS:
        out.append(("one", {"how": "attr", "fn": fn, "args": args, "n": n, "hi": 1 if not th else 2}))
        if len(args) > 1:
            for how in ("bare", "functions"):
                out.append(("one", {"how": how, "fn": fn, "args": args, "n": 2, "hi": 1}))
    for how in ("chain", "var", "list var", "bare"):
        out.append(("one", {"how": how, "fn": "contains", "args": ["b", "d"], "n": 2, "hi": 1}))
        out.append(("one", {"how": how, "fn": "excludeall", "args": ["b", "d"], "n": 2, "hi": 1}))
    out.append(("one", {"how": "attr", "fn": "containsall", "args": ["e", "b"], "n": n, "hi": 1, "lines": "be"}))
    out.append(("one", {"how": "attr", "fn": "exclude", "args": ["e"], "n": 3, "hi": 1, "lines": "be"}))
    for fn, args in VALS:
        for how in ("attr", "bare", "functions") if "," not in args[1] and " " not in args[1] else ("attr", "functions"):
            out.append(("one", {"how": how, "fn": fn, "args": args, "n": n if how == "attr" else 1, "hi": 3, "lines": args[0] if args[0] in "bcd" else "b"}))
    for fn in ("equal", "exclude_val", "contains_val"):
        for how in ("attr", "chain"):
            out.append(("var_val", {"fn": fn, "how": how, "n": n, "hi": 2}))
    out.append(("one", {"how": "attr", "fn": "void", "args": [], "n": 2, "hi": 1}))
    out.append(("one", {"how": "functions", "fn": "void", "args": [], "n": 2, "hi": 1}))
    for c in CHAINS:
        for how in ("functions", "chain", "var", "list var", "two attrs"):
            out.append(("seq", {"how": how, "fns": c, "n": 2 if how == "functions" or th else 1, "hi": 2 if th or "'mn'" in str(c) else 1}))
    for name in ("g", None, "p.q*", "g.{{ a }}", "g*"):
        for fn, args in (("contains", ["b"]), ("exclude_val", ["b", "mn"]), ("containsall", ["a", "b"])):
            if name == "g*":
                out.append(("one", {"how": "attr", "fn": fn, "args": args, "n": 3 + th, "hi": 2, "lines": "b"}))
            else:
                out.append(("placed", {"name": name, "fn": fn, "args": args, "n": 3 + th, "hi": 2}))
    for fn, args in (("contains", ["b"]), ("exclude", ["b"]), ("equal", ["b", "mn"]), ("void", [])):
        out.append(("child", {"fn": fn, "args": args, "hi": 2}))
    for fn, args in (("contains", ["b"]), ("exclude", ["b"]), ("equal", ["b", "mn"])):
        out.append(("parent", {"fn": fn, "args": args, "hi": 2}))
    out.append(("two_groups", {"hi": 2}))
    for fn, opts in (("cerberus", {}), ("cerberus", {"add_errors": True}), ("cerberus", {"allow_unknown": False, "log_errors": True}), ("cerberus", {"log_errors": True, "add_errors": True}),
                     ("validate", {}), ("validate", {"result": "ok", "errors": "err"}), ("validate", {"info": "of {a}"}), ("validate", {"info": "of {a}", "errors": "e", "allow_unknown": False})):
        out.append(("schema", {"fn": fn, "opts": opts, "n": 3 + th, "missing": False}))
    out += [("schema", {"fn": f, "opts": {}, "n": 2, "missing": True}) for f in ("cerberus", "validate")]
    out += [("defaults_only", {"fn": f, "args": a, "want": w}) for f, a, w in (("contains", ["a"], False), ("exclude", ["a", "b"], True), ("containsall", ["b"], False), ("excludeall", ["a"], True),
                                                                               ("equal", ["a", "'0'"], True), ("void", [], False))]
    out += [("large", {"fn": f}) for f in ("contains", "containsall", "exclude", "excludeall", "equals")]
    return out
