"""P19: template variables hold the right value for every input."""
import sys
from hlib import *

COVERS = ["recorded by an earlier input", "recorded by this input", "not recorded", "counted", "variables saved", "literal"]
BOUNDS = {
    "quick": "1-3 inputs of up to 3 lines (every presence of every line), values of 1-2 characters; variables from tags and from the API under 8 path shapes, dictionaries and lists with results added below them; "
             "record/set of matches and of groups, conditional and unconditional set, defaults naming variables, count with start values, functions evaluated per input, two parses" "; cases beyond usual size (9-20 of a kind): many inputs, many variables",
    "thorough": "1-3 inputs of up to 4 lines, values of 1-3 characters",
}


def val(t, name, hi=1, exclude=""):
    return t.str(name, 1, hi, exclude=NONSPACE_EXCL + exclude)


def go(template, texts, api=None, late=None, **kw):
    p = ttp(template=template, log_level="CRITICAL", **({"vars": api} if api else {}), **kw)
    if late:
        p.add_vars(late)
    for x in texts:
        p.add_input(x)
    p.parse(one=True)
    return p


def distinct(t, texts):
    """equal texts are one input"""
    for i in range(len(texts)):
        for j in range(i):
            t.assume(texts[i] != texts[j])


G = '<group name="g*">\nx {{ x }}\n</group>\n'


def nest(path, v, r):
    """path of names -> r with v saved there"""
    p = [k for k in path.split(".")]
    for k in p[:-1]:
        k = k.rstrip("*")
        r = r.setdefault(k, {})
    k = p[-1]
    if k.endswith("**"):
        r.setdefault(k[:-2], {}).update(v)
    elif k.endswith("*"):
        r.setdefault(k[:-1], []).append(v)
    elif k in r:
        r[k] = [r[k], v]
    else:
        r[k] = v


def saved(t, path, real, how, n, hi):
    """variables of a tag are saved under its path in each input's results and nowhere else"""
    v = val(t, "v", hi)
    w = val(t, "w", hi)
    xs = [val(t, "x%d" % i, hi) for i in range(n)]
    tpl = '<vars name="%s">\na = "A"\nb = "B"\nkey = "K"\n</vars>\n<vars>\nhidden = "H"\n</vars>\n<vars name="other">\nc = "C"\n</vars>\n%s' % (path, G)
    texts = ["x %s\n" % x for x in xs]
    distinct(t, texts)
    a, h = "A", "H"
    if how == "tag":
        p = go(tpl, texts)
    elif how == "api":
        p = go(tpl, texts, api={"a": v, "extra": w})       # tags override the constructor's
    else:
        p = go(tpl, texts, late={"a": v, "hidden": w, "new": w})
        a = v
    want = []
    for x in xs:
        r = {}
        nest(real, {"a": a, "b": "B", "key": "K"}, r)
        nest("other", {"c": "C"}, r)
        r["g"] = [{"x": x}]
        want.append(r)
    t.eq(p.result(), [want], "variables in results")
    t.cover("variables saved")


def dynamic(t, hi, src):
    """a path with a variable's value, taken from API, template or record; tags are saved before groups"""
    v = val(t, "v", hi, exclude=".*_")
    tpl = '<vars name="v**.{{ h }}">\nh = "H"\nb = "B"\n</vars>\n<group name="g*">\nx {{ x | record("h") }}\n</group>\n'
    if src == "api":
        p = go(tpl, ["x 1\n"], late={"h": v})
        x = "1"
        key = "1"
    else:
        p = go(tpl, ["x %s\n" % v])
        x, key = v, v
    t.eq(p.result(), [[{"v": {key: {"b": "B"}}, "g": [{"x": x}]}]], "dynamic path of variables")
    t.cover("variables saved")


def two_tags(t, same):
    """two tags with one path are saved together; with two paths each variable under its own"""
    v = val(t, "v", 2)
    tpl = '<vars name="p">\na = "A"\nc = "C"\n</vars>\n<vars name="%s">\nb = "B"\na = "A2"\n</vars>\n%s' % ("p" if same else "q", G)
    p = go(tpl, ["x %s\n" % v])
    r = {"p": {"a": "A2", "b": "B", "c": "C"}} if same else {"p": {"a": "A2", "c": "C"}, "q": {"a": "A2", "b": "B"}}
    r["g"] = [{"x": v}]
    t.eq(p.result(), [[r]], "two tags")
    t.cover("variables saved")


def final_value(t, n, hi):
    """a saved variable holds what this input recorded last, else what the template gives"""
    tpl = '<vars name="v">\na = "A"\n</vars>\n<group name="g*">\nx {{ x }}\ny {{ y | record("a") }}\n</group>\n'
    texts, want = [], []
    for i in range(n):
        text, recs, a = "", [], "A"
        for j in range(2):
            if j and not t.bool("rec%d" % i):
                continue
            x = val(t, "x%d%d" % (i, j))
            text += "x %s\n" % x
            r = {"x": x}
            if t.bool("y%d%d" % (i, j)):
                a = val(t, "a%d%d" % (i, j), hi)
                text += "y %s\n" % a
                r["y"] = a
                t.cover("recorded by this input")
            recs.append(r)
        texts.append(text)
        if a == "A":
            t.cover("not recorded")
        want.append({"v": {"a": a}, "g": recs})
    distinct(t, texts)
    p = go(tpl, texts)
    t.eq(p.result(), [want], "recorded values in results")
    t.eq(p._templates[0].vars["a"], "A", "the template's own variable")


# ---- set of a match, defaults: this input's value, else one recorded by an earlier input, else the name itself
def lookups(t, kind, defined, n, hi, parses=1):
    tag = '<vars>\nV = "base"\nz = "other"\n</vars>\n' if defined else '<vars>\nz = "other"\n</vars>\n'
    if kind == "cond":
        line = 'm {{ s | set("V") }}'
    elif kind == "uncond":
        line = '{{ s | set("V") }}'
    elif kind == "default":
        line = 'm {{ s | default("V") }}'
    elif kind in ("append", "prepend"):
        line = 'm {{ s | %s("V") }}' % kind
    else:
        line = ""
    attr = {"gset": ' set="V, s"', "gset_def": ' set="V, s, dd"', "gset_self": ' set="V"', "sformat": ' sformat="\'+{V}\', s"', "gset_kw": ' set="V, s, default=\'d d\'"'}.get(kind, "")
    tpl = tag + '<group name="r*">\na {{ a | record("V") }}\n</group>\n<group name="g*"%s>\nx {{ x }}\n%s\n</group>\n' % (attr, line)
    p = ttp(template=tpl, log_level="CRITICAL")
    glob = None
    want, texts = [], []
    for i in range(n):
        text, loc, r = "", ("base" if defined else None), {}
        for j in range(2 if n < 3 else 1):
            if t.bool("a%d%d" % (i, j)):
                v = val(t, "v%d%d" % (i, j), hi)
                text += "a %s\n" % v
                r.setdefault("r", []).append({"a": v})
                loc = glob = v
        x = "%dx" % i
        text += "x %s\n" % x
        rec = {"x": x}
        if loc is not None:
            s = loc
            t.cover("not recorded" if "r" not in r else "recorded by this input")
        elif glob is not None:
            s = glob
            t.cover("recorded by an earlier input")
        elif kind == "gset_def":
            s = "dd"
        elif kind == "gset_kw":
            s = "d d"
        else:
            s = "V"
            t.cover("literal")
            if kind == "sformat":
                s = None
        if kind == "cond":
            if t.bool("m%d" % i):
                text += "m \n"
                rec["s"] = s
        elif kind == "default":
            if t.bool("m%d" % i):
                d = val(t, "d%d" % i)
                t.assume(d != "V" and d != "z")
                text += "m %s\n" % d
                rec["s"] = d
            else:
                rec["s"] = s
        elif kind in ("append", "prepend"):
            if t.bool("m%d" % i):
                d = val(t, "d%d" % i)
                text += "m %s\n" % d
                rec["s"] = d + s if kind == "append" else s + d
        elif kind == "sformat":
            if s is not None:
                rec["s"] = "+" + s
        elif kind == "gset_self":
            rec["V"] = s
        else:
            rec["s"] = s
        r["g"] = [rec]
        want.append(r)
        texts.append(text)
    distinct(t, texts)
    for i, x in enumerate(texts):
        p.add_input(x)
        if parses > 1:
            p.parse(one=True)
            p.clear_input()
    if parses == 1:
        p.parse(one=True)
        t.eq(p.result(), [want], "value set")
    else:
        t.eq(p.result(), [want], "value set, one parse per input")


def group_record(t, n, hi, kind, target):
    """group record and set: records see what records before them recorded, in the order of the text"""
    tg = ", T" if target else ""
    name = "T" if target else "a"
    st = {"plain": '%s, s' % name, "default": "%s, s, 'dd'" % name, "kwargs": "source=%s, target=s, default=dd" % name}[kind]
    if kind == "kwargs":
        st = "source='%s', target='s', default='dd'" % name
    tpl = '<group name="top*">\nt {{ t }}\n<group name="r*" record="a%s">\nx {{ x }}\na {{ a }}\n</group>\n<group name="g*" set="%s">\ny {{ y }}\n</group>\n</group>\n' % (tg, st)
    texts, want, glob = [], [], None
    for i in range(n):
        text, loc = "t %d\n" % i, None
        top = {"t": str(i)}
        for j in range(2 if n > 1 else 3):
            k = t.choice("k%d%d" % (i, j), ["r", "ra", "g"])
            if k == "g":
                y = val(t, "y%d%d" % (i, j))
                text += "y %s\n" % y
                if loc is not None:
                    s = loc
                    t.cover("recorded by this input")
                elif glob is not None:
                    s = glob
                    t.cover("recorded by an earlier input")
                else:
                    s = name if kind == "plain" else "dd"
                    t.cover("literal")
                top.setdefault("g", []).append({"y": y, "s": s})
            else:
                r = {"x": "1"}
                text += "x 1\n"
                if k == "ra":
                    loc = glob = val(t, "v%d%d" % (i, j), hi)
                    text += "a %s\n" % loc
                    r["a"] = loc
                top.setdefault("r", []).append(r)
        texts.append(text)
        want.append({"top": [top]})
    t.eq(go(tpl, texts).result(), [want], "group record and set")


def group_record_before_set(t, hi):
    """record and set of one group: a record without the value has the value recorded by the record before it"""
    tpl = '<group name="r*" functions="record(\'a\', \'T\') | set(\'T\', \'s\', \'dd\')">\nx {{ x }}\na {{ a }}\n</group>\n'
    text, recs, loc = "", [], None
    for j in range(3):
        x = "%d" % j
        text += "x %s\n" % x
        r = {"x": x}
        if t.bool("a%d" % j):
            loc = val(t, "v%d" % j, hi)
            text += "a %s\n" % loc
            r["a"] = loc
            t.cover("recorded by this input")
        r["s"] = "dd" if loc is None else loc
        recs.append(r)
    t.eq(go(tpl, [text]).result(), [[{"r": recs}]], "record then set")


def counting(t, n, start, lines, check):
    """count counts the matches that pass the checks before it, per input and over inputs"""
    ck = " | notequal('no')" if check else ""
    tag = '<vars name="v">\nc = %d\n</vars>\n' % start if start is not None else ""
    tpl = tag + '<group name="g*">\nx {{ x%s | count(var="c", globvar="tot") }}\nz {{ z | count("only") }}\n</group>\n' % ck + \
        '<group name="end" set="tot, total, default=\'none\'">\nend {{ e }}\n</group>\n<group name="loc" set="c, count, default=\'none\'">\nloc {{ l }}\n</group>\n'
    texts, want, tot = [], [], 0
    for i in range(n):
        text, c, recs = "", start or 0, []
        for j in range(lines):
            k = t.choice("k%d%d" % (i, j), ["x", "-", "no"] if check else ["x", "-"])
            if k == "x":
                x = val(t, "x%d%d" % (i, j), 1)
                text += "x %s\n" % x
                recs.append({"x": x})
                c += 1
                tot += 1
                t.cover("counted")
            elif k == "no":
                text += "x no\n"
            else:
                text += "- \n"
        text += "end %d\nloc %d\n" % (i, i)
        r = {"end": {"e": str(i), "total": tot if tot else "none"}, "loc": {"l": str(i), "count": c if c or start is not None else "none"}}
        if recs:
            r["g"] = recs
        if start is not None:
            r["v"] = {"c": c}
        texts.append(text)
        want.append(r)
    t.eq(go(tpl, texts).result(), [want], "counts")


# ---- dictionaries and lists in variables are not shared by results
def containers(t, shape, n, hi):
    xs = [val(t, "x%d" % i, hi) for i in range(n)]
    has = [t.bool("y%d" % i) for i in range(n)]
    ys = [val(t, "y%d_" % i, hi) if h else None for i, h in enumerate(has)]
    if shape == "saved":
        tpl = '<vars name="a">\nb = {"q": "1"}\n</vars>\n<group name="g*">\nx {{ x }}\n</group>\n<group name="a.b.d">\ny {{ y }}\n</group>\n'
        ref = lambda x, y: {"a": {"b": dict(q="1", **({"d": {"y": y}} if y is not None else {}))}, "g": [{"x": x}]}
    elif shape == "saved list":
        tpl = '<vars name="a">\nb = [{"q": "1"}]\n</vars>\n<group name="g*">\nx {{ x }}\n</group>\n<group name="a.b*">\ny {{ y }}\n</group>\n'
        ref = lambda x, y: {"a": {"b": [{"q": "1"}] + ([{"y": y}] if y is not None else [])}, "g": [{"x": x}]}
    elif shape == "set":
        tpl = '<vars>\nb = {"q": "1"}\n</vars>\n<group name="g">\nx {{ x }}\n{{ q | set(b) }}\n<group name="q.w">\ny {{ y }}\n</group>\n</group>\n'
        ref = lambda x, y: {"g": {"x": x, "q": dict(q="1", **({"w": {"y": y}} if y is not None else {}))}}
    elif shape == "group set":
        tpl = '<vars>\nb = {"q": {"e": "1"}}\n</vars>\n<group name="g" set="b, q">\nx {{ x }}\n<group name="q.q.w">\ny {{ y }}\n</group>\n</group>\n'
        ref = lambda x, y: {"g": {"x": x, "q": {"q": dict(e="1", **({"w": {"y": y}} if y is not None else {}))}}}
    else:
        tpl = '<vars>\nb = ["q"]\n</vars>\n<group name="g">\nx {{ x }}\n{{ q | set(b) }}\ny {{ q | joinmatches }}\n</group>\n'
        ref = lambda x, y: {"g": {"x": x, "q": (["q"] if y is None else y)}}
    texts = ["x %s\n" % x + ("y %s\n" % y if y is not None else "") for x, y in zip(xs, ys)]
    distinct(t, texts)
    p = go(tpl, texts)
    want = [ref(x, y) for x, y in zip(xs, ys)]
    t.eq(p.result(), [want], "containers of variables")
    # and again, without the earlier results
    p.clear_result()
    p.parse(one=True)
    t.eq(p.result(), [want], "containers of variables, parsed again")
    t.cover("variables saved")


def two_records(t, how, source, k):
    """nor by records of one input"""
    dflt = '{"e": {"o": "1"}}'
    pre = '<vars>\nb = %s\n</vars>\n' % dflt if source == "tag" else \
        '<macro>\ndef m(data):\n    return %s\n</macro>\n<group name="r*">\na {{ a | macro("m") | record("b") }}\n</group>\n' % dflt
    body = {"cond": 'm {{ q | set("b") }}', "uncond": '{{ q | set("b") }}', "group": "", "default": 'n {{ q | default("b") }}'}[how]
    tpl = pre + '<group name="g*"%s>\nx {{ x }}\n%s\n<group name="q.e.w">\ny {{ y }}\n</group>\n</group>\n' % (' set="b, q"' if how == "group" else "", body)
    one = {"e": {"o": "1"}}
    text, recs = "", []
    for i in range(k):
        text += "x %d\n" % i + ("m\n" if how == "cond" else "")
        r = {"x": str(i), "q": {"e": {"o": "1"}}}
        if t.bool("y%d" % i):
            y = val(t, "v%d" % i)
            text += "y %s\n" % y
            r["q"]["e"]["w"] = {"y": y}
        recs.append(r)
    want = [{"g": recs}]
    texts = [text]
    if source != "tag":
        texts = ["a a\n", text]
        want = [{"r": [{"a": one}]}] + want
    p = go(tpl, texts)
    t.eq(p.result(), [want], "container set in two records")
    p.clear_result()
    p.parse(one=True)
    t.eq(p.result(), [want], "container set in two records, parsed again")
    t.cover("variables saved")


# ---- functions that give a variable's value
def getters(t, kind, n, hi):
    """evaluated for each input; a variable the function has no value for is not there"""
    mod = sys.modules["ttp.ttp"]
    if kind == "file":
        tpl = '<vars name="v">\nf = "getfilename"\na = "A"\n</vars>\n' + G
        xs = [val(t, "x%d" % i, hi) for i in range(n)]
        texts = ["x %s\n" % x for x in xs]
        distinct(t, texts)
        t.eq(go(tpl, texts).result(), [[{"v": {"a": "A", "f": "text_data"}, "g": [{"x": x}]} for x in xs]], "getfilename")
        return
    tpl = '<vars name="v">\nh = "gethostname"\na = "A"\n</vars>\n' + G
    texts, want = [], []
    for i in range(n):
        x = val(t, "x%d" % i, hi, exclude="#>@:<")
        r = {"v": {"a": "A"}, "g": [{"x": x}]}
        text = "x %s\n" % x
        if t.bool("p%d" % i):
            h = t.str("h%d" % i, 1, hi, alphabet="abcXYZ-019._")
            text = h + "#show\n" + text
            r["v"]["h"] = h
        texts.append(text)
        want.append(r)
    distinct(t, texts)
    t.eq(go(tpl, texts).result(), [want], "gethostname per input")


def clock(t, fn, where):
    """functions of the clock give the time of the parse in the documented format"""
    import time
    digits = "0123456789"
    f = {c: t.str("f" + c, 4 if c == "Y" else 2, 4 if c == "Y" else 2, alphabet=digits) for c in "YmdHMS"}
    ms = t.choice("ms", ["0", "5", "25", "125", "999999"])
    ns = t.int("ns", 1, 10 ** 12)

    def strftime(fmt, *a):
        t.eq(a, (), "local time of now")
        out, i = "", 0
        while i < len(fmt):
            if fmt[i] == "%":
                out = out + f[fmt[i + 1]]
                i += 2
            else:
                out = out + fmt[i]
                i += 1
        return out
    date, tm = f["Y"] + "-" + f["m"] + "-" + f["d"], f["H"] + ":" + f["M"] + ":" + f["S"]
    want = {"get_time": tm, "get_date": date, "get_timestamp": date + " " + tm, "get_timestamp_ms": date + " " + tm + "." + ms[:3], "get_time_ns": ns}[fn]
    old = time.strftime, time.time, time.time_ns
    time.strftime, time.time, time.time_ns = strftime, lambda: float("1700000000." + ms), lambda: ns
    try:
        if where == "vars":
            p = go('<vars name="v">\nh = "%s"\na = "A"\n</vars>\n' % fn + G, ["x 1\n", "x 2\n"])
            t.eq(p.result(), [[{"v": {"a": "A", "h": want}, "g": [{"x": "1"}]}, {"v": {"a": "A", "h": want}, "g": [{"x": "2"}]}]], fn)
        else:
            p = go('<vars>\nh = "%s"\n</vars>\n<group name="g*">\nx {{ x }}\n{{ t | set("h") }}\n</group>' % fn, ["x 1\n"])
            t.eq(p.result(), [[{"g": [{"x": "1", "t": want}]}]], fn)
    finally:
        time.strftime, time.time, time.time_ns = old


def registered(t, n, hi):
    """a registered variable function gets each input's text and name and gives the value"""
    seen = []
    vals = [val(t, "v%d" % i, hi) if t.bool("has%d" % i) else None for i in range(n)]

    def fun(data, *a, **k):
        seen.append(data)
        v = vals[len(seen) - 1]
        return False if v is None else v
    p = ttp(log_level="CRITICAL")
    p.add_function(fun, scope="variable", name="myfun")
    p.add_template('<vars name="v">\nh = "myfun"\na = "A"\n</vars>\n' + G)
    texts = ["x %d\n" % i for i in range(n)]
    for x in texts:
        p.add_input(x)
    p.parse(one=True)
    t.eq(len(seen), n, "calls")
    for i in range(n):
        t.check(texts[i] in seen[i], "the text given to the function")
    want = [{"v": dict(a="A", **({"h": v} if v is not None else {})), "g": [{"x": str(i)}]} for i, v in enumerate(vals)]
    t.eq(p.result(), [want], "registered variable function")


def nested(t, hi):
    """variables of the parser object reach every template; variables of a template tag only its own"""
    v, w = val(t, "v", hi), val(t, "w", hi)
    tpl = '<template name="one">\n<vars name="v">\na = "A"\n</vars>\n<group name="g*" set="b, s, default=none">\nx {{ x }}\n{{ y | set("api") }}\n</group>\n</template>\n' + \
          '<template name="two">\n<vars name="v">\nb = "B"\n</vars>\n<group name="g*" set="a, s, default=none">\nx {{ x }}\n{{ y | set("api") }}\n</group>\n</template>\n'
    p = ttp(template=tpl, vars={"api": v}, log_level="CRITICAL")
    p.add_input("x 1\n", template_name="_all_")
    p.parse(one=True)
    g = lambda y: [{"x": "1", "y": y, "s": None}]
    r = p.result()
    for i in (0, 1):
        s = r[i][0]["g"][0].pop("s")
        t.check(s in (None, "none"), "variables of another template")
    t.eq(r, [[{"v": {"a": "A"}, "g": [{"x": "1", "y": v}]}], [{"v": {"b": "B"}, "g": [{"x": "1", "y": v}]}]], "templates")
    p.add_vars({"api": w})
    p.clear_result()
    p.parse(one=True)
    r = p.result()
    for i in (0, 1):
        r[i][0]["g"][0].pop("s")
    t.eq(r, [[{"v": {"a": "A"}, "g": [{"x": "1", "y": w}]}], [{"v": {"b": "B"}, "g": [{"x": "1", "y": w}]}]], "templates, variables added later")
    t.cover("variables saved")


def levels(t, shape, hi):
    """a default that names a variable has the value of this input at every level of nested groups"""
    v, w = val(t, "v", hi), val(t, "w", hi)
    dm = ' | default("V")' if "m" in shape else ""
    do = ' | default("V")' if "o" in shape else ""
    tpl = '<vars>\nV = "base"\n</vars>\n<group name="o">\no {{ o | record("V") }}\nn {{ n%s }}\n<group name="m">\nm {{ m }}\nk {{ k%s }}\n<group name="i*">\ni {{ i }}\nd {{ d | default("V") }}\n</group>\n</group>\n</group>\n' % (do, dm)
    texts, want = [], []
    for j in range(2):
        x = v if j == 0 else w
        text = "o %s\nm m\n" % x
        m = {"m": "m"}
        if dm:
            m["k"] = x
        recs = []
        for i in range(2):
            text += "i %d\n" % i
            r = {"i": str(i), "d": x}
            if i == 0 and t.bool("d%d" % j):
                d = val(t, "d%d_" % j)
                t.assume(d != "V")
                text += "d %s\n" % d
                r["d"] = d
            recs.append(r)
        m["i"] = recs
        o = {"o": x, "m": m}
        if do:
            o["n"] = x
        texts.append(text)
        want.append({"o": o})
    distinct(t, texts)
    t.eq(go(tpl, texts).result(), [want], "defaults of nested groups")
    t.cover("recorded by this input")


def large(t, kind):
    """many inputs, many variables"""
    v, w = val(t, "v"), val(t, "w")
    xs = [v if i == 1 else w if i == 10 else "x%d" % i for i in range(12)]
    t.assume(v != w)
    texts = ["x %s\n" % x for x in xs]
    if kind == "record":        # what the last input recorded is there for the next
        tpl = '<group name="g*">\n{{ y | set("V") }}\nx {{ x | record("V") }}\n</group>\n<group name="h">\nx {{ x }}\n{{ y | set("V") }}\n</group>\n'
        want = [{"g": [{"x": x, "y": x}], "h": {"x": x, "y": x}} for x in xs]
    elif kind == "saved":
        names = ["n%s" % c for c in "abcdefghijkl"]
        tpl = "<vars name='v'>\n" + "".join('%s = "%s!"\n' % (n, n) for n in names) + "</vars>\n" + G
        want = [{"v": {n: n + "!" for n in names}, "g": [{"x": x}]} for x in xs]
    else:
        tpl = '<vars name="v">\nc = 0\n</vars>\n<group name="g*">\nx {{ x | count(var="c", globvar="d") }}\n</group>\n'
        k = 12 if t.bool("long") else 3
        texts = ["".join(texts[:k]) + "y\n", "x q\n"]
        want = [{"v": {"c": k}, "g": [{"x": x} for x in xs[:k]]}, {"v": {"c": 1}, "g": [{"x": "q"}]}]
    t.eq(go(tpl, texts).result(), [want], "many inputs and variables")


def jobs(tier):
    th = tier == "thorough"
    hi = 2 + th
    out = []
    for path, real in (("v", "v"), ("v.w", "v.w"), ("v*", "v*"), ("v**", "v**"), ("v.w*", "v.w*"), ("v**.w", "v**.w"), ("v.{{ key }}", "v.K"), ("v.{{ key }}*", "v.K*")):
        for how in ("tag", "api", "late"):
            if "key" in path:
                continue
            out.append(("saved", (path, real, how, 2, hi)))
    out.append(("dynamic", (hi, "api")))
    out.append(("dynamic", (hi, "record")))
    out.append(("two_tags", (True,)))
    out.append(("two_tags", (False,)))
    out.append(("final_value", (1, hi)))
    for fn in ("get_time", "get_date", "get_timestamp", "get_timestamp_ms", "get_time_ns"):
        out += [("clock", (fn, "vars")), ("clock", (fn, "set"))]
    out.append(("final_value", (2, 1)))
    for kind in ("cond", "uncond", "default", "gset", "gset_def", "gset_self", "gset_kw", "append", "prepend", "sformat"):
        for defined in (True, False):
            out.append(("lookups", (kind, defined, 2, 1 + th)))
            out.append(("lookups", (kind, defined, 3, 1)))
            out.append(("lookups", (kind, defined, 2, 1, 2)))
    for kind in ("plain", "default", "kwargs"):
        for target in (True, False):
            out.append(("group_record", (1, hi, kind, target)))
            out.append(("group_record", (2, 1, kind, target)))
    out.append(("group_record_before_set", (hi,)))
    for start in (None, 0, 5):
        out.append(("counting", (2, start, 2, True)))
        out.append(("counting", (3 if th else 2, start, 3 if th else 2, False)))
    for shape in ("saved", "saved list", "set", "group set", "join"):
        out.append(("containers", (shape, 2, 1)))
        out.append(("containers", (shape, 3, 1)))
    for how in ("cond", "uncond", "group", "default"):
        for source in ("tag", "record"):
            out.append(("two_records", (how, source, 2 + th)))
    out.append(("getters", ("file", 2, hi)))
    out.append(("getters", ("host", 2, hi)))
    out.append(("registered", (2, hi)))
    out.append(("nested", (hi,)))
    for shape in ("i", "mi", "oi", "omi"):
        out.append(("levels", (shape, hi)))
    out += [("large", (k,)) for k in ("record", "saved", "count")]
    return named(globals(), out)
