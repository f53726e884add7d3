"""P06: dynamic path keys are the matched text."""
from hlib import *

COVERS = ["repeated key", "distinct keys", "no value", "earlier record", "variable", "integer key"]
BOUNDS = {
    "quick": "keys of 1-2 arbitrary non-blank characters (4 in single-record jobs), up to 6 lines or 4 records, path shapes g.{{k}}, {{k}}, {{k}}*, {{k}}**, p{{k}}s, two variables in an item, "
             "two items, below a list, nested child groups; key from the record, an earlier record, template variables or nowhere" "; cases beyond usual size (9-20 of a kind): many keys, one of them again",
    "thorough": "as quick with 5 records and keys of up to 5 characters",
}

SH = {  # path -> (expected nesting, star)
    "g.{{ k }}": (["g", 0], ""),
    "{{ k }}": ([0], ""),
    "g.{{ k }}*": (["g", 0], "*"),
    "g.{{ k }}**": (["g", 0], "**"),
    "{{ k }}.z": ([0, "z"], ""),
    "g*.{{ k }}": (["g*", 0], ""),
    "g.p{{ k }}s": (["g", "p%ss"], ""),
    "g.{{k}}": (["g", 0], ""),
    "a.{{ k }}.z*": (["a", 0, "z"], "*"),
}


def put(root, path, star, key, rec):
    """path items: text, 0 (the key), 'p%s' (text around the key)"""
    cur = root
    for i, it in enumerate(path):
        last = i == len(path) - 1
        aslst = isinstance(it, str) and it.endswith("*")
        if it == 0:
            n = key
        elif "%s" in it:
            n = it[:it.index("%s")] + key + it[it.index("%s") + 2:]
        else:
            n = it.rstrip("*")
        if isinstance(cur, list):
            cur = cur[-1]
        if last:
            if n not in cur:
                cur[n] = [dict(rec)] if star == "*" else dict(rec)
            elif isinstance(cur[n], list):
                cur[n].append(dict(rec))
            elif star == "**":
                for f in rec:
                    if f not in cur[n]:
                        cur[n][f] = rec[f]
            else:
                cur[n] = [cur[n], dict(rec)]
            return
        if n not in cur:
            cur[n] = [{}] if aslst else {}
        cur = cur[n]


def shape(t, path, n, klen):
    """n records whose keys are matched texts"""
    nest, star = SH[path]
    data = ""
    root = {}
    keys = []
    for i in range(n):
        k = t.str("k%d" % i, 1, klen, exclude=NONSPACE_EXCL)
        b = t.char("b%d" % i, exclude=NONSPACE_EXCL)
        data = data + "i " + k + "\n d " + b + "\n"
        keys.append(k)
        put(root, nest, star, k, {"b": b})
    text(t, data)
    got = only('<group name="%s">\ni {{ k }}\n d {{ b }}\n</group>' % path, data)
    if n > 1:
        t.cover("repeated key" if keys[0] == keys[1] else "distinct keys")
    t.eq(got, root, "records under %s" % path)


def two(t, klen):
    """two variables in one path item, two dynamic items"""
    a = t.str("a", 1, klen, exclude=NONSPACE_EXCL)
    b = t.str("b", 1, klen, exclude=NONSPACE_EXCL)
    mode = t.choice("mode", ["{{ a }}-{{ b }}", "{{ a }}.{{ b }}", "{{ b }}.x{{ a }}*", "{{ a }}.{{ a }}", "{{a}}-{{b}}", "{{a}}{{ b }}*", "g.{{b  }}{{b}}/{{  a}}"])
    data = "i " + a + " " + b + " 7\n"
    tpl = '<group name="%s">\ni {{ a }} {{ b }} {{ c }}\n</group>' % mode
    got = only(tpl, data)
    rec = {"c": "7"}
    want = {"{{ a }}-{{ b }}": lambda: {a + "-" + b: rec}, "{{ a }}.{{ b }}": lambda: {a: {b: rec}}, "{{ b }}.x{{ a }}*": lambda: {b: {"x" + a: [rec]}},
            "{{ a }}.{{ a }}": lambda: {a: {a: {"b": b, "c": "7"}}}, "{{a}}-{{b}}": lambda: {a + "-" + b: rec}, "{{a}}{{ b }}*": lambda: {a + b: [rec]},
            "g.{{b  }}{{b}}/{{  a}}": lambda: {"g": {b + b + "/" + a: rec}}}[mode]()
    t.eq(got, want, "two dynamic names")


def sources(t, k, path):
    """the key comes from the record, else from an earlier record, else from
    template variables, else the record is dropped"""
    var = t.choice("var", [False, True])
    vk = t.str("vk", 1, 1, exclude=NONSPACE_EXCL) if var else None
    cache = None
    data = ""
    root = {}
    rec = None
    recs = []
    for i in range(k):
        kind = t.pick(t.char("l%d" % i, alphabet="ki"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        if kind == "i":
            data = data + "i " + v + "\n"
            rec = {"a": v}
            recs.append(rec)
        else:
            data = data + " k " + v + "\n"
            if rec is not None and "k" not in rec:
                rec["k"] = v
    for rec in recs:
        if "k" in rec:
            key = cache = rec["k"]
            t.cover("distinct keys")
        elif cache is not None:
            key = cache
            t.cover("earlier record")
        elif var:
            key = vk
            t.cover("variable")
        else:
            t.cover("no value")
            continue
        put(root, SH[path][0], SH[path][1], key, {"a": rec["a"]})
    kw = {"vars": {"k": vk}} if var else {}
    got = only('<group name="%s">\ni {{ a }}\n k {{ k }}\n</group>' % path, data, **kw)
    t.eq(got, root, "key sources")


def nested(t, n):
    """child groups under dynamic parents: the key of the parent is that of
    the last parent record"""
    child = t.choice("child", ["z", "z*", "{{ k2 }}", "z.{{ k2 }}*"])
    data = ""
    root = {}
    cur = None
    for i in range(n):
        kind = "i" if i == 0 else t.pick(t.char("l%d" % i, alphabet="ic"))
        v = t.char("v%d" % i, exclude=NONSPACE_EXCL)
        b = t.char("b%d" % i, exclude=NONSPACE_EXCL)
        if kind == "i":
            data = data + "i " + v + " " + b + "\n"
            if v in root:
                if isinstance(root[v], list):
                    root[v].append({"b": b})
                else:
                    root[v] = [root[v], {"b": b}]
            else:
                root[v] = {"b": b}
            cur = root[v][-1] if isinstance(root[v], list) else root[v]
        else:
            data = data + " c " + v + " " + b + "\n"
            if child[0] == "z" and child[-1] == "*" and "." in child:
                put(cur, ["z", 0], "*", v, {"y": b})
            elif child[0] == "{":
                t.assume(v != "b")          # the key of a value of the parent
                put(cur, [0], "", v, {"y": b})
            else:
                put(cur, ["z"], child[1:], v, {"k2": v, "y": b})
    tpl = '<group name="{{ k }}">\ni {{ k }} {{ b }}\n<group name="%s">\n c {{ k2 }} {{ y }}\n</group>\n</group>' % child
    t.eq(only(tpl, data), root, "children of dynamic parents")


def ints(t, path, n, klen):
    """dynamic_path_key_to_int: keys of decimal digits are integers, no other"""
    nest, star = SH[path]
    data = ""
    root = {}
    for i in range(n):
        k = t.str("k%d" % i, 1, klen, alphabet="0123456789\u00b2\u0663a-+._")
        b = t.char("b%d" % i, exclude=NONSPACE_EXCL)
        data = data + "i " + k + "\n d " + b + "\n"
        dec = True
        for c in k:
            if c not in "0123456789\u0663":
                dec = False
        if dec:
            k = int(k)
            t.cover("integer key")
        put(root, nest, star, k, {"b": b})
    got = only('<group name="%s">\ni {{ k }}\n d {{ b }}\n</group>' % path, data, dynamic_path_key_to_int=True)
    t.eq(got, root, "integer keys")


def absolute(t, klen):
    """absolute dynamic path of a child"""
    v = t.str("v", 1, klen, exclude=NONSPACE_EXCL)
    w = t.str("w", 1, klen, exclude=NONSPACE_EXCL)
    data = "i 1\n c " + v + " a\n c " + w + " b\n"
    tpl = '<group name="g*">\ni {{ a }}\n<group name="/n.{{ k }}">\n c {{ k }} {{ b }}\n</group>\n</group>'
    n = {v: {"b": "a"}}
    if v == w:
        n = {v: [{"b": "a"}, {"b": "b"}]}
    else:
        n[w] = {"b": "b"}
    t.eq(only(tpl, data), {"g": [{"a": "1"}], "n": n}, "absolute dynamic path")


def defaulted(t):
    """key with a default, key converted to a number, key set by a function"""
    mode = t.choice("mode", ["default", "to_int", "set"])
    v = t.char("v", exclude=NONSPACE_EXCL)
    has = t.choice("has", [True, False])
    data = "i 1\n" + (" k " + v + "\n" if has else "")
    if mode == "default":
        tpl = '<group name="{{ k }}">\ni {{ a }}\n k {{ k | default("dk") }}\n</group>'
        key = v if has else "dk"
    elif mode == "to_int":
        tpl = '<group name="{{ k }}">\ni {{ a }}\n k {{ k | to_int }}\n</group>'
        key = v if has else None
        t.assume(v not in "\u0663")
    else:
        tpl = '<group name="{{ k }}">\ni {{ a | let("k", "lk") }}\n k {{ c }}\n</group>'
        key = "lk"
    rec = {"a": "1"}
    if mode == "set" and has:
        rec["c"] = v
    want = {} if key is None else {key: rec}
    t.eq(only(tpl, data), want, "key by functions")


def large(t, path):
    """many keys, one of them again"""
    k = t.str("k", 1, 2, exclude=NONSPACE_EXCL)
    nest, star = SH[path]
    data, root = "", {}
    for i in range(14):
        key = k if i in (4, 12) else "k%d" % i
        data += "i %s\n d %d\n" % (key, i)
        put(root, nest, star, key, {"b": "%d" % i})
    t.eq(only('<group name="%s">\ni {{ k }}\n d {{ b }}\n</group>' % path, data), root, "many keys under %s" % path)


def jobs(tier):
    d = tier == "thorough"
    out = []
    for p in SH:
        out.append(("shape", {"path": p, "n": 1, "klen": 5 if d else 4}))
        out.append(("shape", {"path": p, "n": 2, "klen": 2}))
        out.append(("shape", {"path": p, "n": 5 if d else 4, "klen": 1}))
    out += [("two", {"klen": 3})]
    out += [("two", {"klen": 5})] if d else []
    for p in ("g.{{ k }}", "g.{{ k }}*"):
        out.append(("sources", {"k": 7 if d else 6, "path": p}))
    out.append(("nested", {"n": 5 if d else 4}))
    for p in ("g.{{ k }}", "g.{{ k }}*", "g.{{ k }}**", "a.{{ k }}.z*"):
        out.append(("ints", {"path": p, "n": 2, "klen": 2}))
        out.append(("ints", {"path": p, "n": 1, "klen": 5 if d else 4}))
    out += [("absolute", {"klen": 3 if d else 2}), ("defaulted", {})]
    out += [("large", {"path": p}) for p in ("g.{{ k }}", "g.{{ k }}*", "g.{{ k }}**")]
    return out
