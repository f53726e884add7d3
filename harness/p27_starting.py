"""P27: library, quick_parse and command line tool give the same results, with and without a saved list of functions."""
import builtins
import json
import json.encoder
import os
import pprint
import sys
from hlib import *
# instrument: json.encoder
# the C accelerator of the json encoder gives way to its Python form
json.encoder.c_make_encoder = None
json.encoder.encode_basestring_ascii = json.encoder.py_encode_basestring_ascii
json.encoder.encode_basestring = json.encoder.py_encode_basestring
json.JSONEncoder = json.encoder.JSONEncoder
json._default_encoder = json.encoder.JSONEncoder()

COVERS = ["saved list used", "saved list of another version", "saved list damaged", "saved", "command line", "quick_parse", "vars", "one template", "prefix"]
BOUNDS = {
    "quick": "saved list of functions absent, unreadable (9 kinds of error on open and load), not a dictionary, without its fields, of any version of up to 4 arbitrary characters and any Python version 0-9, unwritable, written and read again by the next run; "
             "command line with every combination of template file, python file with a named template, data file or directory, prefix, formatter (with and without upper case), structure, templates to print, variables of 0-2 characters (9 different ones); "
             "quick_parse with every combination of arguments; texts with 2 symbolic values of 1 character",
    "thorough": "versions of up to 5 characters, values of up to 3 characters, variables of one arbitrary printable character",
}
ASSUMPTIONS = ["files are read from and written to a virtual directory (isfile, isdir, listdir, open), pickle.load and pickle.dump are stand-ins that keep the object or raise"]

T = sys.modules["ttp.ttp"]
DIR = "/virtual-start-dir/"
FILES = {}
_isf, _isd, _ls, _open, _print = os.path.isfile, os.path.isdir, os.listdir, builtins.open, builtins.print


class Cut(object):
    """a file that was not written to its end"""


class _File(object):
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
        if "w" in mode:
            FILES[name] = Cut

    def read(self):
        return FILES[self.name]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Disk(object):
    open_error = None
    load_error = None
    save_error = None
    loads = 0
    saves = 0

    @classmethod
    def reset(cls):
        cls.open_error = cls.load_error = cls.save_error = None
        cls.loads = cls.saves = 0
        FILES.clear()


def _virtual(p):
    return isinstance(p, str) and p[: len(DIR)] == DIR


def _isfile(p):
    return p[len(DIR):] in FILES if _virtual(p) else _isf(p)


def _isdir(p):
    if _virtual(p):
        return p[-1:] == "/" and any((DIR + f)[: len(p)] == p for f in FILES)
    return _isd(p)


def _listdir(p):
    if _virtual(p):
        return [f[len(p) - len(DIR):] for f in FILES if (DIR + f)[: len(p)] == p]
    return _ls(p)


def _vopen(p, mode="r", *a, **k):
    if not _virtual(p):
        return _open(p, mode, *a, **k)
    if Disk.open_error and "w" not in mode:
        raise Disk.open_error
    if Disk.save_error == "open" and "w" in mode:
        raise OSError("read only")
    return _File(p[len(DIR):], mode)


class Pickle(object):
    """keeps what is saved"""
    PickleError = ValueError

    @staticmethod
    def load(f, *a, **k):
        Disk.loads += 1
        if Disk.load_error:
            raise Disk.load_error
        if FILES[f.name] is Cut:
            raise EOFError("Ran out of input")
        return clone(FILES[f.name])

    @staticmethod
    def dump(x, f, *a, **k):
        if Disk.save_error:
            raise Disk.save_error
        Disk.saves += 1
        FILES[f.name] = clone(x)


def clone(x):
    """as written to a file and read from it: nothing is shared but the file's own references"""
    if not isinstance(x, dict):
        return x
    y = {}
    for k in x:
        v = x[k]
        y[k] = dict(v) if isinstance(v, dict) else v
    for d in y.values():
        if isinstance(d, dict):
            for n in list(d):
                c = d[n]
                if type(c).__name__ == "CachedModule":
                    d[n] = type(c)(c.import_path, c.parent_dir, c.function_name, list(c.parent_module_functions), y)
    return y


_size = os.path.getsize
os.path.getsize = lambda p: 10 if _virtual(p) else _size(p)
os.path.isfile, os.path.isdir, os.listdir, builtins.open = _isfile, _isdir, _listdir, _vopen


class Out(object):
    lines = None


def _vprint(*a, **k):
    Out.lines.append(a[0] if len(a) == 1 and not k else (a, k))



def val(t, name, hi=1):
    return t.str(name, 1, hi, exclude=NONSPACE_EXCL)


# ------------------------------------------------ saved list of functions
TPL = "<group name='g*' functions=\"contains('k') | sformat('{k}!', 'f')\">\nk {{ k | upper | prepend('p') }}\n</group>"


class Saved(object):
    """runs with the list of functions in the virtual directory"""

    def __enter__(self):
        self.env = os.environ.get("TTPCACHEFOLDER")
        self.pickle = T.pickle
        os.environ["TTPCACHEFOLDER"] = DIR
        T.pickle = Pickle
        return self

    def __exit__(self, *a):
        T.pickle = self.pickle
        if self.env is None:
            os.environ.pop("TTPCACHEFOLDER", None)
        else:
            os.environ["TTPCACHEFOLDER"] = self.env
        Disk.reset()
        return False


def once(t, k, what):
    """one run, the functions must be those of the code"""
    r = run(TPL, "k " + k + "\n")
    v = "p" + k.upper()
    t.eq(r, [[{"g": [{"k": v, "f": v + "!"}]}]], what)


def wrong(x):
    """a list of functions of some other code: functions elsewhere and gone"""
    y = clone(x)
    for kind in ("match", "group", "utils", "formatters", "output", "input", "returners", "variable", "lookup"):
        d = y.get(kind)
        if d is None:
            continue
        for n in list(d):
            d[n] = _stale
        d.pop("upper", None)
    return y


def _stale(*a, **k):
    raise RuntimeError("function of another version")


ERRORS = [EOFError("ran out of input"), ValueError("truncated"), KeyError("x"), IndexError("x"), AttributeError("no such class"), ImportError("no module"), UnicodeDecodeError("utf8", b"x", 0, 1, "x"),
          OSError("no permission"), TypeError("x")]


def damaged(t):
    """whatever is in the file, the functions are those of the code"""
    with Saved():
        Disk.reset()
        k = t.str("k", 1, 1, alphabet="ab1-")
        form = t.choice("form", ["absent", "open", "load", "not a dictionary", "fields"])
        f = "ttp_dict_cache.pickle"
        if form == "open":
            FILES[f] = {}
            Disk.open_error = t.choice("error", ERRORS)
        elif form == "load":
            FILES[f] = {}
            Disk.load_error = t.choice("error", ERRORS)
        elif form == "not a dictionary":
            FILES[f] = t.choice("what", [None, [], "text", 1, (), {}])
        elif form == "fields":
            x = {"python_major_version": sys.version_info.major, "__version__": T.__version__, "macro": {}, "global_vars": {}, "template_obj": {}, "vars": {}}
            x.pop(t.choice("gone", ["python_major_version", "__version__"]))
            FILES[f] = x
        Disk.save_error = t.choice("save", [None, "open", OSError("no space left"), ValueError("cannot write")])
        if Disk.save_error == "open":
            pass
        once(t, k, "first run")
        Disk.open_error = Disk.load_error = None
        if form == "open":
            FILES.pop(f, None)
        once(t, k, "next run")
        Disk.save_error = None
        once(t, k, "run after it")
        once(t, k, "last run")
        t.check(Disk.saves > 0, "list of functions saved")
        t.cover("saved list damaged" if form != "absent" else "saved")


def versions(t, hi):
    """a list of functions of another version is not used"""
    with Saved():
        Disk.reset()
        k = t.str("k", 1, 1, alphabet="ab1-")
        f = "ttp_dict_cache.pickle"
        once(t, k, "first run")
        once(t, k, "second run")
        x = FILES[f]
        t.eq([x.get("python_major_version"), x.get("__version__")], [sys.version_info.major, T.__version__], "version of the saved list")
        own = T.__version__
        form = t.choice("form", ["any", "longer", "shorter", "same", "none"])
        if form == "any":
            v = t.str("version", 0, hi, alphabet="0123456789.abrcdevpost+-")
        elif form == "longer":
            v = own + t.str("version", 1, hi, alphabet="0123456789.abrcdevpost+-")
        elif form == "shorter":
            v = own[:t.choice("length", list(range(len(own))))]
        elif form == "none":
            v = None
        else:
            v = own
        major = t.int("major", 0, 9)
        other = not (v == own and major == sys.version_info.major)
        if other:
            x = wrong(x)
        x["__version__"] = v
        x["python_major_version"] = major
        FILES[f] = x
        Disk.saves = 0
        once(t, k, "run with the saved list")
        if other:
            t.check(Disk.saves == 1, "list of another version replaced")
            t.cover("saved list of another version")
        else:
            t.check(Disk.saves == 0, "own list kept")
            t.cover("saved list used")
        once(t, k, "next run")
        once(t, k, "last run")


def kept(t):
    """nothing of one run gets to another one through the saved list"""
    with Saved():
        Disk.reset()
        k, v = t.str("k", 1, 1, alphabet="ab1-"), val(t, "v")
        once(t, k, "first run")
        once(t, k, "second run")
        p = ttp(log_level="CRITICAL")
        if t.bool("function"):
            p.add_function(lambda data: ("own", None), scope="match", name="upper")
            p.add_function(lambda data, *a: ({}, None), scope="group", name="sformat")
        if t.bool("lookup"):
            p.add_lookup("L", text_data="{'a': 'b'}")
        p.add_vars({"upper": v})
        p.add_template("<macro>\ndef upper(data):\n    return 'own'\n</macro>\n" + TPL + "<group name='v'>\nv {{ v | record('q') | macro('upper') }}\n</group>")
        p.add_input("k " + k + "\nv " + v)
        p.parse(one=True)
        once(t, k, "run after it")
        t.eq(run("<group name='v'>\nk {{ k }}\n{{ q | set('q') }}\n{{ u | set('upper') }}\n</group>", "k " + k), [[{"v": {"k": k, "q": "q", "u": "upper"}}]], "nothing left")
        t.cover("saved list used")


# ------------------------------------------------ command line and quick_parse
SEVERAL = "<template name='A'>\n<group name='a*'>\nk {{ k }}\n{{ x | set('var') }}\n</group>\n</template>\n<template name='B'>\n<group name='b'>\nk {{ k }}\n</group>\n</template>\n"


def own(data, template, names=(), structure="list", **kw):
    p = ttp(log_level="CRITICAL", **kw)
    p.add_template(template)
    if data:
        p.set_input(data=data)
    p.parse(one=True)
    return p.result(structure=structure, templates=list(names))


def command(argv):
    """what the command prints"""
    a = sys.argv
    Out.lines = []
    sys.argv = ["ttp"] + argv + ["-l", "CRITICAL"]
    builtins.print = _vprint
    log, hs = T.logging.root.level, list(T.logging.root.handlers)
    try:
        T.cli_tool()
        return Out.lines
    finally:
        builtins.print = _print
        Out.lines = None
        sys.argv = a
        T.logging.root.setLevel(log)
        T.logging.root.handlers[:] = hs


PRINTED = "".join(chr(i) for i in range(33, 127) if chr(i) not in "\"\\")


def cli(t, group, hi):
    Disk.reset()
    k, k2 = t.str("k", 1, hi, alphabet=PRINTED), t.str("k2", 1, 1, alphabet=PRINTED)
    long_ = t.bool("long")
    opt = lambda short, name: "--" + name if long_ else "-" + short
    argv = []
    kw = {}
    data = None
    several = "<group name='a*'>\nk {{ k }}\n{{ x | set('var') }}\n</group>\n"
    if group == "plain":
        FILES["d/one.txt"] = "k " + k + "\n"
        FILES["d/two.log"] = "k " + k2 + "\nk b\n"
        FILES["tpl.txt"] = several
        argv += [opt("t", "template"), DIR + "tpl.txt"]
        data = t.choice("data", [DIR + "d/", DIR + "d/one.txt", DIR + "d/two.log"])
        argv += [opt("d", "data"), data]
        one = {"a": [{"k": k, "x": "var"}]}
        two = {"a": [{"k": k2, "x": "var"}, {"k": "b", "x": "var"}]}
        exp = {DIR + "d/": [one, two], DIR + "d/one.txt": [one], DIR + "d/two.log": [two]}[data]
        name = "_root_template_"
        structure = t.choice("structure", [None, "list", "dictionary", "flat_list"])
        exp = {name: exp} if structure == "dictionary" else exp if structure == "flat_list" else [exp]
        if structure:
            argv += [opt("s", "structure"), structure]
    elif group == "templates":
        FILES["one.txt"] = "k " + k + "\n"
        FILES["tpl.txt"] = SEVERAL.replace("<group", "<input load='text'>\nk " + k + "\n</input>\n<group") if hi == 0 else SEVERAL
        argv += [opt("t", "template"), DIR + "tpl.txt"]
        a, b = [{}], [{}]
        which = t.choice("out", [None, "A", "B", "A,B", "B, A", "C"])
        if which:
            argv += [opt("ot", "out-template"), which]
        names = [n for n in "AB" if not which or n in which]
        # without data nothing is parsed but by the inputs of the templates
        src = "<input load='text'>\nk " + "kv" + "\n</input>\n"
        FILES["tpl.txt"] = SEVERAL.replace("<group name='a*'>", src + "<group name='a*'>").replace("<group name='b'>", src + "<group name='b'>").replace("kv", t.str("kv", 1, 1, alphabet=PRINTED.replace("<", "").replace(">", "").replace("&", "")))
        kv = FILES["tpl.txt"].split("<input load='text'>\nk ")[1].split("\n")[0]
        res = {"A": [{"a": [{"k": kv, "x": "var"}]}], "B": [{"b": {"k": kv}}]}
        structure = t.choice("structure", ["list", "dictionary"])
        argv += [opt("s", "structure"), structure]
        exp = [res[n] for n in names] if structure == "list" else {n: res[n] for n in names}
        t.cover("one template")
    elif group == "vars":
        v = t.str("v", 0, 2 if hi == 1 else 1, alphabet="a 0{:,}-<" if hi == 1 else PRINTED.replace("'", "") + " ")
        FILES["one.txt"] = "k " + k + "\n"
        FILES["tpl.txt"] = several
        argv += [opt("t", "template"), DIR + "tpl.txt", opt("d", "data"), DIR + "one.txt"]
        q = t.choice("quotes", ["'", '"'])
        argv += [opt("v", "vars"), "{" + q + "var" + q + ": " + q + v + q + "}"]
        exp = [[{"a": [{"k": k, "x": v}]}]]
        t.cover("vars")
    elif group == "named":
        FILES["one.txt"] = "k " + k + "\n"
        FILES["tpl.py"] = "t1 = '''\n<group name='b'>\nk {{ k }}\n</group>\n'''\nt2 = '''\n" + several + "'''\n"
        n = t.choice("name", ["t1", "t2"])
        argv += [opt("t", "template"), DIR + "tpl.py", opt("tn", "template-name"), n, opt("d", "data"), DIR + "one.txt"]
        exp = [[{"b": {"k": k}}]] if n == "t1" else [[{"a": [{"k": k, "x": "var"}]}]]
        t.cover("one template")
    else:
        FILES["in/x/one.txt"] = "k " + k + "\n"
        FILES["in/y/two.txt"] = "k " + k2 + "\n"
        FILES["tpl.txt"] = "<input name='i'>\nurl = 'x/'\n</input>\n<input name='j' groups='b'>\nurl = ['y/two.txt', 'x/one.txt']\n</input>\n" + several + "<group name='b' input='j'>\nk {{ k }}\n</group>\n"
        argv += [opt("t", "template"), DIR + "tpl.txt", opt("dp", "data-prefix"), DIR + "in/"]
        exp = [[{"a": [{"k": k, "x": "var"}]}, {"b": {"k": k2}}, {"b": {"k": k}}]]
        t.cover("prefix")
    fmt = t.choice("format", ["json", "raw", "pprint", "none", "JSON", "csv"] if group == "plain" else ["raw", "json"])
    if fmt != "none":
        argv += [opt("o", "outputter"), fmt]
    if t.bool("one"):
        argv.append("--one")
    got = command(argv)
    if fmt == "none":
        t.eq(got, [], "printed without -o")
    elif fmt == "raw":
        t.eq(got, [exp], "printed")
    elif fmt == "pprint":
        t.eq(got, [pprint.pformat(exp, indent=4)], "printed")
    else:
        t.eq(got, [json.dumps(exp, sort_keys=True, indent=4, separators=(",", ": "))], "printed " + fmt)
    t.cover("command line")


def quick(t, hi):
    """quick_parse is the same as the three calls"""
    from ttp import quick_parse
    k, v = val(t, "k", hi), val(t, "v")
    data = "k " + k + "\n" if t.bool("data") else None
    tpl = "<group name='a*'>\nk {{ k }}\n{{ x | set('var') }}\n</group>\n"
    if data is None:
        tpl = "<input load='text'>\nk w\n</input>\n" + tpl
    kw = {"ttp_kwargs": None, "parse_kwargs": None, "result_kwargs": None}
    x = "var"
    if t.bool("vars"):
        kw["ttp_kwargs"] = {"vars": {"var": v}, "log_level": "CRITICAL"}
        x = v
    if t.bool("one"):
        kw["parse_kwargs"] = {"one": True}
    s = t.choice("structure", [None, "list", "dictionary", "flat_list"])
    if s:
        kw["result_kwargs"] = {"structure": s}
    r = {"a": [{"k": k if data else "w", "x": x}]}
    exp = {"_root_template_": [r]} if s == "dictionary" else [r] if s == "flat_list" else [[r]]
    if t.bool("positional"):
        got = quick_parse(data, tpl, kw["ttp_kwargs"], kw["parse_kwargs"], kw["result_kwargs"])
    else:
        got = quick_parse(data=data, template=tpl, **{n: kw[n] for n in kw if kw[n] is not None})
    t.eq(got, exp, "quick_parse")
    t.cover("quick_parse")


def jobs(tier):
    hi = 3 if tier == "thorough" else 1
    out = [("damaged", ()), ("versions", (5 if tier == "thorough" else 4,)), ("kept", ()), ("quick", (hi,))]
    out += [("cli", (g, hi)) for g in ("plain", "templates", "vars", "named", "prefix")]
    return named(globals(), out)
