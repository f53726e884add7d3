"""writes DESIGN.md from the notes below, the harnesses' stated bounds, the planted bugs and known findings"""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HOW = {
 "P01": "A template line is written with arbitrary literal characters (or taken from a fixed list of shapes) and put against arbitrary data lines. The oracle is a small matcher written from the documentation (literal characters, runs of blanks, runs of digits, indentation, trailing blanks, line ends). Asserted: a record if and only if the oracle matches, captures verbatim, one record per matching line in order.",
 "P02": "For each formatter an arbitrary text is put at the variable's place; the documented language is written as a predicate on the symbolic characters (not as a regular expression run by the code under test); accepted iff in the language, captured value = text.",
 "P03": "Texts are sequences of lines whose kind is one symbolic character each; the oracle (`hblocks.Ref`) walks the lines as the documentation says: a start opens a record, values go to the open record, an end closes, children attach to the last parent.",
 "P04": "As P03, with checks on symbolic values: the oracle drops exactly what hangs on a rejected start or a rejected line.",
 "P05": "Records with symbolic values in symbolic order under 22 group paths and 44 pairs of paths; the oracle `place` inserts records under a path (lists, `*`, `**`, `_`, absolute, unnamed) and is compared with the whole result structure; a count of tags shows none is lost.",
 "P06": "Keys are arbitrary texts (incl. regular-expression and replacement characters, digits of any script, dots, `_`); the oracle files records under the exact text.",
 "P07": "Block texts as P03 with defaults of every type; the oracle fills exactly the variables that were not matched in a record; parse repeated to see that defaults are not altered.",
 "P08": "Every ordered pair and selected triples of 33 functions of each kind, on arbitrary values; the oracle composes one-function models left to right; the same functions written as chain must agree.",
 "P09": "Value and argument are both arbitrary; the oracle is the relation named (substring, equality, prefix, regular language by an independent predicate, number comparison).",
 "P10": "Arbitrary values; oracles are arithmetic/text definitions from the documentation, written without using the function under test.",
 "P11": "Addresses are four symbolic bytes printed in decimal (or arbitrary texts for is_ip); oracles are bit-vector arithmetic on the bytes and a grammar for malformed text. The real `ipaddress` module of the interpreter is instrumented and executed symbolically as well.",
 "P12": "Arbitrary values against tables in five loader formats; oracle: exact key / contained key / glob match.",
 "P13": "Records with every presence of every line and arbitrary values; oracle: the documented predicate on what is present, record kept or dropped as a whole; chains composed in order.",
 "P14": "As P13 for functions that change records; the oracle builds the documented record, all untouched keys compared.",
 "P15": "Call histories are symbolic sequences of API calls (each call a symbolic choice), texts hold arbitrary values; the oracle keeps the list of data items and the results so far. File selection runs against a virtual directory with arbitrary names.",
 "P16": "The three structures, every selection, per_input/per_template, compared with one computed list of per-input results.",
 "P17": "The assignment of items to workers and the order in which results arrive are symbolic; the worker's real code runs in-process per worker; results compared with the single process parse.",
 "P18": "Arbitrary result data through the real outputs; the renderings are checked by independent writers/readers (csv, table, json grammar); libraries are stand-ins recording what they get.",
 "P19": "Symbolic presence of recording, counting and setting lines over 1-3 inputs; the oracle keeps this input's variables and the global ones.",
 "P20": "Differential: the template with extend tags against the template with the text written in place (the oracle edits text only), over symbolic texts.",
 "P21": "Arbitrary rows; the oracle slices at header columns.",
 "P22": "Symbolic interleavings of calls on two parsers of every pair of 20 kinds; the results must be those of the kind's own model, whatever the other did; tables, variables, defaults compared before and after.",
 "P23": "Template text itself is symbolic: arbitrary characters inside quoted arguments, bare words, numbers, literals and tables; recorded by registered functions and compared with what was written.",
 "P24": "An arbitrary line, and each kind of prompt with arbitrary host name and rest of line; the oracle is a hand-written recogniser of the seven prompts.",
 "P25": "Texts whose line kinds are symbolic, for ten shapes of groups that share lines (value, joined, start, _line_); the oracle is the record-by-record reference of P03 with one more step, the choice of the role of a shared line, written from the statement.",
 "P26": "One template of eight tags whose expected result is written down; each job varies one way of writing it (spelling, order, attributes, comments with symbolic text, source, names and filters as symbolic texts) and the result must be the expected one.",
 "P27": "The real cli_tool, quick_parse and lazy_import_functions run on a virtual directory; the version text and Python version of the saved list, values and variables are symbolic; pickle is a stand-in that keeps the object or raises the chosen error.",
 "P28": "The libraries are stand-ins whose answers, failures and verdicts are symbolic and which record what they are asked; names, addresses and values are symbolic; several lookups with different options follow one another.",
}

HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()


def bounds(pid):
    f = glob.glob(os.path.join(V, "harness", pid.lower() + "_*.py"))[0]
    out = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return os.path.basename(f), out


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    kf = json.load(open(os.path.join(V, "known_findings.json")))
    o = [HEAD.rstrip(), "", "## Properties", ""]
    for p in props:
        f, b = bounds(p["id"])
        o += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
              "*Decided by* symbolic execution of the real code, `harness/%s`. %s" % (f, HOW[p["id"]]), "",
              "*Bounds, quick:* %s. *Thorough:* %s." % (b["BOUNDS"]["quick"].rstrip("."), b["BOUNDS"]["thorough"].rstrip(".")), ""]
        if b.get("ASSUMPTIONS"):
            o += ["*Stand-ins:* " + "; ".join(b["ASSUMPTIONS"]) + ".", ""]
    o += ["## Planted bugs", "", "Each was written from a property's text and the code, kept once it passed the existing tests and its demonstration failed; `tools/catch.py` applies it and runs the check of its property.", "",
          "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    caught = {}
    cp = os.path.join(V, "tools", "caught.json")
    if os.path.exists(cp):
        caught = json.load(open(cp))
    for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        i = os.path.basename(os.path.dirname(m))
        o.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "\\|").replace("\n", " "), caught.get(i, "")))
    o += ["", "## Defects repaired in /repo (fix: commits)", ""] + ["* " + x for x in kf["fixed"]]
    o += ["", "## Known findings (not repaired)", ""] + ["* %s (%s): %s" % (x["id"], x["property"], x["what"]) for x in kf["findings"]]
    o += ["", TAIL.rstrip(), ""]
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))


main()
