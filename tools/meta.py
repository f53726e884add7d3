"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHY = "The tests run {what}; the claim is over {over}."
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("P01", "A template line matches exactly the data lines it describes",
     "A template line of literal text and plain match variables matches a data line if and only if the literal characters agree one for "
     "one: runs of spaces/tabs inside the line stand for any run of spaces/tabs and runs of digits for any run of digits unless "
     "_exact_space_ / _exact_ is given, indentation is literal, trailing blanks and LF or CRLF are ignored. Each variable captures "
     "verbatim the run of non-blank characters at its place, under the name written in the template. Every matching line of the text "
     "yields exactly one record, in text order, whatever surrounds it; no other line does.",
     ["inputs", "programs"], "every literal character, every data line (any characters), any lines around it, LF/CRLF, first/last line with or without line feed",
     "Tests parse a few dozen fixed device outputs with fixed templates; the escaping, blank/digit folding, anchoring and slicing must be right for every "
     "character in the template and every character in the data.",
     ["ttp/ttp.py", "ttp/patterns/get_pattern.py"],
     [("regex construction for a template line", "ttp/ttp.py _variable_class.form_regex"), ("search over the text", "ttp/ttp.py _parser_class.parse")],
     ["ttp.parse/ttp.result"])

prop("P02", "Built-in patterns accept and capture exactly their documented text",
     "A match variable with pattern formatters (WORD, PHRASE, ROW, ORPHRASE, DIGIT, IP, PREFIX, IPV6, PREFIXV6, MAC, _line_, re(...) given as pattern "
     "name, template variable or regular expression) matches a line if and only if the text at its place belongs to the language documented "
     "for one of its formatters, and the captured value is that text verbatim. ignore, with or without a pattern, accepts the same text and "
     "saves nothing.",
     ["inputs"], "every line of text, per formatter", "Tests use well-formed sample values; acceptance and rejection must be right for every string.",
     ["ttp/patterns/get_pattern.py", "ttp/ttp.py"],
     [("pattern table", "ttp/patterns/get_pattern.py"), ("alternatives of formatters, ignore", "ttp/ttp.py _variable_class.form_regex")],
     ["ttp.parse/ttp.result"])

prop("P03", "A record holds values of its own block of text only",
     "A group opens one new record at each line matching its start line (or any of its _start_ lines), and a value captured by another line of the "
     "group goes to the record opened last before that line; lines before the first start or after the group's _end_ line up to the next start are not attributed. Within "
     "one record the first match of a repeated line wins unless joining is asked for, when all matches are joined in text order. Records of a child group "
     "belong to the parent record opened last before them.",
     ["inputs", "histories"], "every sequence of matching and non-matching lines, with arbitrary values",
     "The outcome depends on the order of lines; tests hold a handful of orders.",
     ["ttp/ttp.py"],
     [("match collection per group", "ttp/ttp.py _parser_class.parse run_re"), ("record assembly", "ttp/ttp.py _results_class.make_results/start/add/join/end")],
     ["ttp.parse/ttp.result"])

prop("P04", "A value rejected by a check never reaches the results",
     "When a check on a start line's variable rejects the value, no record is opened and the lines and child groups that follow, up to the next accepted start of that "
     "group, contribute nothing. When a check on any other line rejects, that line contributes nothing and the rest of the record is unchanged. When all checks accept, "
     "results are the same as without the checks.",
     ["inputs", "histories"], "every value, every sequence of accepted and rejected lines",
     "Tests filter fixed outputs; acceptance is decided per value and the effect depends on the order of accepted and rejected blocks.",
     ["ttp/ttp.py"],
     [("match checks", "ttp/ttp.py _parser_class.parse check_matches"), ("ended groups", "ttp/ttp.py _results_class.make_results")],
     ["ttp.parse/ttp.result"])

prop("P05", "Records are placed at the group's path and none is lost",
     "Each record appears exactly once under the path given by the group name: dots nest, a repeated record turns the place into a list in text order, a trailing * makes it "
     "always a list, ** always one dictionary, a leading / makes the path absolute, _ adds no level, no name puts records at the top. Child paths are relative to the "
     "parent's last record.",
     ["inputs", "programs", "histories"], "every combination of path shapes and numbers/orders of records, arbitrary values",
     "The shape depends on how many records of which group come in which order; tests hold selected combinations.",
     ["ttp/ttp.py"],
     [("path walk and list conversion", "ttp/ttp.py _results_class.dict_by_path/value_to_list/list_to_dict_fwd/save_curelements"),
      ("path from group names", "ttp/ttp.py _group_class.get_attributes")],
     ["ttp.parse/ttp.result"])

prop("P06", "Dynamic path keys are the matched text, character for character",
     "A group name holding {{ variable }} files the record under the exact text of that variable (taken from the record and removed from it, else from an earlier record of the parse, "
     "else from template variables), for any text; if there is no value the record is dropped and no other record is affected. All-digit keys become "
     "integers exactly when the parser is told so.",
     ["inputs", "histories"], "every key text including regular-expression and path metacharacters, repeated keys, missing keys",
     "Tests use interface-name-like keys; the substitution must be verbatim for all texts.",
     ["ttp/ttp.py"],
     [("path substitution", "ttp/ttp.py _results_class.form_path"), ("integer keys", "ttp/ttp.py _results_class.list_to_dict_fwd/dict_by_path")],
     ["ttp.parse/ttp.result"])

prop("P07", "Defaults fill exactly the values that were not matched",
     "A variable with a default, or of a group with a default, has the default in each record where it was not matched and the matched value where it was; a default never "
     "replaces, alters or leaks into another record. A group whose start line has a default yields one record of its defaults if no start line is "
     "found in the text.",
     ["inputs", "histories"], "every subset of lines present, any values, several records",
     "Needs every present/absent combination over several records; tests hold a few.",
     ["ttp/ttp.py"],
     [("defaults collection", "ttp/ttp.py _variable_class.extract_functions, _group_class.get_regexes"), ("defaults application", "ttp/ttp.py _results_class.processgrp, _parser_class.parse")],
     ["ttp.parse/ttp.result"])

prop("P08", "Match functions run left to right and yield what each returned",
     "The functions of a match variable are applied left to right, each to the previous one's value, with the arguments written in the template (or the variable they name); the first that rejects rejects the match, "
     "a returned value replaces the value, and extra fields are added beside it without disturbing others. Names that are not functions of the library are methods of "
     "the value, chain(...) is the same as writing its functions in place, and macros and registered functions are treated by the same rules.",
     ["inputs", "programs"], "every value; ordered pairs and triples of functions",
     "Tests exercise selected pipelines on selected values.",
     ["ttp/ttp.py", "ttp/match/macro.py", "ttp/match/let.py", "ttp/match/copy_.py"],
     [("pipeline", "ttp/ttp.py _parser_class.parse check_matches"), ("function list", "ttp/ttp.py _variable_class.extract_functions")],
     ["ttp.parse/ttp.result"])

prop("P09", "Match checks accept exactly the values they name",
     "contains, equal, notequal, exclude, the startswith/endswith/contains/notstartswith/notendswith/exclude _re family, isdigit, notdigit, greaterthan and lessthan accept a value if and only if "
     "the documented relation holds between the value and the argument, for every value, and never change the value.",
     ["inputs"], "every value string and a representative set of arguments", "Tests try one or two values per check.",
     ["ttp/match/string.py", "ttp/match/re_.py"],
     [("string checks", "ttp/match/string.py"), ("regular expression checks", "ttp/match/re_.py")],
     ["match variable functions through ttp.parse"])

prop("P10", "Match transformations compute the documented value for every input",
     "append, prepend, join, truncate, replaceall, resub, resuball, item, unrange, sformat, methods of strings, to_str, to_list, to_int, to_float, uptimeparse, let, set, copy "
     "and joinmatches give, for every matched text, the value their documentation defines, and a text that cannot be converted is kept unchanged.",
     ["inputs"], "every matched text within the bounds", "Tests try one or two values per function.",
     ["ttp/match/string.py", "ttp/match/re_.py", "ttp/match/to.py", "ttp/match/item.py", "ttp/match/unrange.py", "ttp/match/uptimeparse.py", "ttp/match/let.py", "ttp/match/set_.py",
      "ttp/match/copy_.py", "ttp/match/record.py", "ttp/match/count.py"],
     [("transformations", "ttp/match/*.py")], ["match variable functions through ttp.parse"])

prop("P11", "IP and MAC functions agree with address arithmetic",
     "is_ip, cidr_match, to_ip, to_net, to_cidr, ip_info and mac_eui agree with the definition of IPv4/IPv6 addresses, prefixes, masks and MAC notation for every input text; malformed text is rejected by is_ip "
     "and kept unchanged by ip_info, to_cidr, mac_eui and the group function to_ip.",
     ["inputs"], "every text within the bounds, every mask", "Tests use a few addresses.",
     ["ttp/match/ip.py", "ttp/match/mac_eui.py", "ttp/group/to_ip.py"],
     [("address functions", "ttp/match/ip.py"), ("MAC notation", "ttp/match/mac_eui.py")], ["match variable functions through ttp.parse"])

prop("P12", "Lookups answer from the table and only from the table",
     "lookup replaces a value by the table entry with exactly that key (or adds it as a new field), rlookup by the entry whose key is contained in the value, gpvlookup by the names whose patterns "
     "match; a value with no entry is left unchanged and adds no field. Tables in any loader format and under any dotted path are the same tables.",
     ["inputs", "configurations"], "every value text, present and absent keys", "Tests look up a few present keys.",
     ["ttp/match/lookup.py", "ttp/group/lookup.py", "ttp/utils/loaders.py"],
     [("match lookups", "ttp/match/lookup.py"), ("group lookup", "ttp/group/lookup.py")], ["ttp.parse/ttp.result"])

prop("P13", "Group checks keep exactly the records that satisfy them",
     "contains, containsall, exclude, excludeall, contains_val, exclude_val, equal and void keep or drop a record as a whole exactly as documented for the variables and values present in it, record by record, and "
     "leave kept records unchanged; several group functions run in the order written. cerberus and validate hand each record (a copy), the schema and the options to the validator, drop the record it refuses, and add the errors or the outcome when asked to.",
     ["inputs", "histories"], "every presence/absence of variables, every value, several records",
     "Tests filter a few records.",
     ["ttp/group/contains.py", "ttp/group/containsall.py", "ttp/group/exclude.py", "ttp/group/excludeall.py", "ttp/group/contains_val.py", "ttp/group/exclude_val.py", "ttp/group/equal.py", "ttp/group/void.py", "ttp/ttp.py"],
     [("group checks", "ttp/group/*.py"), ("group function run", "ttp/ttp.py _results_class.processgrp")], ["ttp.parse/ttp.result"])

prop("P14", "Group transformations change what they document and nothing else",
     "expand, itemize, items2dict, delete, set, record, sformat, str_to_unicode, to_int, to_ip and macro of a group give the documented record for every matched data, touching only the keys "
     "they name and only the record they run on; items2dict leaves out items without key or value.",
     ["inputs", "histories"], "every value, several records", "Tests transform a few records.",
     ["ttp/group/expand.py", "ttp/group/itemize.py", "ttp/group/items2dict.py", "ttp/group/delete.py", "ttp/group/set_.py", "ttp/group/record.py", "ttp/group/sformat.py", "ttp/group/to_converters.py", "ttp/group/macro.py"],
     [("group functions", "ttp/group/*.py")], ["ttp.parse/ttp.result"])

prop("P15", "Each input is parsed by the groups bound to it, once, in any call history",
     "Across any sequence of add_input, set_input, clear_input, parse and clear_result calls and input tags, the results of a parse are one result per distinct data item present, in the order given, "
     "each obtained with exactly the groups that the input or the group selects, as if parsed alone. clear_input and set_input remove earlier data completely, "
     "clear_result removes results only, and results accumulate over parses otherwise. An input's url that is a directory stands for its files with one of the extensions and a name matched by one of the filters; "
     "input macros, registered input functions and extract_commands pre-process the text in the order written, up to the first that returns False.",
     ["histories", "inputs"], "every sequence of API calls within the bounds, arbitrary data", "Tests use a few call sequences.",
     ["ttp/ttp.py"],
     [("inputs", "ttp/ttp.py _input_class, _template_class.update_input, ttp.add_input/set_input/clear_input"), ("results", "ttp/ttp.py ttp.clear_result"), ("input functions", "ttp/input/*.py"), ("files", "ttp/utils/loaders.py load_files")],
     ["ttp.parse/ttp.result"])

prop("P16", "Result structures are views of the same results",
     "list, dictionary and flat_list structures, with any selection of templates, hold the same results in the same order, differing only in nesting as documented. A template with results per_template gives the results "
     "of its inputs combined in order with nothing lost, per_input one result per input.",
     ["inputs", "configurations"], "every number of templates, inputs and records within bounds, arbitrary values",
     "Tests compare fixed outputs for a few combinations.",
     ["ttp/ttp.py"],
     [("structures", "ttp/ttp.py ttp.result"), ("modes", "ttp/ttp.py _template_class.form_results")], ["ttp.result"])

prop("P17", "Multiprocess parsing gives the single-process results",
     "For templates with per_input results, parsing in several processes returns the same results as in one process, for every order in which workers finish.",
     ["schedules", "inputs"], "every completion order of the workers, every data within bounds", "A test run sees the schedule it happens to get.",
     ["ttp/ttp.py"],
     [("worker pool", "ttp/ttp.py ttp.__parse_in_multiprocess, _worker")], ["ttp.parse(multi=True)"])

prop("P18", "Outputs transform results as documented",
     "Output functions (traverse, dict_to_list, is_equal, macro, deepdiff, validate), formatters (raw, json, yaml, csv, table, tabulate, excel, jinja2), returners (self, file, terminal, syslog), conditions, chained outputs and outputs of groups give "
     "for every result data the documented rendering: nothing lost, added, reordered or altered, missing cells filled with the stated filler, each output run once with the right data, and the template's own results unchanged by rendering; terminal colours mark exactly the words listed. "
     "Third-party libraries receive exactly the data and options documented.",
     ["inputs"], "every result data of the bounded shapes", "Tests render a few results.",
     ["ttp/output/transform.py", "ttp/output/is_equal.py", "ttp/formatters/table_formatter.py", "ttp/formatters/csv_formatter.py", "ttp/ttp.py"],
     [("output functions", "ttp/output/*.py"), ("formatters", "ttp/formatters/*.py"), ("output run", "ttp/ttp.py _outputter_class.run")], ["ttp.result(format=...)", "output tags"])

prop("P19", "Template variables hold the right value for every input",
     "Variables given in tags, files or by the API appear in the results of an input that has matches only under the path asked for by the name attribute, with the value in force for the input; values recorded or counted during parsing are visible to later "
     "matches and records as documented (this input's variables first, then what any input recorded or counted globally, else the written text), and what one input records in input variables, or what its results add below "
     "a variable's dictionary, is not seen when another input is parsed. Clock functions (get_time, get_date, get_timestamp, get_timestamp_ms, get_time_ns) give the time of the moment in the documented form.",
     ["inputs", "histories"], "every recorded value, several inputs", "Tests use one or two inputs.",
     ["ttp/ttp.py", "ttp/match/record.py", "ttp/match/count.py", "ttp/match/set_.py", "ttp/group/set_.py", "ttp/group/record.py", "ttp/variable/gethostname.py"],
     [("variables to results", "ttp/ttp.py _results_class.save_vars"), ("record/set", "ttp/match/record.py, ttp/match/set_.py")], ["ttp.result"])

prop("P20", "extend is the same as writing the extended text in place",
     "A template with extend tags gives the same results as the template with the content of the extended templates written in place of the tags, at any nesting, keeping only the tags selected by the extend filters, for every data. In a group only groups and lines are extended.",
     ["programs", "inputs"], "combinations of extend tags and filters, arbitrary data", "Tests use fixed pairs of templates and data.",
     ["ttp/ttp.py"], [("extend", "ttp/ttp.py _template_class.handle_extend/filter_extend")], ["ttp.result"])

prop("P21", "Table headers slice rows at the header's columns",
     "With _headers_, a line of the text gives a record if and only if it is long enough to reach the last mandatory column (columns(n), by default all headers but two, at least one) and no cell equals its header's name; each header's value is then the text "
     "under that header's columns, from the header's first character (the line's start for the first one) to the next header's, stripped. Carriage returns of the line end belong to no value.",
     ["inputs"], "every row text, several header layouts", "Tests slice a few tables.",
     ["ttp/ttp.py"], [("header regex", "ttp/ttp.py _variable_class.form_regex regex_headers")], ["ttp.result"])

prop("P22", "Parser objects do not influence one another or their own next parse",
     "A parser gives the same results whatever other parsers were created, used or given functions before it or in between in the process, and whatever it parsed before itself once inputs and results are cleared (values recorded under names the template "
     "gives no value to are kept by design). Macros, lookup tables and variables of one template or parser are not seen by another; a function registered with add_ttp sees the data of the parser it was registered at last. Parsing, adding variables, and changing returned results change no template variable, lookup table, default or dictionary "
     "given by the user; what a record adds below a dictionary taken from a table is in no other record.",
     ["histories"], "every interleaving of two parsers' calls within bounds, arbitrary data", "Tests create parsers one after another and do not compare interleavings.",
     ["ttp/ttp.py"], [("shared function dictionary", "ttp/ttp.py lazy_import_functions, CachedModule"), ("per-parse state", "ttp/ttp.py _parser_class.set_data")], ["ttp.result"])

prop("P23", "Arguments and tables written in a template arrive as written",
     "Positional and keyword arguments written in match variables and in attributes of group, input and output tags reach the functions with exactly the written values: quoted text verbatim, bare words as text but for "
     "true, false and none, numbers, lists and dictionaries as in Python. Data written in csv, ini, json, yaml or python form in lookup, vars and input tags is loaded as exactly the table it denotes; a csv row's cells "
     "beyond the headers are ignored and a row without key cell is skipped. Data of an included file is loaded together with what is written in the tag.",
     ["inputs", "programs"], "every argument text, every cell text within the bounds", "Tests use fixed arguments and tables.",
     ["ttp/utils/get_attributes.py", "ttp/utils/loaders.py"], [("attribute parser", "ttp/utils/get_attributes.py"), ("loaders", "ttp/utils/loaders.py")],
     ["ttp.get_input_load, ttp.result"])

prop("P24", "The device hostname found is the one in the prompt",
     "The gethostname variable of a text is the host name of the first line that is a prompt, at the start of the line, of the first kind that occurs in the text, the kinds being taken in the order Nokia SROS (A:host>, *A:host#), Cisco IOS XR "
     "(RP/0/4/CPU0:host#), Cisco IOS privileged (host#), Juniper (user@host>), Huawei (<host>), Cisco IOS exec (host>), Fortigate (host (context) #, with the context); whatever follows the prompt; byte order marks at the start are no part of it. "
     "Without a prompt the variable is absent and nothing else changes.",
     ["inputs"], "every prompt text within bounds", "Tests try one prompt per vendor.",
     ["ttp/variable/gethostname.py"], [("prompt patterns", "ttp/variable/gethostname.py")], ["ttp.result"])

prop("P25", "A line of text matched by several lines of the template is used once, by the group it belongs to",
     "When a line of text matches several lines of the template: a start line is preferred to a value line, a start line of the group of the record being filled to the start line of another group, a start line whose checks accept the values to one whose checks "
     "reject them, a value line to _line_; a value line shared by a group and other groups is used by the group of the record opened last, else by the group that is open; an ended child group takes no line that its parent has; "
     "nothing of the line is stored anywhere else, joined lines included.",
     ["group records"], "every order of lines within bounds", "The selection depends on the records opened and ended before; tests try a handful of texts.",
     ["ttp/ttp.py"], [("choice among several matches", "ttp/ttp.py"), ("started and ended groups", "ttp/ttp.py")], ["ttp.result"])

prop("P26", "A template is what its tags say, however it is written and loaded",
     "The results of a template depend only on its tags and their text: not on the spelling or case of tag names (v/vars/variables, g/grp/group, o/out/output, i/in/input), the order of different tags, the order, quotes and blanks of attributes, a template tag around it, "
     "comments, blank lines and unknown tags, nor on whether it was given as text, file, file of TTP_TEMPLATES_DIR, directory or ttp:// path, to the constructor or to add_template, nor on being written out by get_template and loaded again. "
     "Every template of a file is loaded under its name (of the tag, else its number, or of the argument), filters keep exactly the templates named, nested ones included, results are given and cleared by these names, variables and lookups "
     "of the parser reach every template, and get_input_load gives the parameters of each input of each template.",
     ["programs", "inputs"], "every way of writing within the bounds, every name and comment text", "Tests write each template in one way.",
     ["ttp/ttp.py", "ttp/utils/loaders.py"], [("template loading", "ttp/ttp.py _template_class"), ("files", "ttp/utils/loaders.py load_files")], ["ttp.add_template", "ttp.result", "ttp.get_input_load", "ttp.get_template"])

prop("P27", "Library, quick_parse and command line give the same results, with and without a saved list of functions",
     "The command line tool prints, for every combination of its options, what the library gives for the same template, data, variables, prefix, structure, templates and formatter; quick_parse gives what the separate calls give. The list of functions "
     "saved in TTPCACHEFOLDER never changes results: one that is absent, damaged, cut, unreadable, or of any other version of ttp or Python is not used but replaced, a directory that cannot be written is no obstacle, and nothing one parser registers gets into it.",
     ["inputs", "faults", "histories"], "every version text, every kind of fault of the saved list, every combination of options", "Tests start with one state of the list of functions and never call the command line.",
     ["ttp/ttp.py", "ttp/utils/quick_parse.py"], [("function list", "ttp/ttp.py lazy_import_functions"), ("command line", "ttp/ttp.py cli_tool"), ("quick_parse", "ttp/utils/quick_parse.py")], ["ttp command", "quick_parse", "TTPCACHEFOLDER"])

prop("P28", "Answers of name servers, address databases and outside libraries are used as documented",
     "dns and rdns ask once for each match, for its own text, with the record type, timeout and servers written for that lookup (the machine's own servers where none are written, whatever other lookups use); the answer - the sorted list of records, the "
     "host name without the last dot - replaces the match or, with add_field, is added under that name; a lookup that fails in any way leaves the record unchanged. geoip_lookup adds the documented fields of the database of that name for that address, and nothing when the "
     "address, database or file is missing. The n2g formatter gives every result at its path, in order, to one diagram made with the options written, and returns its text. validate_yangson validates each result by itself in the scope and content asked for, reports "
     "verdicts at its index, returns results, XML or False as documented, and makes the library of exactly the modules of its directory.",
     ["inputs", "faults", "histories"], "every name, answer and failure, every sequence of lookups within the bounds", "Tests cannot ask name servers or databases; the few yangson tests use one directory.",
     ["ttp/match/dns_lookups.py", "ttp/match/geoip_lookup.py", "ttp/lookup/geoip2.py", "ttp/formatters/n2g_formatter.py", "ttp/output/validate_yangson.py"],
     [("dns", "ttp/match/dns_lookups.py"), ("geoip", "ttp/match/geoip_lookup.py"), ("n2g", "ttp/formatters/n2g_formatter.py"), ("yangson", "ttp/output/validate_yangson.py")], ["dns", "rdns", "geoip_lookup", "format n2g", "validate_yangson"])

NA = {}
TECH = "symbolic execution of the real code (own Python engine) with z3 deciding every branch and assertion; counterexamples replayed on the unmodified code"
NOTE = ("Bounded: holds for every value of the symbolic inputs within the bounds stated in the evidence file (text lengths, number of lines/records/calls, 108-character domain). Trusts z3, CPython's regex "
        "parser and the models of builtins in /verif/sx, which are validated on every run by replaying path witnesses on the real code.")


def main():
    have = {f.split("_")[0].upper() for f in os.listdir(os.path.join(V, "harness")) if f[0] == "p" and f.endswith(".py")}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": [], "not_applicable": [],
           "notes": "Every check: python3-vt -m sx.run <ID>; --tier thorough for deeper bounds."}
    for p in P:
        i = p["id"]
        if i in have:
            man["checks"].append({"property": i, "quick_cmd": "python3-vt -m sx.run %s --tier quick" % i,
                                  "thorough_cmd": "python3-vt -m sx.run %s --tier thorough" % i,
                                  "technique": TECH, "level": "model_checking", "level_note": NOTE})
        else:
            man["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
