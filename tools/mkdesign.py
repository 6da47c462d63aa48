"""Writes DESIGN.md: design_head.md, the properties, findings and planted bugs."""
import ast
import glob
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]

HOW = {
 "C01": ("`from_raw`, `from_xml`, `parse_value`, `__contains__`, `canonical_string`, `to_raw` of the eight integer types with a symbolic integer or text", "integer bounds of RFC 7950, decimal numerals"),
 "C02": ("the same functions of decimal64 for every number of fraction digits, with symbolic exact decimals and texts", "arithmetic on scaled integers"),
 "C03": ("types built from symbolic range/length arguments (symbolic bounds in the module text) with a symbolic value", "intersection of the intervals along the chain of typedefs"),
 "C04": ("string types with chains of patterns, also inverted and mixed with lengths; the regular expressions are compiled to formulas over the characters of a symbolic string", "conjunction of the single restrictions, each decided by an independent automaton"),
 "C05": ("bits, enumerations, boolean, binary, empty: all entry points, with symbolic texts and symbolic positions/values in the module text", "explicit tables; RFC 4648 for base64"),
 "C06": ("unions of member types of every kind with a symbolic raw value or text", "first accepting member computed with the member types one at a time"),
 "C07": ("models of every identity graph of the bound (edges are symbolic booleans that become `base` statements)", "transitive closure as a formula"),
 "C08": ("sequences of edits at symbolic places with symbolic values, while handles to the old nodes are kept", "deep copies of the values taken before the edit"),
 "C09": ("single edits and pairs of edits at symbolic places", "list and object operations on plain values"),
 "C10": ("`merge` of symbolic objects, lists with and without keys, leaf-lists", "independent recursive merge of plain values"),
 "C11": ("routes of all nodes as text and back, symbolic keys and values, routes that do not exist", "equality with the node the route came from"),
 "C12": ("parsers run on texts whose unknown part is a symbolic string after many valid prefixes; data models built from module texts with a symbolic argument", "set of documented exceptions; percent decoding of what was encoded"),
 "C13": ("validation of objects whose members are chosen by symbolic booleans, in symbolic order, for every arrangement of mandatory, presence, choice and case in the bound", "presence rules of RFC 7950 as a formula"),
 "C14": ("validation of lists with symbolic keys, unique leafs and counts", "pairwise formulas"),
 "C15": ("validation of leafrefs and instance-identifiers with symbolic values on both sides", "existence formula over the entries"),
 "C16": ("validation of must/when on every kind of node with symbolic operands", "conditions written as formulas, nodes present by symbolic booleans"),
 "C17": ("`add_defaults` on objects with symbolic subsets of members", "reference completion of plain values"),
 "C18": ("evaluation of number and string functions with symbolic numbers and strings (IEEE doubles where they matter)", "XPath 1.0 definitions written out"),
 "C19": ("evaluation of comparisons and boolean operators over all pairs of operand kinds", "XPath 1.0 comparison rules as formulas"),
 "C20": ("evaluation of location paths on trees with symbolic subsets of nodes", "independent walk over the plain document"),
 "C21": ("the module parser on texts with symbolic characters", "independent reader of strings, comments and structure"),
 "C22": ("models with symbolic feature sets and generated if-feature expressions; symbolic expression texts", "boolean formulas"),
 "C23": ("sets of modules, submodules, imports and revisions chosen by symbolic variables", "RFC 7950 resolution rules on the same tables"),
 "C24": ("`from_raw`/`raw_value` of documents with symbolic scalars of every type, symbolic wrong kinds and metadata", "identity of the document, documented exceptions and places"),
 "C25": ("`from_xml`/`to_xml` on element trees with symbolic texts; an ElementTree serialise-and-parse model adds and resolves prefixes", "correspondence with the JSON document"),
 "C26": ("equality, hash and membership of values and routes with symbolic scalars", "equality of plain content"),
 "C27": ("edits under a symbolic clock that never goes back", "order of time stamps along the path"),
 "C28": ("models with refine, augment, deviation statements whose presence, arguments and order are symbolic", "model written directly with the intended statements (digest, defaults, validation)"),
 "C29": ("sequences of queries chosen symbolically on one model and instance, then all queries again", "answers of a fresh model with the same data"),
 "C30": ("configuration/state filters on models with symbolic `config` statements and data", "inherited config flag"),
 "C31": ("deref, enum-value, bit-is-set, derived-from, re-match, current with symbolic values", "values of the data types"),
 "C32": ("operations and notifications (top-level and in lists) with symbolic data through decode, validate, defaults, encode", "rules of the schema for input/output"),
 "C33": ("`main` of convert8525 on symbolic YANG library documents (names, revisions, features, deviations); file access replaced by stand-ins", "RFC 7895 entries computed from the document"),
 "C34": ("XPath parser on expressions with symbolic whitespace, symbolic literals, all operator pairs; both spellings are evaluated on symbolic data", "value of the full spelling"),
 "C35": ("get_data_node, get_schema_node and path2route on symbolic path texts and names; flags and state roots for every combination of config, mandatory and presence (decided by solver-chosen alternatives); routes and instances with symbolic keys and values", "table of explicit schema paths written by hand, RFC 7950 definition of mandatory nodes"),
 "C36": ("schema_digest, ascii_tree and the type digests on models whose statements are solver-chosen alternatives; membership of symbolic values is compared with what the digest says", "independent renderings of digest and diagram from a plain description of the schema (RFC 8340, documentation of schema_digest)"),
 "C37": ("str() and syntax_tree() of parsed expressions; the printed text is parsed again and both are evaluated on the same instance with symbolic leaf values; models with two solver-chosen must statements and a deviation", "the value of the expression itself, computed by the evaluator that C18-C20 judge"),
 "C38": ("`main` of the tool with solver-chosen options on documents with symbolic values (the JSON reader of the instance file is replaced by one that returns the document; model files and dumps are real files in a scratch folder); DataModel and its pickled copy on the same symbolic documents", "validity formulas of the model for the exit code; the original model for its copy"),
 "C39": ("all library paths that build the schema of a model with obsolete, deprecated or kept definitions, then validation, add_defaults, digest and lookups on documents with arbitrary members and symbolic values", "the model written without the obsolete definitions (or without their status), decided on the same symbolic documents"),
 "C40": ("Intervals and Pattern restrictions through typedef chains, validation of symbolic documents (must, unique, keys, cardinality, leafrefs), schema patterns of generated containers and choices, from_raw/from_xml of wrong data, goto/peek failures, Parser.line_column and ModuleParser on symbolic texts", "restrictions and rules evaluated independently as formulas over the symbolic document: the (tag, place) pair of the error must be one whose formula is true; enumeration of completions of an object for missing-data; known position of the planted character for syntax errors"),
}

out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), "",
       "## Properties", ""]
for p in props:
    i = p["id"]
    f = os.path.join(V, "harness", i + ".py")
    out.append(f"### {i} {p['title']}")
    out.append("")
    out.append(p["statement"])
    out.append("")
    if not os.path.exists(f):
        out += ["Not claimed; see MANIFEST.json.", ""]
        continue
    bounds, tasks = "", []
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS":
            bounds = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef) and any(
                getattr(getattr(d, "func", d), "id", "") == "task" for d in n.decorator_list):
            tasks.append(n.name)
    what, oracle = HOW[i]
    out.append(f"* Executed symbolically: {what}.")
    out.append(f"* Oracle: {oracle}.")
    out.append(f"* Bounds: {bounds}.")
    out.append(f"* Tasks in `harness/{i}.py`: {', '.join(tasks)}.")
    out.append("* What lies in the bounds is decided for all values at once; tests sample single values.")
    out.append("")

kf = json.load(open(os.path.join(V, "known_findings.json")))
out += ["## Known findings (not repaired)", ""]
for x in kf["findings"]:
    out.append(f"* {x['property']}: {x['what']}")
out += ["", "## Repaired defects (`fix:` commits in /repo)", "",
        "Each was found by a check as a replayed counterexample, the check passes since.", ""]
for x in kf["fixed"]:
    out.append("* " + x)
out += ["", "## Planted bugs", "",
        "Each applies to /repo's HEAD, passes the stable tests, fails its own demonstration, and was run through",
        "the quick check of its property.", "", "| bug | property | needs | caught by quick check |", "|---|---|---|---|"]
notes = json.load(open(os.path.join(V, "tools", "bug_notes.json")))
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    out.append(f"| {n} | {d['property']} | {d['needs']} | {notes.get(n, 'yes')} |")
out.append("")
tail = os.path.join(V, "tools", "design_tail.md")
if os.path.exists(tail):
    out.append(open(tail).read().rstrip())
    out.append("")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
