"""Writes properties.jsonl (run by hand when the list changes)."""
import json
import os
import sys

D = "yangson/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[D + f for f in files],
                               mechanism=[dict(name=n, where=D + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


p("C01", "Integer types accept exactly their value space and round-trip",
  "For each of the eight integer types a value belongs to the type exactly when it is an integer (not a boolean) within the type's bounds. Every value of the type survives encoding to JSON, XML and canonical text and decoding back; 64-bit integers are encoded in JSON as strings, the others as numbers. Raw values of a wrong JSON kind and texts that are not integers are refused, never turned into another value.",
  ["inputs"], "every integer up to 2**70 in magnitude, every short text",
  "Tests sample a handful of constants per type; off-by-one bounds or lossy conversions show only at particular values.",
  ["datatype.py"], [("IntegralType and subclasses", "datatype.py")])
p("C02", "decimal64 values are exact, canonical and bounded",
  "A decimal64 type with N fraction digits contains exactly the multiples of 10^-N between -2^63*10^-N and (2^63-1)*10^-N. The canonical text of every value (also used in JSON and XML) has at least one digit on both sides of the point, no other leading or trailing zeros and no exponent, and parses back to the same value. Text with up to N fraction digits is parsed exactly.",
  ["inputs"], "every value of the type for every number of fraction digits",
  "Tests check a few values with few fraction digits.",
  ["datatype.py"], [("Decimal64Type", "datatype.py")])
p("C03", "range and length restrictions mean what they say",
  "A value of a restricted numeric type is accepted exactly when it lies in one of the listed intervals, with min and max standing for the bounds of the type being restricted; the same holds for the length of strings (in characters) and binary values (in octets). Along a chain of derived types the most derived restriction applies, with min/max taken from the type it restricts.",
  ["inputs", "configurations"], "every interval bounds and every value/length within bounds, chains of typedefs",
  "Tests use a few fixed ranges and a few values.",
  ["constraint.py", "datatype.py"], [("Intervals", "constraint.py"), ("NumericType/LinearType restrictions", "datatype.py")])
p("C04", "String patterns and lengths decide membership together",
  "A string belongs to a string type exactly when its length is permitted and it matches, as a whole, every pattern without invert-match and no pattern with invert-match. Restrictions of derived types are added to those of the base type.",
  ["inputs"], "every string up to the length bound against a set of pattern combinations",
  "Tests check few strings against few patterns.",
  ["constraint.py", "datatype.py"], [("StringType.__contains__", "datatype.py"), ("Pattern", "constraint.py")])
p("C05", "Enumerations, bits, booleans, binary and empty round-trip",
  "Values of enumeration, bits, boolean, binary and empty types round-trip through JSON, XML and canonical text, and inputs that do not denote a member of the type are refused without an unexpected exception. Enum values and bit positions not given explicitly are one more than the highest one assigned so far (zero for the first); bits are written in the order of their positions and their integer form has exactly the bits of those positions.",
  ["inputs", "configurations"], "every combination of explicit values/positions within bounds, every set of bits, all short byte strings and texts",
  "Tests cover one enumeration and one bits type.",
  ["datatype.py"], [("EnumerationType, BitsType, BinaryType, BooleanType, EmptyType", "datatype.py")])
p("C06", "A union takes the first member type that accepts the value",
  "A raw, XML or textual input of a union type is interpreted by the first member type, in the order of declaration, that can parse it and contains the result; if there is none, the input is refused. A value of the union encodes in JSON and XML to a form that is read back as an equal value, unless an earlier member type also accepts that form.",
  ["inputs", "configurations"], "every integer and short string input for a set of member type combinations",
  "Tests check one union with few inputs.",
  ["datatype.py"], [("UnionType", "datatype.py")])
p("C07", "Identity derivation is the transitive closure of declared bases",
  "An identity is derived from another exactly when a chain of base statements leads from it to the other; an identityref value is valid exactly when it is derived from every base of the type. Both textual forms (with and without module name) of an identityref denote the same identity and its encoded form always carries the module name.",
  ["configurations", "inputs"], "every acyclic base relation over up to four identities, every value",
  "Tests contain a single fixed identity hierarchy.",
  ["datatype.py", "schemadata.py"], [("SchemaData.is_derived_from, derived_from, derived_from_all", "schemadata.py"), ("IdentityrefType", "datatype.py")])
p("C08", "Editing never changes previously obtained nodes or values",
  "Instance data are persistent: no editing, navigation, default-adding or merging operation on a node changes the content seen through any node or structured value obtained earlier. The original tree keeps its raw value exactly.",
  ["inputs", "histories"], "sequences of editing operations with arbitrary values and positions on containers, lists and leaf-lists",
  "Tests look at the result of edits; aliasing shows only through earlier handles after particular operations.",
  ["instance.py", "instvalue.py"], [("zipper edits", "instance.py"), ("StructuredValue.copy", "instvalue.py")])
p("C09", "An edit has exactly the requested effect",
  "After an edit the tree obtained by going up to the top differs from the previous one exactly in the edited place: updates replace the value, insertions and deletions of entries shift only their neighbours' positions, and the node returned by the operation is the one that was inserted or updated. Moving around (up, down, previous, next, by position, value or key) never changes the content and moves compose consistently.",
  ["inputs", "histories"], "arbitrary positions, lengths up to the bound and values",
  "Tests edit one fixed tree at a few positions.",
  ["instance.py"], [("ObjectMember, ArrayEntry, InstanceNode", "instance.py")])
p("C10", "merge combines data members and entries as specified",
  "Merging raw or cooked data into a container replaces or adds exactly the members given, recursively; in lists entries with equal keys are merged and others appended, in leaf-lists missing values are appended; everything else stays as it was. Entries of lists without keys are always appended. Merging the same data twice gives the same result as merging once, unless it contains such entries.",
  ["inputs"], "arbitrary scalar values and keys, lists of up to three entries",
  "Tests merge one fixed value.",
  ["instance.py"], [("InstanceNode.merge", "instance.py")])
p("C11", "Instance routes resolve consistently and round-trip as text",
  "The path of every instance node, written as an instance identifier, parses back to an equal route that leads to the same node (key values containing both kinds of quotes, which instance identifiers cannot express, excepted). Following a route to a node and peeking at its value agree, and a route without a target raises the documented non-existence error (or gives nothing when peeking).",
  ["inputs"], "arbitrary key, value and position content of bounded size, including quotes, backslashes and non-ASCII characters",
  "Tests use a few routes with simple keys.",
  ["instance.py", "instroute.py", "parser.py"], [("InstanceIdParser, ResourceIdParser, selectors", "instance.py")])
p("C12", "Parsers of external text fail only in documented ways",
  "Instance identifiers, resource identifiers, XPath expressions, if-feature expressions, schema and data paths, arguments of YANG statements and YANG library data given as arbitrary text are either accepted or refused with the documented exceptions; no other exception escapes. A resource identifier's percent-encoded key values are decoded exactly.",
  ["inputs"], "every text up to the length bound over ASCII and selected other characters, alone or completing a valid prefix",
  "Tests feed a few valid and invalid texts.",
  ["parser.py", "instance.py", "xpathparser.py", "statement.py", "schemadata.py"], [("Parser", "parser.py")])
p("C13", "Validation enforces presence rules independent of member order",
  "An object is accepted exactly when it has only members defined by the schema, all mandatory members and choices that apply (also inside cases in use and non-presence containers), and no members of two different cases of one choice. The outcome does not depend on the order of members.",
  ["inputs", "configurations"], "every subset and order of members of schemas with mandatory, choice, case and nested containers",
  "Tests validate a few complete instances.",
  ["schpattern.py", "schemanode.py"], [("schema patterns", "schpattern.py"), ("InternalNode validation", "schemanode.py")])
p("C14", "Lists honour keys, uniqueness and numbers of entries",
  "A list is accepted exactly when every entry has all keys, no two entries have equal key values, every unique constraint holds among entries that have all its leafs, and the number of entries is within min-elements and max-elements; a configuration leaf-list must not contain equal values. Violations are reported with the standard error tags.",
  ["inputs", "configurations"], "arbitrary key/leaf values for up to four entries, every min/max bound",
  "Tests check a single conforming list and few violations.",
  ["schemanode.py"], [("SequenceNode, ListNode, LeafListNode", "schemanode.py")])
p("C15", "References must lead to existing targets",
  "With require-instance in force, a leafref is valid exactly when some target instance selected by its path has an equal value, and an instance-identifier exactly when the node it points to exists; with require-instance false the target need not exist. Dereferencing returns exactly those target nodes.",
  ["inputs"], "arbitrary referring and referred values, targets in lists of up to three entries, existing or missing",
  "Tests validate one tree in which references are correct.",
  ["datatype.py", "schemanode.py", "xpathast.py"], [("LinkType._deref", "datatype.py"), ("TerminalNode semantics", "schemanode.py")])
p("C16", "must and when conditions decide validity",
  "A tree is semantically valid only if every must expression evaluates to true for each instance of its node, and a node whose when condition is false must not be present; otherwise validation reports an error with the error tag and message given in the schema. When all conditions hold, no such error is reported.",
  ["inputs"], "arbitrary leaf values controlling the conditions, presence or absence of every optional node",
  "Tests validate one fixed tree.",
  ["schemanode.py", "schpattern.py", "xpathast.py"], [("SchemaNode._check_must/_check_when", "schemanode.py")])
p("C17", "Defaults complete data without overriding it",
  "Adding defaults keeps every value given explicitly and adds exactly the default values in use: leafs, leaf-lists and non-presence containers that are absent, of the default case of a choice with no case present, but nothing inside absent presence containers, other cases or nodes excluded by when. Adding defaults twice is the same as adding them once.",
  ["inputs", "configurations"], "every subset of explicit nodes and arbitrary explicit values in schemas with nested defaults, choices and when conditions",
  "Tests add defaults to two fixed trees.",
  ["instance.py", "schemanode.py"], [("add_defaults", "instance.py"), ("_add_defaults and default values", "schemanode.py")])
p("C18", "XPath number and string functions follow XPath 1.0",
  "Arithmetic, floor, ceiling, round, and the string functions (concat, starts-with, contains, substring, substring-before, substring-after, string-length, normalize-space, translate, string, number, boolean) return what the XPath 1.0 recommendation prescribes for all arguments, including NaN, infinities and fractional positions.",
  ["inputs"], "arbitrary numbers from a grid of quarters and special values, strings up to the length bound",
  "Tests compare a few sample expressions.",
  ["xpathast.py", "xpathparser.py"], [("Func* and operator expressions", "xpathast.py")])
p("C19", "XPath comparisons and boolean operators follow XPath 1.0",
  "Comparisons between any two of number, string, boolean and node-set convert their operands as XPath 1.0 prescribes; comparisons with node-sets hold when some node satisfies them. The operators and, or and the function not return booleans according to the boolean value of their operands.",
  ["inputs"], "arbitrary values of all type pairs, node-sets of up to three nodes",
  "Tests compare a few sample expressions.",
  ["xpathast.py", "nodeset.py"], [("EqualityExpr, RelationalExpr, AndExpr, OrExpr", "xpathast.py"), ("NodeSet comparisons", "nodeset.py")])
p("C20", "XPath location paths select exactly the right nodes",
  "Every axis followed by a name test or wildcard selects exactly the data nodes in that relation to the context node, each once; predicates filter by position (counted along the axis) or by truth value. Union, count, sum, position, last and current agree with that selection.",
  ["inputs", "configurations"], "arbitrary leaf values and numbers of entries, every axis from each context node of a small tree",
  "Tests evaluate a few paths on one tree.",
  ["xpathast.py", "nodeset.py", "instance.py", "schemanode.py"], [("Step, LocationPath, FilterExpr", "xpathast.py"), ("axis methods", "instance.py")])
p("C21", "The YANG parser reads arguments and structure exactly",
  "For every statement the parser yields the keyword, the prefix and the argument string denoted by its unquoted, single-quoted or double-quoted (with escapes and concatenation) form, and the same nesting as the source. Comments and optional white space have no effect on the result.",
  ["programs", "inputs"], "every argument string up to the length bound in every quoting style, arbitrary separators and comments",
  "Tests parse well-formed standard modules.",
  ["statement.py", "parser.py"], [("ModuleParser, StatementParser", "statement.py")])
p("C22", "if-feature expressions are evaluated as boolean logic",
  "An if-feature expression evaluates to the truth value of its boolean formula over the supported features, with not binding stronger than and, and and stronger than or, parentheses and optional white space anywhere the grammar permits, and feature names of any spelling. Schema nodes whose if-feature is false are absent from the schema.",
  ["programs", "configurations"], "every expression shape up to the bound over every assignment of supported features",
  "Tests evaluate few expressions with one feature set.",
  ["schemadata.py", "schemanode.py"], [("FeatureExprParser", "schemadata.py")])
p("C23", "Module registration resolves imports, revisions and prefixes",
  "Every prefixed name is resolved to the module that the prefix is bound to in the module where the name is written, at the imported revision or, without one, the latest registered. Modules are processed after those they import; import cycles, unregistered imports and unknown prefixes are reported with the documented exceptions.",
  ["configurations"], "every import graph over up to three implemented modules, arbitrary order of modules in the library, revisions and prefixes",
  "Tests load one fixed module set.",
  ["schemadata.py"], [("SchemaData._process_imports, resolve_pname", "schemadata.py")])
p("C24", "JSON data decode and encode without loss",
  "A JSON document that conforms to the schema decodes to instance data whose raw value equals the document (with module-qualified member names where needed). Documents that do not fit the schema are refused with the documented raw data errors that name the place, and no other exception.",
  ["inputs"], "arbitrary leaf values and shapes, including wrong JSON kinds at every place of a small schema",
  "Tests decode fixed documents.",
  ["datamodel.py", "schemanode.py", "instance.py"], [("from_raw and raw_value", "schemanode.py")])
p("C25", "XML data decode and encode without loss",
  "Instance data written as XML and read back give equal data, and XML and JSON decodings of the same data agree (anydata and anyxml content, documented as unsupported in XML, excepted). XML documents that do not fit the schema are refused with the documented raw data errors.",
  ["inputs"], "arbitrary leaf values of all types and shapes of a small schema",
  "Tests convert fixed documents.",
  ["datamodel.py", "schemanode.py", "instance.py", "datatype.py"], [("from_xml and to_xml", "schemanode.py")])
p("C26", "Equality of structured values and routes is by content",
  "Two structured values are equal exactly when they are of the same kind and have equal content, whatever their history and time stamps; equal values have equal hashes. Two instance routes are equal exactly when they consist of equal selectors in the same order.",
  ["inputs"], "arbitrary scalar contents, shapes up to the bound",
  "Tests compare few values; hash collisions need particular values.",
  ["instvalue.py", "instance.py", "instroute.py"], [("StructuredValue.__eq__/__hash__", "instvalue.py"), ("selector equality", "instance.py")])
p("C27", "Time stamps grow along the path of an edit",
  "After an edit, the edited node and all its ancestors reached by going up carry a time stamp not older than before, than the edit itself and than the one of the edited child, while untouched values and the original tree keep theirs. Moving around does not make a value look older, nor newer than the newest value inside it.",
  ["inputs", "schedules"], "arbitrary non-decreasing clock readings during sequences of edits",
  "Tests use the real clock and a single edit.",
  ["instance.py", "instvalue.py"], [("StructuredValue.time, stamp", "instvalue.py")])
p("C28", "Schema modifications change exactly what they name",
  "uses with refine and augment, module augments and deviations change exactly the named properties of exactly the target node (type, mandatory, default, min/max elements, unique, must, config, presence of the node) and leave other uses of the same grouping as they were.",
  ["configurations", "programs"], "every combination of the properties given in base, refine/deviation statements within bounds",
  "Tests load one fixed set of augments and deviations.",
  ["schemanode.py"], [("_uses_stmt, _refine, _deviation handlers", "schemanode.py")])
p("C29", "Queries leave the data model and data unchanged",
  "Looking at a data model or instance (tree diagram, digest, statistics, identity queries, validation, XPath evaluation, encoding) does not change it: the same query gives the same answer whatever other queries came before.",
  ["histories"], "sequences of up to three queries in any order",
  "Tests call each query once on a fresh model.",
  ["datamodel.py", "schemadata.py", "schemanode.py", "instance.py"], [("schema_digest, ascii_tree, derived_from_all", "datamodel.py")])
p("C30", "Configuration and state data are told apart",
  "A node is configuration unless config false is stated on it or an ancestor. Validation of configuration content refuses state data and does not require mandatory state nodes, while validation of all content accepts and requires both.",
  ["inputs", "configurations"], "every assignment of config statements to a small tree, every subset of present nodes, every content type",
  "Tests use one fixed tree.",
  ["schemanode.py", "schpattern.py", "enumerations.py"], [("content_type", "schemanode.py"), ("SchemaPattern.nullable/deriv", "schpattern.py")])
p("C31", "YANG-specific XPath functions agree with the data types",
  "current, deref, derived-from, derived-from-or-self, enum-value, bit-is-set and re-match give the results defined for YANG XPath for every value of the nodes they are applied to, and NaN, false or an empty node-set when not applicable.",
  ["inputs"], "arbitrary values of enumeration, bits, identityref, leafref and string leafs",
  "Tests evaluate a few expressions on one tree.",
  ["xpathast.py"], [("FuncDeref, FuncDerivedFrom, FuncEnumValue, FuncBitIsSet, FuncReMatch", "xpathast.py")])
p("C32", "Data in RPC operations, actions and notifications follow their schema",
  "Input, output and notification documents are decoded and validated against the corresponding part of the schema only: members of other parts are refused, mandatory parameters are required.",
  ["inputs"], "every subset of parameters and arbitrary values",
  "Tests decode a few sample messages.",
  ["schemanode.py", "datamodel.py"], [("RpcActionNode, InputNode, OutputNode, NotificationNode", "schemanode.py")])
p("C33", "Legacy conversion keeps the module set",
  "Converting NMDA YANG library data to the legacy format keeps the set of implemented and imported modules of the datastore schema with their revisions, namespaces, features and submodules, and attaches deviations to the modules they modify.",
  ["inputs", "configurations"], "arbitrary small YANG library instances",
  "No test covers it in depth.",
  ["convert8525.py"], [("convert", "convert8525.py")])

p("C34", "XPath expressions are read as XPath 1.0 spells them",
  "Whitespace between tokens has no meaning, abbreviated steps, predicates and function calls equal their full forms, operators group by the levels and directions of XPath 1.0, number and string literals have their exact values, and texts that are not expressions are refused.",
  ["inputs"], "whitespace of up to two characters at any token boundary of fifty expressions, all pairs of operators, all literals of up to four characters, on arbitrary data",
  "Tests parse each expression in one spelling.",
  ["xpathparser.py", "parser.py"], [("XPathParser", "xpathparser.py")])

p("C35", "Schema nodes are found by their paths and tell their place",
  "A data path or schema path addresses exactly the schema node it spells (module names exactly where the namespace changes), every data node's data path, instance name, data parent, config, mandatory and protection flags follow the YANG text, state roots are the topmost state nodes, and instance routes, isolated instances and validation counters are attributed to the right schema node.",
  ["inputs", "configurations"], "all path texts up to a length, all combinations of config, mandatory and presence over four levels, arbitrary keys and positions in routes",
  "Tests address a few nodes of fixed modules.",
  ["datamodel.py", "schemanode.py", "schemadata.py"], [("DataModel.get_data_node", "datamodel.py"), ("DataModel.get_schema_node", "datamodel.py"), ("DataNode.split_instance_route", "schemanode.py")])

p("C36", "The schema digest and the tree diagram describe the schema",
  "The JSON schema digest lists every data node under its instance name with its kind, config, mandatory, description, presence, keys, units, default and a type description from which the valid values can be decided; the tree diagram draws every schema node once, in order, with the RFC 8340 symbols for its status, access, kind, optionality, keys and type.",
  ["inputs", "configurations"], "all combinations of properties of a node under each kind of parent, forests of three subtrees from two modules, arbitrary values against the type part of the digest",
  "Tests compare one diagram of a fixed model.",
  ["schemanode.py", "datatype.py", "datamodel.py"], [("DataModel.schema_digest", "datamodel.py"), ("DataModel.ascii_tree", "datamodel.py")])

p("C37", "The text form of an XPath expression is the expression",
  "str() of a parsed expression is again an expression with the same value on every instance, grouping, predicates and abbreviated steps included (string literals are escaped as in XML); equal syntax trees mean equal expressions, so that a deviation which deletes a must statement removes exactly the one it spells.",
  ["inputs", "configurations"], "all expressions of about a hundred operands with up to three operators in every grouping, arbitrary literals, all pairs of seventy expressions as must statements, on arbitrary data",
  "Tests compare the text of a list of expressions.",
  ["xpathast.py", "xpathparser.py"], [("Expr.syntax_tree", "xpathast.py")])

p("C38", "The yangson tool and serialized models",
  "The yangson command prints exactly what the library returns for its operations, decides a document as the library does for the given scope, content type and subschema, and ends with the documented exit status (1 unreadable files, 2 data model problems, 3 invalid documents) and a message for every error, whatever the files contain; a data model dumped and loaded again is the same model: same diagram, digest and identifier, and the same verdicts and values for every document.",
  ["inputs", "configurations", "faults"], "documents with arbitrary values under all combinations of options, about thirty kinds of defective files, serialized copies of models with all kinds of nodes and types",
  "No test runs the tool or serializes a model.",
  ["__main__.py", "datamodel.py", "schemanode.py", "datatype.py"], [("main", "__main__.py"), ("DataModel.from_raw", "datamodel.py")])

p("C39", "Obsolete definitions are absent and deprecated ones not required",
  "A data model is that of the model without its obsolete definitions: no verdict, default value, mandatory node, choice, digest or data path depends on them, wherever they come from; modules for which the YANG library says that obsolete definitions are kept are as if these were current; deprecated definitions are as if they were current, except that nothing requires their presence.",
  ["inputs", "configurations"], "every kind of definition in about forty places, each obsolete, deprecated or kept, on arbitrary small documents",
  "One module of the tests has an obsolete leaf.",
  ["schemanode.py", "schemadata.py"], [("SchemaNode._status_stmt", "schemanode.py"), ("InternalNode.data_children", "schemanode.py")])

p("C40", "Errors say the place, tag and message",
  "An error about an instance names a node and a rule that this node really violates: its tag and message are those of a violated restriction, must, unique or cardinality statement (the error-app-tag and error-message of the module, else the standard ones), never those of another one; a missing-data error names nodes without which nothing is valid, a member-not-allowed error a member that is present and that nothing can make permitted; errors of raw JSON and XML data give the path of the first place that is wrong, lookups of missing instances the last instance that exists, and syntax errors the line and column of the offending character.",
  ["inputs", "configurations"], "the combinations of restrictions, information and documents are unlimited, and each error depends on all of them",
  "The tests compare error-app-tag and error-message of three types.",
  ["constraint.py", "datatype.py", "schemanode.py", "schpattern.py", "exceptions.py", "parser.py", "instance.py"],
  [("Intervals", "constraint.py"), ("InternalNode._check_schema_pattern", "schemanode.py"), ("SchemaPattern._mandatory_members", "schpattern.py"), ("Parser.line_column", "parser.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
