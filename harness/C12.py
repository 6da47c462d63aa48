"""parsers of external text: only documented exceptions."""
from urllib.parse import quote
from symex.api import task
from yangson.xpathparser import XPathParser
from yangson.statement import ModuleParser
from yangson.schemadata import FeatureExprParser, SchemaContext
from yangson.instance import InstanceRoute
from yangson.xpathast import Expr
from yangson.schemanode import SchemaNode
from .common import *

BOUNDS = ("resource identifiers, instance identifiers, XPath and feature expressions and schema paths: every text of "
          "up to 3 (thorough 4) characters of the alphabet of the grammar with other ASCII and non-ASCII characters "
          "after each of about fifteen valid prefixes per parser, percent-encoded keys of up to 3 (4) characters, "
          "statement arguments of up to 3 characters in a data model built from them, "
          "YANG library documents with any one part missing or of a wrong type")

DM = build({"m": module("m", """
feature f; feature g;
list l { key k; leaf k { type string; } leaf v { type int8; } action act { input { leaf i { type int8; } } } }
list two { key "a b"; leaf a { type string; } leaf b { type string; } leaf c { type string; } }
list no { config false; leaf v { type int8; } }
leaf-list x { type string; }
leaf lf { type string; }
container c { leaf lf { type string; } list l { key k; leaf k { type string; } } anydata ad; }
choice ch { case ca { leaf cl { type string; } } }
rpc r { input { leaf i { type string; } } }
notification nt { leaf i { type string; } }
anyxml ax;
""")}, [{"name": "m", "features": ["f"]}])
MID = DM.schema_data.last_revision("m")
SCTX = SchemaContext(DM.schema_data, "m", MID)


@task(cases=[{"pre": p} for p in (
    "", "/", "/m:l", "/m:l=", "/m:l=a/", "/m:l=a/k", "/m:l=a/v/", "/m:two=a,", "/m:no", "/m:x", "/m:x=", "/m:x=a",
    "/m:lf", "/m:lf/", "/m:c", "/m:c/", "/m:c/ad/", "/m:c/l", "/m:ch", "/m:ch/", "/m:r", "/m:r/", "/m:nt/", "/m:ax/",
    "m:l", "/m:l=a/act", "/n:l")], thorough_cases=None)
def resource(sx, pre):
    t = sx.str("t", 0, sx.n(4, 5), "/m:lcka=,%2iné\x00 ")
    out, res = sx.attempt(lambda: DM.parse_resource_id(pre + t),
                          ParserException, NonexistentSchemaNode, BadSchemaNodeType)
    sx.observe("text", pre + t)
    sx.observe("outcome", (out, res if out == "ok" else type(res).__name__))
    sx.check(isinstance(res, InstanceRoute if out == "ok" else YangsonException), "an instance route or a refusal")


def encoded(sx, v, n):
    """percent-encode a string in one of the ways"""
    how = sx.choice(n, ["all", "need", "lower"])
    e = quote(v, safe="=:@!$&'()*+;" if how == "need" else "")
    if how == "lower":
        e = e.replace("%2C", "%2c").replace("%2F", "%2f").replace("%C3%A9", "%c3%A9")
    return e


@task(cases=[{"kind": k} for k in ("l", "two", "x", "cl")])
def percent(sx, kind):
    """percent-encoded keys are decoded exactly"""
    a = "a/,%=2C é+"
    v = sx.str("v", 1, sx.n(2, 3) if kind == "two" else sx.n(3, 4), a)
    e = encoded(sx, v, "how")
    if kind == "two":
        w = sx.str("w", 0, 1, a)
        r = DM.parse_resource_id("/m:two=" + e + "," + encoded(sx, w, "how2") + "/c")
        keys = {("a", None): v, ("b", None): w}
        last = "c"
    elif kind == "x":
        r = DM.parse_resource_id("/m:x=" + e)
    elif kind == "cl":
        r = DM.parse_resource_id("/m:c/l=" + e + "/k")
        keys = {("k", None): v}
        last = "k"
    else:
        r = DM.parse_resource_id("/m:l=" + e + "/k")
        keys = {("k", None): v}
        last = "k"
    sx.observe("route", str(r))
    if kind == "x":
        sx.check(len(r) == 2 and r[1].value == v, "leaf-list value")
        return
    sx.check(len(r) == (4 if kind == "cl" else 3), "number of steps")
    got = r[-2].keys
    sx.check(set(got) == set(keys), "names of keys")
    for k in keys:
        sx.check(got[k] == keys[k], f"value of key {k[0]}")
    sx.check((r[-1].name, r[-1].namespace) == (last, None), "member after the entry")


IID = ("", "/", "/m:l", "/m:l[", "/m:l[ ", "/m:l[k", "/m:l[k=", "/m:l[k='", "/m:l[k='a'", "/m:l[k='a']", "/m:l[k='a'][",
       "/m:l[m:k=\"a\"]/v", "/m:x[.", "/m:x[.=", "/m:x[.='a'", "/m:x[1", "/m:x[1]", "/m:x[0", "/m:c/", "m:l")


@task(cases=[{"pre": p} for p in IID])
def instance_id(sx, pre):
    t = sx.str("t", 0, sx.n(4, 5), "/m:[]k=.'\"10 aé²")
    out, res = sx.attempt(lambda: DM.parse_instance_id(pre + t), ParserException)
    sx.observe("text", pre + t)
    sx.observe("outcome", (out, res if out == "ok" else type(res).__name__))
    sx.check(isinstance(res, InstanceRoute if out == "ok" else YangsonException), "an instance route or a refusal")


XP = ("", "/", "//", "/m:", "m:l", "m:l[", "m:l[1", "(", "(1", "(1)", "-", "1", "1.", ".", "..", "'", "'a'", "a and ",
      "a or", "a ", "a=", "a!", "a<", "a*", "a mod ", "child::", "child:", "self::n", "ancestor-or-self::", "node(",
      "node()", "text", "true", "true(", "count(", "concat('a'", "concat('a',", "substring('a',1", "name(", "current(",
      "derived-from(a,", "id", "id(", "q:", "self::q:", "foo", "foo(", "@", "$", "following-sibling::", "a|")


@task(cases=[{"pre": p} for p in XP])
def xpath(sx, pre):
    t = sx.str("t", 0, sx.n(3, 4), "/m:[]().,='-*a1 !<|@$é²o" if len(pre) > 0 else "/m:[]().,='-*a1 !<|@$é²d")
    out, res = sx.attempt(lambda: XPathParser(pre + t, SCTX).parse(),
                          ParserException, UnknownPrefix)
    sx.observe("text", pre + t)
    sx.observe("outcome", (out, type(res).__name__))
    sx.check(isinstance(res, Expr if out == "ok" else YangsonException), "an expression or a refusal")


@task(cases=[{"pre": p} for p in ("", "f", "f ", "m:", "m:f", "not", "not ", "(", "(f", "(f)", "f and", "f or ", "q:",
                                  "x", "f and not(")])
def feature(sx, pre):
    t = sx.str("t", 0, sx.n(4, 5), "fgm:() \tnorq1é-")
    out, res = sx.attempt(lambda: FeatureExprParser(pre + t, DM.schema_data, MID).parse(),
                          ParserException, UnknownPrefix)
    sx.observe("text", pre + t)
    sx.observe("outcome", (out, res if out == "ok" else type(res).__name__))
    sx.check(res is True or res is False or out != "ok", "a truth value or a refusal")


@task(cases=[{"pre": p, "data": d} for d in (False, True) for p in (
    "", "/", "/m:", "/m:l", "/m:l/", "/m:l/k", "/m:lf", "/m:c/", "/m:ch", "/m:ch/", "/m:r/", "/m:r/input", "/m:ax",
    "m:c/", "/n:")])
def schema_path(sx, pre, data):
    t = sx.str("t", 0, sx.n(4, 5), "/m:lkfcain é")
    fn = DM.get_data_node if data else DM.get_schema_node
    out, res = sx.attempt(lambda: fn(pre + t), InvalidSchemaPath)
    sx.observe("text", pre + t)
    sx.observe("outcome", (out, type(res).__name__))
    sx.check(out == "exc" or res is None or isinstance(res, SchemaNode), "a schema node, nothing or a refusal")


ARGS = {
    "range": "leaf l { type int8 { range '%s'; } }",
    "range-dec": "leaf l { type decimal64 { fraction-digits 2; range '%s'; } }",
    "length": "leaf l { type string { length '%s'; } }",
    "fraction-digits": "leaf l { type decimal64 { fraction-digits '%s'; } }",
    "value": "leaf l { type enumeration { enum a { value '%s'; } } }",
    "position": "leaf l { type bits { bit a { position '%s'; } } }",
    "path": "leaf k { type int8; } leaf l { type leafref { path '%s'; } }",
    "base": "identity a; leaf l { type identityref { base '%s'; } }",
    "type": "typedef a { type int8; } leaf l { type '%s'; }",
    "uses": "grouping a { leaf g { type int8; } } uses '%s';",
    "uses-augment": "grouping a { container g { } } uses a { augment '%s' { leaf h { type int8; } } }",
    "refine": "grouping a { leaf g { type int8; } } uses a { refine '%s' { default 1; } }",
    "augment": "container a { } augment '%s' { leaf h { type int8; } }",
    "deviation": "leaf a { type int8; } deviation '%s' { deviate not-supported; }",
    "key": "list a { key '%s'; leaf k { type int8; } }",
    "unique": "list a { key k; unique '%s'; leaf k { type int8; } leaf a { type int8; } }",
    "must": "leaf a { must '%s'; type int8; }",
    "when": "leaf a { when '%s'; type int8; }",
    "default-int": "leaf a { type int8; default '%s'; }",
    "default-dec": "leaf a { type decimal64 { fraction-digits 1; } default '%s'; }",
    "default-bool": "leaf a { type boolean; default '%s'; }",
    "default-bits": "leaf a { type bits { bit a; bit m; } default '%s'; }",
    "default-enum": "leaf a { type enumeration { enum a; enum m; } default '%s'; }",
    "default-id": "identity a; leaf a { type identityref { base a; } default '%s'; }",
    "default-bin": "leaf a { type binary; default '%s'; }",
    "default-union": "leaf a { type union { type int8; type boolean; } default '%s'; }",
    "default-ll": "leaf-list a { type int8; default '%s'; }",
    "default-choice": "choice a { default '%s'; leaf a { type int8; } case m { leaf b { type int8; } } }",
    "default-iid": "leaf a { type instance-identifier; default '%s'; }",
    "default-emp": "leaf a { type empty; default '%s'; }",
    "min-elements": "leaf-list a { type int8; min-elements '%s'; }",
    "max-elements": "leaf-list a { type int8; max-elements '%s'; }",
    "config": "leaf a { config '%s'; type int8; }",
    "mandatory": "leaf a { mandatory '%s'; type int8; }",
    "status": "leaf a { status '%s'; type int8; }",
    "ordered-by": "leaf-list a { ordered-by '%s'; type int8; }",
    "if-feature": "feature a; leaf a { if-feature '%s'; type int8; }",
    "import": "import '%s' { prefix x; }",
    "include": "include '%s';",
    "typedef": "typedef '%s' { type int8; } leaf a { type int8; }",
    "leaf": "leaf '%s' { type int8; }",
    "yang-version": "yang-version '%s';",
    "deviate": "leaf a { type int8; } deviation /m:a { deviate '%s' { default 1; } }",
    "require-instance": "leaf a { type instance-identifier { require-instance '%s'; } }",
    "modifier": "leaf a { type string { pattern 'a' { modifier '%s'; } } }",
    "presence": "container a { presence '%s'; }",
    "identity-base": "identity a { base '%s'; }",
}
ALPHA = {"range": "1.|9- am", "range-dec": "1.|9- am", "length": "1.|9- am"}


@task(cases=[{"kind": k} for k in sorted(ARGS)], budget=700)
def argument(sx, kind):
    """a data model with an arbitrary argument is accepted or refused"""
    t = sx.str("t", 0, sx.n(3, 4), ALPHA.get(kind, "a1m:/-. é|"))
    body = ARGS[kind].split("%s")
    if kind == "import":
        text = ("module m { namespace 'http://x/m'; prefix m; " + body[0] + t + body[1] + " }\n")
    elif kind == "yang-version":
        text = ("module m { " + body[0] + t + body[1] + " namespace 'http://x/m'; prefix m; leaf a { type int8; } }\n")
    else:
        text = ("module m { yang-version 1.1; namespace 'http://x/m'; prefix m; " + body[0] + t + body[1] + " }\n")
    out, res = sx.attempt(lambda: sbuild(sx, {"m": text}), YangsonException)
    sx.observe("argument", t)
    sx.observe("outcome", (out, type(res).__name__))
    sx.check(isinstance(res, DataModel if out == "ok" else YangsonException), "a data model or a refusal")
    if out == "ok":
        out, res = sx.attempt(lambda: (res.ascii_tree(), res.schema_digest(),
                                       res.from_raw({}).add_defaults().raw_value()), YangsonException)
        sx.observe("use", (out, type(res).__name__))


LIB = {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": [
    {"name": "m", "revision": "", "namespace": "http://x/m", "conformance-type": "implement", "feature": ["f"],
     "submodule": [{"name": "s", "revision": ""}]},
    {"name": "n", "revision": "", "namespace": "http://x/n", "conformance-type": "import"}]}}
TEXTS = {"m": module("m", "include s; feature f; leaf a { type int8; }"),
         "s": "submodule s { yang-version 1.1; belongs-to m { prefix m; } leaf b { type int8; } }",
         "n": module("n", "typedef t { type int8; }")}


def places(v, at=()):
    yield at
    if isinstance(v, dict):
        for k in v:
            yield from places(v[k], at + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            yield from places(v[i], at + (i,))


PLACES = [list(p) for p in places(LIB)]
WRONG = [None, "", "zz", 0, 5, True, [], ["a"], {}, {"a": 1}, [[]], [None], "implement", "import"]


def replaced(v, at, w, drop):
    if not at:
        return w
    v = json.loads(json.dumps(v))
    p = v
    for k in at[:-1]:
        p = p[k]
    if drop:
        del p[at[-1]]
    else:
        p[at[-1]] = w
    return v


@task(cases=[{"i": i} for i in range(len(PLACES))])
def library(sx, i):
    """YANG library documents with a wrong part"""
    at = PLACES[i]
    w = sx.choice("w", ["drop"] + WRONG)
    doc = json.dumps(replaced(LIB, at, w, w == "drop"))
    d = sx.module_dir(TEXTS)
    out, res = sx.attempt(lambda: DataModel(doc, (d,)), YangsonException)
    sx.observe("document", doc)
    sx.observe("outcome", (out, type(res).__name__))
    sx.check(isinstance(res, DataModel if out == "ok" else YangsonException), "a data model or a refusal")
    if out == "ok":
        out, res = sx.attempt(lambda: (res.module_set_id(), res.ascii_tree(), res.schema_digest()))
        sx.observe("use", out)


@task(cases=[{"t": t} for t in ("", "{", "nul", "[1,", "{\"a\" 1}", "é", "\x00", "1 2", "[]", "5", "null", "\"a\"",
                                "[1]", "true", "{}")])
def library_text(sx, t):
    out, res = sx.attempt(lambda: DataModel(t, (".",)), BadYangLibraryData)
    sx.observe("outcome", (out, type(res).__name__))
    sx.check(out == "exc", "refused")
