"""The yangson tool and serialized data models."""
import os
import pickle
import sys
from symex.api import task
import yangson.__main__ as tool
from yangson.enumerations import ContentType, ValidationScope
from .common import *

BOUNDS = ("all combinations of scope, content type, subschema and operation options on instance documents with four "
          "arbitrary values, present or absent members and unknown members; about thirty defective data models and files; "
          "serialized copies of a model with all data types, constraints, identities, features and deviations, compared "
          "on documents with arbitrary values")

BODY = """
identity base; identity one { base base; } identity two { base one; }
feature f;
typedef pct { type int8 { range "0..100"; } }
container c {
  leaf a { type int8 { range "1..20"; } }
  leaf b { type int8; mandatory true; }
  leaf s { config false; type string { length "1..2"; pattern "[a-y]*"; } }
  must "not(a) or a <= b";
  leaf-list n { type pct; max-elements 2; }
  list l { key k; unique u; leaf k { type int8; } leaf u { type int8; } }
  leaf w { when "../b > 5"; type string; }
}
leaf r { type leafref { path "/c/l/k"; } }
leaf i { type identityref { base base; } }
leaf e { type enumeration { enum x; enum y { if-feature f; } enum z; } }
leaf t { type bits { bit u; bit v { position 5; } } }
leaf x { type union { type int8 { range "0..9"; } type boolean; } }
leaf d { type decimal64 { fraction-digits 2; range "-1..1"; } default 0.5; }
leaf y { type binary { length 1; } }
leaf g { if-feature f; type string; }
leaf q { type instance-identifier; }
rpc op { input { leaf p { type int8 { range "1..3"; } mandatory true; } } output { leaf o { type int8; } } }
notification nt { leaf h { type int8 { range "1..3"; } } }
"""
TEXT = module("m", BODY)
OTHER = module("o", """deviation "/m:c/m:n" { deviate replace { max-elements 1; } }
augment /m:c { leaf z { type m:pct; default 7; } }""", imports="import m { prefix m; }")
MODS = [{"name": "m", "features": ["f"]}, {"name": "o"}]
MODEL = build({"m": TEXT, "o": OTHER}, MODS)


class Stop(Exception):
    pass


class Json:
    """stand-in for the module that reads the instance file"""
    decoder = json.decoder

    def __init__(self, doc):
        self.doc = doc

    def load(self, f):
        return self.doc


def run(argv, doc=None, model=None):
    """run the tool; return the exit code and what it printed"""
    out, err = [], []

    def show(*args, file=None, **kw):
        (out if file is None or file is sys.stdout else err).append(args)
    saved = tool.json, tool.DataModel, sys.argv
    if doc is not None:
        tool.json = Json(doc)
    if model is not None:
        tool.DataModel = lambda *a: model
    sys.argv = ["yangson", *argv]
    tool.print = show
    try:
        rc = tool.main()
    finally:
        tool.json, tool.DataModel, sys.argv = saved
        del tool.print
    return rc, out, err


def document(sx, model=MODEL, extra=True):
    """instance document; returns it with the verdicts of the reference"""
    doc, ok = {}, {"raw": True, "syntax": {}, "semantics": {}}
    c = {}
    a, b, n, u = (sx.int(x, -3, 120) for x in "abnu")
    has = {x: sx.bool("has_" + x) for x in "abns"}
    if has["a"]:
        c["a"] = a
    if has["b"]:
        c["b"] = b
    if has["n"]:
        c["n"] = [n] if u > 4 else [n, 1]
    if has["s"]:
        c["s"] = sx.str("s", 0, 3, alphabet="ayz")
    c["l"] = [{"k": 1, "u": u}, {"k": 2, "u": 4}]
    doc["m:c"] = c
    return doc, a, b, n, u, has


@task(cases=[{"scope": s, "ctype": c} for s in ("syntax", "semantics", "all") for c in ("config", "nonconfig", "all")] +
      [{"scope": None, "ctype": None}])
def validate(sx, scope, ctype):
    """-v, -s and -c: the exit code tells whether the document is valid"""
    doc, a, b, n, u, has = document(sx)
    bad = sx.choice("bad", [None, "member", "type"])
    if bad == "member":
        doc["m:nope"] = 1
    elif bad == "type":
        doc["m:c"]["a"] = [1]
    opts = (["-s", scope] if scope else []) + (["-c", ctype] if ctype else [])
    swap = sx.choice("order", [True, False])
    argv = opts + ["-v", "/dev/null", "/dev/null"] if swap else ["-v", "/dev/null", "/dev/null"] + opts
    rc, out, err = run(argv, doc, MODEL)
    sx.observe("exit code", rc)
    sx.check(out == [], "nothing on standard output")
    sx.check((rc == 0) == (err == []), "a message exactly for errors")
    if bad:
        sx.check(rc == 3, "illegal documents are refused")
        return
    scope, ctype = scope or "all", ctype or "all"
    config, state = ctype != "nonconfig", ctype != "config"
    good = []
    if scope != "semantics":
        if has["a"] and config:
            good.append(sx.And(a >= 1, a <= 20))
        if has["b"] and config:
            good.append(b <= 127)
        if config:
            good.append(has["b"])
        if has["n"] and config:
            good += [n >= 0, n <= 100]
        if has["s"]:
            s = doc["m:c"]["s"]
            good.append(state)
            good.append(sx.And(len(s) >= 1, len(s) <= 2, sx.Not("z" in s)))
        if not config:
            good.append(False)
    if scope != "syntax":
        if has["a"] and config:
            good.append(sx.And(has["b"], a <= b if has["b"] else False))
        if config:
            good.append(u != 4)
            if has["n"]:
                good.append(u > 4)
    if not config or (ctype == "config" and has["s"]):
        # members of the other content type
        want = reference(sx, doc, scope, ctype)
        sx.check((rc == 0) == want, "exit code of a document of mixed content")
        return
    sx.check(sx.Iff(rc == 0, sx.And(*good)), "exit code 0 exactly for valid documents")
    sx.check(rc in (0, 3), "exit code of validation")


def reference(sx, doc, scope, ctype):
    k, i = sx.attempt(lambda: MODEL.from_raw(doc), YangsonException)
    if k == "exc":
        return False
    k, r = sx.attempt(lambda: i.validate(ValidationScope[scope], ContentType[ctype]), YangsonException)
    return k == "ok"


@task(cases=[{"sub": s} for s in ("m:op", "m:nt", "op", "m:c", "m:nope", "x:op", "")])
def subschema(sx, sub):
    """-S: payloads of operations and notifications"""
    v = sx.int("v", -2, 6)
    form = sx.choice("form", [0, 1, 2, 3])
    doc = [{"m:input": {"p": v}}, {"m:output": {"o": v}}, {"m:nt": {"h": v}}, {"m:c": {"b": v}}][form]
    rc, out, err = run(["-S", sub, "-v", "/dev/null", "/dev/null"], doc, MODEL)
    sx.observe("exit code", rc)
    inside = sx.And(v >= 1, v <= 3)
    want = False
    if sub == "m:op":
        want = inside if form == 0 else form == 1
    elif sub == "m:nt":
        want = inside if form == 2 else False
    elif sub == "":
        want = form == 3
    if sub == "m:nt" and form == 2 or sub == "m:c":
        # accepted forms of a notification are a matter of from_raw()
        k, i = sx.attempt(lambda: MODEL.from_raw(doc, sub), YangsonException)
        if k == "exc":
            want = False
        else:
            k, r = sx.attempt(lambda: i.validate(ValidationScope.all, ContentType.all), YangsonException)
            want = k == "ok"
    sx.check(sx.Iff(rc == 0, want), "exit code 0 exactly for valid payloads")
    sx.check(rc in (0, 3), "exit code of validation")
    sx.check((rc == 0) == (err == []), "a message exactly for errors")


@task(cases=[{"op": o, "n": n} for o in ("-i", "-t", "-d", "--id", "--tree", "--digest", None) for n in (False, True)])
def outputs(sx, op, n):
    """-i, -t, -d print what the library returns"""
    status = sx.choice("status", ["current", "deprecated", "obsolete"])
    default = sx.int("default", 0, 9)
    dm = build({"m": module("m", f'leaf a {{ status {status}; type int8; }} list l {{ key k; leaf k {{ type string; }} }}')})
    argv = [x for x in ("-n" if n else None, op) if x] + ["/dev/null"]
    rc, out, err = run(argv, None, dm)
    want = {"i": dm.module_set_id, "t": lambda: dm.ascii_tree(n), "d": dm.schema_digest}
    sx.check(rc == 0 and err == [], "operation succeeds")
    sx.check(out == ([(want[op.lstrip("-")[0]](),)] if op else []), "output of the operation")
    if op and op.startswith("-t"):
        sx.check(("<int8>" in out[0][0]) == (not n), "types in the diagram")
    sx.check(default >= 0, "reached")


GOOD = {"m": module("m", "leaf a { type int8; }")}
LIB = ylib([{"name": "m"}])
MODELS = {
    "fine": (GOOD, LIB, 0),
    "no library": (GOOD, None, 1),
    "not UTF-8": (GOOD, b"\xff\xfe", 1),
    "not JSON": (GOOD, "{", 2),
    "other JSON": (GOOD, "[]", 2),
    "null": (GOOD, "null", 2),
    "scalar": (GOOD, "1", 2),
    "no modules": (GOOD, '{"ietf-yang-library:modules-state": {"module-set-id": "x"}}', 2),
    "no module": ({}, LIB, 2),
    "other module name": ({"m": module("n", "leaf a { type int8; }")}, LIB, 2),
    "module is not YANG": ({"m": "module m {"}, LIB, 2),
    "empty module": ({"m": ""}, LIB, 2),
    "unknown type": ({"m": module("m", "leaf a { type t; }")}, LIB, 2),
    "no type": ({"m": module("m", "leaf a;")}, LIB, 2),
    "unknown grouping": ({"m": module("m", "uses g;")}, LIB, 2),
    "unknown prefix": ({"m": module("m", "leaf a { type p:t; }")}, LIB, 2),
    "unknown import": ({"m": module("m", "", imports="import n { prefix n; }")}, LIB, 2),
    "bad XPath": ({"m": module("m", 'leaf a { must "1 +"; type int8; }')}, LIB, 2),
    "bad XPath function": ({"m": module("m", 'leaf a { must "id(1)"; type int8; }')}, LIB, 2),
    "bad range": ({"m": module("m", 'leaf a { type int8 { range "x"; } }')}, LIB, 2),
    "bad leafref": ({"m": module("m", "leaf a { type leafref { path ../b; } }")}, LIB, 2),
    "bad key": ({"m": module("m", "list a { key k; leaf b { type int8; } }")}, LIB, 2),
    "feature prerequisite": ({"m": module("m", "feature f { if-feature g; } feature g;")},
                             ylib([{"name": "m", "features": ["f"]}]), 2),
    "two revisions": ({"m@2020-01-01": module("m", "revision 2020-01-01;"), "m@2020-01-02": module("m", "revision 2020-01-02;")},
                      ylib([{"name": "m", "revision": "2020-01-01"}, {"name": "m", "revision": "2020-01-02"}]), 2),
    "bad if-feature": ({"m": module("m", 'leaf a { if-feature "f and"; type int8; } feature f;')}, LIB, 2),
    "import cycle": ({"m": module("m", "", imports="import n { prefix n; }"), "n": module("n", "", imports="import m { prefix m; }")},
                     ylib([{"name": "m"}, {"name": "n"}]), 2),
    "pattern": ({"m": module("m", 'leaf a { type string { pattern "("; } }')}, LIB, 2),
    "default": ({"m": module("m", "leaf a { type int8; default x; }")}, LIB, 2),
}


@task(cases=[{"what": w} for w in MODELS])
def broken_models(sx, what):
    """files that are no data model"""
    texts, lib, want = MODELS[what]
    op = sx.choice("operation", [[], ["-i"], ["-t"], ["-v", "inst"]])
    how = sx.choice("path", ["-p", "--path", "environment", "second", "current"])
    d = tmpdir()
    for n, t in texts.items():
        with open(os.path.join(d, n + ".yang"), "w", encoding="utf-8") as f:
            f.write(t)
    path = os.path.join(d, "library")
    if lib is not None:
        with open(path, "wb") as f:
            f.write(lib if isinstance(lib, bytes) else lib.encode())
    with open(os.path.join(d, "inst"), "w") as f:
        f.write('{"m:a": 1}')
    old, cwd = os.environ.pop("YANG_MODPATH", None), os.getcwd()
    os.chdir(d)
    try:
        if how == "environment":
            os.environ["YANG_MODPATH"] = "/nowhere:" + d
            os.chdir("/")
            op = [os.path.join(d, x) if x == "inst" else x for x in op]
        elif how == "current":
            pass
        elif how == "second":
            op = ["-p", "/nowhere:."] + op
        else:
            op = [how, d] + op
        k, r = sx.attempt(lambda: run(op + [path]))
    finally:
        os.chdir(cwd)
        os.environ.pop("YANG_MODPATH", None)
        if old is not None:
            os.environ["YANG_MODPATH"] = old
    sx.check(k == "ok", "no exception leaves the tool")
    rc, out, err = r
    sx.observe("exit code", rc)
    sx.check(rc == want, "exit code of a problem with the data model")
    sx.check((rc == 0) == (err == []), "a message exactly for errors")
    sx.check(rc == 0 or out == [], "no output of a failed operation")


@task(cases=[{"what": w} for w in ("missing", "directory", "latin", "empty", "brace", "list", "null", "number", "string",
                                   "nested", "fine", "pickle", "not pickle", "no pickle", "empty pickle")])
def broken_files(sx, what):
    """files that are no documents"""
    scope = sx.choice("scope", ["syntax", "semantics", "all"])
    d = tmpdir()
    inst = os.path.join(d, "inst")
    text = {"latin": b'{"m:a": "\xe9"}', "empty": b"", "brace": b"{", "list": b"[]", "null": b"null", "number": b"1",
            "string": b'"m:a"', "nested": b'{"m:a": {"m:a": 1}}'}.get(what, b'{"m:i": "one", "m:c": {"b": 1}}')
    if what == "directory":
        os.mkdir(inst)
    elif what != "missing":
        with open(inst, "wb") as f:
            f.write(text)
    opts, model = [], MODEL
    lib = "/dev/null"
    if "pickle" in what:
        opts, model = ["-P"], None
        lib = os.path.join(d, "model")
        if what != "no pickle":
            with open(lib, "wb") as f:
                f.write({"not pickle": b"{}", "empty pickle": b""}.get(what, pickle.dumps(MODEL)))
    k, r = sx.attempt(lambda: run(opts + ["-s", scope, "-v", inst, lib], None, model))
    sx.check(k == "ok", "no exception leaves the tool")
    rc, out, err = r
    sx.observe("exit code", rc)
    want = 0 if what in ("fine", "pickle") else 1 if what in ("missing", "directory", "latin", "empty", "brace", "not pickle",
                                                             "no pickle", "empty pickle") else 3
    sx.check(rc == want, "exit code of a problem with the file")
    sx.check((rc == 0) == (err == []), "a message exactly for errors")


def outcome(sx, model, doc, scope, ctype):
    k, i = sx.attempt(lambda: model.from_raw(doc), YangsonException)
    if k == "exc":
        return ("raw", type(i), str(i))
    k, r = sx.attempt(lambda: i.validate(scope, ctype), YangsonException)
    if k == "exc":
        return ("invalid", type(r), str(r))
    full = i.add_defaults(ctype)
    return ("valid", i.raw_value(), full.raw_value())


def copied(model):
    return pickle.loads(pickle.dumps(model, pickle.HIGHEST_PROTOCOL))


COPY = copied(MODEL)


def same_outcome(sx, doc):
    scope = ValidationScope[sx.choice("scope", ["syntax", "semantics", "all"])]
    ctype = ContentType[sx.choice("ctype", ["config", "nonconfig", "all"])]
    k1, *a = outcome(sx, MODEL, doc, scope, ctype)
    k2, *b = outcome(sx, COPY, doc, scope, ctype)
    sx.observe("outcome", k1)
    sx.check(k1 == k2, "the serialized model gives the same verdict")
    sx.check(a == b, "the serialized model gives the same result")
    return k1


@task
def serialized_container(sx):
    doc, a, b, n, u, has = document(sx)
    if sx.bool("has_w"):
        doc["m:c"]["w"] = "x"
    if sx.bool("has_z"):
        doc["m:c"]["o:z"] = n
    same_outcome(sx, doc)


LEAVES = {"r": lambda sx: sx.int("v", 0, 4), "i": lambda sx: sx.str("v", 3, 5, alphabet="onetwm:bas"),
          "e": lambda sx: sx.str("v", 0, 2, alphabet="xyz"), "t": lambda sx: sx.str("v", 0, 3, alphabet="uv "),
          "x": lambda sx: sx.int("v", -3, 12), "d": lambda sx: sx.str("v", 1, 5, alphabet="01.-"),
          "y": lambda sx: sx.str("v", 0, 4, alphabet="AQ="), "g": lambda sx: sx.str("v", 0, 2),
          "q": lambda sx: sx.choice("v", ["/m:c", "/m:c/l[k='1']", "/m:c/l[k='3']", "/m:c/nope", "m:c", "/m:r", "/x:r", "/"])}


@task(cases=[{"leaf": x} for x in LEAVES])
def serialized_types(sx, leaf):
    doc = {"m:c": {"b": 1, "l": [{"k": 1}, {"k": 2}]}, "m:" + leaf: LEAVES[leaf](sx)}
    same_outcome(sx, doc)


@task(cases=[{"i": i} for i in range(9)])
def serialized_schema(sx, i):
    """the diagram, the digest, schema nodes, and the dump of the tool"""
    alt = sx.choice("alternative", list(range(4)))
    bodies = ["leaf a { type int8; default 3; }", "choice x { case y { leaf a { type string { pattern 'a+'; } } } leaf b { type empty; } }",
              "list l { key 'a b'; unique 'c'; leaf a { type int8; } leaf b { type int8; } leaf c { type int8; } }",
              "leaf-list l { type int8; ordered-by user; default 1; default 2; }", "container c { presence x; anydata d; anyxml e; }",
              "leaf a { type leafref { path /b; require-instance false; } } leaf b { type union { type int8; type string; } }",
              "rpc o { input { leaf a { type int8; } } } notification n { leaf a { type int8; } }",
              "list l { key k; leaf k { type int8; } action a { output { leaf b { type int8; } } } }",
              "identity a; identity b { base a; } leaf c { type identityref { base a; } must \". = 'b'\"; }"]
    extra = ["", "leaf zz { status deprecated; type bits { bit a; bit b; } }", "leaf zz { config false; type decimal64 { fraction-digits 3; } }",
             "container zz { leaf v { when \"../../u\"; type enumeration { enum a; enum b; } } } leaf u { type int8; }"][alt]
    d = tmpdir()
    texts = {"m": module("m", bodies[i] + extra)}
    dm = build(texts)
    f = os.path.join(d, "dump")
    rc, out, err = run(["-D", f, "/dev/null"], None, dm)
    sx.check(rc == 0 and out == [] and err == [], "the model is dumped")
    op = sx.choice("operation", ["-t", "-d", "-i"])
    rc, out, err = run(["-P", op, f])
    sx.check(rc == 0 and err == [], "the model is loaded")
    want = {"-t": dm.ascii_tree, "-d": dm.schema_digest, "-i": dm.module_set_id}[op]()
    sx.check(out == [(want,)], "the loaded model is the same")
    os.remove(f)
    rc, out, err = run(["-D", os.path.join(d, "no", "dump"), "/dev/null"], None, dm) if alt == 0 and i == 0 else (1, [], [1])
    sx.check(rc == 1 and out == [] and err != [], "a dump that cannot be written is an error")
