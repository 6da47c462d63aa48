"""Operations and notifications."""
import itertools
from symex.api import task
from .common import *
from .jdoc import reparse
from yangson.enumerations import ContentType, ValidationScope
from yangson.instance import RootNode

BOUNDS = ("one model with two RPCs, an action and notifications (top-level and nested) having parameters of the same name and "
          "different types, mandatory and default ones, lists, choices, must and when, groupings with config statements, augments "
          "from another module; documents with every subset of members and arbitrary values (ints of 32 bits, texts of up to 3 "
          "characters); any text of up to 6 characters as the subschema name; leafrefs and XPath expressions that "
          "leave the operation's own data are outside")

PARTS = """
  grouping g {
    leaf a { type int8 { range "1..9"; } mandatory true; }
    leaf b { type int8; default 5; }
    leaf cfg { config %s; type boolean; }
  }
  rpc op {
    input {
      uses g;
      container c { leaf d { type string { length "1..2"; } mandatory true; } }
      container p { presence x; leaf d { type string; mandatory true; } }
      list l { key k; max-elements 2; leaf k { type int8; } leaf v { type int8; } unique v; }
      choice h { mandatory true; leaf h1 { type int8; } case h2 { leaf h2 { type int8; } leaf h3 { type int8; } } }
    }
    output {
      leaf a { type string { length "1..2"; } }
      leaf o { type int8; mandatory true; must "../a"; }
      leaf-list ll { type int8; min-elements 1; }
    }
  }
  rpc op2 { input { leaf a { type boolean; } leaf z { type int8; when "../a = 'true'"; } must "count(*) > 0"; } }
  rpc bare;
  notification no {
    leaf a { type boolean; }
    leaf x { type int8; mandatory true; }
    leaf s { type string; }
    container c { leaf d { type int8; } }
    must "a = 'true' or not(s)";
  }
  container top {
    leaf a { type int16; }
    leaf t { type int8; default 3; }
    action act { input { leaf p { type int8; mandatory true; } leaf a { type string; } } output { leaf q { type int8; } } }
    notification nn { leaf w { type int8; mandatory true; } leaf a { type string; } }
    list li { key k; leaf k { type int8; } action lact { input { leaf pp { type int8; } } } }
  }
"""
OTHER = ("augment /m:op/m:input { leaf e { type int8; } } augment /m:no { leaf e { type int8; mandatory true; } }"
         "augment /m:op/m:output { when \"m:o = 1\"; leaf e { type int8; } }"
         "augment /m:top/m:act/m:input { leaf e { type string; } }")
_dm = {}


def model(cfg="true", other=False):
    k = cfg, other
    if k not in _dm:
        t = {"m": module("m", PARTS % cfg)}
        mods = [{"name": "m"}]
        if other:
            t["n"] = module("n", OTHER, imports="import m { prefix m; }")
            mods.append({"name": "n"})
        _dm[k] = build(t, mods)
    return _dm[k]


def instance(dm, part, doc):
    """root instance of an operation or notification"""
    if part == "act":
        sn = dm.get_schema_node("/m:top/act")
    elif part == "nn":
        sn = dm.get_schema_node("/m:top/nn")
    else:
        return dm.from_raw(doc, "m:" + part)
    v = sn.from_raw(doc)
    return RootNode(v, sn, dm.schema_data, v.timestamp)


def verdict(sx, dm, part, doc):
    r = sx.attempt(lambda: instance(dm, part, doc), YangsonException)
    if r[0] == "exc":
        return type(r[1]).__name__
    out = set()
    for ct in (ContentType.all, ContentType.nonconfig):
        v = sx.attempt(lambda: r[1].validate(ctype=ct), YangsonException)
        out.add("ok" if v[0] == "ok" else type(v[1]).__name__)
    sx.check(len(out) == 1, "content type makes no difference")
    return min(out) if len(out) == 1 else "?"


def wrap(sx, part, kind, d):
    """document with member names in one of the accepted forms"""
    if kind is None:
        return {"m:" + k if sx.choice("qualified", [True, False]) else k: v for k, v in d.items()} if len(d) < 2 else (
            {"m:" + k: v for k, v in d.items()})
    return {("m:" + kind): d}


@task(cases=[{"cfg": c, "given": g} for c in ("true", "false") for g in ("values", "subsets")])
def inputs(sx, cfg, given):
    """input of an RPC"""
    dm = model(cfg)
    d = {}
    bad = False
    if given == "values":
        a = sx.int("a", -300, 300)
        b = sx.int("b", -300, 300)
        s = sx.str("d", 0, 3, "xy ")
        d = {"a": a, "b": b, "c": {"d": s}, "h1": 1}
        ok = sx.And(a >= 1, a <= 9, b >= -128, b <= 127, len(s) >= 1, len(s) <= 2)
        r = verdict(sx, dm, "op", {"m:input": d})
        sx.check((r == "ok") == sx.settle(ok), "valid values")
        sx.check(r in ("ok", "YangTypeError"), "kind of failure")
        return
    d["a"] = 2
    missing = []
    for k, v, need in (("a", 2, True), ("cfg", True, False), ("c", {"d": "x"}, True), ("p", {"d": "x"}, False),
                       ("h1", 1, False), ("h2", 1, False)):
        if sx.choice("has " + k, [True, False]):
            d[k] = v
        else:
            d.pop(k, None)
            if need:
                missing.append(k)
    n = sx.choice("entries", [0, 1, 2, 3])
    if n:
        vs = [sx.int(f"v{i}", 0, 1) for i in range(2)]
        d["l"] = [{"k": i, "v": v} for i, v in enumerate(vs[:n])] + ([{"k": 7}] if n > 2 else [])
    if "p" in d and sx.choice("empty p", [False, True]):
        d["p"] = {}
        bad = True
    hs = [k for k in ("h1", "h2") if k in d]
    r = verdict(sx, dm, "op", {"m:input": d})
    if missing or len(hs) != 1 or bad:
        sx.check(r == "SchemaError", "missing or excess members")
    elif n == 3:
        sx.check(r == "SemanticError", "too many entries")
    elif n == 2 and vs[0] == vs[1]:
        sx.check(r == "SemanticError", "unique")
    else:
        sx.check(r == "ok", "valid input")


@task(cases=[{"both": b} for b in (False, True)])
def outputs(sx, both):
    """output of an RPC; input and output in one document"""
    dm = model("false")
    d = {}
    if sx.choice("has a", [True, False]):
        d["a"] = sx.str("a", 0, 3, "x9")
    if sx.choice("has o", [True, False]):
        d["o"] = sx.int("o", -1000, 1000)
    n = sx.choice("values", [None, 0, 1, 2])
    if n is not None:
        d["ll"] = [sx.int(f"l{i}", 100, 150) for i in range(n)]      # repeated values are allowed
    doc = {"m:output": d}
    in_ok = True
    if both:
        in_ok = sx.choice("input", [True, False])
        doc["m:input"] = {"a": 1, "c": {"d": "x"}, "h1": 3} if in_ok else {"a": 1, "h1": 3}
    r = verdict(sx, dm, "op", doc)
    schema_ok = "o" in d and n is not None and in_ok
    if not schema_ok:
        sx.check(r != "ok", "missing members")
        if "o" not in d and in_ok:
            sx.check(r == "SchemaError", "missing member")
        return
    ok = sx.And(d["o"] >= -128, d["o"] <= 127, *[x <= 127 for x in d["ll"]])
    ok = sx.And(ok, n > 0, "a" in d)
    if "a" in d:
        ok = sx.And(ok, len(d["a"]) >= 1, len(d["a"]) <= 2)
    sx.check((r == "ok") == sx.settle(ok), "valid output")


@task()
def conditions(sx):
    """must and when of parameters"""
    dm = model()
    d = {}
    a = sx.choice("a", [None, True, False])
    if a is not None:
        d["a"] = a
    if sx.choice("z", [False, True]):
        d["z"] = sx.int("zv", -200, 200)
    r = verdict(sx, dm, "op2", {"m:input": d})
    if "z" in d and a is not True:
        sx.check(r == "SchemaError", "when")
    elif "z" in d and not -128 <= d["z"] <= 127:
        sx.check(r == "YangTypeError", "value")
    elif not d:
        sx.check(r == "SemanticError", "must of input")
    else:
        sx.check(r == "ok", "valid input")


@task(cases=[{"other": o} for o in (False, True)])
def notifications(sx, other):
    """notification documents"""
    dm = model("true", other)
    q = "m:" if sx.choice("qualified", [True, False]) else ""
    d = {}
    a = sx.choice("a", [None, True, False])
    if a is not None:
        d[q + "a"] = a
    s = sx.choice("s", [None, "", "x"])
    if s is not None:
        d[q + "s"] = s
    if sx.choice("has x", [True, False]):
        d[q + "x"] = sx.int("x", -300, 300)
    if sx.choice("has c", [True, False]):
        d[q + "c"] = {"d": sx.int("d", -300, 300)}
    if sx.choice("has e", [True, False]):
        d["n:e"] = 1
    r = verdict(sx, dm, "no", d)
    if "n:e" in d and not other:
        sx.check(r == "RawMemberError", "member of an absent module")
        return
    if q + "x" not in d or (other and "n:e" not in d):
        sx.check(r != "ok", "missing member")
        return
    ok = sx.And(d[q + "x"] >= -128, d[q + "x"] <= 127)
    if q + "c" in d:
        ok = sx.And(ok, d[q + "c"]["d"] >= -128, d[q + "c"]["d"] <= 127)
    must = a is True or s is None
    ok = sx.settle(sx.And(ok, must))
    sx.check((r == "ok") == ok, "valid notification")
    if not ok and not must:
        sx.check(r in ("SemanticError", "YangTypeError"), "must")


MEMBERS = ["a", "b", "c", "d", "h1", "h2", "o", "ll", "z", "x", "s", "t", "p", "q", "w", "e", "pp", "k", "cfg", "input", "output",
           "op", "op2", "bare", "no", "top", "act", "nn", "li", "lact", "zz"]
HERE = {  # members known in each place
    "op input": {"a", "b", "cfg", "c", "p", "l", "h1", "h2", "h3"}, "op output": {"a", "o", "ll"},
    "op2 input": {"a", "z"}, "op2 output": set(), "bare input": set(), "bare output": set(), "no": {"a", "x", "s", "c"},
    "op": {"input", "output"}, "act": {"input", "output"}, "act input": {"p", "a"}, "act output": {"q"}, "nn": {"w", "a"},
    "root": {"top"}, "top": {"a", "t", "li"}, "li": {"k"},
}
VALUES = [1, "x", True, {}, [1], [{"k": 1}], [], None]


@task(cases=[{"place": p} for p in HERE])
def foreign(sx, place):
    """members of other parts of the schema are refused everywhere"""
    dm = model()
    m = sx.choice("member", MEMBERS)
    v = sx.choice("value", VALUES[:6])
    q = sx.choice("qualified", [True, False])
    mem = {("m:" if q else "") + m: v}
    part, _, sub = place.partition(" ")
    if place == "root":
        if not q:
            return
        doc = mem
    elif place == "top":
        doc = {"m:top": mem}
    elif place == "li":
        doc = {"m:top": {"li": [{"k": 1, **mem}]}}
    elif sub:
        doc = {"m:" + sub: mem}
    else:
        doc = mem
    if place in ("root", "top", "li"):
        r = sx.attempt(lambda: dm.from_raw(doc), YangsonException)
        val = (lambda: r[1].validate(ctype=ContentType.all))
    else:
        r = sx.attempt(lambda: instance(dm, part, doc), YangsonException)
        val = (lambda: r[1].validate(ctype=ContentType.all))
    if m in HERE[place]:
        sx.check(r[0] == "ok" or isinstance(r[1], (RawTypeError, RawMemberError)), "known member")
        return
    if place == "root" and m in ("op", "op2", "bare", "no"):
        # decoded with the operation's schema, but no data of the datastore
        sx.check(r[0] == "exc" or sx.raises(val, SchemaError), "operation in a datastore")
        return
    sx.check(r[0] == "exc" and isinstance(r[1], RawMemberError), "member refused")


@task(cases=[{"place": p} for p in HERE if p not in ("op", "act")])
def foreign_xml(sx, place):
    """the same in XML"""
    dm = model()
    m = sx.choice("member", MEMBERS)
    text = sx.choice("text", [None, "1", "x", "true"])
    ns = "{http://x/m}"
    el = elem(text, ns + m)
    part, _, sub = place.partition(" ")
    root = elem(None, "content-data")
    if place == "root":
        root.append(el)
    elif place in ("top", "li"):
        top = elem(None, ns + "top")
        root.append(top)
        if place == "li":
            li = elem(None, ns + "li")
            li.append(elem("1", ns + "k"))
            top.append(li)
            top = li
        if place == "li" and m == "k":
            return
        top.append(el)
    elif sub:
        root = elem(None, ns + sub)
        root.append(el)
    else:
        root = elem(None, ns + part)
        root.append(el)
    if part in ("act", "nn"):
        sn = dm.get_schema_node("/m:top/" + part)
        r = sx.attempt(lambda: sn.from_xml(root), YangsonException)
    else:
        r = sx.attempt(lambda: dm.from_xml(root, None if place in ("root", "top", "li") else "m:" + part), YangsonException)
    if m in HERE[place]:
        sx.check(r[0] == "ok" or isinstance(r[1], (RawTypeError, RawMemberError)), "known member")
    elif place == "root" and m in ("op", "op2", "bare", "no"):
        sx.check(r[0] == "exc" or sx.raises(lambda: r[1].validate(ctype=ContentType.all), SchemaError), "operation in a datastore")
    else:
        sx.check(r[0] == "exc" and isinstance(r[1], RawMemberError), "member refused")


@task(cases=[{"pre": p} for p in ("", "m:", "n:", "m:o")])
def subschema(sx, pre):
    """names of subschemas"""
    dm = model("true", True)
    s = pre + sx.str("name", 0, sx.n(4, 6), "mnop2t:x")
    el = elem(None, "{http://x/m}input")
    p, c, loc = s.partition(":")
    for what, call in (("json", lambda: dm.from_raw({}, s)), ("xml", lambda: dm.from_xml(el, s))):
        r = sx.attempt(call, YangsonException)
        if len(s) == 0:
            sx.check(r[0] == "ok" or what == "xml", "no subschema")
        elif not (len(p) and len(c) and len(loc)):
            sx.check(r[0] == "exc" and isinstance(r[1], InvalidArgument), "incomplete name")
        elif p == "m" and (loc == "op" or loc == "op2" or loc == "no"):
            sx.check(r[0] == "ok" or what == "xml" and loc == "no", "operation")
        elif p == "m" and loc == "top":
            sx.check(r[0] == "exc" and isinstance(r[1], BadSchemaNodeType), "not an operation")
        else:
            sx.check(r[0] == "exc" and isinstance(r[1], NonexistentSchemaNode), "unknown name")


@task()
def actions(sx):
    """actions and notifications inside containers, augmented from another module"""
    dm = model("true", True)
    part = sx.choice("part", ["act", "nn"])
    d = {}
    names = {"act": ["p", "a", "n:e"], "nn": ["w", "a", "n:e"]}[part]
    for k in names:
        if sx.choice("has " + k, [True, False]):
            d[k if k[:2] == "n:" or part == "act" or sx.choice("q" + k, [True, False]) else "m:" + k] = (
                sx.int("v", -300, 300) if k in ("p", "w") else "t")
    doc = {"m:input": d} if part == "act" else d
    r = verdict(sx, dm, part, doc)
    if part == "nn" and "n:e" in d:
        sx.check(r == "RawMemberError", "member of another part")
        return
    req = next((d[k] for k in ("p", "w", "m:w") if k in d), None)
    if req is None:
        sx.check(r == "SchemaError", "missing member")
    else:
        sx.check((r == "ok") == sx.settle(sx.And(req >= -128, req <= 127)), "valid")


@task(cases=[{"part": p} for p in ("op", "no", "act", "nn")])
def encodings(sx, part):
    """decoding inverts encoding, defaults and updates of operations"""
    dm = model("true", True)
    i = sx.int("i", -128, 127)
    if part == "op":
        which = sx.choice("which", ["input", "output"])
        inner = ({"a": 3, "c": {"d": "x"}, "h1": i, "l": [{"k": i}], "n:e": 2} if which == "input"
                 else {"o": 1, "ll": [i, i], "a": "z", "n:e": 2})
        doc = {"m:" + which: inner}
    elif part == "act":
        which = "input"
        doc = {"m:input": {"p": i, "n:e": "z"}}
    else:
        which = None
        doc = {"m:x": i, "m:a": True, "m:c": {"d": 3}, "n:e": 4} if part == "no" else {"m:w": i, "m:a": "q"}
    r = instance(dm, part, doc)
    r.validate(ctype=ContentType.all)
    sx.check(r.raw_value() == doc, "raw value")
    again = instance(dm, part, json.loads(json.dumps(doc)) if not sx.symbolic else doc)
    sx.check(again.value == r.value, "decoded twice")
    # defaults of the part only
    full = r.add_defaults(ContentType.all)
    raw = full.raw_value()
    if part == "op" and which == "input":
        sx.check(raw == {"m:input": {**doc["m:input"], "b": 5}}, "defaults")
    else:
        sx.check(raw == doc, "defaults")
    full.validate(ctype=ContentType.all)
    # editing through the root
    up = r.update(doc, raw=True)
    sx.check(up.raw_value() == doc and up.value == r.value, "update")
    sx.check(not sx.raises(lambda: up.validate(ctype=ContentType.all), ValidationError), "update is valid")
    name = next(iter(doc))
    re = r.delete_item(name) if hasattr(r, "delete_item") else None
    back = r.put_member(name, doc[name], raw=True).top()
    sx.check(back.value == r.value, "put_member")
    if part in ("op", "act", "no"):
        x = reparse(sx, r.to_xml())
        y = (dm.from_xml(x, "m:" + part) if part != "act" else None)
        if y is not None:
            sx.check(y.value == r.value, "XML")
        else:
            sx.check(dm.get_schema_node("/m:top/act").from_xml(x) == r.value, "XML")


@task()
def datastore(sx):
    """operations have no influence on data"""
    dm = model("true", True)
    d = {}
    if sx.choice("top", [True, False]):
        d["m:top"] = {}
        if sx.choice("a", [True, False]):
            d["m:top"]["a"] = sx.int("v", -40000, 40000)
        if sx.choice("li", [True, False]):
            d["m:top"]["li"] = [{"k": 1}]
    inst = dm.from_raw(d)
    v = sx.attempt(lambda: inst.validate(ctype=ContentType.all), ValidationError)
    a = d.get("m:top", {}).get("a", 0)
    ok = sx.settle(sx.And(a >= -32768, a <= 32767))
    sx.check((v[0] == "ok") == ok, "valid")
    if not ok:
        return
    full = inst.add_defaults(ContentType.all).raw_value()
    want = {"m:top": {"t": 3, **d.get("m:top", {})}}
    sx.check(full == want, "defaults")
    for p in ("/m:input", "/m:a", "/m:x", "/m:top/input", "/m:top/p", "/m:top/w", "/m:top/li/input", "/m:op", "/m:top/act"):
        sx.check(dm.get_data_node(p) is None, "not a data node")
    for p in ("/m:op/input/a", "/m:op/output/a", "/m:no/x", "/m:top/act/input/p", "/m:top/nn/w", "/m:top/li/lact/input/pp"):
        sx.check(dm.get_schema_node(p) is not None, "schema node")
    sx.check({n.name for n in dm.schema.data_children()} == {"top"}, "data children")


@task(cases=[{"part": p, "form": f} for p in ("input", "output", "no", "nn", "act") for f in ("leafref", "must", "when", "unique")])
def paths(sx, part, form):
    """relative paths among parameters"""
    body = {"leafref": 'leaf v { type int8; } leaf r { type leafref { path "../v"; } }',
            "must": 'leaf v { type int8; } leaf r { type int8; must "../v = ."; }',
            "when": 'leaf v { type int8; } leaf r { type int8; when "../v > 0"; }',
            "unique": 'list l { leaf r { type int8; } leaf v { type int8; } unique "r v"; }'}[form]
    text = {"input": "rpc o { input { %s } output { leaf v { type string; } } }",
            "output": "rpc o { input { leaf v { type string; } } output { %s } }",
            "no": "notification o { %s }", "nn": "container c { notification o { %s } leaf v { type string; } }",
            "act": "container c { leaf v { type string; } action o { input { %s } } }"}[part] % body
    key = part, form
    if key not in _dm:
        _dm[key] = build({"m": module("m", "leaf v { type string; } " + text)})
    dm = _dm[key]
    sn = dm.get_schema_node("/m:c/o" if part in ("nn", "act") else "/m:o")
    v = sx.int("v", -200, 200)
    r = sx.int("r", -200, 200)
    has = sx.choice("has v", [True, False])
    d = {"r": r}
    if has:
        d["v"] = v
    if form == "unique":
        v2 = sx.int("v2", -10, 10)
        d = {"l": [dict(d), {"r": 5, "v": v2}]}
    doc = d if part in ("no", "nn") else {"m:output" if part == "output" else "m:input": d}
    val = sn.from_raw(doc)
    inst = RootNode(val, sn, dm.schema_data, val.timestamp)
    res = sx.attempt(lambda: inst.validate(ctype=ContentType.all), ValidationError)
    rng = sx.And(r >= -128, r <= 127, sx.Or(not has, sx.And(v >= -128, v <= 127)))
    if form in ("leafref", "must"):
        want = sx.And(rng, has, v == r)
    elif form == "when":
        want = sx.And(rng, has, v > 0)
    else:
        want = sx.And(rng, sx.Or(not has, sx.Not(sx.And(r == 5, v == v2))))
    sx.check((res[0] == "ok") == sx.settle(want), "valid")
