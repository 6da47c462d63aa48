"""queries leave the data model and the data unchanged."""
from symex.api import task
from yangson.enumerations import ContentType, ValidationScope
from yangson.xpathparser import XPathParser
from yangson.schemadata import SchemaContext
from yangson.instance import OutputFilter
from yangson.instvalue import ObjectValue
from yangson.schemanode import ListNode
from .common import *

BOUNDS = ("any two (thorough: three) of about 45 queries followed by all of them, on a model with every kind of schema "
          "node and an instance with arbitrary values of four leafs and an arbitrary choice of optional nodes; "
          "any two of 25 steps (navigation and edits) from fourteen nodes, each repeated")

TEXTS = {"m": module("m", """
feature f; feature g;
identity a; identity b; identity ab { base a; base b; } identity abc { base ab; } identity bo { base b; }
identity aa { base a; }
typedef t { type int8 { range "0..20"; } default 3; }
grouping gr { leaf-list ll { type t; } container in { leaf z { type string; default dz; } } }
container c {
  leaf n { type t; must ". < 15 and . != ../../k"; }
  leaf w { when "../n > 5"; type int8; default 2; }
  choice ch { default ca; case ca { leaf x { type int8; default 7; } } leaf y { type string; } }
  uses gr { refine in/z { default dr; } augment in { leaf aug { type int8; } } }
  leaf id { type identityref { base a; base b; } }
  leaf st { config false; type int8; }
}
leaf k { type int8; }
leaf ref { type leafref { path "/m:l/m:k"; } }
leaf iid { type instance-identifier; }
list l { key k; unique v; leaf k { type int8; } leaf v { type int8; default 1; } leaf-list q { type string; }
  list s { key j; leaf j { type string; } } action act { input { leaf i { type int8; } } } }
leaf u { type union { type int8; type boolean; type identityref { base a; } } }
leaf bi { type bits { bit a; bit b { if-feature g; } bit e; } default "a e"; }
leaf en { if-feature f; type enumeration { enum a; enum b; } }
anydata ad;
leaf gone { if-feature g; type int8; }
rpc r { input { leaf i { type t; } } output { leaf o { type t; } } }
notification nt { leaf i { type t; mandatory true; } }
"""), "n": module("n", """
augment /m:c { leaf n { type int8; } container d { presence p; leaf e { type int8; mandatory true; } } }
augment /m:c/m:ch { case cn { leaf nn { type string; } } }
identity nn { base m:ab; }
deviation /m:k { deviate add { default 9; } }
""", imports="import m { prefix m; }")}
MODS = [{"name": "m", "features": ["f"]}, {"name": "n"}]


def model():
    return build(TEXTS, MODS)


def ident(n, m="m"):
    return (n, m)


def xp(sx, dm, i, text):
    e = XPathParser(text, SchemaContext(dm.schema_data, "m", ("m", ""))).parse()
    r = e.evaluate(i)
    return [(type(n.value).__name__, n.json_pointer()) for n in r] if isinstance(r, list) else r


def verdict(sx, f):
    o, r = sx.attempt(f, YangsonException)
    return (o, type(r).__name__ if o == "exc" else None, str(r) if o == "exc" else None)


def touched(v):
    """use up a value that was returned"""
    if isinstance(v, dict):
        for x in list(v.values()):
            touched(x)
        v["zz"] = 1
    elif isinstance(v, list):
        for x in v:
            touched(x)
        v.append("zz")
    elif isinstance(v, set):
        v.add(("zz", "zz"))


def raw(i):
    v = i.raw_value()
    r = dup(v)
    touched(v)
    return r


def dup(v):
    if isinstance(v, dict):
        return {k: dup(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dup(x) for x in v]
    return v


def setof(s):
    r = sorted(s)
    s.add(("zz", "zz"))
    return r


def xml(el):
    return (el.tag, el.text, sorted(el.attrib.items()), [xml(c) for c in el])


class Only(OutputFilter):
    def begin_member(self, parent, node, attributes):
        return node.name != "m:k"

    def end_member(self, parent, node, attributes):
        return True

    def begin_element(self, parent, node, attributes):
        return True

    def end_element(self, parent, node, attributes):
        return node.index == 0


QUERIES = {
    "tree": lambda sx, dm, i: dm.ascii_tree(),
    "tree-no-types": lambda sx, dm, i: dm.ascii_tree(no_types=True),
    "digest": lambda sx, dm, i: dm.schema_digest(),
    "set-id": lambda sx, dm, i: dm.module_set_id(),
    "derived a": lambda sx, dm, i: setof(dm.schema_data.derived_from(ident("a"))),
    "derived ab": lambda sx, dm, i: setof(dm.schema_data.derived_from(ident("ab"))),
    "derived abc": lambda sx, dm, i: setof(dm.schema_data.derived_from(ident("abc"))),
    "derived a b": lambda sx, dm, i: setof(dm.schema_data.derived_from_all([ident("a"), ident("b")])),
    "derived b a": lambda sx, dm, i: setof(dm.schema_data.derived_from_all([ident("b"), ident("a")])),
    "derived a ab": lambda sx, dm, i: setof(dm.schema_data.derived_from_all([ident("a"), ident("ab")])),
    "is derived": lambda sx, dm, i: [dm.schema_data.is_derived_from(ident(x), ident(y))
                                     for x in ("a", "ab", "abc", "aa", "bo") for y in ("a", "b", "ab")],
    "revision": lambda sx, dm, i: dm.schema_data.last_revision("m"),
    "prefix": lambda sx, dm, i: [dm.schema_data.prefix2ns("m", ("n", "")), dm.schema_data.prefix("m", ("n", ""))],
    "schema node": lambda sx, dm, i: str(dm.get_schema_node("/m:c/ch/ca/x").qual_name),
    "data node": lambda sx, dm, i: str(dm.get_data_node("/m:c/x").data_path()),
    "no node": lambda sx, dm, i: [dm.get_data_node("/m:c/nope"), dm.get_schema_node("/m:c/ca/nope")],
    "instance id": lambda sx, dm, i: str(dm.parse_instance_id("/m:l[k='1']/v")),
    "resource id": lambda sx, dm, i: str(dm.parse_resource_id("/m:l=1/v")),
    "from raw": lambda sx, dm, i: dm.from_raw({"m:k": 4, "m:c": {"n": 9, "ll": [1]}}).raw_value(),
    "from raw bad": lambda sx, dm, i: verdict(sx, lambda: dm.from_raw({"m:c": {"n": "x"}})),
    "validate other": lambda sx, dm, i: verdict(sx, lambda: dm.from_raw(
        {"m:k": 4, "m:c": {"n": 9, "ll": [1]}}).validate()),
    "validate invalid": lambda sx, dm, i: verdict(sx, lambda: dm.from_raw(
        {"m:c": {"n": 19, "w": 1, "n:d": {}}}).validate()),
    "validate rpc": lambda sx, dm, i: verdict(sx, lambda: dm.from_raw(
        {"m:r": {"input": {"i": 20}}}, "m:r").validate()),
    "validate": lambda sx, dm, i: verdict(sx, lambda: i.validate()),
    "validate syntax": lambda sx, dm, i: verdict(sx, lambda: i.validate(ValidationScope.syntax)),
    "validate config": lambda sx, dm, i: verdict(sx, lambda: i.validate(ctype=ContentType.config)),
    "validate member": lambda sx, dm, i: verdict(sx, lambda: i["m:c"].validate()),
    "defaults": lambda sx, dm, i: raw(i.add_defaults()),
    "defaults config": lambda sx, dm, i: raw(i["m:c"].add_defaults(ContentType.config).top()),
    "raw": lambda sx, dm, i: raw(i),
    "raw filtered": lambda sx, dm, i: i.raw_value(filter=Only()),
    "xml": lambda sx, dm, i: xml((i.delete_item("m:ad") if "m:ad" in i else i).to_xml()),
    "children": lambda sx, dm, i: list(i["m:c"]),
    "entries": lambda sx, dm, i: [(n.json_pointer(), n.value["k"]) for n in i["m:l"]],
    "goto": lambda sx, dm, i: i.goto(dm.parse_resource_id("/m:l=1/k")).value,
    "peek": lambda sx, dm, i: i.peek(dm.parse_instance_id("/m:c/n")),
    "peek none": lambda sx, dm, i: i.peek(dm.parse_instance_id("/m:l[k='77']")),
    "goto none": lambda sx, dm, i: verdict(sx, lambda: i.goto(dm.parse_instance_id("/m:l[k='77']"))),
    "look up": lambda sx, dm, i: i["m:l"].look_up(k=1).json_pointer(),
    "route": lambda sx, dm, i: str(i["m:l"].look_up(k=1)["k"].instance_route()),
    "update": lambda sx, dm, i: raw(i["m:c"]["n"].update(1).top()),
    "put": lambda sx, dm, i: raw(i["m:c"].put_member("st", 1).top()),
    "put defaults": lambda sx, dm, i: raw(i["m:c"].put_member("n:d", {"e": 1}, raw=True).add_defaults().top()),
    "delete": lambda sx, dm, i: raw(i.delete_item("m:l")),
    "merge": lambda sx, dm, i: raw(i.merge({"m:l": [{"k": 1, "v": 5, "q": ["u"]}], "m:ad": {"x": [1]}}, raw=True)),
    "insert": lambda sx, dm, i: raw(i["m:l"][0].insert_after({"k": 66}, raw=True).top()),
    "xpath": lambda sx, dm, i: xp(sx, dm, i, "m:c/m:ll[. > 1] | m:l[m:v = 1]/m:k | //m:z"),
    "xpath number": lambda sx, dm, i: xp(sx, dm, i, "count(//*) + sum(m:l/m:k)"),
    "xpath reverse": lambda sx, dm, i: xp(sx, dm, i, "m:l[last()]/preceding-sibling::m:l/m:k"),
    "deref": lambda sx, dm, i: [n.json_pointer() for n in i["m:ref"]._deref()],
    "text": lambda sx, dm, i: [str(i["m:c"]["n"]), str(i["m:l"][0]["k"])],
}
NAMES = list(QUERIES)
ANSWERS = {}


def data(sx, variant):
    n, v, k, y = sx.int("n", 4, 16), sx.int("v", 0, 1), sx.int("k", 5, 8), sx.int("q", 1, 2)
    doc = {"m:c": {"n": n, "ll": [1, 2, y], "in": {}}, "m:k": k,
           "m:l": [{"k": 1, "v": v}, {"k": 2, "q": ["b", "a"], "s": [{"j": "x"}]}],
           "m:ref": y, "m:ad": {"x": [1, {"y": None}]}}
    if variant:
        doc["m:c"].update({"y": "why", "id": "m:abc", "st": 5, "n:d": {"e": 3}})
        doc.update({"m:iid": '/m:l[k="1"]', "m:u": "m:aa", "m:bi": "e", "m:en": "b"})
    return doc


def state(sx, dm, inst):
    return {q: QUERIES[q](sx, dm, inst) for q in NAMES}


def build_fresh(sx, variant, q, doc):
    dm = model()
    return QUERIES[q](sx, dm, dm.from_raw(doc))


@task(cases=[{"q1": i, "variant": w} for i in range(len(NAMES)) for w in (0, 1)], budget=400)
def histories(sx, q1, variant):
    """any two queries, then every query answers as it does on a fresh model"""
    doc = {k: v for k, v in CONC[variant].items()}
    dm = model()
    inst = dm.from_raw(dup(doc))
    qs = [NAMES[q1], sx.choice("q2", NAMES)]
    if sx.n(2, 3) == 3:
        qs.append(sx.choice("q3", NAMES[q1 % 4::4]))
    for q in qs:
        QUERIES[q](sx, dm, inst)
    probe = sx.choice("probe", [0, 1])
    for q in (NAMES if probe else NAMES[::-1]):
        if (variant, q) not in ANSWERS:
            ANSWERS[variant, q] = build_fresh(sx, variant, q, dup(doc))
        sx.check(QUERIES[q](sx, dm, inst) == ANSWERS[variant, q], f"answer to '{q}' after {qs}")


CONC = [{"m:c": {"n": 7, "ll": [1, 2], "in": {}}, "m:k": 5,
         "m:l": [{"k": 1, "v": 1}, {"k": 2, "v": 3, "q": ["b", "a"], "s": [{"j": "x"}]}],
         "m:ref": 2, "m:ad": {"x": [1, {"y": None}]}},
        {"m:c": {"n": 4, "ll": [2], "in": {"z": "z"}, "y": "why", "id": "m:abc", "st": 5, "n:d": {"e": 3}, "w": 1},
         "m:l": [{"k": 1}, {"k": 2, "q": ["b", "a"]}], "m:ref": 5,
         "m:iid": '/m:l[k="1"]', "m:u": "m:aa", "m:bi": "e", "m:en": "b"}]

DM = model()


@task(cases=[{"q": i, "variant": w} for i in range(len(NAMES)) for w in (0, 1)], budget=400)
def values(sx, q, variant):
    """a query leaves the instance, its source and its verdicts alone, whatever the values"""
    name = NAMES[q]
    doc = data(sx, variant)
    src = dup(doc)
    inst = DM.from_raw(doc)
    sx.check(doc == src, "document is left as it was")
    first = QUERIES[name](sx, DM, inst)
    sx.observe(name, first)
    sx.check(inst.raw_value() == src, "data after the query")
    again = QUERIES[name](sx, DM, inst)
    sx.check(first == again, "same answer again")
    touched(doc)
    sx.check(inst.raw_value() == src, "data does not share parts with the document")
    fresh = QUERIES[name](sx, DM, DM.from_raw(dup(src)))
    sx.check(fresh == first, "same answer for the same data")


@task(cases=[{"q": i} for i in range(len(NAMES))])
def counters(sx, q):
    """validation counts are changed by validation alone"""
    name = NAMES[q]
    dm = model()
    inst = dm.from_raw(dup(CONC[0]))
    n = sx.choice("n", [0, 1, 2])
    for _ in range(n):
        inst.validate()
    before = dm.ascii_tree(val_count=True)
    QUERIES[name](sx, dm, inst)
    after = dm.ascii_tree(val_count=True)
    if not name.startswith("validate"):
        sx.check(before == after, "counts are left alone")
    dm.clear_val_counters()
    zero = dm.ascii_tree(val_count=True)
    sx.check(zero == model().ascii_tree(val_count=True), "counters start again from zero")
    sx.check((n > 0) == (before != zero), "validation is counted")


# -- nodes that are used again -----------------------------------------------------

CM = module("m", """
container c { leaf a { type int8; } leaf b { type int8; default 4; } leaf d { type int8; }
  list l { key k; leaf k { type int8; } leaf v { type int8; default 1; } container s { leaf t { type int8; } } }
  leaf-list x { type int8; } }
""")
STARTS = {
    "entry": lambda i: i["m:c"]["l"][1], "first": lambda i: i["m:c"]["l"][0], "value": lambda i: i["m:c"]["x"][1],
    "last": lambda i: i["m:c"]["x"][-1], "walked": lambda i: i["m:c"]["x"][0].next(), "back": lambda i: i["m:c"]["l"][-1].previous(),
    "leaf": lambda i: i["m:c"]["l"][1]["v"], "inner": lambda i: i["m:c"]["l"][0]["s"], "array": lambda i: i["m:c"]["l"],
    "member": lambda i: i["m:c"]["a"], "sibling": lambda i: i["m:c"]["a"].sibling("b"), "container": lambda i: i["m:c"],
    "looked": lambda i: i["m:c"]["l"].look_up(k=1), "root": lambda i: i}
STEPS = {
    "next": lambda n, v: n.next(), "previous": lambda n, v: n.previous(), "up": lambda n, v: n.up(), "top": lambda n, v: n.top(),
    "before": lambda n, v: n.insert_before(entry(n, v)), "after": lambda n, v: n.insert_after(entry(n, v)),
    "before raw": lambda n, v: n.insert_before(entry(n, v), raw=True), "after raw": lambda n, v: n.insert_after(entry(n, v), raw=True),
    "update": lambda n, v: n.update(fit(n, v), raw=True), "merge": lambda n, v: n.merge(fit(n, v), raw=True),
    "defaults": lambda n, v: n.add_defaults(), "member": lambda n, v: n["v" if "v" in n else "a" if "a" in n else "m:c"],
    "put": lambda n, v: n.put_member("v" if "k" in n else "d", v), "put s": lambda n, v: n.put_member("s", {"t": v}, raw=True),
    "delete": lambda n, v: n.delete_item(0 if isinstance(n.value, list) else [k for k in n][0]),
    "delete last": lambda n, v: n.delete_item(-1 if isinstance(n.value, list) else [k for k in n][-1]),
    "first": lambda n, v: n[0], "last": lambda n, v: n[-1], "sibling": lambda n, v: n.sibling("d" if n.name == "b" else "b"),
    "sibling k": lambda n, v: n.sibling("k"), "path": lambda n, v: n.top().goto(n.instance_route()),
    "list": lambda n, v: n["l"], "values": lambda n, v: n["x"], "validate": lambda n, v: n.validate() or n,
    "all": lambda n, v: [m for m in n][-1] if isinstance(n.value, list) else n,
}
PAIRS = [(s, t) for s in STARTS for t in STEPS]


def entry(n, v):
    return ObjectValue({"k": v}) if isinstance(n.value, dict) else v


def fit(n, v):
    if isinstance(n.value, list):
        return [{"k": v}] if isinstance(n.schema_node, ListNode) else [v]
    if not isinstance(n.value, dict):
        return v
    if n.schema_node.name == "l":
        return {"k": v, "s": {}}
    return {"s": {"t": v}, "c": {"a": v}}.get(n.name, {"m:c": {"x": [v]}})


def move(sx, n, op, v):
    o, r = sx.attempt(lambda: STEPS[op](n, v), YangsonException, TypeError, AttributeError, KeyError, IndexError)
    return r if o == "ok" else None


def look(n):
    """everything a node tells"""
    v = n.raw_value()
    path = n.json_pointer()
    return (path, v if not isinstance(v, (dict, list)) else dup(v), dup(n.top().raw_value()))


def equal(sx, x, y):
    return sx.And(x[0] == y[0], x[1] == y[1], x[2] == y[2])


@task(cases=[{"start": s} for s in STARTS], budget=400)
def cursors(sx, start):
    """a node that other nodes were derived from is as before and gives the same again"""
    dm = CDM[0] if CDM else CDM.append(build({"m": CM})) or CDM[0]
    a, v, w = sx.int("a", 0, 9), sx.int("v", 3, 9), sx.int("w", 3, 9)
    doc = {"m:c": {"a": a, "b": 2, "l": [{"k": 1, "v": a, "s": {"t": 3}}, {"k": 2, "v": 7}], "x": [10, 11, 12]}}
    inst = dm.from_raw(dup(doc))
    n = STARTS[start](inst)
    here = look(n)
    p, q = sx.choice("p", list(STEPS)), sx.choice("q", list(STEPS))
    one = move(sx, n, p, v)
    sx.check(equal(sx, look(n), here), "the node after a step")
    if one is None:
        return
    there = look(one)
    sx.observe("there", there)
    two = move(sx, one, q, w)
    far = look(two) if two is not None else None
    sx.check(equal(sx, look(n), here), "the node after two steps")
    sx.check(equal(sx, look(one), there), "the derived node after a step")
    again = move(sx, n, p, v)
    sx.check(again is not None and equal(sx, look(again), there), "the same step again")
    other = move(sx, n, q, w)
    sx.check(equal(sx, look(n), here), "the node after another step")
    sx.check(equal(sx, look(one), there), "the derived node after another step")
    if two is not None:
        sx.check(equal(sx, look(two), far), "the second derived node")
        third = move(sx, one, q, w)
        sx.check(third is not None and equal(sx, look(third), far), "the same second step again")
    sx.check(inst.raw_value() == doc, "the document")


CDM = []
