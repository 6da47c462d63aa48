"""instance routes: text, navigation and peeking."""
from symex.api import task
from .common import *
from .inst import same, dup
from yangson.instvalue import ObjectValue, ArrayValue, StructuredValue

BOUNDS = ("lists of up to three entries with one or two keys of every built-in "
          "type, leaf-lists of every type; string keys of up to 2 (thorough 3) "
          "characters; texts of selectors of up to 3 characters")

TYPES = {
    "str": "string", "i8": "int8", "u64": "uint64", "bool": "boolean",
    "dec": "decimal64 { fraction-digits 2; }",
    "en": "enumeration { enum a; enum 'b c'; enum \"d'\"; }",
    "bits": "bits { bit x; bit y; bit z; }", "bin": "binary",
    "id": "identityref { base b; }", "un": "union { type int8; type string; }",
    "ub": "union { type int8; type boolean; type enumeration { enum True; enum yes; } }",
    "lr": "leafref { path '/m:src'; }", "emp": "empty",
}
BODY = "identity b; identity i1 { base b; } identity i2 { base b; } leaf src { type int8; }"
for t, y in TYPES.items():
    ty = f"type {y}" + ("" if y.endswith("}") else ";")
    BODY += (f"list l{t} {{ key k; leaf k {{ {ty} }} leaf v {{ type int32; }} "
             f"container in {{ leaf w {{ type int32; }} }} "
             f"list sub {{ key k; leaf k {{ {ty} }} }} }}"
             f"leaf-list x{t} {{ {ty} }} leaf-list s{t} {{ config false; {ty} }}")
BODY += """
list two { key "a b"; leaf a { type string; } leaf b { type string; } leaf v { type int8; } }
list no { config false; leaf v { type int32; } }
container c { leaf a { type int32; } }
"""
DM = build({"m": module("m", BODY), "n": module("n", """
augment /m:c { leaf a { type int32; } list nl { key k; leaf k { type string; } } }
augment /m:two { leaf v { type int8; } leaf-list q { type int8; } }""",
                                             imports="import m { prefix m; }")})


def value(sx, t, n):
    """raw value of a type"""
    if t == "str":
        return sx.str(n, 0, sx.n(2, 3), "a1\"'[]=/ \\.")
    if t in ("i8", "lr"):
        return sx.int(n, -9, 9)
    if t == "u64":
        return sx.choice(n, ["0", "18446744073709551615", "42"])
    if t == "bool":
        return sx.choice(n, [True, False])
    if t == "dec":
        return sx.choice(n, ["0.0", "-1.5", "123456789.12"])
    if t == "en":
        return sx.choice(n, ["a", "b c", "d'"])
    if t == "bits":
        return sx.choice(n, ["", "x", "y z", "x y z"])
    if t == "bin":
        return sx.choice(n, ["", "YWI=", "AP8=", "+/+/"])
    if t == "id":
        return sx.choice(n, ["m:i1", "m:i2"])
    if t == "un":
        return sx.choice(n, [7, "x", "-"])
    if t == "ub":
        return sx.choice(n, [1, True, 0, False, "True", "yes"])
    return [None]


def quotable(sx, s):
    """no value with both kinds of quotes"""
    if isinstance(s, str):
        sx.assume(sx.Not(sx.And("'" in s, '"' in s)))


def differ(v, w):
    """1 isn't True"""
    if isinstance(v, bool) != isinstance(w, bool):
        return True
    return v != w


def verify(sx, root, node):
    r = node.instance_route()
    text = str(r)
    st, r2 = sx.attempt(lambda: DM.parse_instance_id(text), Exception)
    sx.check(st == "ok", "the text of a route is parsed")
    sx.check(r2 == r and not r2 != r, "parsed route is equal")
    sx.check(str(r2) == text, "text of the parsed route")
    for route in (r, r2):
        st, g = sx.attempt(lambda: root.goto(route), Exception)
        sx.check(st == "ok", "the route leads to a node")
        sx.check(g.path == node.path, "the route leads to the same node")
        sx.check(g.value == node.value, "value of the node")
        sx.check(root.peek(route) == node.value, "peek gives the same value")


@task(cases=[{"t": t, "n": n} for t in TYPES for n in (1, 2)
             if t != "emp" or n == 1], budget=300)
def keyed(sx, t, n):
    vals = [value(sx, t, f"k{i}") for i in range(n)]
    for i, v in enumerate(vals):
        quotable(sx, v)
        for w in vals[:i]:
            sx.assume(differ(v, w))
    raw = {f"m:l{t}": [{"k": v, "v": sx.int(f"v{i}", -5, 5),
                        "in": {"w": 3}, "sub": [{"k": v}]}
                       for i, v in enumerate(vals)]}
    root = DM.from_raw(raw)
    e = root[f"m:l{t}"][n - 1]
    sx.check(root[f"m:l{t}"].instance_route() == root.goto(
        DM.parse_instance_id(f"/m:l{t}")).instance_route(), "route of the list")
    verify(sx, root, e)
    verify(sx, root, e["in"]["w"])
    verify(sx, root, e["sub"][0]["k"])


@task(cases=[{"t": t, "n": n, "p": p} for t in TYPES for n in (1, 2)
             for p in "xs" if t != "emp" or n == 1], budget=300)
def leaf_list(sx, t, n, p):
    """leaf-lists; those of state data may have equal entries"""
    vals = [value(sx, t, f"k{i}") for i in range(n)]
    for i, v in enumerate(vals):
        quotable(sx, v)
        if p == "x":
            for w in vals[:i]:
                sx.assume(differ(v, w))
    root = DM.from_raw({f"m:{p}{t}": vals, "m:c": {"a": 1}})
    verify(sx, root, root[f"m:{p}{t}"])
    for i in range(n):
        verify(sx, root, root[f"m:{p}{t}"][i])


@task()
def two_keys(sx):
    ks = [(sx.str(f"a{i}", 1, 1, "x'= "), sx.str(f"b{i}", 1, 1, "x'= "))
          for i in range(3)]
    for i in range(3):
        for j in range(i):
            sx.assume(sx.Or(ks[i][0] != ks[j][0], ks[i][1] != ks[j][1]))
    root = DM.from_raw({"m:two": [
        {"a": a, "b": b, "v": i, "n:v": i, "n:q": [4, i]}
        for i, (a, b) in enumerate(ks)]})
    i = sx.choice("i", [0, 1, 2])
    e = root["m:two"][i]
    for nd in (e, e["v"], e["n:v"], e["n:q"][1], e["b"]):
        verify(sx, root, nd)
    # the order of predicates doesn't matter
    q = lambda s: '"' + s + '"'
    r = DM.parse_instance_id("/m:two[b=" + q(ks[i][1]) + "][a=" + q(ks[i][0])
                             + "]/v")
    sx.check(root.goto(r).path == ("m:two", i, "v"), "predicates in any order")
    sx.check(r == e["v"].instance_route(), "equal route")


@task()
def by_position(sx):
    n = sx.choice("n", [1, 2, 3])
    vals = [sx.int(f"v{i}", -5, 5) for i in range(n)]
    root = DM.from_raw({"m:no": [{"v": v} for v in vals], "m:si8": vals,
                        "m:c": {"n:nl": [{"k": "z"}], "n:a": 1, "a": 2}})
    for i in range(n):
        verify(sx, root, root["m:no"][i]["v"])
        verify(sx, root, root["m:si8"][i])
    verify(sx, root, root["m:c"]["n:a"])
    verify(sx, root, root["m:c"]["a"])
    verify(sx, root, root["m:c"]["n:nl"][0]["k"])
    verify(sx, root, root)
    k = sx.int("k", 0, 5)
    for li in ("no", "si8"):
        st, r = sx.attempt(lambda: DM.parse_instance_id(f"/m:{li}[{k}]"),
                           ParserException)
        if k == 0:
            sx.check(st == "exc", "positions start from 1")
        else:
            sx.check(st == "ok", "position")
            has_target(sx, root, r, ("m:" + li, k - 1) if k <= n else None)


def has_target(sx, root, route, path):
    st, g = sx.attempt(lambda: root.goto(route), NonexistentInstance,
                       InstanceValueError)
    if path is None:
        sx.check(st == "exc", "no target")
        sx.check(root.peek(route) is None, "peek finds nothing")
    else:
        sx.check(st == "ok", "the route has a target")
        sx.check(g.path == path, "the right target")
        sx.check(root.peek(route) == g.value, "peek agrees")


@task(cases=[{"t": t} for t in ("str", "i8", "bool", "en", "un")], budget=200)
def search(sx, t):
    """an entry is found exactly when there is one with the key or value"""
    if t == "str":
        v = [sx.str(f"k{i}", 0, 1, "a1\" ") for i in range(2)]
        s = sx.str("s", 0, 1, "a1\" ")
        exp = s
        q = "'"
    elif t == "i8":
        v = [sx.int(f"k{i}", -9, 9) for i in range(2)]
        exp = sx.int("s", -9, 9)
        s = str(exp)
        q = "'"
    else:
        v = [value(sx, t, f"k{i}") for i in range(2)]
        exp = value(sx, t, "s")
        s = str(exp).lower() if t == "bool" else str(exp)
        q = '"'
    sx.assume(v[0] != v[1])
    root = DM.from_raw({f"m:l{t}": [{"k": x, "v": 1} for x in v] + [{"v": 5}],
                        f"m:x{t}": v})
    hit = None
    for i in range(2):
        if v[i] == exp:
            hit = i
            break
    r = DM.parse_instance_id(f"/m:l{t}[k=" + q + s + q + "]")
    has_target(sx, root, r, None if hit is None else (f"m:l{t}", hit))
    r = DM.parse_instance_id(f"/m:x{t}[.=" + q + s + q + "]")
    has_target(sx, root, r, None if hit is None else (f"m:x{t}", hit))
    # relative to the array, by key value
    st, g = sx.attempt(lambda: root[f"m:l{t}"].look_up(k=exp), NonexistentInstance)
    sx.check((st == "ok") == (hit is not None), "look up by the key")
    if st == "ok":
        sx.check(g.index == hit, "position of the entry found")


ROUTES = ["/m:c", "/m:c/a", "/m:c/n:a", "/m:c/m:a", "/m:c/a/b", "/m:zz", "/q:c",
          "/m:c[1]", "/m:c[a='1']", "/m:li8[1]", "/m:li8[2]", "/m:li8[.='1']",
          "/m:li8[k='1']", "/m:li8/k", "/m:li8[1]/k", "/m:li8[1]/k[1]",
          "/m:xi8[1]", "/m:xi8[2]", "/m:xi8[.='1']", "/m:xi8[.='2']",
          "/m:xi8[k='1']", "/m:two[a='1']", "/m:two[a='1'][b='2']", "/m:two[1]",
          "/m:xi8/a", "/m:src", "/m:src[1]", "/m:src[.='1']", "/"]


@task()
def incompatible(sx):
    """routes that need not fit the instance at all"""
    txt = ROUTES[sx.choice("r", list(range(len(ROUTES))))]
    raw = {}
    if sx.choice("c", [0, 1]):
        raw["m:c"] = {"a": 5} if sx.choice("a", [0, 1]) else {"n:a": 6}
    if sx.choice("l", [0, 1]):
        raw["m:li8"] = [{"k": 1}]
        raw["m:xi8"] = [1]
        raw["m:two"] = [{"a": "1", "b": "2"}]
        raw["m:src"] = 1
    root = DM.from_raw(raw)
    c = raw.get("m:c", {})
    li = "m:li8" in raw
    exp = {
        "/m:c": ("m:c",) if "m:c" in raw else None,
        "/m:c/a": ("m:c", "a") if "a" in c else None,
        "/m:c/m:a": ("m:c", "a") if "a" in c else None,
        "/m:c/n:a": ("m:c", "n:a") if "n:a" in c else None,
        "/": (),
    }
    if li:
        exp.update({"/m:li8[1]": ("m:li8", 0), "/m:li8[k='1']": ("m:li8", 0),
                    "/m:li8[1]/k": ("m:li8", 0, "k"), "/m:xi8[1]": ("m:xi8", 0),
                    "/m:xi8[.='1']": ("m:xi8", 0), "/m:two[1]": ("m:two", 0),
                    "/m:two[a='1'][b='2']": ("m:two", 0),
                    "/m:two[a='1']": ("m:two", 0), "/m:src": ("m:src",)})
    r = DM.parse_instance_id(txt)
    st, g = sx.attempt(lambda: root.goto(r), NonexistentInstance,
                       InstanceValueError, NonexistentSchemaNode)
    e = exp.get(txt)
    sx.check((st == "ok") == (e is not None), "has a target")
    pk = root.peek(r)
    if e is None:
        sx.check(pk is None, "peek finds nothing")
    else:
        sx.check(g.path == e, "target")
        sx.check(pk == g.value, "peek agrees")
