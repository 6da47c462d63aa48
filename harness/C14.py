"""keys, uniqueness and numbers of entries."""
from symex.api import task
from .schema import *

BOUNDS = ("lists of up to three entries (thorough: four) with one or two keys of "
          "13 types, unique constraints of one or two leafs (also nested and with "
          "defaults), min-elements and max-elements of 0..9 (thorough: 0..99) "
          "or unbounded; every value of int8 keys, texts of up to 2 characters, "
          "every combination of missing leafs")


def val(sx, t, name):
    """raw value of the type"""
    if t == "int8":
        return sx.int(name, -128, 127)
    if t == "uint64":
        # 20 symbolic digits would say no more than these
        return sx.choice(name, ["0", "18446744073709551615", "18446744073709551614"])
    if t == "string":
        return sx.str(name, 0, 2)
    if t == "dec":
        return sx.choice(name, ["1.0", "1", "-1.50", "-1.5", "1.05"])
    if t == "bool":
        return sx.choice(name, [False, True])
    if t == "enum":
        return sx.choice(name, ["a", "b"])
    if t == "bits":
        return sx.choice(name, ["", "x", "y", "x y", "y x"])
    if t == "bin":
        return sx.choice(name, ["", "AA==", "AAA="])
    if t == "idref":
        return sx.choice(name, ["a", "m:a", "b"])
    if t == "union":
        return sx.choice(name, [1, "1", "x", True, "true"])
    if t == "inst":
        return sx.choice(name, ["/m:c/a", "/m:c", "/m:z"])


MEANS = {"dec": {"1": "1.0", "-1.50": "-1.5"}, "bits": {"y x": "x y"},
         "idref": {"a": "m:a"}}

TYPES = {"int8": "int8", "uint64": "uint64", "string": "string",
         "dec": "decimal64 { fraction-digits 2; }", "bool": "boolean",
         "enum": "enumeration { enum a; enum b; }",
         "bits": "bits { bit x; bit y; }", "bin": "binary",
         "idref": "identityref { base z; }",
         "union": "union { type int8; type boolean; type string; }",
         "inst": "instance-identifier { require-instance false; }"}
DM = build({"m": module("m", """
identity z; identity a { base z; } identity b { base z; }
container c { leaf a { type int8; }
""" + "".join(f"""
list l-{t} {{ key k; leaf k {{ type {y} }} leaf v {{ type int8; }} }}
leaf-list b-{t} {{ type {y} }} leaf-list s-{t} {{ type {y} config false; }}
""" for t, y in ((t, y if y.endswith("}") else y + ";")
                 for t, y in TYPES.items())) + """
list p { key "k1 k2"; leaf k1 { type int8; } leaf v { type int8; }
         leaf k2 { type string; } }
list q { key "k1 k2 k3 k4"; leaf k1 { type int8; } leaf k2 { type int8; }
         leaf k3 { type int8; } leaf k4 { type int8; } }
list r { key k; unique "v4 v2 v1 v3"; leaf k { type int8; } leaf v1 { type int8; }
         leaf v2 { type int8; } leaf v3 { type int8; } leaf v4 { type int8; } }
list u { key k; unique a; unique "b d/e";
  leaf k { type int8; } leaf a { type int8; } leaf b { type int8; default 7; }
  container d { leaf e { type string; } } }
list w { key k; unique "f h:g"; leaf k { type int8; }
  choice ch { leaf f { type int8; } leaf i { type int8; } }
  container h { leaf g { type int8; default 0; } } }
}""".replace("h:g", "h/g")), })


def canon(t, v):
    """equal exactly when the values are"""
    if t == "union":   # of int8, boolean and string
        return "bool" if v is True else v if isinstance(v, int) else ("s", v)
    return MEANS.get(t, {}).get(v, v)


def repeated(sx, vs):
    return sx.Or(*[same(sx, vs[i], vs[j])
                   for i in range(len(vs)) for j in range(i)])


def same(sx, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return sx.And(len(a) == len(b), *[same(sx, x, y) for x, y in zip(a, b)])
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    return a == b


def outcome(obj, scope=ValidationScope.all):
    inst = DM.from_raw({"m:c": obj})
    try:
        inst.validate(scope, ALL)
        return None
    except ValidationError as e:
        return e


def expected(sx, cond, e, tag, where=None):
    sx.check(sx.Iff(cond, e is not None), f"{tag} exactly when violated")
    if e is not None:
        sx.check(isinstance(e, SemanticError) and e.tag == tag, "error tag")
        if where:
            sx.check(e.instance.json_pointer() == where, "place of the error")


@task(cases=[{"t": t} for t in TYPES], budget=200)
def keys(sx, t):
    n = sx.choice("n", list(range(sx.n(3, 4) + 1)))
    vs = [val(sx, t, f"k{i}") for i in range(n)]
    rep = repeated(sx, [canon(t, v) for v in vs])
    expected(sx, rep, outcome({f"l-{t}": [{"k": v, "v": 1} for v in vs]}),
             "non-unique-key", f"/m:c/l-{t}")
    sx.check(outcome({f"l-{t}": [{"k": v} for v in vs]},
                     ValidationScope.syntax) is None, "only a semantic rule")
    expected(sx, rep, outcome({f"b-{t}": vs}), "repeated-leaf-list-values",
             f"/m:c/b-{t}")
    sx.check(outcome({f"s-{t}": vs}) is None, "state leaf-lists may repeat values")


@task(budget=200)
def two_keys(sx):
    n = sx.choice("n", list(range(sx.n(3, 4) + 1)))
    vs = [(sx.int(f"a{i}", -128, 127), sx.str(f"b{i}", 0, 1)) for i in range(n)]
    expected(sx, repeated(sx, vs),
             outcome({"p": [{"k1": a, "k2": b, "v": 1} for a, b in vs]}),
             "non-unique-key")


@task(budget=200)
def many_keys(sx):
    vs = [tuple(sx.int(f"{k}{i}", 0, 3) for k in "abcd") for i in range(3)]
    expected(sx, repeated(sx, vs),
             outcome({"q": [dict(zip(("k4", "k3", "k2", "k1"), v)) for v in vs]}),
             "non-unique-key")


@task(budget=200)
def unique_four(sx):
    vs = [tuple(sx.int(f"{k}{i}", 0, 3) for k in "abcd") for i in range(3)]
    have = [sx.choice(f"h{i}", [4, 3]) for i in range(3)]
    expected(sx, repeated(sx, [v for v, h in zip(vs, have) if h == 4]),
             outcome({"r": [dict(zip(("v1", "v2", "v3", "v4")[:h], v), k=i)
                            for i, (v, h) in enumerate(zip(vs, have))]}),
             "data-not-unique")


@task(budget=200)
def missing_keys(sx):
    n = sx.choice("n", [1, 2, 3])
    es, bad = [], False
    for i in range(n):
        e = {"k1": i, "k2": "x"}
        m = sx.choice(f"m{i}", [None, "k1", "k2", "both"])
        for k in ("k1", "k2"):
            if m in (k, "both"):
                del e[k]
        bad = bad or m is not None
        es.append(e)
    for sc in (ValidationScope.all, ValidationScope.syntax):
        e = outcome({"p": es}, sc)
        sx.check((e is not None) == bad, "all keys are required")
        sx.check(e is None or isinstance(e, SchemaError) and
                 e.tag in ("list-key-missing", "missing-data"), "error tag")


@task(cases=[{"d0": d, "d1": e} for d in (None, False, True)
              for e in (None, False, True)], budget=300)
def unique(sx, d0, d1):
    n = sx.n(3, 3)
    es, one, two = [], [], []
    for i in range(n):
        e = {"k": i}
        a = sx.int(f"a{i}", 0, 9) if sx.choice(f"?a{i}", [False, True]) else None
        b = sx.int(f"b{i}", 0, 9) if sx.choice(f"?b{i}", [False, True]) else None
        d = (d0, d1, sx.choice("?d", [None, False, True]) if i == 2 else None)[i]
        t = sx.str(f"e{i}", 0, 1) if d else None
        if a is not None:
            e["a"] = a
            one.append((a,))
        if b is not None:
            e["b"] = b
        if d is not None:
            e["d"] = {"e": t} if d else {}
        if t is not None:
            two.append((7 if b is None else b, t))
        es.append(e)
    expected(sx, sx.Or(repeated(sx, one), repeated(sx, two)), outcome({"u": es}),
             "data-not-unique", "/m:c/u")


@task(budget=300)
def unique_choice(sx):
    es, one = [], []
    for i in range(sx.n(3, 4)):
        e = {"k": i}
        c = sx.choice(f"c{i}", [None, "f", "i"])
        g = sx.int(f"g{i}", 0, 3) if sx.choice(f"?g{i}", [False, True]) else None
        if c:
            e[c] = sx.int(f"f{i}", 0, 3)
        if g is not None:
            e["h"] = {"g": g}
        if c == "f":
            one.append((e["f"], 0 if g is None else g))
        es.append(e)
    expected(sx, repeated(sx, one), outcome({"w": es}), "data-not-unique", "/m:c/w")


@task(cases=[{"k": k, "hi": h} for k in ("list", "leaf-list") for h in (0, 1, 2)],
      budget=300)
def cardinality(sx, k, hi):
    w = sx.n(1, 2)
    lo = sx.str("lo", 1, w, "0123456789")
    sx.assume(sx.Or(len(lo) == 1, lo[:1] != "0"))
    up = None
    body = f"min-elements {lo};"
    if hi == 1:
        up = sx.str("up", 1, w, "123456789")
        body += f"max-elements {up};"
    elif hi == 2:
        body += "max-elements unbounded;"
    y = (f"list l {{ key k; leaf k {{ type int8; }} {body} }}" if k == "list" else
         f"leaf-list l {{ type int8; {body} }}")
    dm = sbuild(sx, {"m": module("m", "container c { presence x;" + y + "}")})
    n = sx.choice("n", list(range(sx.n(5, 12))))
    es = [{"k": i} if k == "list" else i for i in range(n)]
    inst = dm.from_raw({"m:c": {"l": es}})
    try:
        inst.validate(ValidationScope.all, ALL)
        e = None
    except ValidationError as x:
        e = x
    few = n < int(lo)
    many = up is not None and n > int(up)
    sx.check(sx.Iff(sx.Or(few, many), e is not None), "number of entries")
    if e is not None:
        sx.check(isinstance(e, SemanticError) and sx.Or(
            sx.And(few, e.tag == "too-few-elements"),
            sx.And(many, e.tag == "too-many-elements")), "error tag")
    # no entries at all
    try:
        dm.from_raw({"m:c": {}}).validate(ValidationScope.all, ALL)
        sx.check(int(lo) == 0, "missing entries")
    except SchemaError as x:
        sx.check(int(lo) > 0, "entries aren't required")
