"""Referential integrity of leafref and instance-identifier values."""
from symex.api import task
from .xp import *
from . import xp
from yangson.enumerations import ContentType, ValidationScope

BOUNDS = ("leafrefs by relative and absolute paths, with predicates, through choices, "
          "groupings, typedefs, augments and other leafrefs, to leafs, list keys and "
          "leaf-lists of every type with up to 3 arbitrary values; instance identifiers "
          "to every kind of node with arbitrary keys, values and positions; leafs "
          "in the data only (not default values), no unions of references")


def decide(sx, dm, obj, ok, where=None):
    inst = dm.from_raw(obj)
    k, e = sx.attempt(lambda: inst.validate(ValidationScope.syntax, ContentType.all), ValidationError)
    sx.check(k == "ok", "syntax isn't concerned")
    for scope in (ValidationScope.semantics, ValidationScope.all):
        k, e = sx.attempt(lambda: inst.validate(scope, ContentType.all), ValidationError)
        sx.check(sx.Iff(k == "ok", ok), f"accepted ({scope.name})")
        if k != "ok":
            sx.check(isinstance(e, SemanticError) and e.tag == "instance-required",
                     "standard error")
            if where:
                sx.check(e.instance.json_pointer() == where, "place of the error")
    return inst


def vals(sx, n, lo=-2, hi=3, tag="v"):
    return [sx.int(f"{tag}{i}", lo, hi) for i in range(n)]


def distinct(sx, vs):
    for i, v in enumerate(vs):
        for u in vs[:i]:
            sx.assume(v != u)


RI = {"": True, "require-instance true;": True, "require-instance false;": False}


@task(cases=[{"ri": r} for r in RI], budget=100)
def basic(sx, ri):
    """to leaf-list entries, list keys and other leafs"""
    n = sx.choice("n", [0, 1, 2, sx.n(2, 3)])
    vs = vals(sx, n)
    r = sx.int("r", -2, 3)
    want = sx.Or(not RI[ri], any(v == r for v in vs))
    k = sx.choice("k", ["leaf-list", "key", "leaf", "leafs"])
    path = {"leaf-list": "../x", "key": "/l/k", "leaf": "/m:c/m:y", "leafs": "../../m:l/m:z"}[k]
    ref = f"type leafref {{ path \"{path}\"; {ri} }}"
    dm = xp.model("leaf-list x { type int8; } list l { key k; leaf k { type int8; } leaf z { type int8; } } "
                  f"container c {{ leaf y {{ type int8; }} leaf d {{ {ref.replace('../x', '../../x')} }} }} "
                  f"leaf r {{ {ref.replace('../../', '../')} }} leaf-list s {{ {ref.replace('../../', '../')} }}")
    if k in ("leaf-list", "key"):
        distinct(sx, vs)
    o = {"m:c": {}}
    if k == "leaf":
        sx.assume(n < 2)
        if n:
            o["m:c"]["y"] = vs[0]
    elif n:
        if k == "leaf-list":
            o["m:x"] = vs
        elif k == "key":
            o["m:l"] = [{"k": v} for v in vs]
        else:
            o["m:l"] = [{"k": i, "z": v} for i, v in enumerate(vs)] + [{"k": 9}]
    at = sx.choice("at", ["r", "d", "s"])
    w = None
    if at == "r":
        o["m:r"], w = r, "/m:r"
    elif at == "d":
        o["m:c"]["d"], w = r, "/m:c/d"
    else:
        q = sx.int("q", -2, 3)
        sx.assume(q != r)
        o["m:s"] = [r, q]
        want = sx.Or(not RI[ri], sx.And(want, any(v == q for v in vs)))
    inst = decide(sx, dm, o, want, w)
    if w:
        got = ev(dm, "deref(%s)" % {"r": "m:r", "d": "m:c/m:d"}[at], inst)
        sx.check(len(got) == len([v for v in vs if v == r]), "number of targets")
        for g in got:
            sx.check(g.value == r, "equal value")


@task(budget=100)
def validate_entry(sx):
    """validation of inner instances looks at the whole tree"""
    vs = vals(sx, 2)
    dm = xp.model("leaf-list x { type int8; } list l { key k; leaf k { type int8; } "
                  "leaf r { type leafref { path '../../x'; } } }")
    inst = dm.from_raw({"m:x": [vs[0]], "m:l": [{"k": 1, "r": vs[0]}, {"k": 2, "r": vs[1]}]})
    l = inst["m:l"]
    for i, n in enumerate([l[0], l[1], l[0]["r"], l[1]["r"]]):
        k, e = sx.attempt(lambda: n.validate(ValidationScope.semantics), SemanticError)
        sx.check(sx.Iff(k == "ok", i % 2 == 0 or vs[0] == vs[1]), "entry")
    k, e = sx.attempt(lambda: l.validate(), SemanticError)
    sx.check(sx.Iff(k == "ok", vs[0] == vs[1]), "list")


TYPES = {
    "int8": ("int8", lambda sx, t: sx.int(t, -128, 127)),
    "uint64": ("uint64", lambda sx, t: sx.choice(t, ["0", "1", "18446744073709551615"])),
    "string": ("string", lambda sx, t: sx.str(t, 0, 2)),
    "dec": ("decimal64 { fraction-digits 2; }", lambda sx, t: sx.choice(t, ["1.0", "1.00", "1.01", "-0.5", "0.10", "0.1"])),
    "enum": ("enumeration { enum a; enum b; }", lambda sx, t: sx.choice(t, ["a", "b"])),
    "boolean": ("boolean", lambda sx, t: sx.choice(t, [False, True])),
    "bits": ("bits { bit a; bit b; }", lambda sx, t: sx.choice(t, ["", "a", "b", "a b", "b a"])),
    "idref": ("identityref { base i; }", lambda sx, t: sx.choice(t, ["a", "m:a", "b", "m:b"])),
    "binary": ("binary", lambda sx, t: sx.choice(t, ["", "AA==", "AAA=", "AQ=="])),
    "union": ("union { type int8; type boolean; type string; }",
              lambda sx, t: sx.choice(t, [1, 2, "1x", "true", False, "ab"])),
}
SAME = {"dec": float, "bits": lambda v: "a b" if v == "b a" else v,
        "idref": lambda v: v[-1]}


@task(cases=[{"k": k} for k in TYPES], budget=100)
def types(sx, k):
    """equality of values of each type"""
    t, gen = TYPES[k]
    t += "" if t.endswith("}") else ";"
    dm = xp.model("identity i; identity a { base i; } identity b { base i; }"
                  f"leaf-list x {{ type {t} }} leaf r {{ type leafref {{ path '../x'; }} }}"
                  "leaf s { type leafref { path '/r'; } } leaf-list e { type leafref { path '../x'; } }")
    x, y, r = (gen(sx, n) for n in "xyr")
    f = SAME.get(k, lambda v: v)
    sx.assume(f(x) != f(y) or type(x) != type(y))
    eq = [f(x) == f(r) and isinstance(x, str) == isinstance(r, str),
          f(y) == f(r) and isinstance(y, str) == isinstance(r, str)]
    inst = decide(sx, dm, {"m:x": [x, y], "m:r": r, "m:s": r, "m:e": [r]}, sx.Or(*eq))
    sx.check([n.path[1] for n in ev(dm, "deref(m:r)", inst)] == [i for i in (0, 1) if eq[i]],
             "targets")
    sx.check(len(ev(dm, "deref(m:s)", inst)) == 1, "chain")


@task(budget=150)
def predicates(sx):
    """paths with key predicates"""
    dm = xp.model("""
list l { key "j k"; leaf j { type int8; } leaf k { type int8; } leaf v { type int8; } leaf-list w { type int8; } }
leaf j { type int8; } leaf k { type leafref { path "/l/k"; } }
leaf v { type leafref { path "/l[j = current()/../j][k = current()/../k]/v"; } }
leaf w { type leafref { path "../l[k = current()/../k]/w"; } }
""")
    n = sx.choice("n", [1, 2])
    e = [{"j": sx.int(f"j{i}", 0, 2), "k": sx.int(f"k{i}", 0, 2), "v": sx.int(f"v{i}", 0, 2),
          "w": [sx.int(f"w{i}", 0, 2)]} for i in range(n)]
    if n > 1:
        sx.assume(sx.Or(e[0]["j"] != e[1]["j"], e[0]["k"] != e[1]["k"]))
    j, k = sx.int("j", 0, 2), sx.int("k", 0, 2)
    o = {"m:l": e, "m:j": j, "m:k": k}
    which = sx.choice("which", ["v", "w"])
    x = o["m:" + which] = sx.int("x", 0, 2)
    if not sx.choice("?j", [False, True]):
        del o["m:j"]
    ok = any(q["k"] == k for q in e)
    if which == "v":
        ok = sx.And(ok, "m:j" in o, any(sx.And(q["j"] == j, q["k"] == k, q["v"] == x) for q in e))
    else:
        ok = sx.And(ok, any(sx.And(q["k"] == k, q["w"][0] == x) for q in e))
    decide(sx, dm, o, ok)


@task(cases=[{"k": k} for k in ("choice", "uses", "typedef", "augment", "override",
                                "override2", "chain", "default", "state", "list")], budget=100)
def places(sx, k):
    """schema constructs between the reference and its target"""
    a, b = sx.int("a", -2, 3), sx.int("b", -2, 3)
    has = sx.choice("has", [False, True])
    more = {}
    ok = sx.And(has, a == b)
    o = {"m:r": b}
    if has:
        o["m:x"] = a
    x = "leaf x { type int8; } "
    if k == "choice":
        body = ("choice h { case q { leaf x { type int8; } } leaf z { type int8; } } container c { choice i { case w { "
                "leaf r { type leafref { path '../../x'; } } } } }")
        o = {"m:c": {"r": b}, **({"m:x": a} if has else {})}
    elif k == "uses":
        body = x + ("grouping g { leaf r { type leafref { path '../x'; } } } uses g; container c "
                    "{ leaf x { type int8; } uses g; }")
        o["m:c"] = {"r": b, "x": a}
        ok = sx.And(ok, a == b)
    elif k == "typedef":
        body = x + "leaf r { type n:t; }"
        more = {"n": module("n", "typedef t { type leafref { path '/n:x'; } } leaf x { type int8; } leaf q { type t; }")}
        o = {"m:r": b, **({"n:x": a} if has else {}), "m:x": b}
    elif k == "augment":
        body = "container c { leaf x { type int8; } }"
        more = {"n": module("n", "augment /p:c { leaf r { type leafref { path '../p:x'; } } leaf x { type int8; } }",
                            imports="import m { prefix p; }")}
        o = {"m:c": {"n:r": b, "n:x": b, **({"x": a} if has else {})}}
    elif k == "override":
        body = x + ("typedef t { type leafref { path '/x'; } } typedef u { type t { require-instance false; } } "
                    "leaf r { type u; } leaf s { type t; }")
        s = sx.choice("s", [False, True])
        if s:
            o["m:s"] = b
        ok = sx.Or(ok, not s)
    elif k == "override2":
        body = x + ("typedef t { type leafref { path '/x'; require-instance false; } } typedef u { type t { require-instance true; } } "
                    "leaf r { type u; } leaf s { type t; }")
        o["m:s"] = 9
    elif k == "chain":
        body = x + ("leaf y { type leafref { path '../x'; require-instance false; } } "
                    "leaf z { type leafref { path '../y'; } } leaf r { type leafref { path '../z'; } }")
        if has:
            o["m:y"] = a
            o["m:z"] = a
            del o["m:x"]
    elif k == "default":
        body = "container c { leaf x { type int8; default 2; } } leaf r { type leafref { path '/c/x'; } }"
        o = {"m:r": b, **({"m:c": {"x": a}} if has else {})}
        ok = b == a if has else b == 2
    elif k == "state":
        body = x + "leaf r { config false; type leafref { path '/x'; } }"
    else:
        body = ("list l { key k; leaf k { type int8; } leaf x { type int8; } "
                "leaf r { type leafref { path '../x'; } } leaf s { type leafref { path '../../l/x'; } } }")
        o = {"m:l": [{"k": 1, **({"x": a} if has else {})},
                     {"k": 2, "x": 7, **({"r": b} if sx.choice("wh", [0, 1]) else {"s": b})}]}
        r = "r" in o["m:l"][1]
        ok = b == 7 if r else sx.Or(b == 7, ok)
    if k == "typedef":
        dm = build({"m": module("m", body, imports="import n { prefix n; }"), **more})
    else:
        dm = xp.model(body, **more)
    decide(sx, dm, o, ok)


IID = """
leaf s { type string; } leaf z { type empty; } container c { leaf a { type int8; } container d { leaf a { type int8; default 3; } } }
list l { key k; leaf k { type int8; } leaf v { type int8; } leaf-list t { type string; } }
list p { key "j k"; leaf j { type string; } leaf k { type boolean; } }
leaf-list x { type int8; }
list u { config false; leaf v { type int8; } }
choice h { case q { leaf y { type int8; } } }
leaf i { type instance-identifier %s } leaf-list ii { type instance-identifier; }
"""


@task(cases=[{"k": k, "ri": r} for k in range(8) for r in RI], budget=100)
def instance_id(sx, k, ri):
    dm = xp.model(IID % ("{ %s }" % ri if ri else ";"))
    o = {}
    d = sx.int("d", 0, 2)
    if k == 0:
        w = sx.choice("w", ["s", "z", "c", "c/a", "c/d", "y", "c/d/a"])
        iid = "/m:" + w
        ks = [m for m in ("m:s", "m:z", "m:c", "m:y") if sx.choice("?" + m, [False, True])]
        o = {m: {"m:s": "x", "m:z": [None], "m:y": 1}.get(m) for m in ks}
        if "m:c" in o:
            o["m:c"] = {}
            if sx.choice("?a", [False, True]):
                o["m:c"]["a"] = 1
            if sx.choice("?d", [False, True]):
                o["m:c"]["d"] = {}
        ok = (w == "c" and "m:c" in o or "/" not in w and "m:" + w in o or
              w == "c/a" and "a" in o.get("m:c", ()) or w == "c/d" and "d" in o.get("m:c", ()))
    elif k in (1, 2):
        n = sx.choice("n", [0, 1, 2])
        ks = vals(sx, n, 0, 3)
        distinct(sx, ks)
        x = sx.choice("x", [0, 3])
        iid = f"/m:l[k='{x}']" + ("/v" if k == 2 else "")
        hv = [sx.choice(f"?v{i}", [False, True]) for i in range(n)]
        if n:
            o["m:l"] = [{"k": q, **({"v": 1} if h else {})} for q, h in zip(ks, hv)]
        ok = any(sx.And(q == x, k == 1 or h) for q, h in zip(ks, hv))
    elif k == 3:
        j = [sx.str(f"j{i}", 0, 2, "ab") for i in range(2)]
        b = [sx.choice(f"b{i}", [False, True]) for i in range(2)]
        sx.assume(sx.Or(j[0] != j[1], b[0] != b[1]))
        o = {"m:p": [{"j": q, "k": r} for q, r in zip(j, b)]}
        iid = ("/m:p[j='ab'][k='true']", "/m:p[k=\"false\"][j=\"ab\"]")[sx.choice("f", [0, 1])]
        ok = any(sx.And(q == "ab", r == ("true" in iid)) for q, r in zip(j, b))
    elif k == 4:
        n = sx.choice("n", [0, 1, 2])
        xs = vals(sx, n)
        distinct(sx, xs)
        if n:
            o["m:x"] = xs
        iid = "/m:x[.='2']"
        ok = any(q == 2 for q in xs)
    elif k == 5:
        n = sx.choice("n", [0, 1, 2])
        if n:
            o["m:u"] = [{"v": i} for i in range(n)]
        p = sx.choice("p", [1, 2, 3])
        iid = f"/m:u[{p}]" + sx.choice("suf", ["", "/v"])
        ok = p <= n
    elif k == 6:
        t = sx.str("t", 0, 2, "xy'")
        o["m:l"] = [{"k": 1, "t": ["xx", t]}]
        sx.assume(t != "xx")
        iid = "/m:l[k='1']/t[.='xy']"
        ok = t == "xy"
    else:
        # names without a schema node, wrong kinds of selectors
        o = {"m:s": "x", "m:l": [{"k": 0}], "m:c": {"a": 1}}
        iid = sx.choice("w", ["/m:q", "/n:s", "/m:c/q", "/m:s/m:s", "/m:c[1]",
                              "/m:c[a='1']", "/m:l[v='0']", "/m:l[.='0']", "/m:l/k", "/m:s[.='x']"])
        ok = False
    at = sx.choice("at", ["i", "ii"])
    o["m:" + at] = iid if at == "i" else [iid, "/m:ii[.='/m:c']", "/m:c"]
    if at == "ii":
        o.setdefault("m:c", {})
        if k == 0 and w == "c":
            return
        o["m:ii"] = [iid, "/m:c"]
    want = sx.Or(ok, at == "i" and not RI[ri])
    inst = decide(sx, dm, o, want)
    got = ev(dm, f"deref(m:{at})", inst)
    sx.check(len(got) == (1 if ok else 0), "target")
