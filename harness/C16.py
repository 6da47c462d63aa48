"""must and when conditions."""
from symex.api import task
from .common import *
from .schema import ALL, CFG, ValidationScope, model, qual

BOUNDS = ("must and when on every kind of schema node (also several on one node, with "
          "nested lists and choices, in uses and augments), arbitrary values "
          "of the leafs they depend on, every subset of optional nodes, lists with up to 2 "
          "entries; must is only considered for instances in the data")


def decide(sx, dm, obj, syn, sem=True, tag="must-violation", ctype=ALL):
    """syn, sem: the data satisfy the schema and the must conditions"""
    inst = dm.from_raw(qual(obj))
    for scope, ok in ((ValidationScope.syntax, syn), (ValidationScope.semantics, sem),
                      (ValidationScope.all, sx.And(syn, sem))):
        k, e = sx.attempt(lambda: inst.validate(scope, ctype), ValidationError)
        sx.check(sx.Iff(k == "ok", ok), f"accepted ({scope.name})")
        if k != "ok":
            if scope == ValidationScope.semantics:
                sx.check(isinstance(e, SemanticError) and e.tag == tag, "error of must")
            elif scope == ValidationScope.syntax:
                sx.check(isinstance(e, SchemaError), "error of when")


def t(sx, name="t"):
    return sx.int(name, -3, 3)


def some(sx, **kw):
    """a subset of the members"""
    return {k: v for k, v in kw.items() if sx.choice("?" + k, [False, True])}


T = "leaf t { type int8; }\n"

# data nodes: the context node is the node itself
WHEN = {
    "leaf": ('leaf x { when "../t > 0"; type int8; %s }', 1),
    "leaf-list": ('leaf-list x { when "../t > 0"; type int8; %s }', [1, 2]),
    "container": ('container x { when "../t > 0"; presence y; leaf y { type int8; } }', {"y": 1}),
    "np-container": ('container x { when "../t > 0"; leaf y { type int8; %s } }', {"y": 1}),
    "list": ('list x { when "../t > 0"; key y; leaf y { type int8; } %s }', [{"y": 1}]),
    "anydata": ('anydata x { when "../t > 0"; %s }', {"m:z": 1}),
    "choice": ('choice h { when "t > 0"; %s leaf x { type int8; } leaf z { type int8; } }', 1),
    "case": ('choice h { %s case q { when "t > 0"; leaf x { type int8; } } leaf z { type int8; } }', 1),
    "shorthand": ('choice h { leaf x { when "../t > 0"; type int8; } leaf z { type int8; } }', 1),
    "uses": ('uses g { when "t > 0"; }', 1),
}


@task(cases=[{"k": k, "c": c} for k in WHEN for c in (0, 1)], budget=100)
def when(sx, k, c):
    """of each kind of node, at the root (c = 0) or in a container"""
    body, val = WHEN[k]
    mand = sx.choice("mand", [False, True]) if "%s" in body or k == "uses" else False
    req = {"leaf": "mandatory true;", "leaf-list": "min-elements 1;",
           "np-container": "mandatory true;", "list": "min-elements 1;",
           "anydata": "mandatory true;", "choice": "mandatory true;",
           "case": "mandatory true;", "uses": ""}.get(k, "")
    if "%s" in body:
        body = body % (req if mand else "")
    g = "grouping g { leaf x { type int8; %s } leaf z { type int8; } }" % (
        "mandatory true;" if mand else "")
    text = T + body
    dm = model((g if k == "uses" else "") + (f"container c {{ presence p; {text} }}" if c else text))
    o = some(sx, t=t(sx), x=val)
    if k in ("choice", "case", "uses"):
        o.update(some(sx, z=1))
    on = o["t"] > 0 if "t" in o else False
    has = "x" in o
    if k in ("choice", "shorthand"):
        syn = sx.And(sx.Or(on, "x" not in o and "z" not in o), not ("x" in o and "z" in o),
                     sx.Or(sx.Not(on), not mand, has or "z" in o))
        if k == "shorthand":
            syn = sx.Or(on, not has)
    elif k == "case":
        syn = sx.And(sx.Or(on, not has), not (has and "z" in o),
                     not mand or has or "z" in o)
    elif k == "uses":
        syn = sx.And(sx.Or(on, not has and "z" not in o), sx.Or(sx.Not(on), not mand, has))
    elif k == "np-container" and mand:
        # an absent mandatory container is as an empty one, out of scope with false when
        sx.assume(sx.Or(on, has))
        syn = sx.And(on, has)
    else:
        syn = sx.And(sx.Or(on, not has), sx.Or(sx.Not(on), not mand, has))
    decide(sx, dm, {"c": o} if c else o, syn)


@task(cases=[{"k": k} for k in ("leaf", "cont", "choice", "cases", "short")], budget=100)
def augment(sx, k):
    """conditions in augment: the context node is the target's instance"""
    more = {"leaf": 'augment /p:c { when "p:t > 0"; leaf x { type int8; mandatory false; } leaf z { type int8; } }',
            "cont": 'augment /p:c/p:d { when "../p:t > 0"; container x { leaf y { type int8; } } leaf z { type int8; } }',
            "choice": 'augment /p:c { when "p:t > 0"; choice i { mandatory true; leaf x { type int8; } leaf z { type int8; } } }',
            "cases": 'augment /p:c/p:h { when "p:t > 0"; case q { leaf x { type int8; } } case r { leaf z { type int8; } } }',
            "short": 'augment /p:c/p:h { when "p:t > 0"; leaf x { type int8; } container z { leaf y { type int8; } } }'}[k]
    dm = model(f"container c {{ presence p; {T} container d {{ leaf a {{ type int8; }} }} choice h {{ leaf b {{ type int8; }} }} }}",
               more={"n": module("n", more, imports="import m { prefix p; }")})
    tv = some(sx, t=t(sx))
    on = tv["t"] > 0 if tv else False
    o = some(sx, x={"y": 1} if k == "cont" else 1, z={"y": 1} if k == "short" else 1)
    n = len(o)
    syn = sx.Or(on, n == 0)
    if k == "choice":
        syn = sx.Or(sx.And(on, n == 1), sx.And(sx.Not(on), n == 0))
    elif k in ("cases", "short"):
        o2 = some(sx, b=1)
        syn = sx.And(n + len(o2) < 2, syn)
        tv.update(o2)
    q = {"n:" + m: v for m, v in o.items()}
    if k == "cont":
        tv["d"] = q
    else:
        tv.update(q)
    decide(sx, dm, {"c": tv}, syn)


@task(cases=[{"k": i} for i in range(8)], budget=100)
def truth(sx, k):
    """boolean values of conditions"""
    ex, pred = [
        ("../t", lambda o: "t" in o),
        ("../t + 0", lambda o: sx.And("t" in o, o.get("t", 0) != 0)),
        ("string(../t - 1)", lambda o: True),
        ("not(../t)", lambda o: "t" not in o),
        ("../t and ../u", lambda o: "t" in o and "u" in o),
        ("../t = ../u", lambda o: "t" in o and "u" in o and o["t"] == o["u"]),
        ("../t != 0 or ../u > 1", lambda o: sx.Or("t" in o and o["t"] != 0, "u" in o and o["u"] > 1)),
        ("count(../*[. > 1]) mod 2", lambda o: len([v for m, v in o.items() if m != "x" and v > 1]) == 1),
    ][k]
    o = some(sx, t=t(sx), u=t(sx, "u"), x=1)
    ok = pred(o)
    body = T + "leaf u { type int8; }\n leaf x { type int8; "
    has = "x" in o
    dm = model(body + f'when "{ex}"; }}')
    decide(sx, dm, o, sx.Or(ok, not has))
    dm = model(body + f'must "{ex}"; }}')
    decide(sx, dm, o, True, sx.Or(ok, not has))


@task(cases=[{"k": k, "c": c} for k in ("leaf", "leaf-list", "cont", "npcont", "list", "anydata")
             for c in (0, 1)], budget=100)
def must(sx, k, c):
    """on each kind of node, with error information (c = 1) and several conditions"""
    d = '{ error-app-tag oops; error-message "Oh"; }' if c else ";"
    m2 = 'must "../t < 3" { error-app-tag second; }' if c else ""
    text = {"leaf": f'leaf x {{ type int8; must ". > ../t" {d} {m2} }}',
            "leaf-list": f'leaf-list x {{ type int8; must ". > ../t" {d} {m2} }}',
            "cont": f'container x {{ presence p; must "y > ../t" {d} {m2} leaf y {{ type int8; }} }}',
            "npcont": f'container x {{ must "y > ../t" {d} {m2} leaf y {{ type int8; }} }}',
            "list": f'list x {{ key y; must "y > ../t" {d} {m2} leaf y {{ type int8; }} }}',
            "anydata": f'anydata x {{ must "5 > ../t" {d} {m2} }}'}[k]
    dm = model(T + text)
    n = sx.choice("n", [1, 2]) if k in ("leaf-list", "list") else 1
    vs = [sx.int(f"v{i}", -3, 3) for i in range(n)]
    if n == 2:
        sx.assume(vs[0] != vs[1])
    x = {"leaf": lambda: vs[0], "leaf-list": lambda: vs,
         "cont": lambda: {"y": vs[0]}, "npcont": lambda: {"y": vs[0]},
         "list": lambda: [{"y": v} for v in vs], "anydata": lambda: {"m:z": 1}}[k]()
    o = some(sx, t=t(sx), x=x)
    if "x" not in o:
        decide(sx, dm, o, True)
        return
    tv = o.get("t")
    first = False if tv is None else True if k == "anydata" else sx.And(*[v > tv for v in vs])
    second = not c or sx.And(tv is not None, (tv or 0) < 3)
    inst = dm.from_raw(qual(o))
    kk, e = sx.attempt(lambda: inst.validate(), ValidationError)
    sx.check(sx.Iff(kk == "ok", sx.And(first, second)), "accepted")
    if kk != "ok":
        sx.check(isinstance(e, SemanticError), "kind of the error")
        if k not in ("leaf-list", "list"):
            want = (("oops", "Oh") if c else ("must-violation", None)) if not first \
                else ("second", None)
            sx.check(e.tag == want[0] and e.message == want[1], "error of the failed must")
        sx.check(e.instance.schema_node.name == "x", "place of the error")
    sx.check(sx.attempt(lambda: inst.validate(ValidationScope.syntax), ValidationError)[0] == "ok",
             "syntax only")


@task(budget=200)
def nested(sx):
    """relative paths from list entries, current()"""
    dm = model("""
list l { key k; leaf k { type int8; } leaf v { type int8; }
  list i { key k; leaf k { type int8; } leaf w { type int8; when "../../v > ../k"; must ". != ../../k"; }
    must "not(w) or /l[k = current()/w]"; }
  leaf r { type int8; must "/l[k = current()]/v = ../v"; } }
""")
    rows = []
    for a in range(sx.choice("n", [1, 2])):
        e = {"k": a}
        if sx.choice(f"?v{a}", [False, True]):
            e["v"] = sx.int(f"v{a}", -1, 2)
        if sx.choice(f"?r{a}", [False, True]):
            e["r"] = sx.int(f"r{a}", -1, 2)
        if a == 0 and sx.choice("?i", [False, True]):
            e["i"] = [{"k": sx.int("ik", -1, 2)}]
            if sx.choice("?w", [False, True]):
                e["i"][0]["w"] = sx.int("iw", -1, 2)
        rows.append(e)
    syn, sem = True, True
    for e in rows:
        for i in e.get("i", []):
            if "w" in i:
                syn = sx.And(syn, "v" in e and e["v"] > i["k"])
                sem = sx.And(sem, i["w"] != e["k"], sx.Or(*[i["w"] == x["k"] for x in rows]))
        if "r" in e:
            sem = sx.And(sem, "v" in e, sx.Or(*[sx.And(x["k"] == e["r"], x["v"] == e["v"])
                                               for x in rows if "v" in x and "v" in e]))
    decide(sx, dm, {"l": rows}, syn, sem)


@task(budget=100)
def cascade(sx):
    """conditions depending on defaults and on other conditional nodes"""
    dm = model("""
leaf t { type int8; default 1; }
leaf u { when "../t = 1"; type int8; default 2; }
leaf x { when "../u = 2"; type int8; }
leaf y { type int8; must "../u or ../t < 0"; }
container c { when "../t > 0"; leaf a { type int8; default 4; } leaf b { type int8; } }
leaf z { type int8; when "../c/a = 4"; }
""")
    o = some(sx, t=t(sx), u=t(sx, "u"), x=1, y=1, c={"a": t(sx, "a")}, z=1)
    tv = o.get("t", 1)
    uon = tv == 1
    uval = o.get("u", 2)
    con = tv > 0
    aval = o["c"]["a"] if "c" in o else 4
    syn = sx.And(sx.Or("u" not in o, uon),
                 sx.Or("c" not in o, con),
                 sx.Or("x" not in o, sx.And(sx.Or("u" in o, uon), uval == 2)),
                 sx.Or("z" not in o, sx.And(sx.Or("c" in o, con), aval == 4)))
    sem = sx.Or("y" not in o, "u" in o, uon, tv < 0)
    decide(sx, dm, o, syn, sem)


@task(cases=[{"g": g} for g in range(4)], budget=100)
def several(sx, g):
    """conditions of a node, its uses, augment and case together"""
    body = ["grouping gr { leaf x { type int8; when \"../u > 0\"; } leaf s { type int8; } }"
            " container c { leaf t { type int8; } leaf u { type int8; } uses gr { when \"t > 0\"; } }",
            "grouping gr { container e { leaf x { type int8; } leaf s { type int8; } } }"
            " container c { leaf t { type int8; } leaf u { type int8; } uses gr {"
            " augment e { when \"../t > 0\"; leaf w { type int8; when \"../../u > 0\"; } } } }",
            "container c { leaf t { type int8; } leaf u { type int8; }"
            " choice h { when \"t > 0\"; case q { when \"u > 0\"; leaf x { type int8; } leaf s { type int8; } } case r { leaf w { type int8; } } } }",
            "grouping gr { leaf x { type int8; } } grouping g2 { leaf s { type int8; } uses gr { when \"u > 0\"; } }"
            " container c { leaf t { type int8; } leaf u { type int8; } uses g2 { when \"t > 0\"; } }"][g]
    dm = model(body)
    c = some(sx, t=t(sx), u=t(sx, "u"))
    ton = c["t"] > 0 if "t" in c else False
    uon = c["u"] > 0 if "u" in c else False
    if g == 1:
        e = some(sx, x=1, s=1, w=1)
        c["e"] = e
        syn = sx.Or("w" not in e, sx.And(ton, uon))
    else:
        e = some(sx, x=1, s=1, **({"w": 1} if g == 2 else {}))
        c.update(e)
        if g == 0 or g == 3:
            syn = sx.And(sx.Or("x" not in e, sx.And(ton, uon)), sx.Or("s" not in e, ton))
        else:
            one = "x" in e or "s" in e
            syn = sx.And(sx.Or(not one, sx.And(ton, uon)), sx.Or("w" not in e, ton),
                         not (one and "w" in e))
    decide(sx, dm, {"c": c}, syn)
