"""Adding default values."""
from symex.api import task
from .schema import *

BOUNDS = ("schemas up to depth 4 with default leafs and leaf-lists (own and by type), "
          "containers of both kinds, lists with up to 2 entries, nested choices with and "
          "without default, when on every kind of node, uses, augments, state data; "
          "every subset of explicit nodes with arbitrary values, starting at the "
          "root or any inner node, every content type but nonconfig; explicit nodes "
          "excluded by when are outside")


def complete(nodes, obj, ctype=ALL, cfg=True, up=(), add=None):
    """The object with defaults in use, recursively; up: explicit ancestors."""
    res = dict(obj)
    up = up + (obj,)
    for n in nodes:
        one(n, obj, res, ctype, cfg, up)
    return res


def one(n, obj, res, ctype, cfg, up):
    c = is_cfg(n, cfg)
    k, nm = n["kind"], n["name"]
    off = ctype == CFG and not c
    if k in ("choice", "case") or nm not in obj:
        if off:
            return
        if n.get("when") and not n["when"][1](up):
            return
    if k == "choice":
        act = [x for x in n["ch"] if any(m in obj for m in names(x))]
        act = act or [x for x in n["ch"] if x["name"] == n.get("dflt")]
        for x in act[:1]:
            one(x, obj, res, ctype, c, up)
    elif k == "case":
        for x in n["ch"]:
            one(x, obj, res, ctype, c, up)
    elif k == "cont":
        if nm in obj or not n["pres"]:
            res[nm] = complete(n["ch"], obj.get(nm, {}), ctype, c, up)
    elif k == "list":
        if nm in obj:
            res[nm] = [complete([x for x in n["ch"] if x["name"] not in n["key"].split()],
                                e, ctype, c, up) for e in obj[nm]]
    elif nm not in obj and not n.get("mand") and not n.get("min"):
        d = n.get("dflt", n.get("tdflt"))
        if d is not None:
            res[nm] = ([int(x) for x in (d if isinstance(d, list) else [d])]
                       if k == "ll" else int(d))


def explicit(sx, nodes, tag=""):
    """Arbitrary object without members of different cases."""
    r = {}
    for n in shorthand(nodes):
        t = tag + n["name"].split(":")[-1]
        k = n["kind"]
        if k == "choice":
            c = sx.choice("?" + t, [None] + [x["name"] for x in n["ch"]])
            for x in n["ch"]:
                if x["name"] == c:
                    r.update(explicit(sx, x["ch"], t + "."))
            continue
        if k == "list":
            m = sx.choice("#" + t, [None, 0, 1, sx.n(1, 2)][:n.get("upto", 4)])
            if m is not None:
                r[n["name"]] = [
                    {"k": i, **explicit(sx, [x for x in n["ch"] if x["name"] != "k"],
                                        f"{t}{i}/")} for i in range(m)]
            continue
        if not sx.choice("?" + t, [False, True]):
            continue
        if k == "cont":
            r[n["name"]] = explicit(sx, n["ch"], t + "/")
        elif k == "ll":
            r[n["name"]] = [] if n.get("empty") and sx.choice("e" + t, [False, True]) \
                else [sx.int(t, -9, 9)]
        else:
            r[n["name"]] = sx.int(t, -9, 9)
    return r


def decide(sx, dm, nodes, obj, ctype=None, at=None):
    sh = shorthand(nodes)
    inst = dm.from_raw(qual(obj))
    want = complete(sh, obj, ctype or ALL)
    res = inst.add_defaults(ctype)
    sx.check(res.raw_value() == qual(want), "exactly the defaults in use")
    sx.check(inst.raw_value() == qual(obj), "original unchanged")
    sx.check(res.parinst is None and res.add_defaults(ctype).raw_value() == qual(want),
             "idempotent")


SHAPES = {
    "plain": [
        leaf("a", dflt="1"), leaf("b"), leaf("d", type="td", tdflt="5"),
        leaf("e", type="td", dflt="6"), leaf("f", type="te", tdflt="8"),
        leaf("g", type="te", tdflt="8", mand=True)],
    "union": [leaf("a", type="tu", tdflt="7"), ll("x", type="tu", tdflt="7"),
              leaf("b", type="union { type int8; type td; }"), leaf("u", type="tf", tdflt="5"),
              leaf("r", type='leafref { path "../a"; }')],
    "lists": [ll("x", dflt=["1", "2"]), ll("y", type="td", tdflt="5", empty=True),
              ll("z", type="td", tdflt="5", min=1), ll("w"),
              ll("v", type="td", dflt=["3"], max=4)],
    "nest": [cont("c", [leaf("a", dflt="1"), cont("p", [leaf("a", dflt="2")], pres=True),
                        cont("n", [leaf("a", dflt="3"), leaf("b"),
                                   cont("o", [ll("x", dflt=["4"])])])]),
             cont("e", [leaf("b")])],
    "list": [lst("l", "k", [leaf("k", type="td"), leaf("a", dflt="4"),
                            cont("n", [leaf("a", dflt="7"), leaf("b")]),
                            lst("i", "k", [leaf("k"), leaf("a", dflt="1")], upto=3)])],
    "choice": [choice("h", [
        case("q", [leaf("a", dflt="1"), leaf("b"), cont("n", [leaf("c", dflt="2")])]),
        case("r", [leaf("d", dflt="3"), leaf("e")]),
        cont("z", [leaf("a", dflt="1")]), leaf("s", dflt="9")], dflt="q")],
    "nodef": [choice("h", [
        case("q", [leaf("a", dflt="1"), leaf("b")]),
        case("r", [leaf("d", dflt="3"), ll("e"), cont("g", [leaf("a", dflt="1")])]),
        lst("z", "k", [leaf("k"), leaf("a", dflt="4")]), leaf("s", dflt="9")])],
    "deep": [choice("h", [
        case("q", [leaf("a", dflt="1"), choice("i", [
            case("u", [leaf("b", dflt="2"), leaf("c")]),
            case("v", [leaf("d", dflt="3"), leaf("e")])], dflt="v")]),
        case("r", [choice("j", [leaf("f", dflt="4"), leaf("g", dflt="5")])])], dflt="q")],
    "deep2": [choice("h", [
        case("q", [leaf("a", dflt="1")]),
        case("r", [leaf("x", dflt="1"), choice("j", [leaf("f", dflt="4"), leaf("g", dflt="5")],
                                               dflt="g")])], dflt="r"),
              leaf("o", dflt="1")],
}
TYPES = """typedef td { type int8; default 5; } typedef te { type td; default 8; }
typedef tf { type td { range "-9..9"; } } typedef tu { type union { type int8; type string; } default 7; }
"""


@task(cases=[{"k": k, "at": a} for k in SHAPES for a in ("", "c")], budget=200)
def shapes(sx, k, at):
    """explicit or default, at the root or in a container (of both kinds)"""
    nodes = SHAPES[k]
    if at:
        nodes = [cont(at, nodes, pres=sx.choice("pres", [False, True]))]
    obj = explicit(sx, nodes)
    decide(sx, model(TYPES + text(nodes)), nodes, obj)


@task(cases=[{"k": k, "d": d} for k in ("plain", "lists", "nest", "list", "choice")
             for d in DRESS], budget=200)
def dressed(sx, k, d):
    """with neutral statements, or in groupings"""
    nodes = [cont("w", SHAPES[k])] if d in ("must", "when") else SHAPES[k]
    obj = explicit(sx, nodes)
    decide(sx, model(TYPES + text(nodes, d)), nodes, obj)


@task(cases=[{"k": k} for k in SHAPES], budget=200)
def inner(sx, k):
    """only inside the receiver, the rest is as before"""
    nodes = [cont("c", SHAPES[k], pres=True), cont("d", SHAPES[k], pres=True)]
    obj = {"c": explicit(sx, SHAPES[k]), "d": {}}
    dm = model(TYPES + text(nodes))
    inst = dm.from_raw(qual(obj))
    c = inst["m:c"].add_defaults()
    want = complete(shorthand(SHAPES[k]), obj["c"])
    sx.check(c.raw_value() == want and c.up().raw_value() == qual({"c": want, "d": {}}),
             "only the receiver")
    t = c.up()["m:d"].add_defaults(CFG).top()
    sx.check(t.raw_value() == qual({"c": want, "d": complete(shorthand(SHAPES[k]), {})}),
             "then another one")


@task(budget=200)
def entry(sx):
    """list entries and arrays as receivers"""
    nodes = SHAPES["list"]
    obj = {"l": [{"k": i, **explicit(sx, [leaf("a"), cont("n", [leaf("a"), leaf("b")])], f"{i}/")}
                 for i in range(2)]}
    inst = model(TYPES + text(nodes)).from_raw(qual(obj))
    arr = inst["m:l"]
    full = complete(shorthand(nodes), obj)["l"]
    sx.check(arr.add_defaults().raw_value() == full, "array")
    i = sx.choice("i", [0, 1])
    e = arr[i].add_defaults()
    sx.check(e.raw_value() == full[i] and e.up().raw_value() ==
             [full[j] if j == i else obj["l"][j] for j in range(2)], "entry")
    sx.check(e.top().add_defaults().raw_value() == {"m:l": full}, "and the rest")
    sx.check(e["a"].add_defaults().value == full[i]["a"], "leaf")


def w(text, f):
    return (text, f)


def pos(up):
    return "t" in up[-1] and up[-1]["t"] > 0


def tdef(up):
    return up[-1].get("t", 3) > 0


CONDS = {
    "leaf": [leaf("t"), leaf("x", dflt="1", when=w("../t > 0", pos))],
    "before": [leaf("x", dflt="1", when=w("../t > 0", tdef)), leaf("t", dflt="3")],
    "after": [leaf("t", dflt="-1"),
              leaf("x", dflt="1", when=w("../t > 0", lambda u: u[-1].get("t", -1) > 0))],
    "ll": [leaf("t"), ll("x", dflt=["1", "2"], when=w("../t > 0", pos))],
    "cont": [leaf("t"), cont("x", [leaf("a", dflt="1")], when=w("../t > 0", pos))],
    "inside": [leaf("t", dflt="3"), cont("x", [
        leaf("a", dflt="1", when=w("../../t > 0", lambda u: u[-2].get("t", 3) > 0))])],
    "within": [cont("x", [leaf("t", dflt="3"), cont("n", [leaf("a", dflt="1")])],
                    when=w("not(../y)", lambda u: "y" not in u[-1])), leaf("y")],
    "choice": [leaf("t"), choice("h", [case("q", [leaf("a", dflt="1"), leaf("b")]),
                                       case("r", [leaf("c")])],
                                 dflt="q", when=w("t > 0", pos))],
    "case": [leaf("t"), choice("h", [
        case("q", [leaf("a", dflt="1")], when=w("t > 0", pos)),
        case("r", [leaf("c")])], dflt="q")],
    "short": [leaf("t"), choice("h", [leaf("a", dflt="1", when=w("../t > 0", pos)),
                                      leaf("c")], dflt="a")],
    "chain": [leaf("t"), leaf("x", dflt="1", when=w("../t > 0", pos)),
              leaf("y", dflt="2", when=w("../x = 1", lambda u: u[-1]["x"] == 1 if "x" in u[-1] else pos(u)))],
    "entry": [leaf("t"), lst("l", "k", [leaf("k"), leaf("a", dflt="1", when=w(
        "../k = ../../t", lambda u: "t" in u[-2] and u[-1]["k"] == u[-2]["t"]))])],
    "case2": [leaf("t"), choice("h", [
        case("q", [leaf("a", dflt="1", when=w("../t > 0", pos)), leaf("b", dflt="2")])], dflt="q")],
}


def allowed(nodes, obj, up=()):
    """no explicit node is excluded by when"""
    up = up + (obj,)
    ok = True
    for n in nodes:
        if any(m in obj for m in names(n)):
            if n.get("when"):
                ok = ok and n["when"][1](up)
            if n["kind"] in ("choice", "case"):
                for x in n["ch"]:
                    ok = ok and allowed([x], obj, up[:-1])
            elif n["kind"] == "cont":
                ok = ok and allowed(n["ch"], obj[n["name"]], up)
            elif n["kind"] == "list":
                for e in obj[n["name"]]:
                    ok = ok and allowed(n["ch"], e, up)
    return ok


@task(cases=[{"k": k, "at": a} for k in CONDS for a in ("", "c")], budget=200)
def conds(sx, k, at):
    """nodes with when"""
    nodes = CONDS[k]
    if at:
        nodes = [cont(at, nodes)]
    obj = explicit(sx, nodes)
    sx.assume(bool(allowed(shorthand(nodes), obj)))
    decide(sx, model(text(nodes)), nodes, obj)


GROUPS = ("leaf x { type int8; default 1; } container n { leaf a { type int8; default 2; } } "
          "choice h { default q; case q { leaf b { type int8; default 3; } } leaf z { type int8; } }")
GNODES = [leaf("x", dflt="1"), cont("n", [leaf("a", dflt="2")]),
          choice("h", [case("q", [leaf("b", dflt="3")]), leaf("z")], dflt="q")]


@task(cases=[{"k": k} for k in ("uses", "augment", "inuses", "incase", "intoch", "intolist")], budget=200)
def groups(sx, k):
    """defaults from uses and augments, conditional or not"""
    cond = sx.choice("when", [False, True])
    g = f"grouping g {{ {GROUPS} }}"
    wt = 'when "%s > 0";' if cond else ""
    more = {}
    wh = w("", pos) if cond else None
    gn = [dict(n, when=wh) if wh else n for n in GNODES]
    if k == "uses":
        body = g + "container c { leaf t { type int8; } uses g { %s } }" % (wt and wt % "t")
        nodes = [cont("c", [leaf("t")] + gn)]
    elif k == "inuses":
        body = g + "grouping f { uses g { %s } } container c { leaf t { type int8; } uses f; }" % (wt and wt % "t")
        nodes = [cont("c", [leaf("t")] + gn)]
    elif k == "incase":
        body = g + ("container c { leaf t { type int8; } choice w { default o; case o { uses g { %s } } leaf p { type int8; } } }"
                    % (wt and wt % "t"))
        nodes = [cont("c", [leaf("t"), choice("w", [case("o", gn), leaf("p")], dflt="o")])]
    else:
        pre = {"augment": "/p:c", "intoch": "/p:c/p:w", "intolist": "/p:c/p:l"}[k]
        aug = ("leaf u { type int8; default 4; } container n { leaf a { type int8; default 2; } } "
               "leaf-list x { type int8; default 1; default 2; }")
        body = ("container c { leaf t { type int8; } choice w { default a; leaf a { type int8; default 6; } } "
                "list l { key k; leaf k { type int8; } leaf t { type int8; } } }")
        more = {"n": module("n", f"augment {pre} {{ {wt and wt % 'p:t'} {aug} }}",
                            imports="import m { prefix p; }")}
        an = [leaf("n:u", dflt="4"), cont("n:n", [leaf("a", dflt="2")]), ll("n:x", dflt=["1", "2"])]
        an = [dict(n, when=wh) if wh else n for n in an]
        w0 = choice("w", [leaf("a", dflt="6")], dflt="a")
        l0 = lst("l", "k", [leaf("k"), leaf("t")])
        if k == "intoch":
            w0["ch"] += an
        elif k == "intolist":
            l0["ch"] += an
        nodes = [cont("c", [leaf("t"), w0, l0] + (an if k == "augment" else []))]
    obj = explicit(sx, nodes)
    sx.assume(bool(allowed(shorthand(nodes), obj)))
    decide(sx, model(body, more), nodes, obj)


CTYPES = [
    leaf("a", dflt="1"), leaf("s", dflt="2", config=False),
    cont("c", [leaf("a", dflt="3"), leaf("s", dflt="4", config=False),
               cont("n", [leaf("b", dflt="5"), ll("x", dflt=["1"])], config=False)]),
    cont("d", [leaf("b", dflt="5")], config=False),
    choice("h", [case("q", [leaf("e", dflt="6"), leaf("f", dflt="7", config=False)])], dflt="q"),
    choice("i", [case("r", [leaf("g", dflt="6")])], dflt="r", config=False)]


@task(cases=[{"ct": c} for c in ("none", "all", "config")], budget=200)
def ctypes(sx, ct):
    """configuration or all data"""
    decide(sx, model(text(CTYPES)), CTYPES, explicit(sx, CTYPES),
           {"none": None, "all": ALL, "config": CFG}[ct])


MARK = "ietf-netconf-with-defaults:default"


def strip(v):
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if not k.startswith("@")}
    return [strip(x) for x in v] if isinstance(v, list) else v


@task(cases=[{"k": k} for k in ("plain", "lists", "nest", "list", "choice", "deep")], budget=200)
def tags(sx, k):
    """tagged values are those added to existing objects"""
    nodes = SHAPES[k]
    obj = explicit(sx, nodes)
    inst = model(TYPES + text(nodes)).from_raw(qual(obj))
    raw = inst.add_defaults(tag=True).value
    want = qual(complete(shorthand(nodes), obj))
    sx.check(strip(raw) == want, "same content")
    sx.check(inst.raw_value() == qual(obj), "original unchanged")

    def marks(old, new):
        for m in new:
            if m.startswith("@"):
                continue
            v = new[m]
            if m not in old:
                md = v.get("@", {}) if isinstance(v, dict) else new.get("@" + m, {})
                sx.check(md.get(MARK) is True, "added value is marked")
            else:
                sx.check(("@" + m) not in new, "explicit value isn't marked")
                if isinstance(v, dict):
                    sx.check("@" not in v, "explicit container isn't marked")
                    marks(old[m], v)
                elif isinstance(v, list) and v and isinstance(v[0], dict):
                    for x, y in zip(old[m], v):
                        marks(x, y)
    marks(inst.value, raw)
