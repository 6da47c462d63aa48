"""uses, refine, augment and deviation."""
import itertools
from symex.api import task
from .common import *
from .alike import build1, same, compare, outcome
from yangson.enumerations import ContentType

BOUNDS = ("one modified node of each kind (leaf, leaf-list, list, container, choice, anydata) in one of two uses of a grouping, directly "
          "or nested; every base and target value (of a small set) of each pair of properties: type, units, default, "
          "mandatory, config, must, min-elements, max-elements, unique, presence, description; up to three levels "
          "of groupings; augments of every kind of target by every kind of node, from the same module, its submodule, another "
          "module or uses, with and without when and if-feature; the schema is compared with that of the model written without "
          "modifications, on digests, diagrams and arbitrary small documents")

M1 = "true() or false() and ../x = 1"
M2 = "(true() or false()) and ../x = 1"
M3 = "count(../x) = 1"
PROPS = {
    "leaf": {"type": ["int8", "string"], "units": [None, "u", "v"], "default": [None, "1", "2"],
             "mandatory": [None, "true", "false"], "config": [None, "true", "false"],
             "must": [(), (M1,), (M1, M2), (M2, M3), (M2,)], "description": [None, "a", "b"]},
    "leaf-list": {"type": ["int8", "string"], "units": [None, "u", "v"],
                  "default": [(), ("1",), ("2", "3"), ("1", "2"), ("3",)],
                  "config": [None, "true", "false"], "min-elements": [None, "1", "2"],
                  "max-elements": [None, "unbounded", "1", "2"], "must": [(), (M1,), (M2, M1), (M2,)]},
    "list": {"config": [None, "true", "false"], "min-elements": [None, "1", "2"],
             "max-elements": [None, "unbounded", "1", "2"], "must": [(), (M2,), (M1, M2)],
             "unique": [(), ("v",), ("v", "w"), ("v w",), ("w v", "v w")]},
    "container": {"presence": [None, "p"], "config": [None, "true", "false"], "must": [(), (M2,), (M1, M2)],
                  "description": [None, "a", "b"]},
    "choice": {"default": [None, "a", "b"], "mandatory": [None, "true", "false"], "config": [None, "true", "false"]},
    "anydata": {"mandatory": [None, "true", "false"], "config": [None, "true", "false"], "must": [(), (M2,), (M1, M2)]},
}
MULTI = ("must", "unique", "default")
INNER = {"list": "key k; leaf k { type int8; } leaf v { type int8; } leaf w { type int8; }",
         "container": "leaf z { type int8; default 5; }",
         "choice": "leaf a { type int8; default 7; } case b { leaf b { type int8; } leaf bb { type int8; default 9; } }"}
# what refine can change
REFINE = {"default", "description", "config", "mandatory", "presence", "must", "min-elements", "max-elements"}


def stmts(props, prefix=""):
    out = []
    for k, v in props.items():
        for x in (v if isinstance(v, tuple) else (v,)):
            if x is not None:
                if k == "unique":
                    x = " ".join(prefix + y for y in x.split())
                out.append(f'{k} "{x}";')
    return " ".join(out)


def node(kind, props):
    inner = INNER.get(kind, "")
    return f"{kind} n {{ {stmts(props)} {inner} }}"


def legal(kind, p):
    """properties that may appear together"""
    if p.get("default") and p.get("mandatory") == "true":
        return False
    if p.get("default") and p.get("min-elements") and p["min-elements"] != "0":
        return False
    if p.get("config") == "true" and False:
        return False
    mx = p.get("max-elements")
    if mx and mx != "unbounded" and int(p.get("min-elements") or 0) > int(mx):
        return False
    return True


def docs_for(sx, kind, wrap, tag=""):
    """documents about the node n"""
    w = lambda d: [wrap({"x": 1, **d}), wrap(d)]
    if kind == "leaf":
        return sum((w({} if v is None else {"n": v}) for v in (None, "a", 1, 200)), [])
    if kind == "leaf-list":
        return sum((w({"n": v}) for v in ([], [1], [1, 1], ["a"], [1, 2, 3])), w({}))
    if kind == "list":
        out = [wrap({"x": 1}), wrap({"x": 1, "n": []})]
        vs = [sx.int(f"{x}{tag}", 0, 1) for x in ("v0", "v1", "w0")]
        for n in (1, 2, 3):
            e = [{"k": i, "v": v} for i, v in enumerate([vs[0], vs[1], 3][:n])]
            for e1, x in zip(e, (vs[2], 1)):
                e1["w"] = x
            out.append(wrap({"x": 1, "n": e}))
        return out + [wrap({"n": e})]
    if kind == "container":
        return w({}) + w({"n": {}}) + w({"n": {"z": 1}})
    if kind == "choice":
        return w({}) + w({"a": 1}) + w({"b": 1}) + w({"bb": 2})
    return w({}) + w({"n": {"u": 1}})


def variants(sx, kind, props, tag):
    return {p: sx.choice(tag + p, values(sx, kind, p)) for p in props}


def values(sx, kind, p):
    v = PROPS[kind][p]
    if kind in ("leaf-list", "list"):
        few = {"config": 1, "unique": 3, "default": 3}.get(p, 4)
        return (v[::2] if p == "config" and sx.n(0, 1) == 0 else v)[:sx.n(max(few, 2), 9)]
    return v[:sx.n(4, 9)] if p == "must" else v


def _pairs():
    out = []
    for k, ps in PROPS.items():
        names = list(ps)
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                for mech in ("refine", "deviate"):
                    if mech == "refine" and not {a, b} & REFINE:
                        continue
                    if kind_ok(k, a, mech) or kind_ok(k, b, mech):
                        out.append({"kind": k, "a": a, "b": b, "mech": mech})
    return out


def kind_ok(kind, p, mech):
    if mech == "refine":
        return p in REFINE
    return p not in ("presence", "description")


CASES = _pairs()
QUICK = [c for c in CASES if c["a"] in ("type", "default", "mandatory", "presence", "config", "min-elements")
         and (c["mech"] == "deviate" or c["b"] != "type") and "description" not in (c["a"], c["b"])]


@task(cases=QUICK, thorough_cases=CASES, budget=200)
def properties(sx, kind, a, b, mech):
    """refine and deviate of two properties"""
    base = variants(sx, kind, (a, b), "base ")
    rest = {"type": "int8"} if kind.startswith("leaf") and "type" not in (a, b) else {}
    goal = dict(base)
    changes = {"add": {}, "replace": {}, "delete": {}}
    refined = {}
    for p in (a, b):
        if not kind_ok(kind, p, mech):
            continue
        t = sx.choice("goal " + p, values(sx, kind, p))
        if t == base[p]:
            continue
        goal[p] = t
        if mech == "refine":
            if t is None or t == ():
                sx.assume(False)
            if p == "must":
                sx.assume(t[:len(base[p])] == base[p])
                refined[p] = t[len(base[p]):]
            else:
                refined[p] = t
        elif isinstance(t, tuple):
            if p == "default" and t and base[p] and sx.choice("replace " + p, [True, False]):
                changes["replace"][p] = t
            else:
                changes["delete"][p] = tuple(x for x in base[p] if x not in t)
                changes["add"][p] = tuple(x for x in t if x not in base[p])
                goal[p] = tuple(x for x in base[p] if x in t) + changes["add"][p]
        elif t is None:
            if p in ("config", "mandatory"):
                sx.assume(False)
            changes["delete"][p] = base[p]
        elif base[p] is None and p not in ("config", "mandatory", "min-elements", "max-elements"):
            changes["add"][p] = t
        else:
            changes["replace" if base[p] is not None or sx.choice("verb " + p, [True, False]) else "add"][p] = t
    sx.assume(legal(kind, {**rest, **base}))
    sx.assume(legal(kind, {**rest, **goal}))
    nested, verbs = sx.choice("form", [(False, ("delete", "replace", "add")), (True, ("add", "delete", "replace"))])
    lo, hi = ("container c { leaf x { type int8; }", "}") if nested else ("leaf x { type int8; }", "")
    nb, ng = node(kind, {**rest, **base}), node(kind, {**rest, **goal})
    path = "c/n" if nested else "n"
    other = ""
    mods = [{"name": "m"}]
    texts = {}
    if mech == "refine":
        mod = f" {{ refine {path} {{ {stmts(refined)} }} }}"
        if not refined:
            mod = ";"
    else:
        mod = ";"
        body = " ".join(f"deviate {v} {{ {stmts(changes[v], 'm:')} }}" for v in verbs if changes[v])
        other = module("d", f"deviation /m:u1/m:{'c/m:n' if nested else 'n'} {{ {body} }}", imports="import m { prefix m; }")
        mods = [{"name": "d"}, {"name": "m"}]
        texts["d"] = other
    texts["m"] = module("m", f"grouping g {{ {lo} {nb} {hi} }} container u1 {{ uses g{mod} }} container u2 {{ uses g; }}")
    ref = {"m": module("m", f"container u1 {{ {lo} {ng} {hi} }} container u2 {{ {lo} {nb} {hi} }}")}
    one, two = (sx.attempt(lambda: build1(*t), YangsonException) for t in ((texts, mods), (ref, [{"name": "m"}])))
    if two[0] != "ok":
        # e.g. default not matching the type
        sx.check(one[0] != "ok", "refused as well")
        return
    sx.check(one[0] == "ok", "model")
    if one[0] != "ok":
        return
    shapes = one[1], two[1]
    for which in ("m:u1", "m:u2"):
        inner = (lambda d: {which: {"c": d}}) if nested else (lambda d: {which: d})
        compare(sx, *shapes, docs_for(sx, kind, inner, which), shape=which == "m:u1",
                cts=(ContentType.all, ContentType.config)[:2 if "config" in (a, b) else 1])


@task(cases=[{"kind": k, "prop": p} for k, p in (
    ("leaf", "default"), ("leaf", "mandatory"), ("leaf", "config"), ("leaf", "must"), ("leaf-list", "default"),
    ("leaf-list", "max-elements"), ("list", "min-elements"), ("container", "presence"), ("choice", "default"))], budget=60)
def levels(sx, kind, prop):
    """groupings using groupings, each use with its own refinement; deviation on top"""
    rest = {"type": "int8"} if kind.startswith("leaf") else {}
    vals = PROPS[kind][prop]
    v0 = sx.choice("base", vals)
    cur = v0
    uses = []
    multi = prop == "must"
    vals = vals[:sx.n(3, 9)]
    for i in range(3):
        v = sx.choice(f"refine{i}", [None] + [x for x in vals if x not in (None, ())])
        uses.append("uses g%d%s" % (i, ";" if v is None else f" {{ refine n {{ {stmts({prop: v})} }} }}"))
        if v is not None:
            cur = (cur or ()) + v if multi else v
    body = f"grouping g0 {{ leaf x {{ type int8; }} {node(kind, {**rest, prop: v0})} }}"
    order = sx.choice("order", [0, 1])
    gs = [body] + [f"grouping g{i + 1} {{ {uses[i]} }}" for i in range(2)]
    cont = [f"container u1 {{ {uses[2]} }}", "container u2 { uses g0; }"]
    if order:
        gs.reverse()
        gs, cont = cont, gs
    n0, n1 = node(kind, {**rest, prop: v0}), node(kind, {**rest, prop: cur})
    x = "leaf x { type int8; }"
    same(sx, ({"m": module("m", "".join(gs + cont))},),
         ({"m": module("m", f"container u1 {{ {x} {n1} }} container u2 {{ {x} {n0} }}")},),
         docs_for(sx, kind, lambda d: {"m:u1": d}) + docs_for(sx, kind, lambda d: {"m:u2": d}, "2"))


@task(cases=[{"kind": k} for k in PROPS])
def features(sx, kind):
    """refine with if-feature; several nodes refined and augmented in one use"""
    rest = {"type": "int8"} if kind.startswith("leaf") else {}
    sup = sx.choice("supported", [False, True])
    own = sx.choice("own", [None, "f", "not f"])
    n = node(kind, rest)
    if own:
        n = n[:-1] + f' if-feature "{own}"; }}'
    neg = sx.choice("neg", [False, True])
    there = sup != neg and (own is None or (own == "f") == sup)
    if own is not None and (own == "f") != sup:
        there = False
    other = sx.choice("other", ["", "refine x { default 3; }", "refine y { description b; }", "augment c { leaf q { type int8; } }"])
    use = f'uses g {{ {other} refine n {{ if-feature "{"not f" if neg else "f"}"; }} }}'
    x = "leaf x { type int8; } leaf y { type int8; } container c { leaf r { type int8; } }"
    x1 = {"": x, "refine x": x.replace("int8; }", "int8; default 3; }", 1),
          "refine y": "leaf x { type int8; } leaf y { type int8; description b; } container c { leaf r { type int8; } }",
          "augment ": x[:-1] + "leaf q { type int8; } }"}[other[:8]]
    ref = f"container u1 {{ {x1} {n if there else ''} }} container u2 {{ {x} {n} }}"
    fs = {"features": ["f"] if sup else []}
    same(sx, ({"m": module("m", f"feature f; grouping g {{ {x} {n} }} container u1 {{ {use} }} container u2 {{ uses g; }}")},
              [{"name": "m", **fs}]),
         ({"m": module("m", "feature f;" + ref)}, [{"name": "m", **fs}]),
         docs_for(sx, kind, lambda d: {"m:u1": d}) + docs_for(sx, kind, lambda d: {"m:u2": d}, "2"))


# --- augments --------------------------------------------------------------

ADDED = {
    "leaf": ("leaf q { type int8; %s }", [{}, {"q": 1}]),
    "default": ("leaf q { type int8; default 4; %s }", [{}, {"q": 1}]),
    "mandatory": ("leaf q { type int8; mandatory true; %s }", [{}, {"q": 1}]),
    "leaf-list": ("leaf-list q { type int8; max-elements 1; %s }", [{}, {"q": [1]}, {"q": [1, 2]}]),
    "list": ("list q { key k; leaf k { type int8; } leaf v { type int8; default 4; } %s }", [{}, {"q": [{"k": 1}]}, {"q": [{}]}]),
    "container": ("container q { leaf v { type int8; default 4; } %s }", [{}, {"q": {}}, {"q": {"v": 2}}]),
    "choice": ("choice q { leaf v { type int8; } leaf w { type int8; } %s }", [{}, {"v": 1}, {"w": 1}, {"v": 1, "w": 1}]),
    "uses": ("uses gq { %s }", [{}, {"q": 1}, {"q": 1, "qq": 2}]),
    "two": ("leaf q { type int8; %s } leaf qq { type int8; %s }", [{}, {"q": 1}, {"q": 1, "qq": 2}]),
}
GQ = "grouping gq { leaf q { type int8; default 6; } leaf qq { type int8; } }"
TARGETS = {          # text with ! for what is augmented, path, document
    "top": ("container t { leaf c { type int8; } ! }", "t", lambda d: {"m:t": d}),
    "presence": ("container t { presence p; leaf c { type int8; } ! }", "t", lambda d: {"m:t": d}),
    "list": ("container r { list t { key i; leaf i { type int8; } leaf c { type int8; } ! } }", "r/t",
             lambda d: {"m:r": {"t": [{"i": 1, **d}]}}),
    "choice": ("container t { leaf c { type int8; } choice h { leaf o { type int8; } ! } }", "t/h", lambda d: {"m:t": d}),
    "case": ("container t { leaf c { type int8; } choice h { leaf o { type int8; } case s { leaf p { type int8; } ! } } }", "t/h/s",
             lambda d: {"m:t": d}),
    "implicit": ("container t { choice h { leaf o { type int8; } container s { leaf c { type int8; } ! } } }", "t/h/s/s",
                 lambda d: {"m:t": {"s": d}}),
    "nested": ("container r { uses gt; }", "r/t", lambda d: {"m:r": {"t": d}}),
    "input": ("rpc t { input { leaf c { type int8; } ! } }", "t/input", None),
    "output": ("rpc t { input { leaf c { type int8; } } output { leaf c { type int8; } ! } }", "t/output", None),
    "notification": ("notification t { leaf c { type int8; } ! }", "t", None),
    "action": ("container r { action t { input { leaf c { type int8; } ! } } }", "r/t/input", None),
}


@task(cases=[{"added": a, "target": t, "mech": m} for a in ADDED for t in TARGETS for m in ("same", "sub", "other", "uses")
             if not (t == "choice" and a == "choice" or t in ("choice", "case") and a in ("mandatory",))
             and not (t == "choice" and a == "uses")
             and not (m == "uses" and t in ("nested",))], budget=40)
def augments(sx, added, target, mech):
    """nodes added by augment are like nodes of the target"""
    cond = sx.choice("when", [None, True, False])
    feat = sx.choice("feature", [None, "on", "off"])
    base, path, wrap = TARGETS[target]
    text, members = ADDED[added]
    if mech == "other" and added == "mandatory" and target != "presence" and cond is None:
        pass
    when = ""
    direct = text.replace("%s", "")
    if cond:
        when = 'when "c = 1";'
        # the context of when is the added data node, or the parent data node for choice, case and uses
        inner = 'when "c = 1";' if added in ("choice", "uses") else 'when "../c = 1";'
        direct = text.replace("%s", inner)
    iff = 'if-feature "f";' if feat else ""
    if feat == "off":
        direct = ""
    gt = "grouping gt { container t { leaf c { type int8; } ! } }"
    plain = text.replace("%s", "")
    pp = "m:" if mech == "other" else ""
    pfx = "d:" if mech == "other" else ""
    abs_path = "".join(f"/{pp}{s}" for s in path.split("/"))
    fs = ["f"] if feat == "on" else []
    m = {"name": "m", "features": fs}
    head = "feature f;" + GQ
    texts, mods = {}, [m]
    ref_body = base.replace("!", direct) if target != "nested" else (
        "container r { container t { leaf c { type int8; } " + direct + " } }")
    main = (gt.replace("!", "") if target == "nested" else "") + base.replace("!", "")
    aug = f"augment {abs_path} {{ {when} {iff} {plain} }}"
    if mech == "same":
        first = sx.choice("first", [False, True])
        texts["m"] = module("m", head + (aug + main if first else main + aug))
    elif mech == "sub":
        texts["m"] = module("m", head + main, imports="include ms;")
        texts["ms"] = "submodule ms { yang-version 1.1; belongs-to m { prefix m; } " + aug + " }"
        m["submodules"] = [("ms", "")]
    elif mech == "other":
        texts["m"] = module("m", head + main)
        texts["d"] = module("d", head + aug.replace('"c =', '"m:c ='), imports="import m { prefix m; }")
        mods = [{"name": "d", "features": fs}, m] if sx.choice("listed", [0, 1]) else [m, {"name": "d", "features": fs}]
    else:
        texts["m"] = module("m", head + f"grouping gg {{ {main} }} container a {{ uses gg {{ augment {path} {{ {when} {iff} {plain} }} }} }}"
                            + "container b { uses gg; }")
        ref_body = f"container a {{ {ref_body} }} container b {{ {main} }}"
        if target in ("input", "output", "notification"):
            if target != "notification":
                texts["m"] = texts["m"].replace("rpc t", "action t")
                ref_body = ref_body.replace("rpc t", "action t")
    one = sx.attempt(lambda: build1(texts, mods), YangsonException)
    two = sx.attempt(lambda: build1({"m": module("m", head + ref_body)}, [m | {"submodules": None}]), YangsonException)
    sx.check(two[0] == "ok", "reference model")
    sx.check(one[0] == "ok", "model")
    if one[0] != "ok" or two[0] != "ok":
        return
    a, b = one[1], two[1]
    if not cond:
        ta, tb = a.ascii_tree(), b.ascii_tree()
        if mech == "other":
            ta = ta.replace("d:", "")
        sx.check(ta == tb, "tree diagram")
        if mech != "other":
            sx.check(json.loads(a.schema_digest()) == json.loads(b.schema_digest()), "schema digest")
    if wrap is None:
        return
    if mech == "uses":
        w0 = wrap
        strip = lambda d: {k[2:]: v for k, v in d.items()}
        wraps = [lambda d: {"m:a": strip(w0(d))}, lambda d: {"m:b": strip(w0(d))}]
        if added == "mandatory":
            wraps.pop()              # conditional mandatory nodes in absent containers
    else:
        wraps = [wrap]
    cval = sx.choice("c", [None, 1, 2]) if cond else 1
    extra = {"choice": [{}, {"o": 1}], "case": [{}, {"o": 1}, {"p": 1}]}.get(target, [{}])
    for w, mi, ei in itertools.product(wraps, members, extra):
        c = {} if cval is None else {"c": cval}
        qual = {pfx + k: v for k, v in mi.items()}
        for ct in (ContentType.all, ContentType.config):
            ra = outcome(sx, a, w({**c, **ei, **qual}), ct)
            rb = outcome(sx, b, w({**c, **ei, **mi}), ct)
            sx.check(ra[0] == rb[0], "validation")
            ja = json.dumps(ra[1], sort_keys=True).replace('"d:', '"')
            sx.check(json.loads(ja) == rb[1], "defaults")


REMOVED = {
    "leaf": "leaf r { type int8; default 1; }", "mandatory": "leaf r { type int8; mandatory true; }",
    "leaf-list": "leaf-list r { type int8; min-elements 1; }", "list": "list r { key k; leaf k { type int8; } }",
    "container": "container r { leaf v { type int8; mandatory true; } }",
    "choice": "choice r { mandatory true; leaf v { type int8; } leaf r { type int8; } }",
    "case": "choice q { case r { leaf v { type int8; default 3; } } leaf w { type int8; } }",
    "anydata": "anydata r { mandatory true; }", "notification": "notification r { leaf v { type int8; } }",
    "action": "action r { input { leaf v { type int8; mandatory true; } } }",
}


@task(cases=[{"kind": k} for k in REMOVED])
def removed(sx, kind):
    """not-supported nodes are gone, in the deviated place only"""
    body = REMOVED[kind]
    where = sx.choice("where", ["container", "list", "augment", "grouping"])
    path = "/m:q/m:r" if kind == "case" else "/m:r"
    rest = "" if kind != "case" else "choice q { leaf w { type int8; } }"
    lo = {"container": "container %s {", "list": "container %s { list l { key i; leaf i { type int8; }",
          "augment": "container %s {", "grouping": "container %s { "}[where]
    mid = "/m:l" if where == "list" else ""
    end = "}}" if where == "list" else "}"
    end = " }" * (2 if where == "list" else 1)
    x = "leaf x { type int8; }"
    dev = f"deviation /m:u1{mid}{path} {{ deviate not-supported; }}"
    if where == "augment":
        main = f"container u1 {{ {x} }} container u2 {{ {x} }} augment /m:u1 {{ {body} }} augment /m:u2 {{ {body} }}"
    elif where == "grouping":
        main = f"grouping g {{ {x} {body} }} container u1 {{ uses g; }} container u2 {{ uses g; }}"
    else:
        main = lo % "u1" + x + body + end + lo % "u2" + x + body + end
    ref = lo % "u1" + x + rest + end + lo % "u2" + x + body + end
    self_dev = sx.choice("own module", [False, True])
    if self_dev:
        one = ({"m": module("m", main + dev)},)
    else:
        one = ({"m": module("m", main), "d": module("d", dev, imports="import m { prefix m; }")},)
    v = sx.choice("value", [None, {"r": 1}, {"r": [1]}, {"r": {"v": 1}}, {"v": 1}, {"w": 1}, {"r": [{"k": 1}]}])
    docs = []
    for u in ("m:u1", "m:u2"):
        for d in ({}, {"x": 1}):
            d = {**d, **(v or {})}
            docs.append({u: {"l": [{"i": 1, **d}]} if where == "list" else d})
    same(sx, one, ({"m": module("m", ref)},), docs)


@task()
def implicit(sx):
    """deviation of the only node of an implicit case"""
    mand = sx.choice("mandatory", [False, True])
    dflt = sx.choice("default", [None, "b"])
    if mand:
        dflt = None
    top = ("mandatory true;" if mand else "") + (f"default {dflt};" if dflt else "")
    which = sx.choice("target", ["/m:t/m:h/m:a", "/m:t/m:h/m:a/m:a"])
    body = "container t { choice h { %s %s leaf b { type int8; default 2; } container k { leaf z { type int8; } } } }"
    one = {"m": module("m", body % (top, "leaf a { type int8; default 1; }") + f"deviation {which} {{ deviate not-supported; }}")}
    two = {"m": module("m", body % (top, ""))}
    a, b = build(one), build(two)
    d = sx.choice("doc", [{}, {"a": 1}, {"b": 1}, {"k": {}}, {"b": 1, "k": {}}])
    compare(sx, a, b, [{"m:t": d}, {}], shape=which.endswith("h/m:a"))


@task(cases=[{"n": 2}], thorough_cases=[{"n": 2}, {"n": 3}])
def sequences(sx, n):
    """several deviations of one leaf, in one or more modules"""
    kind = "leaf"
    cur = {"type": "int8", "default": sx.choice("base default", [None, "1"]), "units": None,
           "must": sx.choice("base must", [(), (M2, M1)])}
    base = dict(cur)
    texts, mods = {}, [{"name": "m"}]
    devs = []
    for i in range(n):
        op = sx.choice(f"op{i}", ["type", "default", "units", "must+", "must-", "default-"])
        if op == "type":
            cur["type"] = "uint8"
            devs.append("deviate replace { type uint8; }")
        elif op == "must+":
            cur["must"] += (M3,)
            devs.append(f'deviate add {{ must "{M3}"; }}')
        elif op == "must-":
            sx.assume(M2 in cur["must"])
            cur["must"] = tuple(x for x in cur["must"] if x != M2)
            devs.append(f'deviate delete {{ must "{M2}"; }}')
        elif op == "default-":
            sx.assume(cur["default"] is not None)
            devs.append(f'deviate delete {{ default {cur["default"]}; }}')
            cur["default"] = None
        else:
            v = str(i + 3)
            devs.append(f"deviate {'add' if cur[op] is None else 'replace'} {{ {op} {v}; }}")
            cur[op] = v
    split = sx.choice("split", ["one", "statements"])
    body = (f"deviation /m:u1/m:n {{ {' '.join(devs)} }}" if split == "one" else
            " ".join(f"deviation /m:u1/m:n {{ {d} }}" for d in devs))
    g = f"grouping g {{ leaf x {{ type int8; }} {node(kind, base)} }} container u1 {{ uses g; }} container u2 {{ uses g; }}"
    ref = f"container u1 {{ leaf x {{ type int8; }} {node(kind, cur)} }} container u2 {{ leaf x {{ type int8; }} {node(kind, base)} }}"
    v = sx.int("v", -200, 300)
    docs = [{u: {"x": 1, "n": v}} for u in ("m:u1", "m:u2")] + [{"m:u1": {"n": -1}, "m:u2": {"n": -1}}]
    same(sx, ({"m": module("m", g), "d": module("d", body, imports="import m { prefix m; }")},), ({"m": module("m", ref)},), docs)


STATUS_PLACES = {
    "grouping": ("grouping g {{ status {s}; leaf a {{ type int8; }} }}", "container c {{ leaf b {{ type int8; }} uses g; leaf d {{ type int8; }} }}"),
    "nested": ("grouping h {{ status {s}; leaf a {{ type int8; }} }} grouping g {{ uses h; leaf e {{ type int8; }} }}",
               "container c {{ leaf b {{ type int8; }} uses g; leaf d {{ type int8; }} }}"),
    "local": ("", "container c {{ grouping g {{ status {s}; leaf a {{ type int8; }} }} leaf b {{ type int8; }} uses g; leaf d {{ type int8; }} }}"),
    "augment": ("", "container c {{ leaf b {{ type int8; }} leaf d {{ type int8; }} }} augment /c {{ status {s}; leaf a {{ type int8; }} }}"),
    "inner augment": ("grouping g {{ container c {{ leaf b {{ type int8; }} leaf d {{ type int8; }} }} }}",
                      "uses g {{ augment c {{ status {s}; leaf a {{ type int8; }} }} }}"),
    "uses": ("grouping g {{ leaf a {{ type int8; }} }}", "container c {{ leaf b {{ type int8; }} uses g {{ status {s}; }} leaf d {{ type int8; }} }}"),
    "choice": ("grouping g {{ status {s}; leaf a {{ type int8; }} }}",
               "container c {{ leaf b {{ type int8; }} choice x {{ case y {{ uses g; }} leaf d {{ type int8; }} }} }}"),
    "leaf": ("", "container c {{ leaf b {{ type int8; }} leaf a {{ status {s}; type int8; }} leaf d {{ type int8; }} }}"),
}


@task(cases=[{"place": p} for p in STATUS_PLACES])
def status(sx, place):
    """the status of a definition concerns nothing around it"""
    s = sx.choice("status", ["current", "deprecated", "obsolete"])
    before, body = (x.format(s=s) for x in STATUS_PLACES[place])
    dm = build1({"m": module("m", before + body)})
    v = sx.int("v", -200, 200)
    for name in ("/m:c", "/m:c/b", "/m:c/d"):
        sx.check(dm.get_data_node(name).status.name == "current", "status of the surroundings")
    sx.check(dm.schema.status.name == "current", "status of the module")
    doc = {"m:c": {"b": v}}
    if sx.bool("d"):
        doc["m:c"]["d"] = v
    with_a = sx.bool("a")
    if with_a:
        doc["m:c"]["a"] = 1
    ok = sx.And(v >= -128, v <= 127)
    valid = outcome(sx, dm, doc, ContentType.all)
    sx.observe("outcome", valid)
    if with_a and (s == "obsolete" or place == "choice"):
        return
    sx.check(sx.Iff(valid[0] == "ok", ok), "validity of the surroundings")
