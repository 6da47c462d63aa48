"""Modules, imports, revisions and prefixes."""
import itertools
from symex.api import task
from .common import *

BOUNDS = ("import graphs over three modules in every listing order with any of them imported only, a submodule of one of them; "
          "prefixes: any injective choice of four prefixes for the three modules in the module where a name is written "
          "(module, its submodule, another module using its grouping or typedef), arbitrary texts of up to 3 characters as prefixes, "
          "in type, uses, base, if-feature, augment, deviation, must, when, leafref path, identityref default, annotation "
          "and extension statements; up to three registered revisions; import cycles through modules that "
          "are imported only need not be reported")


def load(texts, mods):
    return build(texts, mods)


def has(dm, path):
    return dm.get_schema_node(path) is not None


@task(cases=[{"impl": i} for i in ("aaa", "aai", "aia", "iaa", "aii")], budget=200)
def graphs(sx, impl):
    """import graphs: cycles, order of modules"""
    names = "abc"
    edges = {(x, y) for x in names for y in names if x != y and sx.choice(f"{x}{y}", [False, True])}
    kinds = dict(zip(names, impl))
    order = sx.choice("order", list(itertools.permutations(names)))
    texts = {}
    for x in names:
        imps = "".join(f"import {y} {{ prefix {y}; }}" for y in names if (x, y) in edges)
        body = f"typedef t {{ type enumeration {{ enum {x}; }} }} container top {{ leaf own {{ type t; }} }}"
        for y in names:
            if (x, y) in edges:
                # the imported module's node, its type, and what the imported module adds to a third one
                body += f"augment /{y}:top {{ leaf by{x} {{ type {y}:t; }} container sub{x}; }}"
                for z in names:
                    if (x, z) in edges and (y, z) in edges:
                        body += f"augment /{z}:top/{y}:sub{y} {{ leaf deep{x} {{ type {z}:t; }} }}"
        texts[x] = module(x, body, imports=imps)
    mods = [{"name": x, "conformance": "implement" if kinds[x] == "a" else "import"} for x in order]
    r = sx.attempt(lambda: load(texts, mods), YangsonException)

    def reach(x, es, seen=()):
        return {y for (u, y) in es if u == x and y not in seen} | {
            w for (u, y) in es if u == x and y not in seen for w in reach(y, es, seen + (y,))}
    full = any(x in reach(x, edges) for x in names)
    ie = {(x, y) for x, y in edges if kinds[x] == kinds[y] == "a"}
    cyc = any(x in reach(x, ie) for x in names)
    sx.observe("r", r[0])
    if cyc:
        sx.check(r[0] == "exc" and isinstance(r[1], CyclicImports), "cycle reported")
        return
    if full:
        sx.check(r[0] == "ok" or isinstance(r[1], CyclicImports), "cycle through an imported module")
        return
    sx.check(r[0] == "ok", "loaded")
    if r[0] != "ok":
        return
    dm = r[1]
    for x in names:
        sx.check(has(dm, f"/{x}:top/own") == (kinds[x] == "a"), "nodes of implemented modules")
    for (x, y) in edges:
        both = kinds[x] == kinds[y] == "a"
        sx.check(has(dm, f"/{y}:top/{x}:by{x}") == both, "augments of implemented modules")
        if both:
            ty = dm.get_schema_node(f"/{y}:top/{x}:by{x}").type
            sx.check(ty.from_raw(y) == y and y in ty and "zz" not in ty, "type of the imported module")
        for z in names:
            if (x, z) in edges and (y, z) in edges:
                allimp = both and kinds[z] == "a"
                sx.check((has(dm, f"/{z}:top/{y}:sub{y}/{x}:deep{x}") if allimp else True), "augment of an augment")
    sx.check(set(dm.schema_data.implement) == {x for x in names if kinds[x] == "a"}, "implemented modules")


@task(cases=[{"n": 3}, {"n": 4}])
def chains(sx, n):
    """augments of nodes added by augments, wherever they are written"""
    levels = list(range(n))
    place = {i: sx.choice(f"place{i}", ["main", "sub1", "sub2"]) for i in levels}
    perm = sx.choice("perm", list(itertools.permutations(levels)))
    dressed = sx.choice("grouping", [False, True])
    texts = {"main": "", "sub1": "", "sub2": ""}
    for i in perm:
        path = "/m:top" + "".join(f"/m:c{j}" for j in range(i))
        body = f"container c{i};"
        if dressed:
            texts[place[i]] += f"grouping g{i} {{ {body} }}"
            body = f"uses g{i};"
        texts[place[i]] += f"augment {path} {{ {body} }}"
    inc = "include sub1; include sub2;"
    sub = lambda nm: f"submodule {nm} {{ yang-version 1.1; belongs-to m {{ prefix m; }} {texts[nm]} }}"
    dm = load({"m": module("m", "container top;" + texts["main"], imports=inc), "sub1": sub("sub1"), "sub2": sub("sub2")},
              [{"name": "m", "submodules": [("sub1", ""), ("sub2", "")]}])
    sx.check(has(dm, "/m:top" + "".join(f"/c{j}" for j in levels)), "deepest node")


@task(cases=[{"n": 3}])
def used(sx, n):
    """augments of uses in every order"""
    perm = sx.choice("perm", list(itertools.permutations(range(n))))
    when = sx.choice("when", [None] + list(range(n)))
    body = ""
    for i in perm:
        path = "/".join(["top"] + [f"c{j}" for j in range(i)])
        body += f"augment {path} {{ {'when true();' if when == i else ''} container c{i}; }}".replace("when true();", 'when "true()";')
    dm = load({"m": module("m", f"grouping g {{ container top; }} container r {{ uses g {{ {body} }} }}")}, None)
    node = dm.get_data_node("/m:r/top" + "".join(f"/c{j}" for j in range(n)))
    sx.check(node is not None, "deepest node")


# --- prefixes -------------------------------------------------------------

PFX = ["m", "x", "y", "p"]


def provider(name, imports="", prefix=None, more=""):
    """a module whose definitions tell where they come from"""
    return module(name, f"""
  feature f;
  feature f{name};
  typedef t {{ type enumeration {{ enum {name}; }} }}
  grouping g {{ leaf g{name} {{ type string; }} }}
  identity i;
  identity i{name} {{ base i; }}
  container top {{ leaf v {{ type string; }} list l {{ key k; leaf k {{ type string; }} leaf w {{ type string; }} }} }}
  {more}
""", prefix=prefix, imports=imports)


def bound(assign, p):
    """module the prefix is bound to"""
    for mod, q in assign.items():
        if q == p:
            return mod
    return None


# construct: (statement with @ for the prefix and colon)
CON = {
    "type": "leaf n { type @t; }",
    "union": "leaf n { type union { type uint8; type @t; } }",
    "uses": "container n { uses @g; }",
    "base": "identity d { base @i; } leaf n { type identityref { base d; } }",
    "idref": "leaf n { type identityref { base @i; } }",
    "feature": 'leaf n { if-feature "@f"; type string; }',
    "notfeature": 'leaf n { if-feature "not (@f)"; type string; }',
    "leafref": "leaf n { type leafref { path '/@top/@v'; } }",
    "must": "leaf n { type string; must '/@top/@v = current()'; }",
    "when": "container n { when '/@top/@v = \"1\"'; presence p; }",
    "pred": "leaf n { type string; must '/@top/@l[@k = current()]'; }",
    "default": "leaf n { type identityref { base I; } default '@i!'; }",
    "augment": "augment '/@top' { leaf n { type string; } }",
    "deviation": "deviation '/@top/@v' { deviate not-supported; }",
}
INMODULE = ("augment", "deviation", "base")


@task(cases=[{"con": c, "where": w} for c in CON for w in ("main", "sub", "grouping", "typedef")
             if not (w in ("grouping", "typedef") and c in INMODULE)
             and not (w == "typedef" and c in ("uses", "feature", "notfeature", "must", "when", "pred"))], budget=60)
def prefixes(sx, con, where):
    """a prefixed name is looked up where it is written"""
    # the module z holds the name, w uses what z defines; both import x and y under arbitrary prefixes
    def assignment(tag, self):
        a = sx.choice(tag, list(itertools.permutations(PFX, 3)))
        return dict(zip((self, "x", "y"), a))
    az = assignment("pz", "z")
    aw = sx.choice("pw", [{"w": "x", "x": "y", "y": "m", "z": "p"}, {"w": "m", "x": "x", "y": "y", "z": "p"}])
    use = sx.choice("use", PFX + ["zz", ""])
    home = az
    asub = {"z": "s", "x": "y", "y": "x"} if where == "sub" and sx.choice("psub", [0, 1]) else {"z": "x", "x": "y", "y": "q"}
    if where == "sub":
        home = asub
    target = "z" if use == "" else bound(home, use)
    if use == "" and con in ("leafref", "must", "when", "pred") and where in ("grouping", "typedef"):
        target = "w"                      # names without prefix belong to the namespace of the current node
    if use == "" and con == "augment":
        target = "z"
    feat = con in ("feature", "notfeature")
    f_target, f_others = [not feat or sx.choice("f " + k, [False, True]) for k in ("target", "others")]
    has_f = {q: f_target if q == target else f_others for q in "xyz"}
    at = use + ":" if use else ""
    stmt = CON[con].replace("@", at).replace("!", target or "")
    imps = lambda a: "".join(f"import {q} {{ prefix {a[q]}; }}" for q in a if q in "xyz" and not (q == "z" and a is not aw))
    rest = ""
    imp_s = ""
    more, wbody = stmt, ""
    if con == "default":
        tg = target or "z"
        pre = home[tg] + ":"
        more = stmt = stmt.replace("base I;", f"base {pre}i;")
    owner = "z"
    if where == "grouping":
        more = f"grouping gg {{ {stmt} }}"
        wbody = "uses %s:gg;" % aw["z"]
        owner = "w"
    elif where == "typedef":
        inner = stmt[len("leaf n { "):-1]
        more = f"typedef tt {{ {inner} }}"
        wbody = "leaf n { type %s:tt; }" % aw["z"]
        owner = "w"
    texts = {"x": provider("x"), "y": provider("y"),
             "w": provider("w", prefix=aw["w"], imports=imps(aw), more=wbody)}
    mods = [{"name": n, "features": (["f"] if has_f.get(n, True) else [])} for n in "xywz"]
    if where == "sub":
        texts["z"] = provider("z", prefix=az["z"], imports=imps({k: v for k, v in az.items() if k != "z"}) + "include zs;")
        texts["zs"] = ("submodule zs { yang-version 1.1; belongs-to z { prefix %s; } %s %s }"
                       % (asub["z"], imps({k: v for k, v in asub.items() if k != "z"}), stmt))
        mods[3]["submodules"] = [("zs", "")]
    else:
        texts["z"] = provider("z", prefix=az["z"], imports=imps({k: v for k, v in az.items() if k != "z"}), more=more)
    if con not in ("feature", "notfeature") and sx.choice("rev", [False, True]):
        mods.reverse()
    r = sx.attempt(lambda: load(texts, mods), YangsonException)
    sx.observe("loaded", r[0])
    if target is None:
        sx.check(r[0] == "exc" and isinstance(r[1], (UnknownPrefix, InvalidArgument) if con == "default" else UnknownPrefix),
                 "unknown prefix")
        return
    sx.check(r[0] == "ok", "loaded")
    if r[0] != "ok":
        return
    dm = r[1]
    n = f"/{owner}:n"
    val = lambda data: not sx.raises(lambda: dm.from_raw(data).validate(), ValidationError)
    mods4 = "xyzw"

    def tops(q, inner):
        return {f"{q}:top": inner}
    if con in ("type", "union"):
        ty = dm.get_data_node(n).type
        for q in mods4:
            sx.check((q in ty) == (q == target), "definition of the module")
    elif con == "uses":
        for q in mods4:
            sx.check(has(dm, f"{n}/g{q}") == (q == target), "definition of the module")
    elif con in ("base", "idref"):
        ty = dm.get_data_node(n).type
        if con == "base":
            sx.check(dm.schema_data.is_derived_from(("d", "z"), ("i", target)), "base of the identity")
        for q in mods4:
            if con == "idref":
                sx.check((("i" + q, q) in ty) == (q == target), "identities derived from the base")
            else:
                sx.check(dm.schema_data.is_derived_from(("d", "z"), ("i", q)) == (q == target), "base of the identity")
    elif con in ("feature", "notfeature"):
        sx.check(has(dm, n) == (has_f[target] == (con == "feature")), "feature of the module")
    elif con == "leafref":
        ref = dm.get_data_node(n).type
        for q in mods4:
            d = {f"{owner}:n": "1"}
            d.update(tops(q, {"v": "1"}))
            sx.check(val(d) == (q == target), "referenced leaf")
    elif con == "must":
        for q in mods4:
            d = {f"{owner}:n": "1"}
            d.update(tops(q, {"v": "1"}))
            sx.check(val(d) == (q == target), "must expression")
    elif con == "pred":
        for q in mods4:
            d = {f"{owner}:n": "1"}
            d.update(tops(q, {"l": [{"k": "1"}]}))
            sx.check(val(d) == (q == target), "must expression")
    elif con == "when":
        for q in mods4:
            d = {f"{owner}:n": {}}
            d.update(tops(q, {"v": "1"}))
            sx.check(val(d) == (q == target), "when expression")
    elif con == "default":
        inst = dm.from_raw({}).add_defaults()
        sx.check(inst.value[f"{owner}:n"] == ("i" + target, target), "default value")
    elif con == "augment":
        for q in mods4:
            sx.check(has(dm, f"/{q}:top/{'z:' if q != 'z' else ''}n") == (q == target), "augmented node")
    elif con == "deviation":
        for q in mods4:
            sx.check(has(dm, f"/{q}:top/v") == (q != target), "deviated node")


@task(cases=[{"con": c} for c in ("type", "uses", "must", "feature", "ext", "ann")], budget=120)
def texts(sx, con):
    """arbitrary prefixes"""
    alpha = "ab-."
    own = sx.str("own", 1, 1, alpha)
    p1 = sx.str("p1", 1, sx.n(2, 3), alpha)
    p2 = sx.str("p2", 1, 2, alpha)
    u = sx.str("use", 1, sx.n(2, 3), alpha)
    for s in (own, p1, p2, u):
        sx.assume(sx.char_in(s[0], "ab"))
    sx.assume(own != p1)
    sx.assume(own != p2)
    sx.assume(p1 != p2)
    stmt = {"type": "leaf n { type @:t; }", "uses": "container n { uses @:g; }",
            "must": "leaf n { type string; must '/@:top/@:v = current()'; }",
            "feature": 'leaf n { if-feature "@:f"; type string; }',
            "ext": "container n { @:foo bar; }",
            "ann": "@:annotation an { type string; }"}[con]
    head, *parts = stmt.split("@")
    body = head
    for s in parts:
        body = body + u + s
    imps = "import x { prefix " + p1 + "; } import "
    other = "ietf-yang-metadata" if con == "ann" else "y"
    imps = imps + other + " { prefix " + p2 + "; }"
    text = ('module z { yang-version 1.1; namespace "http://x/z"; prefix ' + own + "; " + imps
            + " feature f; typedef t { type enumeration { enum z; } } grouping g { leaf gz { type string; } } "
            + "container top { leaf v { type string; } } " + body + " }")
    ys = module(other, "extension annotation { argument name; }") if con == "ann" else provider(other)
    mods = [{"name": "z"}, {"name": "x", "features": ["f"]}, {"name": other}]
    r = sx.attempt(lambda: sbuild(sx, {"z": text, "x": provider("x"), other: ys}, mods), YangsonException)
    for q, p in (("z", own), ("x", p1), (other, p2)):
        if u == p:
            target = q
            break
    else:
        sx.check(r[0] == "exc" and isinstance(r[1], UnknownPrefix), "unknown prefix")
        return
    sx.check(r[0] == "ok", "loaded")
    if r[0] != "ok":
        return
    dm = r[1]
    if con == "type":
        sx.check(dm.get_data_node("/z:n").type.from_raw(target) in dm.get_data_node("/z:n").type, "type")
    elif con == "uses":
        sx.check(has(dm, f"/z:n/g{target}"), "grouping")
    elif con == "must":
        d = {"z:n": "1", f"{target}:top": {"v": "1"}}
        sx.check(not sx.raises(lambda: dm.from_raw(d).validate(), ValidationError), "must")
    elif con == "feature":
        sx.check(has(dm, "/z:n") == (target == "x"), "feature")
    elif con == "ann":
        ok = sx.attempt(lambda: dm.from_raw({"@": {"z:an": "1"}}).validate(), YangsonException)
        sx.check((("an", "z") in dm.schema.annotations) == (target == other), "annotation")
    else:
        sx.check(has(dm, "/z:n"), "extension ignored")


# --- revisions ------------------------------------------------------------

REVS = ["2019-12-31", "2020-01-01", "2021-05-05"]


@task(cases=[{"kind": k} for k in ("one", "two")], budget=120)
def revisions(sx, kind):
    """imported revision"""
    reg = [r for r in REVS if sx.choice("reg " + r, [False, True])]
    files = [r for r in REVS if kind == "two" or sx.choice("file " + r, [True, False])]
    order = sx.choice("order", [0, 1, 2])
    reg = reg[order:] + reg[:order] if order < 2 else reg[::-1]
    impl = sx.choice("implemented", [None] + REVS + ["twice"])
    want = {}
    imps = ""
    body = ""
    for i in range(1 if kind == "one" else 2):
        want[i] = sx.choice(f"import{i}", [None] + REVS)
        rd = f" revision-date {want[i]};" if want[i] else ""
        imps += f"import r {{ prefix r{i};{rd} }}"
        body += f"leaf n{i} {{ type r{i}:t; }}"
    sub = sx.choice("in submodule", [False, True])
    texts = {}
    for r in files:
        texts[f"r@{r}"] = module("r", f"typedef t {{ type enumeration {{ enum e{r}; }} }} leaf v{r} {{ type string; }}",
                                 imports=f'revision {r};')
    inc = "include ms;" if sub else imps
    texts["m"] = module("m", "" if sub else body, imports=inc)
    mod = {"name": "m"}
    if sub:
        texts["ms"] = f"submodule ms {{ yang-version 1.1; belongs-to m {{ prefix m; }} {imps} {body} }}"
        mod["submodules"] = [("ms", "")]
    mods = [{"name": "r", "revision": r, "conformance": "implement" if impl == r or impl == "twice" else "import"} for r in reg]
    mods.insert(sx.choice("pos", [0, 1]) if kind == "one" else 0, mod)
    r = sx.attempt(lambda: load(texts, mods), YangsonException)
    sx.observe("r", r[0])
    if any(x not in files for x in reg):
        ok = (ModuleNotFound, MultipleImplementedRevisions) if impl == "twice" and len(reg) > 1 else ModuleNotFound
        sx.check(r[0] == "exc" and isinstance(r[1], ok), "missing module file")
        return
    if impl == "twice" and len(reg) > 1:
        sx.check(r[0] == "exc" and isinstance(r[1], MultipleImplementedRevisions), "two implemented revisions")
        return
    if not reg or any(w and w not in reg for w in want.values()):
        sx.check(r[0] == "exc" and isinstance(r[1], ModuleNotRegistered), "import not registered")
        return
    sx.check(r[0] == "ok", "loaded")
    if r[0] != "ok":
        return
    dm = r[1]
    for i, w in want.items():
        w = w or max(reg)
        ty = dm.get_data_node(f"/m:n{i}").type
        for x in REVS:
            sx.check(("e" + x in ty) == (x == w), "type of the imported revision")
    for x in REVS:
        sx.check(has(dm, f"/r:v{x}") == (x in reg and (impl == x or impl == "twice")), "nodes of the implemented revision")
    sx.check(dm.schema_data.last_revision("r") == ("r", max(reg)), "last revision")


@task()
def files(sx):
    """choice of the file for a registered module"""
    rev = sx.choice("revision", ["", "2020-01-01", "2021-05-05"])
    content = {}
    for d in (0, 1):
        for fn in ("q", "q@2020-01-01", "q@2021-05-05"):
            c = sx.choice(f"{d}{fn}", [None, "2021-05-05", "2020-01-01" if fn == "q" else "", "other"][:4 if d == 0 else 2])
            if c is not None:
                content[d, fn] = c
    dirs = [tmpdir(), tmpdir()]
    try:
        for (d, fn), c in content.items():
            nm = "other" if c == "other" else "q"
            rv = rev if c == "other" else c
            with open(f"{dirs[d]}/{fn}.yang", "w") as f:
                f.write(module(nm, f"leaf {'d%d' % d}-{fn.replace('@', '_')} {{ type string; }}",
                               imports=f"revision {rv};" if rv else ""))
        r = sx.attempt(lambda: DataModel(ylib([{"name": "q", "revision": rev}]), dirs), YangsonException)
    finally:
        for d, dn in enumerate(dirs):
            for (e, fn) in content:
                if e == d:
                    os.remove(f"{dn}/{fn}.yang")
            os.rmdir(dn)
    want = None
    for d in (0, 1):
        for fn in ([f"q@{rev}"] if rev else []) + ["q"]:
            if want is None and content.get((d, fn)) == rev:
                want = f"d{d}-{fn.replace('@', '_')}"
    if want is None:
        sx.check(r[0] == "exc" and isinstance(r[1], ModuleNotFound), "no suitable file")
    else:
        sx.check(r[0] == "ok" and has(r[1], "/q:" + want), "file used")


@task(cases=[{"drop": d} for d in (None, "top", "module", "name", "revision", "conformance-type", "submodule name",
                                   "submodule revision")])
def library(sx, drop):
    """library data with missing parts"""
    sub = {"name": "ms", "revision": ""}
    other = {"name": "x", "revision": "", "namespace": "http://x/x", "conformance-type": "implement"}
    m = {"name": "m", "revision": "", "namespace": "http://x/m", "conformance-type": sx.choice("ct", ["implement", "import"]),
         "submodule": [sub]}
    if drop and drop.startswith("submodule"):
        del sub[drop.split()[1]]
    elif drop in m:
        del m[drop]
    mods = [m, other] if sx.choice("first", [False, True]) else [other, m]
    doc = {"ietf-yang-library:modules-state": {"module-set-id": "i", "module": mods}}
    if drop == "top":
        doc = {"other": 1}
    if drop == "module":
        del doc["ietf-yang-library:modules-state"]["module"]
    d = sx.module_dir({"m": module("m", "", imports="include ms;"), "x": module("x", ""),
                       "ms": "submodule ms { belongs-to m { prefix m; } }"})
    r = sx.attempt(lambda: DataModel(json.dumps(doc), (d,)), YangsonException)
    if drop is None:
        sx.check(r[0] == "ok", "loaded")
    else:
        sx.check(r[0] == "exc" and isinstance(r[1], BadYangLibraryData), "bad library")
    t = sx.choice("text", ["", "{", "nul", "{\"a\":1,}", "[1 2]"])
    r = sx.attempt(lambda: DataModel(t, (d,)), YangsonException)
    sx.check(r[0] == "exc" and isinstance(r[1], BadYangLibraryData), "not JSON")


@task()
def definitions(sx):
    """definitions of a module and its submodules, missing ones"""
    place = sx.choice("place", ["main", "s1", "s2", "none"])
    user = sx.choice("user", ["main", "s1", "s2", "other"])
    kind = sx.choice("kind", ["type", "uses"])
    local = sx.choice("local", [None, "outer", "inner", "sibling"])
    prefixed = sx.choice("prefixed", [False, True])
    if user == "other":
        prefixed = True
    defn = {"type": "typedef d { type enumeration { enum %s; } }", "uses": "grouping d { leaf %s { type string; } }"}[kind]
    pre = {"main": "m", "s1": "sp", "s2": "m", "other": "om"}[user] + ":" if prefixed else ""
    use = {"type": f"leaf n {{ type {pre}d; }}", "uses": f"container n {{ uses {pre}d; }}"}[kind]
    if user == "other" and local:
        # a local definition of another module, not what the prefix says
        pass
    if local == "outer":
        use = f"container o {{ {defn % 'loc'} container i {{ {use} }} }}"
    elif local == "inner":
        use = f"container o {{ container i {{ {use} {defn % 'loc'} }} }}"
    else:
        use = f"container o {{ container i {{ {use} }} }}"
        if local == "sibling":
            use += f"container sib {{ {defn % 'loc'} }}"
    t = {"main": "", "s1": "", "s2": "", "other": ""}
    if place != "none":
        t[place] += defn % "glob"
    t[user] += use
    if place != "none" and local in ("outer", "inner") and user != "other":
        sx.reached("shadowing")
        return            # RFC 7950: definitions must not shadow those of the module
    texts = {"m": module("m", t["main"], imports="include s1; include s2;"),
             "s1": f"submodule s1 {{ yang-version 1.1; belongs-to m {{ prefix sp; }} include s2; {t['s1']} }}",
             "s2": f"submodule s2 {{ yang-version 1.1; belongs-to m {{ prefix m; }} include s1; {t['s2']} }}",
             "o": module("o", t["other"], imports="import m { prefix om; }")}
    r = sx.attempt(lambda: load(texts, [{"name": "o"}, {"name": "m", "submodules": [("s1", ""), ("s2", "")]}]),
                   YangsonException)
    loc = local in ("outer", "inner") and user != "other"
    if loc:
        want = "loc"
    elif place != "none":
        want = "glob"
    else:
        sx.check(r[0] == "exc" and isinstance(r[1], DefinitionNotFound), "no definition")
        return
    sx.check(r[0] == "ok", "loaded")
    if r[0] == "ok":
        base = f"/{'o' if user == 'other' else 'm'}:o/i/n"
        if kind == "type":
            ty = r[1].get_data_node(base).type
            sx.check(want in ty and not ({"loc": "glob", "glob": "loc"}[want] in ty), "definition used")
        else:
            sx.check(has(r[1], f"{base}/{want}"), "definition used")
