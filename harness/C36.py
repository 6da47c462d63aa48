"""Schema digest and tree diagram against an independent rendering of the schema."""
import re
from symex.api import task
from .common import *
from .alike import lib

BOUNDS = ("schemas of one node of every kind under five kinds of parents with all combinations of its properties, schemas of "
          "three subtrees of up to four levels in any order from two modules, with augments, conditions, features, "
          "operations and notifications; about thirty types with arbitrary values: integers in [-2**65, 2**65], decimals "
          "with up to 3 fraction digits, texts of up to 4 characters")

# -- independent rendering ------------------------------------------------------

DATA = ("leaf", "leaf-list", "container", "list", "anydata", "anyxml")


def nd(kind, name, ch=(), ns="m", **p):
    return dict(p, kind=kind, name=name, ch=list(ch), ns=ns)


def yang(n):
    k = n["kind"]
    if k in ("input", "output"):
        return f"{k} {{ {' '.join(yang(c) for c in n['ch'])} }}" if n["ch"] else ""
    s = f"{k} {n['name']} {{ "
    if k == "list" and n.get("keys"):
        s += f'key "{n["keys"]}"; '
    if k in ("leaf", "leaf-list"):
        s += n.get("type", "type int8;") + " "
    for st in ("config", "mandatory", "status", "description", "units", "default", "presence", "ordered-by", "min-elements"):
        v = n.get(st)
        if v is not None:
            for x in v if isinstance(v, list) else [v]:
                s += f'{st} "{x}"; '
    return s + " ".join(yang(c) for c in n["ch"] if c["ns"] == n["ns"]) + " }"


def implied(n):
    """rpcs and actions have both parts"""
    if n["kind"] in ("rpc", "action"):
        for part in ("input", "output"):
            if not [c for c in n["ch"] if c["name"] == part]:
                n["ch"].append(nd(part, part, ns=n["ns"]))
    if n["kind"] == "choice":
        n["ch"] = [c if c["kind"] == "case" else nd("case", c["name"], [c], ns=c["ns"]) for c in n["ch"]]
    for c in n["ch"]:
        implied(c)
    return n


def tree(nodes, indent="", pns=None, cfg=True, status="current", types=True, keys="", flag=None):
    out = ""
    nodes = sorted(nodes, key=lambda n: (n["name"], n["ns"]))
    for i, n in enumerate(nodes):
        k = n["kind"]
        c = cfg and n.get("config") != "false" and k not in ("rpc", "action", "notification")
        st = n.get("status") or status
        line = indent + (n.get("flag") or flag or {"current": "+", "deprecated": "x"}[st]) + "--"
        name = n["name"] if n["ns"] == pns else n["ns"] + ":" + n["name"]
        if k in ("rpc", "action"):
            line += "-x " + name
        elif k == "notification":
            line += "-n " + name
        elif k == "case":
            line += ":(" + name + ")"
        else:
            line += ("rw " if c else "ro ")
            mand = n.get("mandatory") == "true" or n["name"] in keys.split()
            if k == "choice":
                line += "(" + name + ")" + ("" if mand else "?")
            elif k in ("leaf", "anydata", "anyxml"):
                line += name + ("" if mand else "?")
            elif k in ("leaf-list", "list"):
                line += name + ("#" if n.get("ordered-by") == "user" else "*")
            elif k == "container":
                line += name + ("!" if n.get("presence") is not None else "")
            else:
                line += name
            if k == "list" and n.get("keys"):
                line += " [" + n["keys"] + "]"
            if k in ("leaf", "leaf-list") and types:
                line += " <" + n.get("show", "int8") + ">"
        out += line + "\n" + tree(n["ch"], indent + ("|  " if i < len(nodes) - 1 else "   "), n["ns"], c, st, types,
                                  n.get("keys") or "" if k == "list" else "", n.get("flag") or flag)
    return out


def mandatory(n, keys=""):
    k = n["kind"]
    if n.get("gone"):
        return False
    if k in ("leaf", "anydata", "anyxml"):
        return n.get("mandatory") == "true" or n["name"] in keys.split()
    if k in ("list", "leaf-list"):
        return (n.get("min-elements") or "0") != "0"
    if k == "container":
        return n.get("presence") is None and any(
            mandatory(c) if c["kind"] != "choice" else c.get("mandatory") == "true" and not c.get("gone")
            for c in n["ch"] if c.get("status") != "deprecated" or c["kind"] == "choice")
    return False


def members(n):
    for c in n["ch"]:
        if c.get("gone"):
            continue
        if c["kind"] in ("choice", "case"):
            for x, g in members(c):
                yield x, (g and c.get("config") != "false")
        else:
            yield c, True


def digest(n, pns, cfg=True, keys=""):
    k = n["kind"]
    c = cfg and n.get("config") != "false" and k not in ("rpc", "action", "notification")
    d = {"kind": {"rpc": "rpcaction", "action": "rpcaction"}.get(k, k)}
    if mandatory(n, keys):
        d["mandatory"] = True
    if n.get("description"):
        d["description"] = n["description"]
    if k in ("leaf", "leaf-list"):
        d["type"] = n.get("tdig", {"base": "int8"})
        df = n.get("default")
        if df is not None:
            d["default"] = [int(x) for x in df] if k == "leaf-list" else int(df)
        if n.get("units"):
            d["units"] = n["units"]
    elif k == "container":
        d["presence"] = n.get("presence") is not None
    elif k == "list":
        d["keys"] = (n.get("keys") or "").split()
    if k not in ("leaf", "leaf-list", "anydata", "anyxml"):
        d["children"] = {}
        for m, g in members(n):
            x = digest(m, n["ns"], c and g, n.get("keys") or "" if k == "list" else "")
            if m["kind"] in DATA and c and not (g and m.get("config") != "false"):
                x["config"] = False
            qual = m["ns"] != n["ns"] or k == "notification" or m["kind"] in ("input", "output")
            d["children"][(m["ns"] + ":" if qual else "") + m["name"]] = x
    return d




def check(sx, dm, nodes, diagram=True):
    nodes = [implied(n) for n in nodes]
    got = json.loads(dm.schema_digest())
    want = {n["ns"] + ":" + n["name"]: digest(n, None) for n in nodes if n["kind"] != "choice" and not n.get("gone")}
    for n in nodes:
        if n.get("gone"):
            continue
        if n["kind"] == "choice":
            for m, g in members(n):
                g = g and n.get("config") != "false"
                x = want[m["ns"] + ":" + m["name"]] = digest(m, None, g)
                if not g or m.get("config") == "false":
                    x["config"] = False
        elif n["kind"] in DATA and n.get("config") == "false":
            want[n["ns"] + ":" + n["name"]]["config"] = False
    sx.check(sorted(got["children"]) == sorted(want), "members of the digest")
    for k in want:
        sx.check(got["children"][k] == want[k], "digest of a node")
    sx.check(sx.And(got["kind"] == "schematree", got["config"] is True), "root of the digest")
    if not diagram:
        return
    sx.check(dm.ascii_tree() == tree(nodes), "tree diagram")
    sx.check(dm.ascii_tree(no_types=True) == tree(nodes, types=False), "tree diagram without types")


# -- single nodes ----------------------------------------------------------------

PROPS = {
    "leaf": {"mandatory": [None, "true", "false"], "units": [None, "u"], "default": [None, "3"]},
    "leaf-list": {"units": [None, "u"], "default": [None, ["3"], ["1", "2"]], "ordered-by": [None, "user", "system"],
                  "min-elements": [None, "0", "1"]},
    "container": {"presence": [None, "x", ""]},
    "list": {"keys": ["k", "k k2", None], "ordered-by": [None, "user", "system"], "min-elements": [None, "0", "1"]},
    "anydata": {"mandatory": [None, "true", "false"]},
    "anyxml": {"mandatory": [None, "true", "false"]},
    "choice": {"mandatory": [None, "true", "false"]},
}
PARENTS = ("top", "container", "list", "choice", "case", "input", "notification")


@task(cases=[{"kind": k, "parent": p} for k in PROPS for p in PARENTS])
def nodes(sx, kind, parent):
    """one node with all its properties under each kind of parent"""
    pr = {p: sx.choice(p, v) for p, v in PROPS[kind].items()}
    outer = sx.choice("outer config", [None, "false"]) if parent in ("container", "list", "choice") else None
    if parent not in ("input", "notification"):
        pr["config"] = sx.choice("config", [None, "true", "false"])
        sx.assume(not (outer == "false" and pr["config"] == "true"))
    pr["status"] = sx.choice("status", [None, "current", "deprecated", "obsolete"])
    pr["description"] = sx.choice("description", [None, "Some text."])
    sx.assume(not (pr.get("default") is not None and (pr.get("mandatory") == "true" or pr.get("min-elements") == "1")))
    if kind == "list" and pr["keys"] is None:
        sx.assume(outer == "false" or pr.get("config") == "false" or parent in ("input", "notification"))
    ch = []
    if kind == "list":
        ch = [nd("leaf", "k"), nd("leaf", "k2"), nd("leaf", "z")]
    elif kind == "container":
        ch = [nd("leaf", "z")]
    elif kind == "choice":
        ch = [nd("leaf", "z"), nd("case", "y", [nd("leaf", "x"), nd("container", "w", [nd("leaf", "v")])])]
    n = nd(kind, "n", ch, **pr)
    if parent == "top":
        top = n
    elif parent == "container":
        top = nd("container", "p", [nd("leaf", "q"), n], config=outer)
    elif parent == "list":
        top = nd("list", "p", [nd("leaf", "q"), n], keys="q", config=outer)
    elif parent == "choice":
        top = nd("choice", "p", [nd("leaf", "q"), n], config=outer)
    elif parent == "case":
        top = nd("choice", "p", [nd("leaf", "q"), nd("case", "t", [n, nd("leaf", "s")])])
    elif parent == "input":
        top = nd("rpc", "p", [nd("input", "input", [nd("leaf", "q"), n])])
    else:
        top = nd("notification", "p", [nd("leaf", "q"), n])
    mods = {"m": module("m", yang(top))}
    if pr["status"] == "obsolete":
        keep = sx.bool("keep")
        n["flag"], n["gone"] = "O" if keep else "o", not keep
        dm = lib(mods, {"m": keep})
    else:
        dm = build(mods)
    check(sx, dm, [top], not (kind == "list" and n.get("gone")))    # keys of absent lists need not be shown


def subtree(sx, i, name, deep):
    k = sx.choice(f"kind{i}", ["leaf", "container", "choice", "list", "rpc", "notification", "leaf-list", "none"])
    if k == "container":
        inner = sx.choice(f"inner{i}", ["leafs", "action", "choice", "empty", "deep"]) if deep else "leafs"
        return nd("container", name, {
            "leafs": [nd("leaf", "b"), nd("leaf", "a")], "empty": [],
            "action": [nd("action", "b", [nd("output", "output", [nd("leaf", "z")])]), nd("leaf", "c"),
                       nd("notification", "a", [nd("container", "b", [nd("leaf", "a")])])],
            "choice": [nd("choice", "b", [nd("container", "a", [nd("leaf", "b")]), nd("leaf", "c")]), nd("leaf", "d")],
            "deep": [nd("container", "b", [nd("container", "c", [nd("leaf", "d"), nd("leaf", "a")]),
                                           nd("container", "a", [nd("leaf", "d")])]), nd("leaf", "a")]}[inner])
    if k == "choice":
        return nd("choice", name, [nd("case", "c", [nd("leaf", name + "z"), nd("container", name + "y", [nd("leaf", "x")])]),
                                   nd("leaf", name + "w")])
    if k == "list":
        return nd("list", name, [nd("leaf", "k"), nd("list", "l", [nd("leaf", "i"), nd("leaf", "h")], keys="i h")], keys="k")
    if k == "rpc":
        return nd("rpc", name, [nd("output", "output", [nd("leaf", "o"), nd("leaf-list", "n")]),
                                nd("input", "input", [nd("container", "c", [nd("leaf", "i")])])])
    if k == "notification":
        return nd("notification", name, [nd("container", "c", [nd("leaf", "i")]), nd("leaf", "a")])
    return None if k == "none" else nd(k, name)


@task(cases=[{"order": o} for o in ("abc", "cab", "bca")])
def forests(sx, order):
    """three subtrees"""
    ns = [x for x in (subtree(sx, i, c, i == 1) for i, c in enumerate(order)) if x]
    dm = build({"m": module("m", " ".join(yang(n) for n in ns))})
    if ns:
        check(sx, dm, ns)
    else:
        sx.check(sx.And(dm.ascii_tree() == "", json.loads(dm.schema_digest())["children"] == {}), "empty model")


@task(cases=[{"target": t} for t in ("container", "empty", "choice", "case", "input", "notification", "emptychoice")])
def augments(sx, target):
    """nodes of another module, with conditions and features"""
    when = sx.choice("when", ["", "when '1';"])
    feats = [sx.choice(f"feature{i}", [False, True]) for i in (0, 1)]
    own = {"container": [nd("leaf", "b"), nd("leaf", "d")], "case": [nd("leaf", "b")], "choice": [nd("leaf", "b")],
           "input": [nd("leaf", "b")], "notification": [nd("leaf", "b")]}.get(target, [])
    add = [nd("leaf", "b", ns="n") if target != "choice" else nd("leaf", "a", ns="n"),
           nd("container", "c", [nd("leaf", "b", ns="n")], ns="n")]
    inner = nd("container", "t", own) if target in ("container", "empty") else \
        nd("choice", "t", own) if target in ("choice", "emptychoice") else \
        nd("choice", "t", [nd("case", "u", own)]) if target == "case" else \
        nd("rpc", "t", [nd("input", "input", own)]) if target == "input" else nd("notification", "t", own)
    path = {"case": "/m:t/m:u", "input": "/m:t/m:input"}.get(target, "/m:t")
    base = yang(inner)
    aug = f"augment {path} {{ {when} " + " ".join(
        yang(x)[:-1] + ("if-feature f;" if not f else "") + " }" for x, f in zip(add, feats)) + " }"
    dm = build({"m": module("m", base), "n": module("n", "feature f; " + aug, imports="import m { prefix m; }")})
    tgt = inner if target in ("container", "empty", "choice", "emptychoice", "notification") else inner["ch"][0]
    tgt["ch"] += [x for x, f in zip(add, feats) if f]
    check(sx, dm, [inner])


@task(cases=[{}])
def counts(sx):
    """validation counts in the diagram"""
    n = sx.int("n", 0, 3)
    dm = build({"m": module("m", "container c { leaf-list p { type int8; } leaf q { type int8; } list l { key k; leaf k "
                            "{ type int8; } } choice h { leaf r { type int8; } } }")})
    p = [i for i in range(3) if i < n]
    r = sx.choice("r", [{}, {"r": 1}, {"q": 2}])
    dm.from_raw({"m:c": {**r, "p": p, "l": [{"k": i} for i in p]}}).validate()
    w = [1, len(p), "r" in r, "q" in r]
    t = dm.ascii_tree(True, True)
    k = len(p)
    exp = ("+--rw m:c {1}\n   +--rw (h)?\n   |  +--:(r)\n   |     +--rw r? {R}\n   +--rw l* [k] {K}\n   |  +--rw k {K}\n"
           "   +--rw p* {P}\n   +--rw q? {Q}\n").replace("{R}", "{%d}" % w[2]).replace("{Q}", "{%d}" % w[3])
    lines = t.split("\n")
    sx.check(lines[0] == "+--rw m:c {1}", "validated once")
    sx.check("   |     +--rw r? {%d}" % ("r" in r) in lines and "   +--rw q? {%d}" % ("q" in r) in lines, "leafs")
    sx.check("   |  +--rw k {%d}" % k in lines, "keys are validated with each entry")
    sx.check([re.sub(r" \{[0-9]+\}$", "", x) for x in lines] ==
             [re.sub(r" \{.\}$", "", x) for x in exp.split("\n")], "the diagram is the same")
    dm.clear_val_counters()
    sx.check(all(x.endswith("{0}") or x.endswith(")?") or x.endswith(")") or x == ""
                 for x in dm.ascii_tree(True, True).split("\n")), "counters are cleared")


# -- types: the digest lets a client decide which values are valid -------------------

ID = "identity b1; identity b2; identity x { base b1; } identity y { base x; base b2; } identity z { base b2; }"
TD = """typedef t1 { type int16 { range "-5..100 | 200"; } units ms; default 7; }
typedef t2 { type t1 { range "0..50"; } }
typedef s1 { type string { length "1..3"; pattern "[a-c]*"; } }
typedef s2 { type s1 { pattern ".*b.*" { modifier invert-match; } length "min..2"; } }
typedef e1 { type enumeration { enum one; enum two { value 7; } enum three; } }
typedef b1 { type bits { bit x { position 2; } bit y; bit w { position 0; } } } """
INT = {"int8": "int8", "uint8 { range 5..max; }": "uint8", "int32 { range \"min..-1 | 1\"; }": "int32", "t1": "int16",
       "t2": "int16", "int64": "int64", "uint64 { range \"1..5 | 10..18446744073709551615\"; }": "uint64", "uint32": "uint32",
       "int64 { range \"-9223372036854775808..0\"; }": "int64", "uint16 { range 7; }": "uint16"}
BOUND = {f"{u}int{b}": ((0, 2 ** b - 1) if u else (-2 ** (b - 1), 2 ** (b - 1) - 1)) for u in ("", "u") for b in (8, 16, 32, 64)}


def tdigest(dm, name="m:v"):
    return json.loads(dm.schema_digest())["children"][name]


def one(typ, extra=""):
    semi = "" if typ.endswith("}") else ";"
    return build({"m": module("m", ID + TD + f"leaf v {{ type {typ}{semi} {extra} }} leaf-list w {{ type {typ}{semi} }}")})


@task(cases=[{"typ": t} for t in INT])
def integers(sx, typ):
    dm = one(typ)
    v = sx.int("v", -2 ** 65, 2 ** 65)
    d = tdigest(dm)
    sx.check(d["type"]["base"] == INT[typ], "base type")
    sx.check(d["type"].get("derived") == (typ if typ in ("t1", "t2") else None), "derived type")
    sx.check(tdigest(dm, "m:w")["type"] == d["type"], "same for a leaf-list")
    lo, hi = BOUND[INT[typ]]
    ok = sx.And(v >= lo, v <= hi)
    if "range" in d["type"]:
        ok = sx.And(ok, sx.Or(*[sx.And(v >= int(a), v <= int(b)) for a, b in d["type"]["range"]]))
    sx.check(sx.Iff(dm.get_data_node("/m:v").type.__contains__(v), ok), "the digest tells the valid values")
    sx.check(d.get("default") == (7 if typ in ("t1", "t2") else None), "default")
    sx.check(d.get("units") == ("ms" if typ in ("t1", "t2") else None), "units")


@task(cases=[{"typ": t} for t in ("decimal64 { fraction-digits 2; }", "decimal64 { fraction-digits 1; range \"-1.5..2 | 3.0\"; }",
                                  "decimal64 { fraction-digits 3; range 0.001..max; }")])
def decimals(sx, typ):
    dm = one(typ)
    fd = int(typ.split("fraction-digits ")[1][0])
    v = sx.dec("v", -10 ** 20, 10 ** 20, fd)
    t = tdigest(dm)["type"]
    sx.check(sx.And(t["base"] == "decimal64", t["fraction_digits"] == fd), "base type and fraction digits")
    lim = decimal_(2 ** 63 - 1).scaleb(-fd)
    ok = sx.And(v >= -lim - decimal_(1).scaleb(-fd), v <= lim)
    if "range" in t:
        ok = sx.And(ok, sx.Or(*[sx.And(v >= decimal_(a), v <= decimal_(b)) for a, b in t["range"]]))
    sx.check(sx.Iff(dm.get_data_node("/m:v").type.__contains__(v), ok), "the digest tells the valid values")


@task(cases=[{"typ": t} for t in ("string", "string { length 2; }", "string { length \"0 | 2..3\"; pattern \"a?b*\"; }", "s1",
                                  "s2", "string { pattern \"a.*\"; pattern \"b\" { modifier invert-match; } }")])
def strings(sx, typ):
    dm = one(typ)
    v = sx.str("v", 0, 4, alphabet="abcd")
    t = tdigest(dm)["type"]
    sx.check(sx.And(t["base"] == "string", t.get("derived") == (typ if typ in ("s1", "s2") else None)), "base type")
    ok = []
    if "length" in t:
        ok.append(sx.Or(*[sx.And(len(v) >= r[0], len(v) <= r[-1]) for r in t["length"]]))
    for p in t.get("patterns", ()):
        ok.append(bool(re.fullmatch(p, v)))
    for p in t.get("neg_patterns", ()):
        ok.append(not re.fullmatch(p, v))
    sx.check(sx.Iff(dm.get_data_node("/m:v").type.__contains__(v), sx.And(*ok)), "the digest tells the valid values")


@task(cases=[{"typ": t} for t in ("enumeration { enum a; enum b { value 3; } enum c; }", "e1", "e1 { enum two; enum one; }")])
def enums(sx, typ):
    dm = one(typ)
    v = sx.str("v", 1, 5, alphabet="abconetwhr")
    t = tdigest(dm)["type"]
    sx.check(t["base"] == "enumeration", "base type")
    sx.check(sx.Iff(dm.get_data_node("/m:v").type.__contains__(v), sx.Or(*[v == e for e in t["enums"]])), "the enums are listed")


@task(cases=[{"typ": t} for t in ("bits { bit a; bit b { position 3; } bit c; }", "b1", "b1 { bit y; bit x; }")])
def bits(sx, typ):
    dm = one(typ)
    t = tdigest(dm)["type"]
    sx.check(t["base"] == "bits", "base type")
    i, j = sx.choice("i", [0, 1, 2, 3, 4]), sx.choice("j", [0, 1, 2, 3, 4])
    sx.assume(i < j)
    b = t["bits"] + [None] * 6
    names = [x for x in (b[i], b[j]) if x]
    ty = dm.get_data_node("/m:v").type
    if len(names) == 2:
        sx.check(ty.to_raw(ty.from_raw(f"{names[1]} {names[0]}")) == f"{names[0]} {names[1]}", "bits are listed by position")
    want = {"b": {0: "a", 3: "b", 4: "c"}, "b1": {0: "w", 2: "x", 3: "y"}, "b1 ": {2: "x", 3: "y"}}[
        "b" if typ.startswith("bits") else "b1 " if "{" in typ else "b1"]
    sx.check([b[k] for k in range(6)] == [want.get(k) for k in range(6)], "each bit is at its position")
    v = sx.str("v", 1, 1, alphabet="abcwxy")
    sx.check(sx.Iff(ty.from_raw(v) is not None and ty.__contains__(ty.from_raw(v)), sx.Or(*[v == x for x in t["bits"] if x])), "the bits are listed")


@task(cases=[{"base": b} for b in (("b1",), ("b2",), ("b1", "b2"))])
def identities(sx, base):
    dm = one("identityref { " + " ".join(f"base {b};" for b in base) + " }")
    t = tdigest(dm)["type"]
    v = sx.str("v", 1, 2, alphabet="bxyz12")
    sx.check(t["base"] == "identityref", "base type")
    ty = dm.get_data_node("/m:v").type
    sx.check(sx.Iff(ty.__contains__((v, "m")), sx.Or(*[v == n for n, m in t["identities"]])), "the identities are listed")


@task(cases=[{"typ": t} for t in ("boolean", "empty", "binary { length 1..4; }", "leafref { path ../x; }",
                                  "instance-identifier", "union { type int8; type string; }")])
def others(sx, typ):
    typ = typ
    extra = sx.choice("extra", ["", "units u;", "description d;"])
    semi = "" if typ.endswith("}") else ";"
    cfg = sx.choice("config", ["", "config false;"])
    dm = build({"m": module("m", f"leaf v {{ type {typ}{semi} {extra} {cfg} }} leaf x {{ type uint8 {{ range 1..7; }} default 3; "
                            f"units s; {cfg} }}")})
    d = tdigest(dm)
    exp = {"kind": "leaf", "type": {"base": typ.split()[0]}}
    if typ.startswith("binary"):
        exp["type"]["length"] = [[1, 4]]
    if typ.startswith("leafref"):
        exp["type"]["ref_type"] = {"base": "uint8", "range": [[1, 7]]}
    if extra:
        exp[extra.split()[0]] = extra.split()[1][0]
    if cfg:
        exp["config"] = False
    d.pop("default", None) if typ.startswith("leafref") else None
    d.pop("units", None) if typ.startswith("leafref") and not extra.startswith("units") else None
    sx.check(d == exp, "digest of the leaf")
