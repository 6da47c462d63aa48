"""merge against a plain specification on raw data."""
from symex.api import task
from .inst import dup, same, put, get, I8, I32
from .common import *
from yangson.instvalue import ObjectValue, ArrayValue

BOUNDS = ("lists and leaf-lists of up to two entries (thorough: three) on each side "
          "with all values and keys symbolic, one nested list; presence of "
          "members chosen on both sides")

DM = build({"m": module("m", """
container c {
  leaf a { type int32; }  leaf b { type string; }
  container d { leaf e { type int32; } leaf f { type int32; } }
  container pr { presence x; leaf e { type int32; } }
  leaf-list ll { type int8; }
  list li { key k; leaf k { type int8; } leaf v { type int32; }
    leaf-list x { type int8; }
    list in { key i; leaf i { type int8; } leaf w { type int32; } } }
  list l2 { key "k1 k2"; leaf k1 { type int8; } leaf k2 { type boolean; }
    leaf v { type int32; } }
  list kl { config false; leaf v { type int32; } }
  anydata ad;
}"""), "n": module("n", "augment /m:c { leaf a { type int32; } list li { key k;"
                   "leaf k { type int8; } leaf v { type int32; } } }",
                   imports="import m { prefix m; }")})

KEYS = {"li": ["k"], "in": ["i"], "l2": ["k1", "k2"], "n:li": ["k"], "kl": []}


def spec(sx, name, old, new):
    """merge of raw data; `name` of the node"""
    if isinstance(old, dict) and name != "ad":
        r = dict(old)
        for k in new:
            r[k] = spec(sx, k, old[k], new[k]) if k in old else new[k]
        return r
    if isinstance(old, list) and name != "ad":
        if name in KEYS:
            r = list(old)
            for e in new:
                hit = None
                if KEYS[name]:
                    for i, o in enumerate(old):
                        if all(o[k] == e[k] for k in KEYS[name]):
                            hit = i
                            break
                if hit is None:
                    r.append(e)
                else:
                    r[hit] = spec(sx, "entry", old[hit], e)
            return r
        return old + [x for x in new if not any(x == y for y in old)]
    return new


def distinct(sx, entries, keys):
    for i in range(len(entries)):
        for j in range(i):
            sx.assume(sx.Not(sx.And(*[entries[i][k] == entries[j][k]
                                      for k in keys])) if keys
                      else entries[i] != entries[j])


def cook(v):
    if isinstance(v, dict):
        return ObjectValue({k: cook(x) for k, x in v.items()})
    if isinstance(v, list):
        return ArrayValue([cook(x) for x in v])
    return v


def run(sx, raw, path, name, new, twice=True):
    node = DM.from_raw(dup(raw))
    for k in path:
        node = node[k]
    old = get(raw, path)
    exp = spec(sx, name, old, new)
    if sx.choice("cooked", [False, True]):
        arg, rawflag = cook(new), False
    else:
        arg, rawflag = dup(new), True
    r = node.merge(arg, raw=rawflag)
    sx.check(same(sx, r.raw_value(), exp), "result of merge")
    sx.check(list(r.path) == path, "place of the result")
    sx.check(same(sx, r.top().raw_value(), put(raw, path, exp)),
             "everything else stays as it was")
    sx.check(same(sx, node.top().raw_value(), raw), "original tree")
    if twice:
        r2 = r.merge(arg, raw=rawflag)
        sx.check(same(sx, r2.raw_value(), exp), "merging twice")
        sx.check(r2.value == r.value, "merging twice gives an equal value")


@task(cases=[{"no": a, "nn": b, "at": at} for a in (0, 1, 2) for b in (0, 1, 2)
             for at in ("list", "c")],
      thorough_cases=[{"no": a, "nn": b, "at": at} for a in range(4)
                      for b in range(4) for at in ("list", "c")])
def keyed(sx, no, nn, at):
    old = [{"k": sx.int(f"k{i}", *I8), "v": sx.int(f"v{i}", *I32)}
           for i in range(no)]
    new = [{"k": sx.int(f"m{i}", *I8)} for i in range(nn)]
    for i, e in enumerate(new):
        if sx.choice(f"nv{i}", [False, True]):
            e["v"] = sx.int(f"w{i}", *I32)
        else:
            e["x"] = [sx.int(f"x{i}", *I8)]
    distinct(sx, old, ["k"])
    distinct(sx, new, ["k"])
    which = sx.choice("which", ["li", "n:li"]) if not any(
        "x" in e for e in new) else "li"
    raw = {"m:c": {which: old, "a": 1}}
    if at == "list":
        run(sx, raw, ["m:c", which], which, new)
    else:
        run(sx, raw, ["m:c"], "m:c", {which: new})


@task(cases=[{"no": a, "nn": b} for a in (1, 2) for b in (1, 2)])
def two_keys(sx, no, nn):
    old = [{"k1": sx.int(f"k{i}", *I8), "k2": sx.bool(f"b{i}"),
            "v": sx.int(f"v{i}", *I32)} for i in range(no)]
    new = [{"k1": sx.int(f"m{i}", *I8), "k2": sx.bool(f"n{i}"),
            "v": sx.int(f"w{i}", *I32)} for i in range(nn)]
    for s in (old, new):
        for i in range(len(s)):
            for j in range(i):
                sx.assume(sx.Or(s[i]["k1"] != s[j]["k1"],
                                sx.Not(sx.Iff(s[i]["k2"], s[j]["k2"]))))
    old = [dict(e, k2=sx.settle(bool(e["k2"]))) for e in old]
    new = [dict(e, k2=sx.settle(bool(e["k2"]))) for e in new]
    run(sx, {"m:c": {"l2": old}}, ["m:c", "l2"], "l2", new)


@task(cases=[{"no": a, "nn": b} for a in (0, 1, 2) for b in (0, 1, 2)],
      thorough_cases=[{"no": a, "nn": b} for a in range(4) for b in range(4)])
def leaf_list(sx, no, nn):
    old = [sx.int(f"k{i}", *I8) for i in range(no)]
    new = [sx.int(f"m{i}", *I8) for i in range(nn)]
    distinct(sx, old, [])
    distinct(sx, new, [])
    run(sx, {"m:c": {"ll": old, "a": 4}}, ["m:c", "ll"], "ll", new)


@task(cases=[{"no": a, "nn": b} for a in (1, 2) for b in (0, 1, 2)])
def keyless(sx, no, nn):
    """entries of a keyless list have no identity: all are appended"""
    old = [{"v": sx.int(f"k{i}", *I32)} for i in range(no)]
    new = [{"v": sx.int(f"m{i}", *I32)} for i in range(nn)]
    run(sx, {"m:c": {"kl": old}}, ["m:c", "kl"], "kl", new, False)


@task(cases=[{"at": 0}, {"at": 1}, {"at": 2}])
def nested(sx, at):
    """lists inside entries and containers"""
    ent = lambda t: {"k": sx.int(t + "k", *I8),
                     "in": [{"i": sx.int(t + "i", *I8), "w": sx.int(t + "w", *I32)}],
                     "x": [sx.int(t + "x", *I8)]}
    old, new = [ent("p"), ent("o")], [ent("q")]
    old[1]["in"].append({"i": sx.int("oi2", *I8), "w": sx.int("ow2", *I32)})
    new[0]["x"].append(sx.int("qx2", *I8))
    distinct(sx, old[1]["in"], ["i"])
    distinct(sx, new[0]["x"], [])
    distinct(sx, old, ["k"])
    raw = {"m:c": {"li": old}}
    if at == 0:
        run(sx, raw, ["m:c", "li"], "li", new)
    elif at == 1:
        run(sx, raw, [], "", {"m:c": {"li": new}})
    else:
        e = dict(new[0])
        del e["k"]
        run(sx, raw, ["m:c", "li", 1], "entry", e)


TY = {"union": ("union { type int8; type boolean; type string; }",
                [1, "1", True, "true", "x"]),
      "string": ("string", ["", "a", "A", "a "]),
      "bool": ("boolean", [False, True]), "enum": ("enumeration { enum a; enum b; }", ["a", "b"]),
      "dec": ("decimal64 { fraction-digits 2; }", ["1.0", "0.1", "10.0", "-1.0"]),
      "idref": ("identityref { base z; }", ["m:a", "m:b"]),
      "bits": ("bits { bit x; bit y; }", ["", "x", "y", "x y"]),
      "bin": ("binary", ["", "AA==", "AAA="]), "i64": ("int64", ["1", "-1", "9007199254740993"])}
TM = build({"m": module("m", "identity z; identity a { base z; } identity b { base z; }"
                        "container c {" + "".join(
    f"list l-{t} {{ key k; leaf k {{ type {y}{'' if y[-1] == '}' else ';'} }} leaf v {{ type int8; }}"
    f" leaf w {{ type int8; }} }}\n"
    f"leaf-list b-{t} {{ type {y}{'' if y[-1] == '}' else ';'} }}\n"
    for t, (y, _) in TY.items()) + "}")})


@task(cases=[{"t": t, "k": k} for t in TY for k in "lb"], budget=200)
def key_types(sx, t, k):
    """keys and values of all types; equal ones are recognised"""
    vs = TY[t][1]
    same_ = lambda a, b: type(a) is type(b) and a == b

    def side(s):
        n = sx.choice("#" + s, [1, 2])
        r = [vs[i] for i in range(len(vs))]
        a = sx.choice(s + "0", r)
        if n == 1:
            return [a]
        return [a, sx.choice(s + "1", [x for x in r if not same_(x, a)])]
    old, new = side("o"), side("n")
    if k == "l":
        oldr = [{"k": x, "v": i} for i, x in enumerate(old)]
        newr = [{"k": x, "w": i} for i, x in enumerate(new)]
        exp = [dict(e) for e in oldr]
        for e in newr:
            hit = [x for x in exp if same_(x["k"], e["k"])]
            if hit:
                hit[0].update(e)
            else:
                exp.append(e)
    else:
        oldr, newr = old, new
        exp = old + [x for x in new if not any(same_(x, y) for y in old)]
    nm = f"{k}-{t}"
    n = TM.from_raw({"m:c": {nm: oldr}})["m:c"][nm]
    r = n.merge(newr, raw=True).raw_value()
    def plain(v):
        if isinstance(v, dict):
            return tuple(sorted((a, plain(b)) for a, b in v.items()))
        if isinstance(v, list):
            return [plain(x) for x in v]
        return type(v).__name__, v
    sx.check(plain(r) == plain(exp), "result of merge")
    sx.check(plain(n.merge(newr, raw=True).merge(newr, raw=True).raw_value()) == plain(exp),
             "merging twice")


MEM = ["a", "b", "n:a", "d", "ad", "pr"]


@task()
def members(sx):
    def obj(t):
        r = {}
        for m in MEM:
            st = sx.choice(f"{t}.{m}", [0, 1]) if m != "ad" or t == "n" else 1
            if not st:
                continue
            r[m] = {"a": lambda: sx.int(t + "a", *I32),
                    "n:a": lambda: sx.int(t + "na", *I32),
                    "b": lambda: sx.str(t + "b", 1, 1, "xy"),
                    "d": lambda: {"ef"[t == "n"]: sx.int(t + "d", *I32)},
                    "pr": lambda: {},
                    "ad": lambda: {"q": [t], t: {"z": 1}}}[m]()
        return r
    run(sx, {"m:c": obj("o")}, ["m:c"], "m:c", obj("n"))


@task(cases=[{"p": p} for p in (["a"], ["d", "e"], ["ad"], ["d"], ["li", 0, "v"],
                                ["ll", 0])])
def at_leaf(sx, p):
    """merging into any node"""
    raw = {"m:c": {"a": sx.int("a", *I32), "ad": [1, {"x": 2}],
                   "d": {"e": sx.int("e", *I32)},
                   "ll": [sx.int("l", *I8)],
                   "li": [{"k": 1, "v": sx.int("v", *I32)}]}}
    new = {"a": lambda: sx.int("n", *I32), "e": lambda: sx.int("n", *I32),
           "v": lambda: sx.int("n", *I32), 0: lambda: sx.int("n", *I8),
           "ad": lambda: sx.choice("ad", [{"y": 1}, [], [{"x": 2}], 3]),
           "d": lambda: sx.choice("d", [{}, {"f": sx.int("n", *I32)}])}[p[-1]]()
    run(sx, raw, ["m:c"] + p, p[-1], new)
