"""Instance trees, and a plain specification of edits and moves on them."""
from .common import *
from yangson.instvalue import ObjectValue, ArrayValue, StructuredValue

DM = build({"ietf-yang-metadata": module("ietf-yang-metadata", """
extension annotation { argument name; }""", prefix="md"),
            "m": module("m", """
md:annotation x { type int8; }
container c {
  leaf a { type int32; }
  leaf w { type int64; }
  leaf f { type uint8; default 5; }
  container d { leaf e { type int32; } }
  leaf-list ll { type int8; }
  list li { key k;
    leaf k { type int8; } leaf v { type int32; }
    container g { leaf h { type int32; } } }
  list kl { config false; leaf v { type int32; } }
  choice ch { default y;
    case x { leaf p { type int8; } }
    case y { leaf q { type int8; default 3; } } }
  anydata ad;
}
leaf z { type int32; }""",
                        imports="import ietf-yang-metadata { prefix md; }"),
            "n": module("n", """
augment /m:c { leaf a { type int32; } container b { leaf t { type string; } } }""",
                        imports="import m { prefix m; }")})

I32 = (-2 ** 31, 2 ** 31 - 1)
I8 = (-128, 127)


def dup(x):
    """plain deep copy"""
    if isinstance(x, dict):
        return {k: dup(v) for k, v in x.items()}
    if isinstance(x, (list,)):
        return [dup(v) for v in x]
    return x


def snap(v):
    """content of a cooked value, with its kinds"""
    if isinstance(v, ObjectValue):
        return ("o", {k: snap(x) for k, x in v.items()})
    if isinstance(v, ArrayValue):
        return ("a", [snap(x) for x in v])
    if isinstance(v, dict):
        return ("d", {k: snap(x) for k, x in v.items()})
    if isinstance(v, list):
        return ("l", [snap(x) for x in v])
    return v


def same(sx, x, y):
    """x and y are the same raw data (a condition)"""
    if isinstance(x, dict) or isinstance(y, dict):
        if not (isinstance(x, dict) and isinstance(y, dict)
                and set(x) == set(y)):
            return False
        return sx.And(*[same(sx, x[k], y[k]) for k in x])
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        if not (isinstance(x, (list, tuple)) and isinstance(y, (list, tuple))
                and len(x) == len(y)):
            return False
        return sx.And(*[same(sx, p, q) for p, q in zip(x, y)])
    if isinstance(x, bool) != isinstance(y, bool) or (x is None) != (y is None):
        return False
    if isinstance(x, str) != isinstance(y, str):
        return False
    return x == y


def get(raw, path):
    for k in path:
        raw = raw[k]
    return raw


def put(raw, path, val):
    """copy of raw with the value at path replaced"""
    if not path:
        return val
    r = raw.copy()
    r[path[0]] = put(raw[path[0]], path[1:], val)
    return r


def tree(sx, which="full"):
    c = {"a": sx.int("a", *I32), "w": "-12",
         "d": {"e": sx.int("e", *I32)},
         "ll": [sx.int("l0", *I8), sx.int("l1", *I8)],
         "li": [{"k": sx.int("k0", *I8), "v": sx.int("v0", *I32)},
                {"k": sx.int("k1", *I8), "g": {"h": sx.int("h1", *I32)}}],
         "kl": [{"v": sx.int("x0", *I32)}, {"v": sx.int("x1", *I32)}],
         "n:a": sx.int("na", *I32)}
    r = {"m:c": c, "m:z": sx.int("z", *I32)}
    if which == "meta":
        c["@a"] = {"m:x": 1}
        c["li"][0]["@"] = {"m:x": 2}
        c["d"]["@"] = {"m:x": 3}
        c["ad"] = {"q": [1, {"r": None}]}
    elif which == "sparse":
        c = {"li": [], "p": sx.int("p", *I8)}
        r = {"m:c": c}
    return r


# new raw values of nodes, by schema path
def newval(sx, key, tag):
    i = lambda n, t=I32: sx.int(f"{tag}.{n}", *t)
    return {
        "m:z": lambda: i("z"), "a": lambda: i("a"), "n:a": lambda: i("na"),
        "w": lambda: "9007199254740993",
        "d": lambda: {"e": i("e")},
        "e": lambda: i("e"), "v": lambda: i("v"), "k": lambda: i("k", I8),
        "g": lambda: {"h": i("h")}, "h": lambda: i("h"),
        "ll": lambda: [i("m0", I8), i("m1", I8), i("m2", I8)],
        "ll.": lambda: i("m", I8),
        "li": lambda: [{"k": i("k", I8)}],
        "li.": lambda: {"k": i("k", I8), "v": i("v")},
        "kl": lambda: [],
        "kl.": lambda: {"v": i("v")},
        "m:c": lambda: {"a": i("a"), "ll": [i("m", I8)]},
        "": lambda: {"m:z": i("z")},
    }[key]()


def kind(path):
    """schema key of a path: member name, or name + "." for an entry"""
    if not path:
        return ""
    if isinstance(path[-1], int):
        return path[-2] + "."
    return path[-1]


MEMBERS = {"": ["m:c", "m:z"], "m:c": ["a", "w", "n:a", "d", "ll", "li", "kl"],
           "d": ["e"], "li.": ["k", "v", "g"], "kl.": ["v"], "g": ["h"]}


def cook(key, v):
    if key == "w":
        return int(v)
    if isinstance(v, dict):
        return ObjectValue({k: cook(k, x) for k, x in v.items()})
    if isinstance(v, list):
        return ArrayValue([cook(key + ".", x) for x in v])
    return v


def start(sx, raw, path):
    """node of a new tree at the path"""
    n = DM.from_raw(dup(raw))
    for k in path:
        n = n[k]
    return n


class Gone(Exception):
    """the operation has no result (expected failure: NonexistentInstance)"""


def moves(raw, path):
    """possible movements from the path: (name, argument)"""
    v = get(raw, path)
    k = kind(path)
    r = []
    if path:
        r += [("up", None), ("top", None)]
    if k in MEMBERS:
        r += [("down", m) for m in MEMBERS[k]]
        r += [("goto", m) for m in MEMBERS[k][:1]]
    elif isinstance(v, list):
        r += [("down", 0), ("down", -1), ("down", 2), ("iter", 1)]
        if k == "li":
            r += [("look", None)]
    if path and isinstance(path[-1], int):
        r += [("next", None), ("previous", None)]
    elif path:
        up = kind(path[:-1])
        r += [("sibling", m) for m in MEMBERS[up] if m != path[-1]]
    return r


def move(sx, mv, node, raw, path, tag):
    """(thunk performing the move, expected path or None)"""
    name, arg = mv
    if name == "up":
        return (lambda: node.up()), path[:-1]
    if name == "top":
        return (lambda: node.top()), []
    if name in ("down", "goto"):
        v = get(raw, path)
        if isinstance(v, list):
            i = arg if arg >= 0 else len(v) + arg
            return (lambda: node[arg]), path + [i] if 0 <= i < len(v) else None
        if name == "goto":
            q = arg if ":" in arg else "m:" + arg
            rt = DM.parse_instance_id("/" + q)
            return (lambda: node.goto(rt)), path + [arg] if arg in v else None
        return (lambda: node[arg]), path + [arg] if arg in v else None
    if name == "iter":
        v = get(raw, path)
        return (lambda: list(node)[arg]), path + [arg] if len(v) > arg else None
    if name == "next":
        i = path[-1] + 1
        n = len(get(raw, path[:-1]))
        return (lambda: node.next()), path[:-1] + [i] if i < n else None
    if name == "previous":
        i = path[-1] - 1
        return (lambda: node.previous()), path[:-1] + [i] if i >= 0 else None
    if name == "sibling":
        v = get(raw, path[:-1])
        return (lambda: node.sibling(arg)), \
            path[:-1] + [arg] if arg in v else None
    if name == "look":
        k = sx.int(tag + ".look", *I8)
        exp = None
        for i, e in enumerate(get(raw, path)):
            if e["k"] == k:
                exp = path + [i]
                break
        return (lambda: node.look_up(k=k)), exp
    raise AssertionError(name)


def edits(raw, path):
    v = get(raw, path)
    k = kind(path)
    r = [("update", None)]
    if k in MEMBERS:
        r += [("put", m) for m in MEMBERS[k]]
        r += [("delete", m) for m in MEMBERS[k]]
    elif isinstance(v, list):
        r += [("delete", 0), ("delete", -1), ("delete", 2)]
    if path and isinstance(path[-1], int):
        r += [("before", None), ("after", None)]
    return r


def edit(sx, ed, node, raw, path, tag, cooked=False):
    """(thunk, expected root raw value, expected path) or (thunk, None, None)"""
    name, arg = ed
    k = kind(path)

    def val(key):
        nv = newval(sx, key, tag)
        return nv, (cook(key, nv) if cooked else dup(nv))
    if name == "update":
        nv, arg2 = val(k)
        return ((lambda: node.update(arg2, raw=not cooked)), put(raw, path, nv),
                path)
    if name == "put":
        nv, arg2 = val(arg)
        o = get(raw, path)
        return ((lambda: node.put_member(arg, arg2, raw=not cooked)),
                put(raw, path, {**o, arg: nv}), path + [arg])
    if name == "delete":
        o = get(raw, path)
        if isinstance(o, dict):
            if arg not in o:
                return (lambda: node.delete_item(arg)), None, None
            nv = {m: x for m, x in o.items() if m != arg}
        else:
            i = arg if arg >= 0 else len(o) + arg
            if not 0 <= i < len(o):
                return (lambda: node.delete_item(arg)), None, None
            nv = o[:i] + o[i + 1:]
        return (lambda: node.delete_item(arg)), put(raw, path, nv), path
    o = get(raw, path[:-1])
    nv, arg2 = val(k)
    i = path[-1] + (1 if name == "after" else 0)
    nl = o[:i] + [nv] + o[i:]
    f = node.insert_after if name == "after" else node.insert_before
    return ((lambda: f(arg2, raw=not cooked)), put(raw, path[:-1], nl),
            path[:-1] + [i])


FOCI = [[], ["m:c"], ["m:c", "a"], ["m:c", "n:a"], ["m:c", "d"], ["m:c", "d", "e"],
        ["m:c", "ll"], ["m:c", "ll", 0], ["m:c", "ll", 1], ["m:c", "li"],
        ["m:c", "li", 0], ["m:c", "li", 1], ["m:c", "li", 1, "g"],
        ["m:c", "li", 0, "v"], ["m:c", "kl"], ["m:c", "kl", 0], ["m:c", "kl", 1],
        ["m:c", "w"], ["m:z"]]


def pointer(path):
    return "/" + "/".join(str(k) for k in path)
