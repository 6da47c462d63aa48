"""XPath location paths."""
from symex.api import task
from .xp import *
from .schema import leaf, ll, cont, lst, choice, case, text, shorthand
from . import xp

BOUNDS = ("a tree of depth 5 with containers, lists with up to 2 (3 in predicates, 6 among siblings) entries, "
          "leaf-lists, defaults, a choice, equal names at several places and in two modules; "
          "every subset of its nodes, arbitrary values; every axis with every name, "
          "wildcard and node() from every node; order between different nodes and "
          "sibling axes of nodes other than list entries are outside, and so "
          "is the wildcard applied to the root node")

NODES = [
    cont("c", [
        leaf("a"), leaf("n:a"),
        lst("l", "k", [leaf("k"), leaf("a"), cont("d", [leaf("a"), ll("x")])]),
        cont("p", [leaf("a", dflt="3"), leaf("k")], pres=True)]),
    leaf("a"), ll("x"),
]


class N:
    """a node of the accessible tree"""

    def __init__(self, name, parent, path, value=None):
        self.name, self.parent, self.path, self.value = name, parent, path, value
        self.kids, self.row = [], None

    def all(self):
        r = [self]
        for k in self.kids:
            r += k.all()
        return r


def grow(nodes, obj, at, mod=None):
    """nodes of the object and those added by default"""
    for n in nodes:
        ns, _, nm = n["name"].rpartition(":")
        ns = ns or mod or "m"
        qn = (nm, ns)
        key = nm if ns == mod else f"{ns}:{nm}"
        got = obj.get(n["name"])
        k = n["kind"]
        if k == "choice":
            act = [c for c in n["ch"] if any(x in obj for y in c["ch"] for x in members(y))]
            act = act or [c for c in n["ch"] if c["name"] == n.get("dflt")]
            if act:
                grow(act[0]["ch"], obj, at, mod)
            continue
        if got is None and k == "cont" and not n["pres"]:
            got = {}
        if got is None and n.get("dflt") is not None:
            got = [int(x) for x in n["dflt"]] if k == "ll" else int(n["dflt"])
        if got is None:
            continue
        if k in ("list", "ll"):
            row = [N(qn, at, at.path + (key, i), e if k == "ll" else None)
                   for i, e in enumerate(got)]
            for x, e in zip(row, got):
                x.row = row
                if k == "list":
                    grow(n["ch"], e, x, ns)
            at.kids += row
            continue
        x = N(qn, at, at.path + (key,), got if k == "leaf" else None)
        at.kids.append(x)
        if k == "cont":
            grow(n["ch"], got, x, ns)
    return at


def members(n):
    if n["kind"] in ("choice", "case"):
        return [m for c in n["ch"] for m in members(c)]
    return [n["name"]]


def tree(nodes, obj):
    return grow(shorthand(nodes), obj, N(None, None, ()))


def match(n, test):
    return test == "node()" or n.name is not None and (test == "*" or n.name == test)


def axis(n, ax):
    """nodes along the axis, in its order"""
    anc = []
    p = n.parent
    while p is not None:
        anc.append(p)
        p = p.parent
    i = n.row.index(n) if n.row else 0
    return {"self": lambda: [n], "child": lambda: n.kids,
            "parent": lambda: anc[:1], "ancestor": lambda: anc,
            "ancestor-or-self": lambda: [n] + anc,
            "descendant": lambda: n.all()[1:],
            "descendant-or-self": lambda: n.all(),
            "following-sibling": lambda: n.row[i + 1:] if n.row else [],
            "preceding-sibling": lambda: n.row[:i][::-1] if n.row else []}[ax]()


def step(n, ax, test):
    return [m for m in axis(n, ax) if match(m, test)]


AXES = ["self", "child", "parent", "ancestor", "ancestor-or-self", "descendant",
        "descendant-or-self", "following-sibling", "preceding-sibling"]
TESTS = [("node()", "node()"), ("*", "*"), ("c", ("c", "m")), ("l", ("l", "m")),
         ("p:a", ("a", "m")), ("n:a", ("a", "n")), ("d", ("d", "m")),
         ("x", ("x", "m")), ("p", ("p", "m")), ("k", ("k", "m"))]


def dmod():
    return xp.model(text([dict(n, ch=[c for c in n.get("ch", ()) if ":" not in c["name"]])
                          for n in NODES]) + "\nleaf-list pos { type int8; }",
                    n=module("n", "augment /p:c { leaf a { type int8; } }",
                             imports="import m { prefix p; }"))


def inst(dm, n, rt):
    """instance node of a node of the specification"""
    x = rt
    if n.parent is None:
        return rt
    p = inst(dm, n.parent, rt)
    rest = n.path[len(n.parent.path):]
    for m in p._children(n.name):
        if m.path == n.path:
            return m
    raise AssertionError(f"no {rest} in {n.parent.path}")


def data(sx, full=False):
    """arbitrary subset of nodes"""
    def has(t):
        return full or sx.choice(t, [False, True])
    o = {}
    if has("?c"):
        o["c"] = c = {}
        if has("?ca"):
            c["a"] = 1
        if has("?cna"):
            c["n:a"] = 2
        k = sx.choice("#l", [0, 2] if full else [0, 1, 2])
        c["l"] = []
        for i in range(k):
            e = {"k": i}
            if has(f"?l{i}d"):
                e["d"] = {"x": [4, 5][:1 + i]} if i else {"a": 2}
            c["l"].append(e)
        if not k:
            del c["l"]
        if has("?p"):
            c["p"] = {}
    if has("?x"):
        o["x"] = [7, 8]
    return o


def qual(o):
    return {"m:" + k: v for k, v in o.items()}


def same(sx, got, want, label):
    g = [n.path for n in got]
    sx.check(len(g) == len(set(g)), label + ": each once")
    sx.check(set(g) == {n.path for n in want}, label)


@task(cases=[{"ax": a} for a in AXES], budget=300)
def axes(sx, ax):
    dm = dmod()
    o = data(sx)
    rt = dm.from_raw(qual(o))
    t = tree(NODES, o)
    for n in t.all():
        nd = inst(dm, n, rt)
        for e, test in TESTS:
            if n.parent is None and e == "*" and "self" in ax:
                continue
            want = step(n, ax, test)
            if e == "*" and ax == "descendant-or-self":
                continue
            r = ev(dm, f"{ax}::{e}", nd, "n")
            same(sx, r, want, f"{ax}::{e}")
            sx.check(ev(dm, f"count({ax}::{e})", nd, "n") == len(want), "count")
        for e, a2, test in ((".", "self", "node()"), ("..", "parent", "node()"),
                            ("p:a", "child", ("a", "m")), ("*", "child", "*")):
            if a2 == ax:
                same(sx, ev(dm, e, nd, "n"), step(n, a2, test), e)


def path(n, *steps):
    """steps are (axis, test[, filter(nodes of the step) -> nodes])"""
    cur = [n]
    for st in steps:
        nxt = []
        for c in cur:
            r = step(c, *st[:2])
            for f in st[2:]:
                r = f(r)
            nxt += [x for x in r if not any(x is y for y in nxt)]
        cur = nxt
    return cur


M = {k: (k, "m") for k in "caldxpkvbi"}
DOS = ("descendant-or-self", "node()")
PATHS = [
    ("/p:c", lambda n: path(top(n), ("child", M["c"]))),
    ("/", lambda n: [top(n)]),
    ("//a", lambda n: path(top(n), DOS, ("child", M["a"]))),
    ("/c/l/d/x", lambda n: path(top(n), ("child", M["c"]), ("child", M["l"]), ("child", M["d"]), ("child", M["x"]))),
    ("//*/a", lambda n: path(top(n), DOS, ("child", "*"), ("child", M["a"]))),
    (".//k", lambda n: path(n, DOS, ("child", M["k"]))),
    ("../*", lambda n: path(n, ("parent", "node()"), ("child", "*"))),
    ("../..//x", lambda n: path(n, ("parent", "node()"), ("parent", "node()"), DOS, ("child", M["x"]))),
    ("ancestor::l/preceding-sibling::l/k", lambda n: path(n, ("ancestor", M["l"]), ("preceding-sibling", M["l"]), ("child", M["k"]))),
    ("//x | //a | c/n:a | /c | .", lambda n: path(top(n), DOS, ("child", M["x"])) + path(top(n), DOS, ("child", M["a"]))
     + path(n, ("child", M["c"]), ("child", ("a", "n"))) + path(top(n), ("child", M["c"])) + [n]),
    ("//d/parent::l/@@".replace("/@@", ""), lambda n: path(top(n), DOS, ("child", M["d"]), ("parent", M["l"]))),
    ("current()/..", lambda n: path(n, ("parent", "node()"))),
    ("current()//a", lambda n: path(n, DOS, ("child", M["a"]))),
    ("(/c | /x)/descendant::x", lambda n: path(top(n), ("child", M["c"]), ("descendant", M["x"]))),
    ("/descendant::a", lambda n: path(top(n), ("descendant", M["a"]))),
    ("//l/following-sibling::*/d", lambda n: path(top(n), DOS, ("child", M["l"]), ("following-sibling", "*"), ("child", M["d"]))),
    ("/..", lambda n: []),
    ("c / p / a", lambda n: path(n, ("child", M["c"]), ("child", M["p"]), ("child", M["a"]))),
]


def top(n):
    while n.parent is not None:
        n = n.parent
    return n


@task(cases=[{"g": g} for g in range(3)], budget=300)
def paths(sx, g):
    dm = dmod()
    o = data(sx)
    rt = dm.from_raw(qual(o))
    t = tree(NODES, o)
    for n in t.all()[::1 if sx.n(0, 1) else 2]:
        nd = inst(dm, n, rt)
        for e, f in PATHS[g::3]:
            want = []
            for x in f(n):
                if not any(x is y for y in want):
                    want.append(x)
            same(sx, ev(dm, e, nd, "n"), want, e)


# ------------------------------------------------------------- predicates

PN = [cont("c", [lst("l", "k", [leaf("k"), leaf("v"), ll("x")])]), ll("b"), leaf("i")]


def rows(sx, k=3):
    o = {"c": {"l": []}}
    for i in range(sx.choice("#l", list(range(k + 1)))):
        e = {"k": i, "v": sx.int(f"v{i}", 0, 4)}
        e["x"] = [sx.int(f"x{i}{j}", 0, 4) for j in range(sx.choice(f"#x{i}", [0, 1] if i else [0, 2]))]
        if not e["x"]:
            del e["x"]
        o["c"]["l"].append(e)
    if not o["c"]["l"]:
        del o["c"]["l"]
    o["i"] = sx.int("i", -2, 5)
    return o


def where(p):
    """filter by a predicate on (node, position, size)"""
    return lambda ns: [n for i, n in enumerate(ns, 1) if p(n, i, len(ns))]


def kid(n, name):
    return [k.value for k in n.kids if k.name[0] == name]


C, L = ("child", M["c"]), ("child", M["l"])
X = ("child", M["x"])
PRED = [
    ("c/l[/i + 0]", lambda i: [C, (*L, where(lambda n, p, z: p == i))]),
    ("c/l[position() = /i]", lambda i: [C, (*L, where(lambda n, p, z: p == i))]),
    ("c/l[position() < /i]", lambda i: [C, (*L, where(lambda n, p, z: p < i))]),
    ("c/l[last()]", lambda i: [C, (*L, where(lambda n, p, z: p == z))]),
    ("c/l[last() - /i]", lambda i: [C, (*L, where(lambda n, p, z: p == z - i))]),
    ("c/l[/i div 2]", lambda i: [C, (*L, where(lambda n, p, z: 2 * p == i))]),
    ("c/l[0 div 0]", lambda i: [C, (*L, where(lambda n, p, z: False))]),
    ("c/l[v > /i][1]", lambda i: [C, (*L, where(lambda n, p, z: kid(n, "v")[0] > i), where(lambda n, p, z: p == 1))]),
    ("c/l[2][v > /i]", lambda i: [C, (*L, where(lambda n, p, z: p == 2), where(lambda n, p, z: kid(n, "v")[0] > i))]),
    ("c/l[v = current()/i]/k", lambda i: [C, (*L, where(lambda n, p, z: kid(n, "v")[0] == i)), ("child", M["k"])]),
    ("c/l/x[1]", lambda i: [C, L, (*X, where(lambda n, p, z: p == 1))]),
    ("//x[last()]", lambda i: [DOS, (*X, where(lambda n, p, z: p == z))]),
    ("c/l[x]", lambda i: [C, (*L, where(lambda n, p, z: len(kid(n, "x")) > 0))]),
    ("c/l[not(x)]", lambda i: [C, (*L, where(lambda n, p, z: len(kid(n, "x")) == 0))]),
    ("c/l[count(x) = /i]", lambda i: [C, (*L, where(lambda n, p, z: len(kid(n, "x")) == i))]),
    ("c/l[sum(x) > /i]", lambda i: [C, (*L, where(lambda n, p, z: sum(kid(n, "x")) > i))]),
    ("c/l[x = v]", lambda i: [C, (*L, where(lambda n, p, z: any(x == kid(n, "v")[0] for x in kid(n, "x"))))]),
    ("c/l[v]", lambda i: [C, L]),
    ("c/l[count(x)]", lambda i: [C, (*L, where(lambda n, p, z: len(kid(n, "x")) == p))]),
    ("c/l['x']", lambda i: [C, L]),
    ("c/l['']", lambda i: [C, (*L, where(lambda n, p, z: False))]),
    ("c/l[k = 1]/preceding-sibling::l[1]/v", lambda i: [C, (*L, where(lambda n, p, z: kid(n, "k")[0] == 1)),
                                                       ("preceding-sibling", M["l"], where(lambda n, p, z: p == 1)), ("child", M["v"])]),
    ("c/l[k = 2]/preceding-sibling::*[2]", lambda i: [C, (*L, where(lambda n, p, z: kid(n, "k")[0] == 2)),
                                                     ("preceding-sibling", "*", where(lambda n, p, z: p == 2))]),
    ("c/l/following-sibling::l[1]", lambda i: [C, L, ("following-sibling", M["l"], where(lambda n, p, z: p == 1))]),
    ("c/l/x/ancestor::*[1]", lambda i: [C, L, X, ("ancestor", "*", where(lambda n, p, z: p == 1))]),
    ("c/l/x/ancestor-or-self::node()[last()]", lambda i: [C, L, X, ("ancestor-or-self", "node()", where(lambda n, p, z: p == z))]),
    ("c/l[position() mod 2 = 1]", lambda i: [C, (*L, where(lambda n, p, z: p % 2 == 1))]),
    ("c/l[../../i > v]", lambda i: [C, (*L, where(lambda n, p, z: i > kid(n, "v")[0]))]),
    ("c/l/v[. = /i]/..", lambda i: [C, (*L, where(lambda n, p, z: kid(n, "v")[0] == i))]),
    ("c/l[x[. > /i]]", lambda i: [C, (*L, where(lambda n, p, z: any(x > i for x in kid(n, "x"))))]),
    ("c/l[x[2]]", lambda i: [C, (*L, where(lambda n, p, z: len(kid(n, "x")) > 1))]),
    ("c/l/x[position() = last() and . > /i]", lambda i: [C, L, (*X, where(lambda n, p, z: p == z and n.value > i))]),
]


@task(cases=[{"e": i} for i in range(len(PRED))], budget=200)
def predicates(sx, e):
    dm = xp.model(text(PN))
    o = rows(sx, sx.n(2, 3) if "sum" in PRED[e][0] or "x[. >" in PRED[e][0] or "x = v" in PRED[e][0] else 3)
    rt = dm.from_raw(qual(o))
    t = tree(PN, o)
    ex, f = PRED[e]
    want = path(t, *f(o["i"]))
    r = ev(dm, ex, rt)
    same(sx, r, want, ex)
    # as a condition and as an operand
    sx.check(sx.Iff(parse(dm, ex).holds(rt), len(want) > 0), "condition")
    sx.check(ev(dm, f"count({ex})", rt) == len(want), "count")


SN = [lst("l", "k", [leaf("k")]), ll("b"), leaf("i")]
SIB = [("preceding-sibling::{0}[/i + 0]", lambda i, p, z: p == i),
       ("preceding-sibling::{0}[position() < /i]", lambda i, p, z: p < i),
       ("preceding-sibling::{0}[last() - /i]", lambda i, p, z: z - i == p),
       ("following-sibling::{0}[/i + 0]", lambda i, p, z: p == i),
       ("following-sibling::{0}[position() > /i]", lambda i, p, z: p > i),
       ("following-sibling::{0}[last() - /i]", lambda i, p, z: z - i == p),
       ("../{0}[/i + 0]", lambda i, p, z: p == i),
       ("../{0}[position() != /i]", lambda i, p, z: p != i)]


@task(cases=[{"e": i, "w": w} for i in range(len(SIB)) for w in "lb"], budget=200)
def siblings(sx, e, w):
    """longer lists: positions are counted along the axis"""
    dm = xp.model(text(SN))
    z = sx.choice("z", [4, 5, 6])
    at = sx.choice("at", list(range(z)))
    o = {"l": [{"k": k} for k in range(z)], "b": list(range(z)), "i": sx.int("i", -2, 7)}
    rt = dm.from_raw(qual(o))
    ex, f = SIB[e]
    r = ev(dm, ex.format(w), rt["m:" + w][at])
    row = (list(range(at))[::-1] if ex.startswith("p") else
           list(range(at + 1, z)) if ex.startswith("f") else list(range(z)))
    want = [k for p, k in enumerate(row, 1) if f(o["i"], p, len(row))]
    sx.check([n.path for n in r] == [("m:" + w, k) for k in want]
             or sorted(n.path for n in r) == sorted(("m:" + w, k) for k in want), ex)
    for n in r:
        sx.check((n.value if w == "b" else n.value["k"]) == n.path[1], "node selected")


@task(budget=200)
def filters(sx):
    """predicates of other expressions, functions of node-sets"""
    dm = xp.model(text(PN))
    o = rows(sx, 2)
    o["b"] = [sx.int(f"b{j}", 0, 4) for j in range(sx.choice("#b", [1, 2]))]
    rt = dm.from_raw(qual(o))
    t = tree(PN, o)
    i = o["i"]
    ls = [n for n in t.all() if n.name == M["l"]]
    same(sx, ev(dm, "(c/l)[/i + 0]", rt), where(lambda n, p, z: p == i)(ls), "filter by position")
    same(sx, ev(dm, "(c/l | b)[. = /i]", rt),
         [n for n in t.all() if n.name == ("b", "m") and n.value == i], "filter of a union")
    same(sx, ev(dm, "(c/l[v > 1])[x]/x", rt),
         [k for n in ls if kid(n, "v")[0] > 1 for k in n.kids if k.name == M["x"]], "filter path")
    vals = [kid(n, "v")[0] for n in ls]
    sx.check(ev(dm, "sum(c/l/v)", rt) == sum(vals), "sum")
    sx.check(ev(dm, "sum(b | c/l/v)", rt) == sum(vals) + sum(o["b"]), "sum")
    sx.check(ev(dm, "count(c/l | b | c/l[1])", rt) == len(ls) + len(o["b"]), "count")
    sx.check(ev(dm, "position() + last()", rt) == 2, "position of the context node")
    for n, f in (("local-name", ""), ("name", "")):
        sx.check(ev(dm, f"{n}(c/zz)", rt) == "" and ev(dm, f"{n}()", rt) == "", "no name")
    sx.check(ev(dm, "local-name(c/l)", rt) == ("l" if ls else ""), "local name")
    for e in ("1[1]", "'x'[1]", "(1 | c)", "count(1)", "sum('x')", "('x')/c", "true() | c"):
        try:
            q = parse(dm, e)
        except InvalidXPath:
            continue
        k, x = sx.attempt(lambda: q.evaluate(rt), XPathTypeError)
        sx.check(k == "exc", f"{e} is refused")


# ----------------------------------------------------------- default values

DN = [cont("c", [leaf("a", dflt="3"), cont("e", [leaf("a", dflt="4"), ll("x", dflt=["1", "2"])]),
                 cont("p", [leaf("a", dflt="5")], pres=True),
                 choice("h", [case("q", [leaf("s"), leaf("t", dflt="6"), cont("u", [leaf("a", dflt="8")])]),
                              case("r", [leaf("v"), leaf("w", dflt="7")])], dflt="q"),
                 lst("l", "k", [leaf("k"), leaf("a", dflt="9")])])]
DT = ["a", "t", "u", "w", "x", "s", "v", "e", "p", "l"]


@task(budget=300)
def defaults(sx):
    dm = xp.model(text(DN).replace("choice h {", "choice h {\ndefault q;", 1)
                  if "default q" not in text(DN) else text(DN))
    c = {}
    for m in ("a", "s", "t", "v", "w"):
        if sx.choice("?" + m, [False, True]):
            c[m] = sx.int(m, -5, 5)
    sx.assume(not (("s" in c or "t" in c) and ("v" in c or "w" in c)))
    if sx.choice("?p", [False, True]):
        c["p"] = {}
    if sx.choice("?e", [False, True]):
        c["e"] = {"a": 1}
    if sx.choice("?l", [False, True]):
        c["l"] = [{"k": 1}]
    o = {"c": c} if c or sx.choice("?c", [False, True]) else {}
    rt = dm.from_raw(qual(o))
    t = tree(DN, o)
    cn = [n for n in t.all() if n.path == ("m:c",)][0]
    for ax, nd, at in (("/c/", rt, cn), ("", inst(dm, cn, rt), cn), ("//", rt, None)):
        for m in DT:
            q = (m, "m")
            want = [n for n in t.all() if n.name == q] if at is None else step(at, "child", q)
            r = ev(dm, ax + m, nd)
            same(sx, r, want, ax + m)
            if len(want) == 1 and want[0].value is not None:
                sx.check(r[0].value == want[0].value, "value of " + m)
    same(sx, ev(dm, "//*", rt), t.all()[1:], "//*")
    same(sx, ev(dm, "/c/*", rt), cn.kids, "/c/*")
    sx.check(ev(dm, "sum(//a | //x)", rt) == sum(
        n.value for n in t.all() if n.name in (("a", "m"), ("x", "m"))), "sum")
    sx.check(sx.Iff(ev(dm, "c/t > 0", rt), sx.Or(*[n.value > 0 for n in cn.kids if n.name == ("t", "m")])), "t")
