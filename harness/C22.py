"""if-feature expressions."""
from symex.api import task
from yangson.schemadata import FeatureExprParser
from .common import *

BOUNDS = ("expressions of up to four factors with up to two negations each, in every grouping of parentheses, with "
          "arbitrary white space, over every set of supported features (up to four, of two modules); arbitrary texts of up to 8 "
          "characters of the alphabet of expressions; if-feature in every kind of statement, up to three in one; "
          "feature names other than the keyword 'not' itself")

NAMES = ["a", "nota", "or", "order"]
TEXT = {"m": module("m", "".join(f"feature {n};" for n in NAMES + ["b"]) + "include s;" * 0, prefix="p",
                    imports="import n { prefix q; }"),
        "n": module("n", "feature a; feature andy;")}
_dm = {}


def model(fm, fn):
    k = (tuple(fm), tuple(fn))
    if k not in _dm:
        _dm[k] = build(TEXT, [{"name": "m", "features": fm}, {"name": "n", "features": fn}])
    return _dm[k]


def evaluate(dm, text):
    return FeatureExprParser(text, dm.schema_data, ("m", "")).parse()


ATOMS = {"a": ("m", "a"), "nota": ("m", "nota"), "or": ("m", "or"), "q:a": ("n", "a"), "p:order": ("m", "order"),
         "q:andy": ("n", "andy"), "zz": ("m", "zz")}


@task(cases=[{"n": n, "paren": p} for n in (1, 2, 3) for p in range(n)] + [{"n": 4, "paren": 0}, {"n": 4, "paren": 2}],
      budget=200)
def expressions(sx, n, paren):
    """value of the boolean formula"""
    sup = {x: sx.choice("has " + x, [False, True]) for x in ("m a", "m nota", "n a")}
    sup["m or"] = True
    dm = model([k[2:] for k, v in sup.items() if v and k[0] == "m"],
               [k[2:] for k, v in sup.items() if v and k[0] == "n"])
    atoms = ["a", "nota", "q:a", "or"]
    toks, vals, ops = [], [], []
    for i in range(n):
        if i:
            ops.append(sx.choice(f"op{i}", ["and", "or"]))
        at = atoms[i % 4] if n > 2 else sx.choice(f"atom{i}", list(ATOMS))
        neg = sx.choice(f"neg{i}", [0, 1] if n > 2 else [0, 1, 2])
        v = sup.get(" ".join(ATOMS[at]), False)
        toks.append(["not"] * neg + [at])
        vals.append(v != bool(neg % 2))
    # a group of factors in parentheses, possibly negated, possibly doubled
    lo, hi, gneg = 0, 0, False
    if paren:
        lo = sx.choice("lo", list(range(n - paren)))
        hi = lo + paren + 1
        gneg = sx.choice("gneg", [False, True])

    def value(vs, os):
        ors, cur = [], vs[0]
        for o, v in zip(os, vs[1:]):
            if o == "and":
                cur = cur and v
            else:
                ors.append(cur)
                cur = v
        return any(ors + [cur])
    w = sx.str("w", 0, 2 if n == 1 else sx.n(1, 2), " \n\t\r"[:4 if n == 1 else sx.n(2, 4)])
    text = w
    vs, os = [], []
    i = 0
    while i < n:
        if i:
            text = text + " " + w + ops[i - 1] + w + "\n"
            os.append(ops[i - 1])
        if paren and i == lo:
            inner = ("not " if gneg else "") + "(" + w
            for j in range(lo, hi):
                if j > lo:
                    inner = inner + " " + ops[j - 1] + "\t" + w
                inner = inner + " ".join(toks[j])
            text = text + inner + w + ")"
            v = value(vals[lo:hi], ops[lo:hi - 1])
            vs.append(v != gneg)
            i = hi
        else:
            text = text + (" " + w).join(toks[i]) if i % 2 else text + " ".join(toks[i])
            vs.append(vals[i])
            i += 1
    got = evaluate(dm, text + w)
    sx.check(got == value(vs, os), "value of the expression")


@task(cases=[{"form": f} for f in ("not(x)", "((x))", "(not x)", "not (not x)", "x and (y or z)", "(x or y) and z",
                                   "x and y or z", "x or y and z", "not x and y", "not (x and y) or z", "x or (y and z)",
                                   "(x) and (y)", "not not not x", "((x and y) or (not z and (x or y)))")])
def forms(sx, form):
    """fixed nested forms, every assignment, every spelling of names"""
    pairs = [("a", "m"), ("nota", "m"), ("order", "m"), ("q:andy", "n"), ("p:or", "m")]
    k = sx.choice("rotate", list(range(5)))
    sup = {"m": [], "n": []}
    env = {}
    text = form
    for i, v in enumerate("xyz"):
        nm, mod = pairs[(i + k) % 5]
        env[v] = sx.choice(v, [False, True])
        if env[v]:
            sup[mod].append(nm.split(":")[-1])
    text = "".join(pairs[("xyz".index(c) + k) % 5][0] if c in "xyz" else c for c in form)
    r = sx.attempt(lambda: evaluate(model(sup["m"], sup["n"]), text), ParserException)
    if form == "not(x)":
        sx.check(r[0] == "exc", "separator required")
    else:
        sx.check(r == ("ok", bool(eval(form, {}, env))), "value")


class Ref:
    """recogniser and evaluator after the grammar of RFC 7950; all parses of a text"""

    def __init__(self, t, sup, lenient):
        self.t, self.sup, self.lenient = t, sup, lenient

    def ws(self, i):
        while i < len(self.t) and (self.t[i] == " "):
            i += 1
        return i

    def kw(self, i, k):
        for c in k:
            if i >= len(self.t) or not (self.t[i] == c):
                return None
            i += 1
        return i

    def expr(self, i, level):
        """list of (end, value): level 0 disjunction, 1 conjunction"""
        out = []
        for e, v in (self.expr(i, 1) if level == 0 else self.factor(i)):
            out.append((e, v))
            s = self.ws(e)
            if s == e and not (self.lenient and e and self.t[e - 1] == ")"):
                continue
            k = self.kw(s, "or" if level == 0 else "and")
            if k is None:
                continue
            s = self.ws(k)
            if s == k:
                continue
            for e2, v2 in self.expr(s, level):
                out.append((e2, (v or v2) if level == 0 else (v and v2)))
        return out

    def factor(self, i):
        out = []
        k = self.kw(i, "not")
        if k is not None:
            s = self.ws(k)
            if s > k:
                out += [(e, not v) for e, v in self.factor(s)]
        if i < len(self.t) and self.t[i] == "(":
            for e, v in self.expr(self.ws(i + 1), 0):
                e = self.ws(e)
                if e < len(self.t) and self.t[e] == ")":
                    out.append((e + 1, v))
            return out
        j = i
        while j < len(self.t) and not (self.t[j] == " " or self.t[j] == "(" or self.t[j] == ")"):
            j += 1
        if j > i:
            nm = self.t[i:j]
            if self.lenient or not (nm == "not"):
                out.append((j, any(nm == s for s in self.sup)))
        return out

    def result(self):
        r = [v for e, v in self.expr(self.ws(0), 0) if self.ws(e) == len(self.t)]
        return r


@task(cases=[{"pre": p, "n": n} for p, n in (("", 4), ("a ", 4), ("a or", 3), ("a and", 3), ("no", 4), ("not ", 4), ("(", 4),
                                             ("(a", 4), ("(a) ", 4), ("a or b an", 3), ("not n", 3))],
      thorough_cases=[{"pre": p, "n": 6} for p in ("", "a ", "no", "(", "a or", "not ")], budget=200)
def texts(sx, pre, n):
    """arbitrary texts"""
    s = pre + sx.str("s", 0, n, alphabet="abnotrd() ")
    sup = sx.choice("sup", [[], ["a"], ["order", "a"], ["nota", "or"]])
    dm = model(sup, [])
    strict = Ref(s, sup, False).result()
    lenient = Ref(s, sup, True).result()
    r = sx.attempt(lambda: evaluate(dm, s), ParserException)
    sx.observe("outcome", r[0])
    if strict:
        sx.check(r[0] == "ok" and r[1] == strict[0], "value of a valid expression")
    elif not lenient:
        sx.check(r[0] == "exc", "invalid expression is refused")


@task()
def prefixes(sx):
    """a prefix must be declared in the module of the expression"""
    p = sx.str("p", 1, 2, "pqx")
    dm = model(["a"], [])
    r = sx.attempt(lambda: evaluate(dm, p + ":a"), UnknownPrefix)
    sx.observe("outcome", r[0])
    if p == "p":
        sx.check(r == ("ok", True), "own prefix")
    elif p == "q":
        sx.check(r == ("ok", False), "imported prefix")
    else:
        sx.check(r[0] == "exc", "unknown prefix")


PLACES = {
    "container": ("container t { IFF leaf x { type string; } }", "/m:t"),
    "leaf": ("leaf t { IFF type string; }", "/m:t"),
    "leaf-list": ("leaf-list t { type string; IFF }", "/m:t"),
    "list": ("list t { key x; IFF leaf x { type string; } }", "/m:t"),
    "anydata": ("anydata t { IFF }", "/m:t"),
    "anyxml": ("anyxml t { IFF }", "/m:t"),
    "choice": ("choice t { IFF leaf x { type string; } }", "/m:t"),
    "case": ("choice c { case t { IFF leaf x { type string; } } }", "/m:c/t"),
    "short": ("choice c { container t { IFF leaf x { type string; } } }", "/m:c/t/t"),
    "nested": ("container c { list l { key k; leaf k { type string; } leaf t { IFF type int8; } } }", "/m:c/l/t"),
    "uses": ("grouping g { leaf t { type string; } } container c { uses g { IFF } }", "/m:c/t"),
    "grouping": ("grouping g { leaf t { IFF type string; } } container c { uses g; }", "/m:c/t"),
    "augment": ("container c; augment /m:c { IFF leaf t { type string; } }", "/m:c/t"),
    "uses-augment": ("grouping g { container d; } container c { uses g { augment d { IFF leaf t { type string; } } } }",
                     "/m:c/d/t"),
    "refine": ("grouping g { leaf t { type string; } leaf o { type string; } } container c { uses g { refine t { IFF } } }",
               "/m:c/t"),
    "rpc": ("rpc t { IFF }", "/m:t"),
    "action": ("container c { action t { IFF input { leaf x { type string; } } } }", "/m:c/t"),
    "notification": ("notification t { IFF leaf x { type string; } }", "/m:t"),
    "input": ("rpc r { input { leaf t { IFF type string; } } }", "/m:r/input/t"),
    "augment-case": ("choice c { leaf o { type string; } } augment /m:c { IFF case t { leaf x { type string; } } }", "/m:c/t"),
}
EXPRS = {"a": lambda a, b: a, "not a": lambda a, b: not a, "a and b": lambda a, b: a and b,
         "a or q:b": lambda a, b: a or b, "not (a or q:b)": lambda a, b: not (a or b)}


@task(cases=[{"place": p} for p in PLACES], budget=100)
def places(sx, place):
    """a node is in the schema if and only if all its if-features are true"""
    a, b = sx.choice("a", [False, True]), sx.choice("b", [False, True])
    n = sx.choice("n", [1, 2, 3])
    es = [sx.choice(f"e{i}", list(EXPRS)) if i < 2 else "a or not a" for i in range(n)]
    body, path = PLACES[place]
    iff = "".join(f'if-feature "{e}"; ' for e in es)
    dm = build({"m": module("m", "feature a; feature b;" + body.replace("IFF", iff),
                            imports="import n { prefix q; }"), "n": module("n", "feature b;")},
               [{"name": "m", "features": ["a"] * a + ["b"] * b}, {"name": "n", "features": ["b"] * b}])
    sn = dm.get_schema_node(path)
    want = all(EXPRS.get(e, lambda a, b: True)(a, b) for e in es)
    sx.check((sn is not None) == want, "presence of the node")
    parent, _, name = path.rpartition("/")
    pn = dm.get_schema_node(parent) if parent else dm.schema
    kids = pn.children if pn is not None else []
    sx.check((name.split(":")[-1] in [k.name for k in kids]) == want, "among the children of its parent")


@task(cases=[{"place": p} for p in ("leaf", "choice", "refine", "augment", "uses", "case", "min")])
def absent_nodes(sx, place):
    """an absent node is neither required nor accepted, the others are unaffected"""
    a = sx.choice("a", [False, True])
    iff = 'if-feature a; '
    body = {"leaf": f"container c {{ leaf t {{ {iff} type int8; mandatory true; }} leaf o {{ type int8; }} }}",
            "choice": f"container c {{ choice h {{ {iff} mandatory true; leaf t {{ type int8; }} }} leaf o {{ type int8; }} }}",
            "refine": f"grouping g {{ leaf t {{ type int8; mandatory true; }} leaf o {{ type int8; }} }} "
                      f"container c {{ uses g {{ refine t {{ {iff} }} }} }}",
            "augment": f"container c {{ leaf o {{ type int8; }} }} augment /m:c {{ {iff} leaf t {{ type int8; mandatory true; }} }}",
            "uses": f"grouping g {{ leaf t {{ type int8; mandatory true; }} }} "
                    f"container c {{ uses g {{ {iff} }} leaf o {{ type int8; }} }}",
            "case": f"container c {{ choice h {{ mandatory true; case x {{ {iff} leaf t {{ type int8; }} }} "
                    f"leaf u {{ type int8; }} }} leaf o {{ type int8; }} }}",
            "min": f"container c {{ leaf-list t {{ {iff} type int8; min-elements 1; }} leaf o {{ type int8; }} }}"}[place]
    dm = build({"m": module("m", "feature a;" + body)}, [{"name": "m", "features": ["a"] * a}])
    has, hasu = sx.choice("has", [False, True]), sx.choice("u", [False, True])
    v, o = sx.int("v", -128, 127), sx.int("o", -128, 127)
    doc = {"o": o}
    if has:
        doc["t"] = [v] if place == "min" else v
    if hasu:
        sx.assume(place == "case" and not has)
        doc["u"] = v
    r = sx.attempt(lambda: dm.from_raw({"m:c": doc}), RawMemberError)
    if not a and has:
        sx.check(r[0] == "exc" and r[1].path == "/m:c/t", "absent node is refused")
        return
    sx.check(r[0] == "ok", "decoded")
    ok = not sx.raises(lambda: r[1].validate(), ValidationError)
    if place == "case":
        sx.check(ok == (has or hasu), "mandatory choice")
    else:
        sx.check(ok == (has or not a), "mandatory only if present")


@task()
def identities(sx):
    """identities, enums and bits under if-feature"""
    a, b = sx.choice("a", [False, True]), sx.choice("b", [False, True])
    dm = build({"m": module("m", """feature a; feature b;
      identity r; identity x { base r; if-feature a; } identity y { base x; if-feature "a and b"; } identity z { base r; }
      leaf i { type identityref { base r; } }
      leaf e { type enumeration { enum p { if-feature a; } enum q; enum s { if-feature "not b"; if-feature "a or b"; } } }
      leaf f { type bits { bit p { if-feature "not a"; } bit q; } }""")},
               [{"name": "m", "features": ["a"] * a + ["b"] * b}])
    i, e, f = dm.get_data_node("/m:i").type, dm.get_data_node("/m:e").type, dm.get_data_node("/m:f").type
    for n, w in (("x", a), ("y", a and b), ("z", True), ("r", False)):
        sx.check(((n, "m") in i) == w, "identity " + n)
    for n, w in (("p", a), ("q", True), ("s", not b and a)):
        sx.check((n in e) == w, "enum " + n)
    sx.check((("p",) in f) == (not a), "bit p")
    sx.check(("q",) in f, "bit q")


@task()
def scope(sx):
    """feature names are resolved in the module where the expression is written"""
    am, an, as_ = [sx.choice(k, [False, True]) for k in ("am", "an", "as")]
    texts = {"m": "module m { yang-version 1.1; namespace 'http://x/m'; prefix p; import n { prefix q; } include s; "
                  "feature a; container c { uses q:g; } container d { leaf x { if-feature a; type int8; } "
                  "leaf y { if-feature 'q:a and p:a'; type int8; } leaf z { if-feature sa; type int8; } } }",
             "s": "submodule s { yang-version 1.1; belongs-to m { prefix mm; } import n { prefix a; } feature sa; "
                  "container e { leaf x { if-feature a; type int8; } leaf y { if-feature 'a:a or mm:sa'; type int8; } } }",
             "n": module("n", "feature a; grouping g { leaf x { if-feature a; type int8; } "
                              "leaf y { if-feature 'not q:a'; type int8; } }", prefix="q")}
    dm = build(texts, [{"name": "m", "features": ["a"] * am + ["sa"] * as_, "submodules": [("s", "")]},
                       {"name": "n", "features": ["a"] * an}])
    got = {p: dm.get_schema_node(f"/m:{p[0]}/{p[1]}") is not None for p in ("cx", "cy", "dx", "dy", "dz", "ex", "ey")}
    want = {"cx": an, "cy": not an, "dx": am, "dy": am and an, "dz": as_, "ex": am, "ey": an or as_}
    sx.check(got == want, "features of the right modules")


@task()
def prerequisites(sx):
    """supported features need their prerequisites"""
    s = [sx.choice(k, [False, True]) for k in "abcd"]
    t = {"m": module("m", "feature a { if-feature 'b or q:d'; } feature b { if-feature 'not c'; if-feature 'b or c'; } feature c;",
                     imports="import n { prefix q; }"),
         "n": module("n", "feature d;")}
    r = sx.attempt(lambda: build(t, [{"name": "m", "features": [k for k, v in zip("abc", s) if v]},
                                     {"name": "n", "features": ["d"] * s[3]}]), FeaturePrerequisiteError)
    a, b, c, d = s
    bad_a, bad_b = a and not (b or d), b and not (not c and (b or c))
    sx.check((r[0] == "exc") == (bad_a or bad_b), "prerequisites are verified")
    if r[0] == "exc":
        sx.check((r[1].name, r[1].ns) in [("a", "m")] * bad_a + [("b", "m")] * bad_b, "the feature is named")
