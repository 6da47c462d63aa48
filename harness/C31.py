"""YANG-specific XPath functions."""
from symex.api import task
from .xp import *
from .C07 import closure, IDS, texts
from . import xp

BOUNDS = ("every derivation relation of 4 identities in two modules; leaf-lists of up to 2 "
          "values of each type; names and subjects are arbitrary strings of up to 3 characters; "
          "leafrefs and instance identifiers to list entries with arbitrary keys")

ENUM = {"one": 0, "two": 1, "neg": -7, "on": 40}
BITS = ["a", "b", "ab", "c"]
BODY = """
typedef en { type enumeration { enum one; enum two; enum neg { value -7; } enum on { value 40; } } }
leaf-list e { type en; }
leaf e2 { type en { enum two; enum on; } }
leaf b { type bits { bit a; bit b; bit ab { position 9; } bit c; } }
leaf-list bb { type bits { bit a; bit b; bit ab { position 9; } bit c; } ordered-by user; config false; }
leaf s { type string; } leaf n { type int16; } leaf z { type empty; }
list l { key k; leaf k { type int8; } leaf v { type int8; } leaf-list t { type string; } }
leaf r { type leafref { path "../l/k"; require-instance false; } }
leaf q { type leafref { path "/l[k = current()/../r]/t"; require-instance false; } }
leaf-list rr { type leafref { path "../l/k"; require-instance false; } }
leaf r2 { type leafref { path "../rr"; require-instance false; } }
leaf-list i { type instance-identifier { require-instance false; } }
container c { leaf s { type string; } }
"""


def isnan(x):
    return x != x


@task(budget=60)
def enum_value(sx):
    dm = xp.model(BODY)
    v = [sx.choice(f"e{i}", list(ENUM)) for i in range(sx.choice("#e", [0, 1, 2]))]
    sx.assume(len(v) < 2 or v[0] != v[1])
    w = sx.choice("e2", [None, "two", "on"])
    o = {"m:s": sx.str("s", 0, 3), "m:n": 1, "m:b": "a"}
    if v:
        o["m:e"] = v
    if w:
        o["m:e2"] = w
    rt = dm.from_raw(o)
    r = ev(dm, "enum-value(m:e)", rt)
    sx.check(r == ENUM[v[0]] if v else isnan(r), "enum-value")
    r = ev(dm, "enum-value(m:e2)", rt)
    sx.check(r == ENUM[w] if w else isnan(r), "enum-value of a restricted type")
    for x in "snbcx":
        sx.check(isnan(ev(dm, f"enum-value(m:{x})", rt)), "other types")
    k, x = sx.attempt(lambda: ev(dm, "enum-value('one')", rt), XPathTypeError)
    sx.check(k == "exc", "not a node-set")
    r = ev(dm, "m:e[enum-value(.) > 0]", rt)
    sx.check([n.value for n in r] == [x for x in v if ENUM[x] > 0], "in a predicate")


@task(budget=100)
def bit_is_set(sx):
    dm = xp.model(BODY)
    b = [x for x in BITS if sx.choice("has-" + x, [False, True])]
    name = sx.str("name", 0, sx.n(2, 3), "abc x")
    s = sx.choice("s", ["", "ab", "a b", "abc"])
    o = {"m:b": " ".join(b), "m:s": s, "m:e": ["one"], "m:z": [None],
         "m:bb": [" ".join(b), "c"], "m:c": {"s": name}, "m:n": 3}
    rt = dm.from_raw(o)
    want = any(name == x for x in b)
    sx.check(sx.Iff(ev(dm, "bit-is-set(m:b, m:c/m:s)", rt), want), "bit-is-set")
    sx.check(sx.Iff(ev(dm, "bit-is-set(m:bb, m:c/m:s)", rt), want), "of the first node")
    for t in ("m:s", "m:e", "m:z", "m:n", "m:c", "m:x", "m:c/m:s"):
        sx.check(ev(dm, f"bit-is-set({t}, m:c/m:s)", rt) is False, "not bits: " + t)
    k, x = sx.attempt(lambda: ev(dm, "bit-is-set('a', 'a')", rt), XPathTypeError)
    sx.check(k == "exc", "not a node-set")


@task(cases=[{"x": i} for i in range(4)], budget=300)
def derived(sx, x):
    """over every derivation relation"""
    e = {}
    for i in range(4):
        for j in range(i):
            e[i, j] = bool(x & (1 if j else 2)) if i == 1 and j == 0 else \
                sx.choice(f"e{i}{j}", [False, True])
    if x > 1:
        e[1, 0] = True
    d = closure(e, 4)
    leafs = """
identity root;
leaf-list i { type union { type int8; type string; } }
leaf s { type string; }
"""
    # every identity has a common base, so that the leaf-list accepts them all
    t = texts(e, 4, extra_n="""
identity top;
leaf-list i { type identityref { base top; } }
leaf s { type string; }
leaf o { type union { type int8; type string; } }
""")
    for m in "mn":
        imp = "o:top" if m == "m" else "o:top"
        t[m] = t[m].replace("identity a {", f"identity a {{ base {imp};") \
            .replace("identity b {", f"identity b {{ base {imp};") \
            .replace("identity c {", f"identity c {{ base {imp};") \
            .replace("identity d {", f"identity d {{ base {imp};")
    t["o"] = module("o", "identity top;")
    t["m"] = t["m"].replace("prefix m;", "prefix m; import o { prefix o; }", 1)
    t["n"] = t["n"].replace("import m {", "import o { prefix o; } import m {", 1) \
        .replace("identity top;", "").replace("{ base top; }", "{ base o:top; }")
    dm = sbuild(sx, t)
    v = [sx.choice("v0", [0, 1, 2, 3])]
    v.append(3 - v[0])
    o = {"n:i": [f"{IDS[k][1]}:{IDS[k][0]}" for k in v], "n:s": "p:a", "n:o": "c"}
    rt = dm.from_raw(o)

    def q(text):
        return XPathParser(text, SchemaContext(
            dm.schema_data, "n", ("n", ""))).parse().evaluate(rt)
    for b in range(4):
        nm = ("p:" if IDS[b][1] == "m" else sx.choice("pfx", ["n:", ""])
              if b == 2 else "") + IDS[b][0]
        for k, w in (("n:i[1]", v[:1]), ("n:i", v), ("n:s | n:i[2]", v[1:]),
                     ("n:i | n:o", v), ("n:s", []), ("n:x", [])):
            sx.check(q(f"derived-from({k}, '{nm}')") == any(d[j, b] for j in w),
                     "derived-from")
            sx.check(q(f"derived-from-or-self({k}, '{nm}')") ==
                     any(j == b or d[j, b] for j in w), "derived-from-or-self")
    sx.check(q("derived-from(n:i, 'o:top')") and not q("derived-from(n:i, 'o:zz')"), "top")
    k, x = sx.attempt(lambda: q("derived-from('a', 'p:a')"), XPathTypeError)
    sx.check(k == "exc", "not a node-set")


def keys(sx, n):
    return [sx.int(f"k{i}", -2, 3) for i in range(n)]


@task(cases=[{"n": i} for i in range(4)], budget=100)
def deref(sx, n):
    dm = xp.model(BODY)
    ks = keys(sx, n)
    for i in range(n):
        for j in range(i):
            sx.assume(ks[i] != ks[j])
    r = sx.int("r", -2, 3)
    rr = [sx.int(f"rr{i}", -2, 3) for i in range(sx.choice("#rr", [0, 1, 2]))]
    if len(rr) > 1:
        sx.assume(rr[0] != rr[1])
    o = {"m:r": r, "m:s": "x", "m:q": "x", "m:r2": r}
    if n:
        o["m:l"] = [{"k": k, "v": i, "t": ["x", f"y{i}"]} for i, k in enumerate(ks)]
    if rr:
        o["m:rr"] = rr
    rt = dm.from_raw(o)
    hit = [i for i, k in enumerate(ks) if k == r]
    got = ev(dm, "deref(m:r)", rt)
    sx.check(len(got) == len(hit), "deref")
    got = ev(dm, "deref(m:r)/../m:v", rt)
    sx.check([x.value for x in got] == hit, "path from deref")
    got = ev(dm, "deref(m:q)", rt)
    sx.check([x.value for x in got] == ["x" for _ in hit] and
             [x.path[1] for x in got] == hit, "path with current()")
    got = ev(dm, "deref(m:rr)/../m:v", rt)
    sx.check([x.value for x in got] == [i for i, k in enumerate(ks)
                                        if rr and k == rr[0]], "of the first node")
    got = ev(dm, "deref(m:r2)", rt)
    sx.check([x.path[1] for x in got] == [i for i, k in enumerate(rr) if k == r],
             "leafref to leafref")
    sx.check(ev(dm, "count(deref(m:r2) | deref(m:rr))", rt) ==
             len([k for k in rr if k == r]) + len([k for k in ks if rr and k == rr[0]]), "union")
    for e in ("m:s", "m:x", "m:l/m:v", "m:c", "m:l", "."):
        sx.check(list(ev(dm, f"deref({e})", rt)) == [], "no reference")
    k, x = sx.attempt(lambda: ev(dm, "deref('a')", rt), XPathTypeError)
    sx.check(k == "exc", "not a node-set")


@task(cases=[{"n": i} for i in range(3)], budget=100)
def instance_id(sx, n):
    dm = xp.model(BODY)
    ks = keys(sx, n)
    if n == 2:
        sx.assume(ks[0] != ks[1])
    t = sx.choice("t", list(range(7)))
    x = sx.choice("x", [-2, 0, 3])
    iid = [f"/m:l[k='{x}']/v", f"/m:l[k=\"{x}\"]", f"/m:l[{x + 1}]/t[.='x']", "/m:s",
           "/m:c/s", f"/m:l[k='{x}']/t[.='z']", "/m:zz"][t]
    o = {"m:i": [iid, "/m:s"], "m:s": "x"}
    if n:
        o["m:l"] = [{"k": k, "v": i, "t": ["x", f"y{i}"]} for i, k in enumerate(ks)]
    if t == 2:
        sx.assume(x >= 0)
    rt = dm.from_raw(o)
    got = [g.path for g in ev(dm, "deref(m:i)", rt)]
    hit = [i for i, k in enumerate(ks) if k == x]
    want = [[("m:l", i, "v") for i in hit], [("m:l", i) for i in hit],
            [("m:l", x, "t", 0)] if 0 <= x < n else [], [("m:s",)], [], [], []][t]
    sx.check(got == want, "deref")


def spec(k, s):
    """whether a string matches the k-th pattern as a whole"""
    n = len(s)
    if k == 0:                          # a*b
        return n > 0 and s[-1] == "b" and all(c == "a" for c in s[:-1])
    if k == 1:                          # [0-9]+
        return n > 0 and all(c in "0123456789" for c in s)
    if k == 2:                          # a|bc
        return s == "a" or s == "bc"
    if k == 3:                          # .
        return n == 1 and s[0] != "\n" and s[0] != "\r"
    if k == 4:
        return n == 0
    if k == 5:                          # [^a]{2}
        return n == 2 and all(c != "a" for c in s)
    if k == 6:                          # ^a$ - ordinary characters
        return s == "^a$"
    return n > 0 and s[0] == "a"        # a[\s\S]*


PATS = ["a*b", "[0-9]+", "a|bc", ".", "", "[^a]{2}", "^a$", r"a[\s\S]*"]


@task(cases=[{"k": i} for i in range(len(PATS))], budget=100)
def re_match(sx, k):
    dm = xp.model(BODY)
    s = sx.str("s", 0, 3, "ab1^$c\n é" if k != 1 else "a0189:/ ")
    rt = dm.from_raw({"m:s": s, "m:n": 12})
    sx.check(sx.Iff(ev(dm, f"re-match(m:s, '{PATS[k]}')", rt), spec(k, s)), "re-match")
    sx.check(ev(dm, "re-match(m:n, '[12]*')", rt), "number")
    sx.check(not ev(dm, "re-match(concat(m:s, '+'), '[abc1]*')", rt), "whole string")


@task(budget=30)
def current(sx):
    dm = xp.model(BODY)
    a, b = sx.int("a", 0, 2), sx.int("b", 0, 2)
    rt = dm.from_raw({"m:l": [{"k": a, "v": b}, {"k": 5, "v": 1}], "m:n": b})
    e = rt["m:l"][0]
    got = ev(dm, "../m:l[m:v = current()/m:v]/m:k", e)
    sx.check(len(got) == 1 + (1 if b == 1 else 0), "current in a predicate")
    sx.check([n.path for n in ev(dm, "current()", e)] == [("m:l", 0)], "current")
    sx.check(sx.Iff(ev(dm, "/m:n[. = current()/m:k]", e)[0:1] != [], a == b), "current in a nested context")
    sx.check(ev(dm, "count(/m:l[m:k > 0]/m:v[. = current()/m:v])", e) ==
             (1 if a > 0 else 0) + (1 if b == 1 else 0), "current in a later step")
