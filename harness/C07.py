"""identities and identityref."""
from symex.api import task
from .common import *

BOUNDS = ("every acyclic derivation relation over 4 identities in two modules "
          "(thorough: 5), identityref with one to three bases; texts of up to 5 "
          "characters")

IDS = [("a", "m"), ("b", "m"), ("c", "n"), ("d", "n"), ("e", "n")]


def graph(sx, n):
    """edges i -> j (i has base j), j < i"""
    e = {}
    for i in range(n):
        for j in range(i):
            e[i, j] = sx.choice(f"e{i}{j}", [False, True])
    return e


def closure(e, n):
    d = {(i, j): e.get((i, j), False) for i in range(n) for j in range(n)}
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if d[i, k] and d[k, j]:
                    d[i, j] = True
    return d


def texts(e, n, extra_m="", extra_n=""):
    t = {"m": "", "n": ""}
    for i in range(n):
        nm, mod = IDS[i]
        t[mod] += f"identity {nm} {{\n"
        for j in range(i):
            if e[i, j]:
                bn, bm = IDS[j]
                t[mod] += f"base {bn if bm == mod else 'p:' + bn};\n"
        t[mod] += "}\n"
    return {"m": module("m", t["m"] + extra_m),
            "n": module("n", t["n"] + extra_n,
                        imports="import m { prefix p; }")}


@task(budget=400)
def derivation(sx):
    n = sx.n(4, 5)
    e = graph(sx, n)
    d = closure(e, n)
    b1 = sx.choice("b1", list(range(n)))
    b2 = sx.choice("b2", list(range(b1 + 1)))
    b3 = sx.choice("b3", list(range(b2 + 1)) if b2 < b1 else [b2])
    bs = "".join(f"base {'' if IDS[b][1] == 'n' else 'p:'}{IDS[b][0]};"
                 for b in sorted({b1, b2, b3}))
    dm = sbuild(sx, texts(e, n, extra_n=f"leaf x {{ type identityref {{ {bs} }} }}"))
    t = dm.get_data_node("/n:x").type
    for i in range(n):
        sx.check((IDS[i] in t) == (d[i, b1] and d[i, b2] and d[i, b3]),
                 "valid iff derived from every base")
    sx.check(("zz", "m") not in t and ("a", "x") not in t, "unknown identities")
    # sets of derived identities, asked repeatedly
    sd = t.sctx.schema_data
    for r in range(2):
        for i in range(n):
            sx.check(sorted(sd.derived_from(IDS[i])) ==
                     sorted(IDS[k] for k in range(n) if d[k, i]),
                     "identities derived from one")
        sx.check(sorted(sd.derived_from_all([IDS[b1], IDS[b2], IDS[b3]])) ==
                 sorted(IDS[k] for k in range(n)
                        if d[k, b1] and d[k, b2] and d[k, b3]),
                 "identities derived from all")
        for i in range(n):
            for j in range(n):
                sx.check(sd.is_derived_from(IDS[i], IDS[j]) == d[i, j],
                         "derived iff a chain of bases leads there")
    for i in range(n):
        sx.check((IDS[i] in t) == (d[i, b1] and d[i, b2] and d[i, b3]),
                 "queries do not change validity")


DM = build({"m": module("m", """
identity base; identity a { base base; } identity other;
typedef idt { type identityref { base base; } default m:a; }
leaf x { type identityref { base base; } } leaf y { type idt; }"""),
            "n": module("n", """
identity b { base pm:base; } identity a { base pm:base; }
identity ab { base b; base pm:other; }
leaf x { type identityref { base pm:base; } default pm:a; } leaf y { type pm:idt; }
leaf z { type pm:idt; default b; }
leaf w { type identityref { base pm:base; base pm:other; } }""",
                        imports="import m { prefix pm; }")})
T = {f"{q}{k}": DM.get_data_node(f"/{q}:{k}").type
     for q, k in ("mx", "my", "nx", "ny", "nz", "nw")}
MEM = {"m": ["a"], "n": ["a", "b", "ab"]}


@task(cases=[{"leaf": k} for k in T])
def forms(sx, leaf):
    """both textual forms denote the same identity; the encoded form is qualified"""
    t = T[leaf]
    own = leaf[0]
    ids = [("ab", "n")] if leaf == "nw" else [
        (i, q) for q in MEM for i in MEM[q]]
    v = ids[sx.choice("id", list(range(len(ids))))]
    full = v[1] + ":" + v[0]
    sx.check(t.to_raw(v) == full, "encoded form has the module name")
    sx.check(t.canonical_string(v) == full, "canonical form has the module name")
    sx.check(t.from_raw(full) == v and t.parse_value(full) == v, "qualified form")
    sx.check(v in t, "derived identity is valid")
    if v[1] == own:
        sx.check(t.from_raw(v[0]) == v and t.parse_value(v[0]) == v,
                 "unqualified form denotes the identity of leaf's module")
        sx.check(t.from_xml(elem(v[0])) == v, "unqualified form in XML")
    e = elem("q:" + v[0])
    e.attrib["xmlns:q"] = "http://x/" + v[1]
    sx.check(t.from_xml(e) == v, "XML prefix bound to module's namespace")


@task(cases=[{"leaf": "nx"}, {"leaf": "my"}])
def text(sx, leaf):
    t = T[leaf]
    own = leaf[0]
    s = sx.str("s", 0, sx.n(4, 5), "abmn:xse")
    st, v = sx.attempt(lambda: t.from_raw(s), Exception)
    sx.check(st == "ok", "no exception")
    ok = v is not None and v in t
    exp = False
    for q in MEM:
        for i in MEM[q]:
            if s == q + ":" + i or (q == own and s == i):
                exp = True
                sx.check(v == (i, q), "the identity denoted by the text")
    sx.check(ok == exp, "accepted iff it denotes a derived identity")
    st, v = sx.attempt(lambda: t.from_xml(elem(s)), Exception)
    sx.check(st == "ok", "no exception from XML")


@task()
def defaults(sx):
    """identities in defaults are resolved by prefixes where they are written"""
    k = sx.choice("k", ["nx", "nz", "my"])
    d = DM.get_data_node(f"/{k[0]}:{k[1]}").default
    sx.check(d == {"nx": ("a", "m"), "nz": ("b", "n"), "my": ("a", "m")}[k],
             "default identity")


@task()
def typedef_default(sx):
    """default of a type defined in another module"""
    sx.reached("typedef default")
    sx.check(DM.get_data_node("/n:y").default == ("a", "m"),
             "default identity of an imported type")


@task(cases=[{"leaf": "nx"}])
def wrong_kind(sx, leaf):
    t = T[leaf]
    raws = [None, True, 0, 1.5, [], ["a"], {}, [None]]
    raw = raws[sx.choice("raw", list(range(len(raws))))]
    st, v = sx.attempt(lambda: t.from_raw(raw), Exception)
    sx.check(st == "ok" and v is None, "a raw value of a wrong kind is refused")
