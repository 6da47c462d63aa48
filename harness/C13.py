"""presence rules."""
from symex.api import task
from .schema import *

BOUNDS = ("five schemas (nested containers, choices within cases, choices within "
          "choices, members of two modules with equal names, lists inside cases) "
          "with every combination of mandatory and presence statements; every "
          "subset of their members; rotated and reversed member orders")


def decide(sx, nodes, more=None, top="m"):
    dm = model(text(nodes), more)
    obj = ordered(sx, subset(sx, nodes))
    exp = valid(nodes, obj)
    for scope in (ValidationScope.syntax, ValidationScope.all):
        ok, e = verdict(dm, obj, scope=scope)
        sx.check(ok == exp, "accepted exactly when the presence rules are met")
        if not ok:
            sx.check(isinstance(e, SchemaError) and
                     e.tag in ("missing-data", "member-not-allowed"), "error tag")


@task(cases=[{"a": a, "b": b} for a in (0, 1) for b in (0, 1)], budget=300)
def containers(sx, a, b):
    f = flags(sx, mc=None, md=None, mf=None, pc=None, pe=None)
    decide(sx, [leaf("a", bool(a)), leaf("b", bool(b)),
                cont("c", [leaf("d", f["md"]), leaf("g"),
                           cont("e", [leaf("f", f["mf"])], f["pe"]),
                           leaf("h", f["mc"])], f["pc"])])


@task(cases=[{"mh": a, "mp": b} for a in (0, 1) for b in (0, 1)], budget=300)
def cases(sx, mh, mp):
    f = flags(sx, mq=None, md=None, pc=None)
    decide(sx, [choice("h", [case("x", [leaf("p", bool(mp)), leaf("q", f["mq"])]),
                             leaf("r"),
                             case("z", [cont("c", [leaf("d", f["md"])], f["pc"]),
                                        leaf("s")])], bool(mh)),
                leaf("t")])


@task(cases=[{"mh": a, "mi": b} for a in (0, 1) for b in (0, 1)], budget=300)
def nested(sx, mh, mi):
    f = flags(sx, mq=None, mr=None, mj=None)
    decide(sx, [choice("h", [case("x", [choice("i", [leaf("p"),
                                                     case("o", [leaf("q", f["mq"]),
                                                                leaf("u")])],
                                               bool(mi)),
                                        leaf("r", f["mr"])]),
                             choice("j", [leaf("v"), leaf("w")], f["mj"])],
                       bool(mh))])


@task(budget=200)
def single(sx):
    """choices with one case only, mandatory or not"""
    f = flags(sx, mh=None, mp=None, mi=None)
    decide(sx, [choice("h", [case("x", [leaf("p", f["mp"]), leaf("q")])], f["mh"]),
                cont("c", [choice("i", [leaf("r")], f["mi"])])])


@task(budget=200)
def sequences(sx):
    f = flags(sx, ml=[0, 1], mk=[0, 1], mv=None, mh=None)
    decide(sx, [choice("h", [case("x", [lst("l", "k", [leaf("k"), leaf("v", f["mv"])],
                                            min=f["ml"], least=1), leaf("a")]),
                             case("y", [ll("b", min=f["mk"]), leaf("d")])], f["mh"])])


N = {"n": module("n", """
augment /p:c { leaf a { type int8; } leaf x { type int8; } }
augment /p:c/p:h { case y { leaf a2 { type int8; } } leaf b { type int8; } }""",
                 imports="import m { prefix p; }")}


@task(budget=200)
def two_modules(sx):
    f = flags(sx, ma=None, mh=None)
    plain = [cont("c", [leaf("a", f["ma"]),
                        choice("h", [leaf("b"), leaf("d")], f["mh"])])]
    dm = model(text(plain), N)
    spec = [cont("c", [leaf("a", f["ma"]), leaf("n:a"), leaf("n:x"),
                       choice("h", [leaf("b"), leaf("d"), leaf("n:a2"),
                                    leaf("n:b")], f["mh"])])]
    obj = {"c": ordered(sx, subset(sx, spec[0]["ch"]))}
    ok, e = verdict(dm, obj)
    sx.check(ok == valid(spec, obj), "members of two modules")


@task(budget=100)
def strangers(sx):
    """names that aren't those of data nodes are refused"""
    dm = model(text([cont("c", [choice("h", [case("x", [leaf("p")]), leaf("r")]),
                                leaf("a")])]))
    s = sx.str("s", 0, 3, "hxpraz:m")
    loc = s[2:] if s[:2] == "m:" else s
    known = sx.Or(loc == "p", loc == "r", loc == "a")
    sx.assume(s[:1] != "@")
    o = sx.attempt(lambda: dm.from_raw({"m:c": {s: 1}}), RawMemberError)
    sx.check(sx.Iff(o[0] == "ok", known), "members defined by the schema")


@task(cases=[{"d": d} for d in DRESS], budget=200)
def dressed(sx, d):
    """with neutral statements, or in groupings"""
    f = flags(sx, mh=None, md=None, pc=None, mv=None)
    nodes = [cont("o", [
        choice("h", [case("x", [leaf("p"), leaf("q", True)]),
                     case("z", [cont("c", [leaf("d", f["md"])], f["pc"]), leaf("s")])],
               f["mh"])]),
        lst("l", "k", [leaf("k"), leaf("v", f["mv"])], least=1)]
    dm = model(text(nodes, d))
    obj = subset(sx, nodes)
    ok, e = verdict(dm, obj)
    sx.check(ok == valid(nodes, obj), "accepted exactly when the presence rules are met")
