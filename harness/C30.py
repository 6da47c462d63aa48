"""configuration and state data."""
from symex.api import task
from .schema import *

BOUNDS = ("schemas of containers, lists, leaf-lists, choices, cases and leafs nested "
          "up to depth 3 with every combination of config false and mandatory "
          "statements; every subset of their members; validation as configuration "
          "and as all data")


def cf(f):
    return {"config": False} if f else {}


def decide(sx, nodes, ctypes=(CFG, ALL), d=""):
    dm = model(text(nodes, d))
    obj = subset(sx, nodes)
    for ct in ctypes:
        for scope in (ValidationScope.syntax, ValidationScope.all):
            ok, e = verdict(dm, obj, ct, scope)
            sx.check(ok == valid(nodes, obj, ct), f"accepted as {ct.name}")
            if not ok:
                sx.check(isinstance(e, SchemaError), "kind of the error")
    # the data themselves know what they are
    told(sx, dm, nodes, "/m:")


def told(sx, dm, nodes, path, cfg=True):
    for n in nodes:
        c = is_cfg(n, cfg)
        if n["kind"] in ("choice", "case"):
            told(sx, dm, n["ch"], path, c)
            continue
        p = path + n["name"]
        sn = dm.get_data_node(p)
        sx.check(sn.config == c, "configuration or state node")
        want = CFG if c and n["kind"] in ("leaf", "ll") else \
            ALL if c else ContentType.nonconfig
        sx.check(n["kind"] == "list" or sn.content_type() == want, "content type")
        told(sx, dm, n.get("ch", ()), p + "/", c)


@task(cases=[{"a": i} for i in range(4)], budget=300)
def containers(sx, a):
    f = flags(sx, ca=None, cd=None, ce=None, cf=None, md=None, mf=None)
    decide(sx, [cont("c", [leaf("a", bool(a & 1), **cf(f["ca"])),
                           cont("e", [leaf("f", f["mf"], **cf(f["cf"])),
                                      leaf("d", f["md"], **cf(f["cd"]))],
                                bool(a & 2), **cf(f["ce"]))])])


@task(cases=[{"a": i} for i in range(4)], budget=300)
def order(sx, a):
    """mandatory state and configuration nodes in either order"""
    f = flags(sx, c1=None, c2=None, c3=None, m1=None, m2=None, m3=None)
    decide(sx, [cont("c", [cont("e", [leaf("p", f["m1"], **cf(f["c1"])),
                                      cont("g", [leaf("q", f["m2"], **cf(f["c2"]))],
                                           bool(a & 1)),
                                      leaf("r", f["m3"], **cf(f["c3"]))],
                                bool(a & 2))])])


@task(cases=[{"a": i} for i in range(4)], budget=300)
def choices(sx, a):
    f = flags(sx, ch=None, cp=None, cq=None, cr=None, mp=None, mq=None)
    decide(sx, [choice("h", [case("x", [leaf("p", f["mp"], **cf(f["cp"])),
                                        leaf("q", f["mq"], **cf(f["cq"]))]),
                             case("y", [leaf("r", **cf(f["cr"])),
                                        leaf("s", bool(a & 2))])],
                       bool(a & 1), **cf(f["ch"])), leaf("t")])


@task(cases=[{"a": i} for i in range(2)], budget=300)
def sequences(sx, a):
    f = flags(sx, cl=None, cv=None, cb=None, mv=None, mb=[0, 1], ml=[0, 1])
    decide(sx, [cont("c", [lst("l", "k", [leaf("k"), leaf("v", f["mv"], **cf(f["cv"]))],
                               min=f["ml"], least=1, **cf(f["cl"])),
                           ll("b", min=f["mb"], **cf(f["cb"]))], bool(a))])


@task(cases=[{"d": d} for d in DRESS], budget=200)
def dressed(sx, d):
    """with neutral statements, or in groupings"""
    f = flags(sx, ca=None, ce=None, ch=None, ma=None, mh=None)
    decide(sx, [cont("c", [leaf("a", f["ma"], **cf(f["ca"])),
                           cont("e", [leaf("b", True)], **cf(f["ce"]))]),
                choice("h", [leaf("p"), leaf("q")], f["mh"], **cf(f["ch"]))], d=d)
