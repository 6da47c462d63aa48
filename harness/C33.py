"""convert8525: YANG library data in the legacy format."""
import os
import sys
from symex.api import task
import yangson.convert8525 as cv
from .common import *

BOUNDS = ("YANG libraries with up to two module sets of up to three modules each (implemented and import-only, the same "
          "module in several sets), arbitrary one-letter names and revisions that differ in one digit, up to two "
          "features, submodules, locations and deviations per module, schemas of one or two sets, selection by "
          "datastore or schema name, invalid documents")

PATH = "/repo/yang-modules/ietf"
LIB = {}


def model(text, path=(".",), *a):
    """data models of the two YANG library formats (built once)"""
    if text not in LIB:
        LIB[text] = DataModel(text, path, *a)
    return LIB[text]


class Json:
    """stand-in for the functions that read and write files"""
    decoder = json.decoder

    def __init__(self, doc):
        self.doc = doc
        self.out = None

    def load(self, f):
        return self.doc

    def dump(self, obj, f, **kw):
        self.out = obj


class Discard:
    def write(self, s):
        pass

    def flush(self):
        pass

    def close(self):
        pass


def convert(doc, *args):
    """run the script; return its exit code and output"""
    js = Json(doc)
    saved = cv.json, cv.DataModel, sys.argv, sys.stderr, sys.stdout
    cv.json, cv.DataModel = js, model
    sys.argv = ["convert8525", *args, "-p", PATH, "/dev/null"]
    sys.stdout, sys.stderr = Discard(), Discard()
    try:
        rc = cv.main()
    finally:
        cv.json, cv.DataModel, sys.argv, sys.stderr, sys.stdout = saved
    return rc, js.out


def library(sets, schemas, stores, content="x1"):
    return {"ietf-yang-library:yang-library": {
        "module-set": sets,
        "schema": [{"name": n, "module-set": ms} for n, ms in schemas],
        "datastore": [{"name": n, "schema": s} for n, s in stores],
        "content-id": content}, "ietf-yang-library:modules-state": {"module-set-id": "q"}}


def legacy(e, imp, devs):
    """reference translation of one entry"""
    res = {"name": e["name"], "revision": e.get("revision", ""), "namespace": e["namespace"].strip(),
           "conformance-type": "import" if imp else "implement"}
    if e.get("location"):
        res["schema"] = e["location"][0]
    if e.get("submodule"):
        res["submodule"] = []
        for s in e["submodule"]:
            r = {"name": s["name"], "revision": s.get("revision", "")}
            if s.get("location"):
                r["schema"] = s["location"][0]
            res["submodule"].append(r)
    if not imp:
        if e.get("feature"):
            res["feature"] = e["feature"]
        if e.get("deviation"):
            res["deviation"] = [{"name": d, "revision": devs[d]} for d in e["deviation"]]
    return res


def reference(doc, schema):
    top = doc["ietf-yang-library:yang-library"]
    names = [s for s in top["schema"] if s["name"] == schema][0]["module-set"]
    impl, imp = {}, {}
    for ms in top["module-set"]:
        if ms["name"] not in names:
            continue
        devs = {m["name"]: m.get("revision", "") for m in ms.get("module", [])}
        for m in ms.get("module", []):
            impl[(m["name"], m.get("revision", ""))] = legacy(m, False, devs)
        for m in ms.get("import-only-module", []):
            imp[(m["name"], m.get("revision", ""))] = legacy(m, True, devs)
    for k, e in imp.items():
        if k not in impl:
            impl[k] = e
    return list(impl.values())


def norm(entries):
    out = []
    for e in entries:
        e = dict(e)
        for k in ("submodule", "deviation"):
            if k in e:
                e[k] = sorted(e[k], key=lambda x: (x["name"], x["revision"]))
        if "feature" in e:
            e["feature"] = sorted(e["feature"])
        out.append(e)
    return sorted(out, key=lambda x: (x["name"], x["revision"]))


def verify(sx, doc, schema, *args):
    rc, out = convert(doc, *args)
    sx.observe("exit code", rc)
    sx.observe("output", out)
    sx.check(rc == 0, "conversion succeeds")
    top = out["ietf-yang-library:modules-state"]
    sx.check(top["module-set-id"] == doc["ietf-yang-library:yang-library"]["content-id"], "content id")
    sx.check(norm(top["module"]) == norm(reference(doc, schema)), "modules of the schema")
    sx.check(set(out) == {"ietf-yang-library:modules-state"} and
             set(top) == {"module-set-id", "module"}, "nothing else")


def rev(sx, n):
    return "2020-01-0" + sx.str(n, 1, 1, "123")


def entry(sx, n, name, revision=None, **kw):
    res = {"name": name, "namespace": "urn:" + name}
    if revision:
        res["revision"] = revision
    for k, v in kw.items():
        if v:
            res[k] = v
    return res


OPTS = [("-d", "running"), (), ("-d", "operational"), ("-s", "A"), ("-s", "B")]


@task(cases=[{"sa": a, "sb": b} for a in (["S"], ["T"], ["S", "T"]) for b in (["S"], ["S", "T"])])
def sets(sx, sa, sb):
    """modules of the module sets of the schema"""
    a, b, c = (sx.str(n, 1, 1, "abc") for n in ("na", "nb", "nc"))
    ra, rc_ = rev(sx, "ra"), rev(sx, "rc")
    sx.assume(a != b)
    sx.assume(sx.And(b != c))
    # implemented modules of the same name are identical in both sets
    same = sx.Implies(a == c, ra == rc_)
    sx.assume(same)
    doc = library(
        [{"name": "S", "module": [entry(sx, "a", a, ra), entry(sx, "b", b)]},
         {"name": "T", "module": [entry(sx, "c", c, rc_)]}],
        [("A", sa), ("B", sb)], [("ietf-datastores:running", "A"), ("ietf-datastores:operational", "B")])
    opt = sx.choice("opt", OPTS)
    verify(sx, doc, "B" if "operational" in opt or "B" in opt else "A", *opt)


@task(cases=[{"order": o} for o in (["S", "T"], ["T", "S"])])
def imports(sx, order):
    """import-only modules"""
    a, b, c = (sx.str(n, 1, 1, "abc") for n in ("na", "nb", "nc"))
    ra, rb, rc_ = rev(sx, "ra"), rev(sx, "rb"), rev(sx, "rc")
    sx.assume(sx.Not(sx.And(b == c, rb == rc_)))
    doc = library(
        [{"name": order[0], "module": [entry(sx, "a", a, ra)],
          "import-only-module": [dict(entry(sx, "c", c), revision="")] if sx.choice("empty", [False, True]) else []},
         {"name": order[1], "import-only-module": [
             entry(sx, "b", b, rb, location=["http://l/1", "http://l/2"]),
             entry(sx, "c", c, rc_, submodule=[entry(sx, "s", "s", "2021-01-01")])]}],
        [("A", sx.choice("sets", [["S", "T"], ["T", "S"]]))], [("ietf-datastores:running", "A")])
    for ms in doc["ietf-yang-library:yang-library"]["module-set"]:
        for m in ms.get("import-only-module", []):
            for s in m.get("submodule", []):
                del s["namespace"]
        if not ms.get("import-only-module", True):
            del ms["import-only-module"]
    verify(sx, doc, "A")


@task(cases=[{"two": t} for t in (False, True)])
def details(sx, two):
    """features, submodules, locations and namespaces"""
    feats = [[], ["f1"], ["f2", "f1"], ["z", "a"]]
    subs = [[], [{"name": "s"}], [{"name": "s", "revision": "2020-01-01"}, {"name": "t"}],
            [{"name": "t", "revision": "2020-01-01", "location": ["http://x/t", "http://x/t2"]}]]
    locs = [[], ["http://x/1"], ["http://x/2", "http://x/1"]]
    m = entry(sx, "m", "m", rev(sx, "rm") if sx.choice("hasrev", [True, False]) else None,
              feature=sx.choice("feature", feats), submodule=sx.choice("submodule", subs),
              location=sx.choice("location", locs))
    m["namespace"] = "urn:" + sx.str("ns", 0, 2, "ab:-")
    mods = [m]
    if two:
        mods.append(entry(sx, "n", "n", rev(sx, "rn"), feature=sx.choice("feature2", feats[1:3]),
                          submodule=[{"name": "u"}]))
    doc = library([{"name": "S", "module": mods}], [("A", ["S"])], [("ietf-datastores:running", "A")],
                  content=sx.str("content", 0, 3, "a1 é"))
    verify(sx, doc, "A")


@task(cases=[{"sets": s} for s in (["S"], ["S", "T"], ["T"])])
def deviations(sx, sets):
    """deviation modules with their revisions"""
    a, b, c = (sx.str(n, 1, 1, "abc") for n in ("na", "nb", "nc"))
    sx.assume(sx.And(a != b, b != c, a != c))
    r = [rev(sx, f"r{i}") if sx.choice(f"has{i}", [True, False]) else None for i in range(3)]
    devs = sx.choice("devs", [[], [a], [b], [a, b], [b, a]])
    m = entry(sx, "c", c, r[2], deviation=[a if d is a else b for d in devs])
    if sx.choice("other", [False, True]):
        extra = {"deviation": [c]}
    else:
        extra = {}
    other = sx.choice("order", [0, 1])
    mods = [entry(sx, "a", a, r[0]), entry(sx, "b", b, r[1], **extra)]
    doc = library([{"name": "S", "module": [m] + mods if other else mods + [m]},
                   {"name": "T", "module": [entry(sx, "d", "d", rev(sx, "r3"), deviation=["e"]),
                                            entry(sx, "e", "e", rev(sx, "r4"))]}],
                  [("A", sets)], [("ietf-datastores:running", "A")])
    verify(sx, doc, "A")


BASE = library([{"name": "S", "module": [{"name": "m", "revision": "2020-01-01", "namespace": "urn:m",
                                          "feature": ["f"], "deviation": ["n"],
                                          "submodule": [{"name": "s", "revision": "2020-01-01"}]},
                                         {"name": "n", "namespace": "urn:n"}],
                 "import-only-module": [{"name": "i", "revision": "", "namespace": "urn:i"}]}],
               [("A", ["S"])], [("ietf-datastores:running", "A")])


def places(v, at=()):
    if at:
        yield at
    if isinstance(v, dict):
        for k in v:
            yield from places(v[k], at + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            yield from places(v[i], at + (i,))


PLACES = [list(p) for p in places(BASE)]
WRONG = [None, "", "a b", "m", 5, True, [], ["a"], {}, {"name": "x"}, [None]]


@task(cases=[{"i": i} for i in range(len(PLACES))])
def invalid(sx, i):
    """documents with one part missing or wrong: a diagnostic or a conversion"""
    at = PLACES[i]
    w = sx.choice("w", ["drop"] + WRONG)
    doc = json.loads(json.dumps(BASE))
    p = doc
    for k in at[:-1]:
        p = p[k]
    if w == "drop":
        del p[at[-1]]
    else:
        p[at[-1]] = w
    rc, out = convert(doc)
    sx.observe("exit code", rc)
    sx.check(rc in (0, 1, 2), "documented exit code")
    sx.check((rc == 0) == (out is not None), "output exactly on success")


@task(cases=[{}])
def selection(sx):
    """datastores and schemas that don't exist"""
    opt = sx.choice("opt", [("-d", "candidate"), ("-d", "nope"), ("-s", "S"), ("-s", ""), ("-d", ""), ("-s", "running")])
    rc, out = convert(BASE, *opt)
    sx.check(rc == 2 and out is None, "refused")
