"""Comparing two data models."""
from .common import *
from yangson.enumerations import ContentType

_models = {}


def build1(texts, mods=None):
    """build() with memory"""
    k = json.dumps([texts, mods], sort_keys=True)
    if k not in _models:
        try:
            r = ("ok", build(texts, mods))
        except YangsonException as e:
            r = ("exc", e)
        if len(_models) > 500:
            _models.clear()
        _models[k] = r
    r = _models[k]
    if r[0] == "ok":
        return r[1]
    raise r[1]


def same(sx, one, two, docs, names=None):
    """the two models are indistinguishable"""
    a, b = (sx.attempt(lambda: build1(*t), YangsonException) for t in (one, two))
    sx.check(b[0] == "ok", "reference model")
    sx.check(a[0] == "ok", "model")
    if a[0] != "ok" or b[0] != "ok":
        return
    compare(sx, a[1], b[1], docs)


def compare(sx, a, b, docs, shape=True, cts=(ContentType.all, ContentType.config)):
    if shape:
        sx.check(json.loads(a.schema_digest()) == json.loads(b.schema_digest()), "schema digest")
        sx.check(a.ascii_tree() == b.ascii_tree(), "tree diagram")
    for d in docs:
        for ct in cts:
            ra, rb = (outcome(sx, m, d, ct) for m in (a, b))
            sx.check(ra[0] == rb[0], "validation")
            if ra[0] == rb[0]:
                sx.check(ra[1] == rb[1], "defaults")


def outcome(sx, dm, doc, ct):
    i = sx.attempt(lambda: dm.from_raw(doc), YangsonException)
    if i[0] != "ok":
        return type(i[1]).__name__, None
    v = sx.attempt(lambda: i[1].validate(ctype=ct), YangsonException)
    d = i[1].add_defaults(ct).raw_value()
    return ("ok" if v[0] == "ok" else (type(v[1]).__name__, getattr(v[1], "tag", None))), d


def lib(mods, keep):
    """YANG library with or without the extension about obsolete definitions"""
    if keep is None:
        return build1(mods)
    k = json.dumps([mods, keep], sort_keys=True)
    if k not in _kept:
        y = json.loads(ylib([{"name": n} for n in mods]))
        for e in y["ietf-yang-library:modules-state"]["module"]:
            if e["name"] in keep:
                e["yangson-yl:keep-obsolete"] = keep[e["name"]]
        d = tmpdir()
        for n, t in mods.items():
            with open(os.path.join(d, n + ".yang"), "w", encoding="utf-8") as f:
                f.write(t)
        _kept[k] = DataModel(json.dumps(y), (d,))
    return _kept[k]


_kept = {}
