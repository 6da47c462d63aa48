"""Obsolete and deprecated definitions."""
import re
from symex.api import task
from .common import *
from .alike import build1, compare, lib
from yangson.enumerations import ContentType

BOUNDS = ("every kind of definition (leaf, leaf-list, list, container, presence container, choice, case, shorthand case, default "
          "case, anydata, operation, notification, action) made obsolete or deprecated, directly in a module, in a grouping, an "
          "augment, a submodule or by a definition around it; documents with any subset of the model's members, integers in "
          "-3..130, arrays of up to two entries; the schema is compared with that of the model without these definitions, or "
          "without their status if the YANG library says that obsolete definitions are kept")

# «...» is the definition concerned, S its status, R[...] what deprecated definitions don't require
PLACES = {
    "leaf": ("container c { leaf b { type int8; } «leaf a { S type int8; }» }", {"c": {"a": 1, "b": 1}}),
    "default": ("container c { leaf b { type int8; } «leaf a { S type int8; default 3; }» }", {"c": {"a": 1, "b": 1}}),
    "mandatory leaf": ("container c { leaf b { type int8; } «leaf a { S R[mandatory true;] type int8; }» }", {"c": {"a": 1, "b": 1}}),
    "mandatory state leaf": ("container c { leaf b { type int8; } «leaf a { S config false; R[mandatory true;] type int8; }» }",
                             {"c": {"a": 1, "b": 1}}),
    "top leaf": ("leaf b { type int8; } «leaf a { S R[mandatory true;] type int8; }»", {"a": 1, "b": 1}),
    "leaf-list": ("container c { leaf b { type int8; } «leaf-list a { S R[min-elements 1;] type int8; }» }", {"c": {"a": [1], "b": 1}}),
    "leaf-list default": ("container c { leaf b { type int8; } «leaf-list a { S default 1; default 2; type int8; }» }",
                          {"c": {"a": [1], "b": 1}}),
    "list": ("container c { leaf b { type int8; } «list a { S R[min-elements 1;] key k; leaf k { type int8; } leaf v { type int8; default 2; } }» }",
             {"c": {"a": [{"k": 1, "v": 1}], "b": 1}}),
    "list leaf": ("list l { key k; leaf k { type int8; } «leaf a { S type int8; default 1; }» leaf w { type int8; } }",
                  {"l": [{"k": 1, "a": 1, "w": 1}]}),
    "mandatory list leaf": ("list l { key k; leaf k { type int8; } «leaf a { S type int8; R[mandatory true;] }» }", {"l": [{"k": 1, "a": 1}]}),
    "container": ("container c { leaf b { type int8; } «container a { S leaf d { type int8; default 2; } leaf e { type int8; must '../../b'; } }» }",
                  {"c": {"a": {"d": 1, "e": 1}, "b": 1}}),
    "mandatory container": ("container c { leaf b { type int8; } «container a { S leaf e { type int8; R[mandatory true;] } }» }",
                            {"c": {"a": {"e": 1}, "b": 1}}),
    "presence": ("container c { leaf b { type int8; } «container a { S presence p; leaf e { type int8; default 2; } }» }",
                 {"c": {"a": {"e": 1}, "b": 1}}),
    "deep": ("container o { container c { «leaf a { S R[mandatory true;] type int8; }» } leaf b { type int8; } }", {"o": {"c": {"a": 1}, "b": 1}}),
    "case": ("container c { choice x { case y { leaf b { type int8; } } «case z { S leaf a { type int8; } leaf d { type int8; } }» } }",
             {"c": {"a": 1, "b": 1, "d": 1}}),
    "shorthand": ("container c { choice x { case y { leaf b { type int8; } } «leaf a { S type int8; }» } }", {"c": {"a": 1, "b": 1}}),
    "mandatory choice": ("container c { choice x { mandatory true; leaf b { type int8; } «leaf a { S type int8; }» } }", {"c": {"a": 1, "b": 1}}),
    "in case": ("container c { choice x { case y { leaf b { type int8; } } case z { leaf d { type int8; } «leaf a { S type int8; default 1; }» } } }",
                {"c": {"a": 1, "b": 1, "d": 1}}),
    "mandatory in case": ("container c { choice x { case y { leaf b { type int8; } } case z { leaf d { type int8; } "
                          "«leaf a { S type int8; R[mandatory true;] }» } } }", {"c": {"a": 1, "b": 1, "d": 1}}),
    "choice": ("container c { leaf b { type int8; } «choice x { S leaf a { type int8; } leaf d { type int8; } }» }", {"c": {"a": 1, "b": 1, "d": 1}}),
    "choice default": ("container c { leaf b { type int8; } «choice x { S default y; case y { leaf a { type int8; default 1; } } leaf d { type int8; } }» }",
                       {"c": {"a": 1, "b": 1, "d": 1}}),
    "choice mandatory": ("container c { leaf b { type int8; } «choice x { S R[mandatory true;] leaf a { type int8; } leaf d { type int8; } }» }",
                         {"c": {"a": 1, "b": 1, "d": 1}}),
    "inner choice": ("container c { choice x { case y { «choice w { S leaf a { type int8; } }» leaf b { type int8; } } leaf d { type int8; } } }",
                     {"c": {"a": 1, "b": 1, "d": 1}}),
    "anydata": ("container c { leaf b { type int8; } «anydata a { S R[mandatory true;] }» }", {"c": {"a": {"u": 1}, "b": 1}}),
    "must": ("container c { leaf b { type int8; } «leaf a { S type int8; must '../b > 1'; }» }", {"c": {"a": 1, "b": 1}}),
    "when": ("container c { leaf b { type int8; } «leaf a { S R[mandatory true;] type int8; when '../b > 1'; }» }", {"c": {"a": 1, "b": 1}}),
    "mentioned": ("container c { leaf b { type int8; must 'not(../a)'; } «leaf a { S type int8; default 1; }» }", {"c": {"a": 1, "b": 1}}),
    "counted": ("container c { must 'count(*) < 2'; leaf b { type int8; } «leaf a { S type int8; default 1; }» }", {"c": {"a": 1, "b": 1}}),
    "leafref": ("container c { leaf b { type int8; } «leaf a { S type leafref { path '../d'; } }» «leaf d { S type int8; }» }",
                {"c": {"a": 1, "b": 1, "d": 1}}),
    "inherited": ("container c { leaf b { type int8; } «container a { S container e { leaf f { status current; type int8; default 1; } } }» }",
                  {"c": {"a": {"e": {"f": 1}}, "b": 1}}),
    "several": ("container c { leaf b { type int8; } «leaf a { S type int8; }» «leaf d { S R[mandatory true;] type int8; }» leaf e { type int8; default 1; } }",
                {"c": {"a": 1, "b": 1, "d": 1, "e": 1}}),
    "all": ("container o { leaf b { type int8; } container c { presence p; «leaf a { S type int8; default 1; }» } }",
            {"o": {"b": 1, "c": {"a": 1}}}),
    "same name": ("container c { leaf b { type int8; } «choice b1 { S leaf a { type int8; } }» leaf b2 { type int8; } } container d { leaf a { type int8; } }",
                  {"c": {"a": 1, "b": 1}, "d": {"a": 1}}),
    "rpc": ("rpc r { input { leaf b { type int8; } «leaf a { S R[mandatory true;] type int8; }» } } leaf b { type int8; }", {"b": 1}),
    "notification": ("«notification n { S leaf a { type int8; } }» leaf b { type int8; }", {"b": 1}),
    "operation": ("«rpc r { S input { leaf a { type int8; } } }» leaf b { type int8; }", {"b": 1}),
    "action": ("container c { «action r { S input { leaf a { type int8; } } }» leaf b { type int8; } }", {"c": {"b": 1}}),
}
ABOVE = {
    "grouping": ("grouping g { leaf b { type int8; } «leaf a { S R[mandatory true;] type int8; }» }", "container c { uses g; }", {"c": {"a": 1, "b": 1}}),
    "used": ("grouping g { leaf b { type int8; } container i { leaf a { type int8; } } }", "container c { «container j { S uses g; }» uses g; }",
             {"c": {"b": 1, "i": {"a": 1}, "j": {"b": 1, "i": {"a": 1}}}}),
    "augment": ("", "container c { leaf b { type int8; } } augment /c { «leaf a { S type int8; default 1; }» leaf d { type int8; } }",
                {"c": {"a": 1, "b": 1, "d": 1}}),
    "augment choice": ("", "container c { choice x { case y { leaf b { type int8; } } } } augment /c/x { «case z { S leaf a { type int8; } }» leaf d { type int8; } }",
                       {"c": {"a": 1, "b": 1, "d": 1}}),
    "nested": ("grouping h { «leaf a { S type int8; default 1; }» leaf d { type int8; } } grouping g { leaf b { type int8; } uses h; }",
               "container c { uses g; }", {"c": {"a": 1, "b": 1, "d": 1}}),
}


def variant(text, status, keep):
    """the text with the definitions, or (keep false) without them"""
    if not keep:
        return re.sub("«[^»]*»", "", text)
    text = text.replace("«", "").replace("»", "")
    text = text.replace(" S ", f" status {status}; " if status else " ")
    return re.sub(r"R\[([^]]*)\]", "" if status is None and keep == "optional" else r"\1", text)


def members(sx, spec, path, top=""):
    """arbitrary members of an object"""
    out = {}
    for name, s in spec.items():
        p = f"{path}{name}."
        if not sx.bool(p + "in"):
            continue
        name = top + name
        if isinstance(s, dict):
            out[name] = members(sx, s, p)
        elif isinstance(s, list):
            n = sx.choice(p + "len", [1, 2])
            out[name] = [(members(sx, {k: v for k, v in s[0].items() if k != "k"}, f"{p}{i}") | {"k": i})
                         if isinstance(s[0], dict) else i for i in range(n)]
        else:
            out[name] = sx.int(p + "v", -3, 130)
    return out


def names(spec, path=""):
    for n, s in spec.items():
        p = f"{path}/{n}"
        yield p
        s = s[0] if isinstance(s, list) else s
        if isinstance(s, dict):
            yield from names(s, p)


def paths(sx, dm, spec, prefix="m:"):
    """which data nodes exist"""
    out = []
    for p in names(spec):
        r = sx.attempt(lambda: dm.get_data_node("/" + prefix + p[1:]), YangsonException)
        out.append((p, r[0] if r[0] != "ok" else (r[1] is not None and r[1].data_path(), r[1] is not None and r[1].mandatory)))
    return out


def check(sx, dm, ref, spec, tree=True):
    if tree:
        sx.check(paths(sx, dm, spec) == paths(sx, ref, spec), "data nodes and whether they are mandatory")
        sx.check(json.loads(dm.schema_digest()) == json.loads(ref.schema_digest()), "schema digest")
    compare(sx, dm, ref, [members(sx, spec, "", "m:")], shape=False)


@task(cases=[{"place": p} for p in PLACES])
def obsolete(sx, place):
    """an obsolete definition is as if it were not there"""
    text, spec = PLACES[place]
    dm, ref = (build1({"m": module("m", variant(text, s, k))}) for s, k in (("obsolete", True), (None, False)))
    check(sx, dm, ref, spec)


@task(cases=[{"place": p} for p in ABOVE])
def elsewhere(sx, place):
    """the same in groupings and augments, and with the definition in another module or submodule"""
    above, text, spec = ABOVE[place]
    s, k = sx.choice("variant", [("obsolete", True), (None, False), ("deprecated", True)])
    where = sx.choice("where", ["same", "submodule"])
    texts = []
    for s1, k1 in ((s, k), (None, False) if s == "obsolete" else (None, k and "optional")):
        a, b = variant(above, s1, k1), variant(text, s1, k1)
        if where == "same":
            texts.append({"m": module("m", a + b)})
        else:
            texts.append({"m": module("m", b, imports="include sm;"),
                          "sm": f"submodule sm {{ yang-version 1.1; belongs-to m {{ prefix m; }} {a} }}"})
    mods = None if where == "same" else [{"name": "m", "submodules": [("sm", "")]}]
    dm, ref = (build1(t, mods) for t in texts)
    check(sx, dm, ref, spec, tree=s != "deprecated")


@task(cases=[{"place": p} for p in PLACES])
def kept(sx, place):
    """an obsolete definition that is kept is as if it were current"""
    text, spec = PLACES[place]
    keep = sx.choice("keep", [{"m": True}, {"m": False}, {"m": True, "n": False}, {"n": True}])
    other = module("n", "leaf b { status obsolete; type int8; }")
    dm = lib({"m": module("m", variant(text, "obsolete", True)), "n": other}, keep)
    ref = lib({"m": module("m", variant(text, None, bool(keep.get("m")))), "n": other}, keep)
    check(sx, dm, ref, spec)
    r = sx.attempt(lambda: dm.get_data_node("/n:b"), YangsonException)
    sx.check((r == ("ok", None) or r[0] == "exc") != bool(keep.get("n")), "the other module")


@task(cases=[{"place": p} for p in PLACES if p not in ("choice mandatory", "choice default")])
def deprecated(sx, place):
    """a deprecated definition is as if it were current, except that nothing requires it"""
    text, spec = PLACES[place]
    dm, ref = (build1({"m": module("m", variant(text, s, k))}) for s, k in (("deprecated", True), (None, "optional")))
    doc = members(sx, spec, "", "m:")
    a = doc.get("m:c", {}).get("a")
    if place == "mandatory container" and a is not None:
        sx.assume("e" in a)     # it is not told whether a leaf of a deprecated container that is there may be missing
    compare(sx, dm, ref, [doc], shape=False)


@task(cases=[{"keep": k} for k in (True, False, None)])
def submodules(sx, keep):
    """whether definitions of a submodule are kept is up to its module"""
    d = tmpdir()
    v = sx.int("v", -200, 200)
    texts = {"m": module("m", "container c { leaf b { type int8; } }", imports="include sm;"),
             "sm": "submodule sm { yang-version 1.1; belongs-to m { prefix m; } augment /c { leaf a { status obsolete; type int8; } } }"}
    for n, t in texts.items():
        with open(os.path.join(d, n + ".yang"), "w", encoding="utf-8") as f:
            f.write(t)
    y = json.loads(ylib([{"name": "m", "submodules": [("sm", "")]}]))
    if keep is not None:
        y["ietf-yang-library:modules-state"]["module"][0]["yangson-yl:keep-obsolete"] = keep
    dm = DataModel(json.dumps(y), (d,))
    a = sx.bool("a")
    doc = {"m:c": {"b": v} | ({"a": v} if a else {})}
    r = sx.attempt(lambda: dm.from_raw(doc).validate(), YangsonException)
    inside = sx.And(v >= -128, v <= 127)
    sx.check(sx.Iff(r[0] == "ok", sx.And(inside, not a or bool(keep))), "validity")
