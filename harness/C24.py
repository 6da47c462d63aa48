"""JSON data."""
from symex.api import task
from .jdoc import *
from .inst import same
from yangson.enumerations import ContentType

BOUNDS = ("a schema with every built-in type, containers, lists with no, one and two "
          "keys, leaf-lists, a choice, anydata and anyxml, nodes of a second module, "
          "annotations; documents with every subset of members (per part of the schema), up to 3 "
          "entries, arbitrary integers and strings of up to 3 characters; every other kind of "
          "JSON value at every place; arbitrary member names of up to 4 characters")

def trip(sx, doc, label="raw value equals the document"):
    r = DM.from_raw(doc).raw_value()
    sx.check(same(sx, r, doc), label)
    sx.check(kinds_of(r) == kinds_of(doc), label + ": kinds")
    sx.check(orders(r) == orders(doc), label + ": order")
    return r


@task(cases=[{"n": n} for n in TYPES], budget=100)
def leafs(sx, n):
    doc = {"m:c": {n: cval(sx, n), "n:i8": long(sx, "ni")}}
    trip(sx, doc)
    ins = DM.from_raw(doc)
    sx.check(same(sx, ins["m:c"][n].raw_value(), doc["m:c"][n]), "of the leaf")
    sx.check(list(ins["m:c"]) == [n, "n:i8"], "members")


@task(cases=[{"part": p} for p in ("leaflists", "list", "nested", "choice", "top", "mixed")], budget=200)
def shapes(sx, part):
    trip(sx, shape(sx, part))


@task(budget=100)
def qualified(sx):
    """names given with the module where they needn't be"""
    q = [sx.choice(f"q{i}", ["", "m:"]) for i in range(6)]
    a, b, c = sx.int("a", *I8), sx.int("b", *I8), sx.int("c", *I32)
    doc = {"m:c": {q[0] + "i8": a, "n:i8": "5", q[1] + "g": {q[2] + "h": b, "n:h": 3},
                   q[3] + "ll": [c], q[4] + "li": [{q[5] + "k": 1, "j": "x"}]}}
    want = {"m:c": {"i8": a, "n:i8": "5", "g": {"h": b, "n:h": 3}, "ll": [c],
                    "li": [{"k": 1, "j": "x"}]}}
    sx.check(same(sx, DM.from_raw(doc).raw_value(), want), "simple names where possible")
    d2 = {"m:c": {"n:g": {q[0] + "h": "x"}}} if q[0] else {"m:c": {"n:g": {"n:h": "x"}}}
    o = sx.attempt(lambda: DM.from_raw(d2), RawMemberError)
    if q[0]:
        sx.check(o[0] == "exc" and o[1].path == "/m:c/n:g/m:h", "not of this module")
    else:
        sx.check(o[0] == "ok" and o[1].raw_value() == {"m:c": {"n:g": {"h": "x"}}}, "own")


JSON = {"null": None, "true": True, "7": 7, "1.5": 1.5, '"7"': "7", '"x"': "x", '""': "",
        '"/m:c"': "/m:c", "[]": [], "[null]": [None], "[null, null]": [None, None], "{}": {},
        '{"q": 1}': {"q": 1}, "[7]": [7], "[true]": [True], "[[7]]": [[7]], "[{}]": [{}],
        '{"": 1}': {"": 1}, '["x"]': ["x"], '[{"zz": 1}]': [{"zz": 1}], '[{"k": 7}]': [{"k": 7}]}
FIT = {"i8": ["7"], "u64": ['"7"'], "d": ['"7"'], "s": ['"7"', '"x"', '""', '"/m:c"'],
       "bo": ["true"], "em": ["[null]"], "bi": ['"x"', '""'], "en": ['"x"'], "bin": ['""'],
       "idr": ['"x"'], "un": ["7", "true", '"7"', '"x"', '""', '"/m:c"'], "ii": ['"/m:c"'],
       "lr": ['"7"', '"x"', '""', '"/m:c"'], "p": ["7"], "h": ["7"]}
STR = ['"7"', '"x"', '""', '"/m:c"']


def outcome(doc):
    try:
        n = DM.from_raw(doc)
    except RawDataError as e:
        return type(e).__name__, e.path, str(e)
    try:
        n.validate(ctype=ContentType.all)
    except ValidationError as e:
        return "invalid", None, str(e)
    return "ok", n.raw_value(), None


@task(cases=[{"n": n} for n in list(TYPES) + ["entry", "inner"]], budget=100)
def values(sx, n):
    """any kind of JSON value as value of a leaf or leaf-list entry"""
    j = sx.choice("json", list(JSON))
    if n == "entry":
        fit = ["7"]
        pre = sx.choice("i", [0, 1, 2])
        doc, path = {"m:c": {"ll": [1, 2][:pre] + [JSON[j]]}}, f"/m:c/ll/{pre}"
    elif n == "inner":
        fit = ["7"]
        doc = {"m:c": {"li": [{"k": 1, "j": "x"}, {"k": 2, "j": "y", "n:v": JSON[j]}]}}
        path = "/m:c/li=2,y/n:v"
    else:
        fit = FIT[n]
        doc, path = {"m:c": {n: JSON[j]}}, f"/m:c/{n}"
    k, p, text = outcome(doc)
    sx.observe("outcome", (k, str(p)))
    if j in fit:
        sx.check(k == "ok", "accepted")
    elif j in STR and k == "invalid":
        sx.check(n in ("en", "idr", "bi", "ii", "s"), "refused at last")
    else:
        sx.check(k == "RawTypeError" and p == path and path in text, "refused with the place")


ARRAYS = {"/m:c/ll": int, "/m:c/lu": str, "/m:c/li": dict, "/m:c/kl": dict, "/m:tl": int,
          "/m:tt": dict, "/m:c/li=1,x/in": dict}
OBJECTS = ["", "/m:c", "/m:c/g", "/m:c/n:g", "/m:c/g/e", "/m:c/li=1,x", "/m:tt=4", "/m:c/kl/0"]


def place(path, v):
    doc = v
    for s in reversed(path.split("/")[1:]):
        n, eq, ks = s.partition("=")
        if n == "0":
            v = [v]
            continue
        if eq:
            e = {"li": {"k": 1, "j": "x"}, "m:tt": {"k": 4}}[n]
            v = {n: [{**e, **v} if isinstance(v, dict) else v]}
        else:
            v = {n: v}
    return v


@task(cases=[{"p": p} for p in ARRAYS], budget=100)
def arrays(sx, p):
    j = sx.choice("json", list(JSON))
    v = JSON[j]
    k, q, text = outcome(place(p, v))
    sx.observe("outcome", (k, str(q)))
    if not isinstance(v, list):
        want = ("RawTypeError", p)
    else:
        want = None
        for i, e in enumerate(v):
            if ARRAYS[p] is dict:
                if not isinstance(e, dict):
                    want = ("RawTypeError", f"{p}/{i}")
                elif [x for x in e if x != "k"] or "kl" in p and e:
                    kn = {"li": ["k", "j"], "in": ["k"], "kl": [], "m:tt": ["k"]}[p.split("/")[-1]]
                    bad = "zz" if "zz" in e else "k"
                    el = "=" + ",".join(str(e.get(x, "<missing>")) for x in kn) if kn else f"/{i}"
                    want = ("RawMemberError", f"{p}{el}/{bad}")
                elif "k" in e and p.endswith("in"):
                    want = ("RawTypeError", f"{p}=7/k")
            elif type(e) is not ARRAYS[p]:
                want = ("RawTypeError", f"{p}/{i}")
            if ARRAYS[p] is str and e == "x":
                want = ("RawTypeError", f"{p}/{i}")
            if want:
                break
    if want:
        sx.check((k, q) == want and q in text, "refused with the place")
    else:
        sx.check(k in ("ok", "invalid"), "decoded")


@task(cases=[{"p": p} for p in OBJECTS], budget=100)
def objects(sx, p):
    j = sx.choice("json", list(JSON))
    v = JSON[j]
    doc = place(p, v) if p else v
    at = p
    if p == "/m:c/li=1,x" or p == "/m:tt=4":
        at = p.split("=")[0] + "/0"
    k, q, text = outcome(doc)
    sx.observe("outcome", (k, str(q)))
    if not isinstance(v, dict):
        sx.check(k == "RawTypeError" and q == at, "refused")
    elif v and not ("/m:c" == p and v == {"q": 1}):
        sx.check(k == "RawMemberError" and q == p + "/" + list(v)[0], "no such member")
    elif v:
        sx.check(k == "RawTypeError" and q == "/m:c/q", "not a leaf-list")
    else:
        sx.check(k == "ok", "decoded")


PLACES = {"": {"m:c": {}, "m:t": "", "m:tl": [], "m:tt": [], "n:t": 1},
          "/m:c/g": {"h": 1, "m:h": 1, "n:h": 1, "e": {}, "m:e": {}},
          "/m:c/n:g": {"h": "", "n:h": "", "o": [], "n:o": []},
          "/m:tt=4": {"k": 4, "m:k": 4}}


@task(cases=[{"p": p} for p in PLACES], budget=150)
def names(sx, p):
    """member names are those of the schema"""
    s = sx.str("s", 0, 4, "mn:chtoke@l ")
    sx.assume(s[:1] != "@")
    val = None
    for nm, v in PLACES[p].items():
        if s == nm:
            val = v
    doc = {s: 1 if val is None else val}
    if p == "/m:tt=4":
        doc = {"m:tt": [{"k": 4}, doc]} if val is None else {"m:tt": [doc]}
    elif p:
        doc = place(p, doc)
    o = sx.attempt(lambda: DM.from_raw(doc), RawMemberError)
    sx.check((o[0] == "ok") == (val is not None), "names of the schema are accepted")
    if o[0] == "exc" and p != "/m:tt=4":
        sx.check(o[1].path == p + "/" + s, "place")


ANN = {"m:x": (lambda sx, t: sx.int(t, *I8), ["7"]),
       "m:y": (long, ['"7"']),
       "m:z": (lambda sx, t: sx.choice(t, ["m:b", "n:b"]), ['"x"']),
       "m:s": (lambda sx, t: sx.str(t, 0, 2), STR), "m:e": (lambda sx, t: [None], ["[null]"]),
       "m:u": (lambda sx, t: sx.choice(t, [5, "x"]), ["7"] + STR)}


def md(sx, t):
    """metadata object"""
    ks = sx.choice(t, [["m:x"], ["m:y", "m:s"], ["m:z", "m:e"], ["m:u"]])
    return {k: ANN[k][0](sx, f"{t}.{k}") for k in ks}


@task(cases=[{"n": i} for i in range(4)], budget=200)
def metadata(sx, n):
    """annotated data"""
    a = sx.int("a", *I8)
    s = sx.str("s", 0, 2)
    first = sx.choice("first", [False, True])

    def ann(name, v, m):
        return {"@" + name: m, name: v} if first else {name: v, "@" + name: m}
    m = md(sx, "m")
    if n == 0:
        doc = {"m:c": {**ann("i8", a, m), **ann("em", [None], {"m:x": 1}), "s": s}}
    elif n == 1:
        doc = {"m:c": {**({"@": m} if first else {}), "g": {"h": a, "@": {"m:x": 4}},
                       "li": [{"k": 1, "j": s, "@": md(sx, "k")}, {"k": 2, "j": "x", **ann("v", "5", m)}],
                       **({} if first else {"@": m})},
               "m:tt": [{"@": {"m:x": 2}, "k": a}]}
    elif n == 2:
        doc = {**ann("m:t", s, m), "m:c": {**ann("n:i8", "5", {"m:x": 1}), "n:g": ann("h", "x", m)}}
    else:
        doc = {"m:c": {**ann("ax", sx.choice("ax", [{"q": 1}, [1, {"r": None}], "x", None]), m),
                       "ad": {"@": {"any": [1]}, "v": a, "@v": {"thing": s}}}}
    r = trip(sx, doc)
    sx.check(same(sx, DM.from_raw(r).raw_value(), doc), "again")
    ins = DM.from_raw(doc)
    sx.check([k for k in ins] == [k for k in doc if k[0] != "@"], "not members")


@task(budget=150)
def metadata_errors(sx):
    t = sx.choice("target", ["@", "@i8", "@q", "@n:i8", "@zz", "@g"])
    an = sx.choice("annotation", list(ANN) + ["m:q", "x:x", "zz", ""])
    j = sx.choice("json", list(JSON))
    extra = sx.choice("extra", [None, "first", "last"])
    obj = {"i8": 1, "n:i8": "1", t: {an: JSON[j]}}
    if extra == "first":
        obj = {"@n:i8": {"m:x": 1}, "@i8": {"m:x": 1}, **obj}
    if extra == "last":
        obj["bad"] = 1
    o = sx.attempt(lambda: DM.from_raw({"m:c": obj}), MissingAnnotationTarget, UndefinedAnnotation,
                   AnnotationTypeError, RawMemberError)
    k = type(o[1]).__name__ if o[0] == "exc" else "ok"
    sx.observe("outcome", k)
    path = "/m:c" if t == "@" else "/m:c/" + t[1:]
    if t[1:] not in ("", "i8", "n:i8"):
        sx.check(k == "MissingAnnotationTarget" and o[1].path == "/m:c" and o[1].iname == t[1:],
                 "no target")
    elif an not in ANN:
        sx.check(k == "UndefinedAnnotation" and o[1].path == path and o[1].aname == an, "undefined")
    elif j not in ANN[an][1]:
        sx.check(k == "AnnotationTypeError" and o[1].path == path and o[1].aname == an, "type")
        sx.check(isinstance(str(o[1]), str) and "None" not in str(o[1]), "message")
    elif extra == "last":
        sx.check(k == "RawMemberError" and o[1].path == "/m:c/bad", "member")
    else:
        sx.check(k == "ok", "accepted")


@task(budget=100)
def metadata_kinds(sx):
    """metadata are objects"""
    j = sx.choice("json", list(JSON))
    t = sx.choice("target", ["@", "@i8"])
    o = sx.attempt(lambda: DM.from_raw({"m:c": {"i8": 1, t: JSON[j]}}), RawTypeError, UndefinedAnnotation)
    if not isinstance(JSON[j], dict):
        sx.check(o[0] == "exc" and isinstance(o[1], RawTypeError) and
                 o[1].path == "/m:c" + ("" if t == "@" else "/i8"), "an object is needed")
    elif JSON[j]:
        sx.check(o[0] == "exc" and isinstance(o[1], UndefinedAnnotation), "undefined")
    else:
        sx.check(o[0] == "ok", "nothing")


@task(budget=150)
def anything(sx):
    """content of anydata and anyxml is kept"""
    vals = [None, sx.bool("b"), sx.int("i", -9, 9), 1.5, sx.str("s", 0, 2)]
    k = sx.choice("k", list(range(len(vals))))
    w = sx.choice("wrap", ["", "list", "dict", "nest"])
    v = {"": vals[k], "list": [vals[k], []], "dict": {"m:x": vals[k], "@": {}, "": []},
         "nest": [{"q": [{}, [vals[k]]]}]}[w]
    n = sx.choice("n", ["ad", "ax"])
    doc = {"m:c": {n: v}}
    trip(sx, doc)
    c = DM.from_raw(doc)["m:c"][n]
    sx.check(same(sx, c.raw_value(), v), "of the node itself")
    c2 = DM.from_raw({"m:c": {}})["m:c"].put_member(n, v, raw=True)
    sx.check(same(sx, c2.top().raw_value(), doc), "put")
