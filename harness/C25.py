"""XML data."""
from symex.api import task
from .jdoc import *
from .inst import same
from yangson.enumerations import ContentType
from yangson.instance import RootNode
from yangson.xmlparser import XMLParser

BOUNDS = ("the schema and documents of C24 (every built-in type, subsets of members, up to 3 entries, arbitrary integers, "
          "strings of up to 3 XML characters); identities in unions, leafrefs and keys under every binding of prefixes; "
          "input and output of rpcs and actions, notifications; misplaced text, elements and namespaces at every place of "
          "a small document. The XML text itself is parsed by expat, outside the analysis: in symbolic runs its "
          "effect on the element tree is modelled, replays use the real one; metadata in XML and prefixes of "
          "instance identifiers are known findings")
NS = {"m": "http://x/m", "n": "http://x/n"}
TOP = "urn:ietf:params:xml:ns:yang:ietf-yang-instance-data"


def txt(sx):
    """strings of XML characters (no carriage return)"""
    def get(name, lo, hi):
        s = sx.str(name, lo, hi)
        for c in s:
            sx.assume(sx.Or(c == "\n", c == "\t", sx.And(c >= " ", c <= "\ud7ff"),
                            sx.And(c >= "\ue000", c <= "\ufffd"), c >= "\U00010000"))
        return s
    return get


def render(name, value, ns, up=None):
    """elements for a member of a JSON document, independent of the library"""
    p, colon, loc = name.partition(":")
    if not colon:
        p, loc = ns, name
    out = []
    lists = isinstance(value, list) and value != [None]
    for v in value if lists else [value]:
        e = ET.Element(loc)
        if p != up:
            e.attrib["xmlns"] = NS[p]
        if isinstance(v, dict):
            for k, x in v.items():
                for c in render(k, x, p, p):
                    e.append(c)
        elif isinstance(v, bool):
            e.text = "true" if v else "false"
        elif v == [None]:
            pass
        else:
            e.text = v if isinstance(v, str) else str(v)
            if loc in ("idr",):
                q = v.partition(":")[0]
                e.attrib["xmlns:" + q] = NS[q]
        out.append(e)
    return out


def document(doc):
    e = ET.Element("content-data", {"xmlns": TOP})
    for k, v in doc.items():
        for c in render(k, v, None):
            e.append(c)
    return e


def shape_of(e):
    return (e.tag, [shape_of(c) for c in e])


def texts(e):
    out = [e.text]
    for c in e:
        out += texts(c)
    return out


def tidy(v):
    """without empty arrays, which leave no trace in XML"""
    if isinstance(v, dict):
        return {k: tidy(x) for k, x in v.items() if x != []}
    return [tidy(x) for x in v] if isinstance(v, list) else v


def both(sx, doc):
    doc = tidy(doc)
    ins = DM.from_raw(doc)
    x = reparse(sx, ins.to_xml())
    y = reparse(sx, document(doc))
    sx.check(shape_of(x) == shape_of(y), "elements")
    ok = []
    for a, b in zip(texts(x), texts(y)):
        if a is None or b is None:
            ok.append(a is None and b is None)
        else:
            ok.append(a == b)
    sx.check(sx.And(*ok), "texts")
    for label, el in (("written and read", x), ("decodings agree", y)):
        back = DM.from_xml(el)
        r = back.raw_value()
        sx.check(same(sx, r, doc), label)
        sx.check(kinds_of(r) == kinds_of(doc), label + ": kinds")
        sx.check(orders(r) == orders(doc), label + ": order")
        sx.check(back.value == ins.value, label + ": equal values")


@task(cases=[{"n": n} for n in TYPES], budget=100)
def leafs(sx, n):
    v = cval(sx, n, txt(sx) if n != "un" else lambda name, lo, hi: sx.str(name, lo, hi, "xy \u00e9&<"))
    if n in ("u64", "d"):
        both(sx, {"m:c": {n: v, "n:i8": "-5"}})
    else:
        both(sx, {"m:c": {n: v, "n:i8": long(sx, "ni")}})


@task(cases=[{"part": p} for p in ("leaflists", "list", "nested", "choice", "top", "mixed")], budget=250)
def shapes(sx, part):
    used = []

    def few(make, other):
        def get(name, lo, hi):
            used.append(name)
            return make(name, lo, hi) if len(used) <= sx.n(2, 4) else other
        return get
    both(sx, shape(sx, part, few(lambda name, lo, hi: sx.str(name, lo, hi, "x\n<"), "y"),
                   few(lambda name, lo, hi: sx.int(name, 0, 9), 7)))


@task(cases=[{"n": n} for n in ("i8", "u64", "d", "bo", "em", "bi", "en", "bin", "s")])
def lexical(sx, n):
    """any text of a leaf: same verdict and value as the type gives for the text itself"""
    s = txt(sx)("t", 0, 3) if n == "s" else sx.str("t", 0, 3, alphabet="0-1. ax=QAtrue"[:14])
    if n == "en":
        sx.assume(len(s) > 0)
    e = ET.Element("d")
    c = ET.SubElement(e, "c", {"xmlns": NS["m"]})
    leaf = ET.SubElement(c, n)
    leaf.text = s
    o = sx.attempt(lambda: DM.from_xml(reparse(sx, e)), RawTypeError)
    t = DM.get_data_node("/m:c/" + n).type
    if n == "em":
        want = (None,) if len(s) == 0 else None
    elif n == "bi":
        want = t.from_raw(" ".join(s.split()))
    elif n in ("bin", "s", "en"):
        want = t.from_raw(s)
    else:
        want = t.parse_value(s)
    if want is None:
        sx.check(o[0] == "exc" and o[1].path == "/m:c/" + n, "refused with the place")
    else:
        sx.check(o[0] == "ok", "accepted")
        got = o[1]["m:c"][n].value
        sx.check(got == want, "value")


MU = {"p": module("p", """
identity a; identity b { base a; } identity x { base a; }
typedef t { type union { type identityref { base a; } type enumeration { enum e; } type int8; } }
container c {
  leaf i { type identityref { base a; } }
  leaf r { type leafref { path "../i"; require-instance false; } }
  leaf u { type t; }
  leaf ru { type leafref { path "../u"; require-instance false; } }
  leaf-list l { type union { type t; type leafref { path "../u"; require-instance false; } type string; } }
  list k { key "k u"; leaf k { type identityref { base a; } } leaf u { type t; } leaf-list i { type identityref { base a; } } }
  leaf ii { type instance-identifier { require-instance false; } }
}
leaf-list i { type identityref { base a; } }
notification no { leaf i { type t; } leaf-list l { type int8; } container c { list k { key k; leaf k { type string; } } } }
rpc rp { input { leaf i { type t; } leaf-list l { type int8; } container c { list k { key k; leaf k { type string; } } } }
         output { leaf i { type int8; } leaf j { type t; } } }
container o { list l { key k; leaf k { type int8; } action ac { input { leaf i { type t; } }
         output { leaf i { type int8; } leaf j { type t; } } }
         notification no { leaf i { type t; } leaf j { type int8; } } } }
"""),
      "q": module("q", """
identity a { base p:a; } identity b { base p:b; } identity p { base p:a; }
augment /p:c { leaf i { type identityref { base p:a; } } container c { leaf u { type p:t; } } }
augment /p:c/p:k { leaf i { type identityref { base p:a; } } }
augment /p:no { leaf i { type p:t; } }
augment /p:rp/p:input { leaf i { type p:t; } }
""", imports="import p { prefix p; }")}
DU = build(MU)
URL = {"p": "http://x/p", "q": "http://x/q"}
IDS = ["p:b", "p:x", "q:a", "q:b", "q:p"]


def again(sx, dm, doc, sub=None):
    ins = dm.from_raw(doc, sub)
    return ins, dm.from_xml(reparse(sx, ins.to_xml()), sub)


@task(cases=[{"n": n} for n in ("i", "r", "u", "ru", "l", "k", "q:i", "q:c", "top")])
def identities(sx, n):
    """identities as values of any type that admits them"""
    a = sx.choice("a", IDS)
    b = sx.choice("b", IDS)
    if n == "l":
        doc = {"p:c": {n: [a, sx.choice("v", ["e", "z"]), b, sx.int("i", -128, 127)]}}
    elif n == "k":
        doc = {"p:c": {n: [{"k": a, "u": b, "i": [b, a], "q:i": a}, {"k": b, "u": sx.choice("v", ["e", 5])}]}}
    elif n == "q:c":
        doc = {"p:c": {n: {"u": a}, "u": b}}
    elif n == "top":
        doc = {"p:i": [a, b]}
    else:
        doc = {"p:c": {n: a, "q:i" if n != "q:i" else "i": b}}
    ins, back = again(sx, DU, doc)
    sx.check(back.raw_value() == doc, "identities survive")
    sx.check(back.value == ins.value, "equal values")


DECL = {"": {}, "p": {"xmlns:p": URL["p"]}, "q": {"xmlns:q": URL["q"]}, "pq": {"xmlns:p": URL["p"], "xmlns:q": URL["q"]},
        "swap": {"xmlns:p": URL["q"], "xmlns:q": URL["p"]}, "other": {"xmlns:x": URL["p"], "xmlns:y": URL["q"]},
        "unknown": {"xmlns:x": "http://x/zz", "xmlns:p": "http://x/zz"}}


@task(cases=[{"leaf": n} for n in ("i", "q:i", "u", "r")])
def prefixes(sx, leaf):
    """prefixes of identities denote the namespaces they are bound to"""
    outer = sx.choice("outer", list(DECL))
    inner = sx.choice("inner", list(DECL))
    form = sx.choice("form", ["default", "prefixed"])
    pfx = sx.choice("prefix", ["", "p:", "q:", "x:", "y:"])
    name = sx.choice("name", ["a", "b", "x", "p"])
    e = ET.Element("d", {"xmlns": TOP, **DECL[outer]})
    c = ET.SubElement(e, "c", {"xmlns": URL["p"]})
    mod, _, loc = leaf.rpartition(":")
    mod = mod or "p"
    if form == "default":
        lf = ET.SubElement(c, loc, {"xmlns": URL[mod], **DECL[inner]})
        default = mod
    else:
        lf = ET.SubElement(c, "own:" + loc, {"xmlns:own": URL[mod], **DECL[inner]})
        default = "p"
    lf.text = pfx + name
    scope = {**DECL[outer], **DECL[inner]}
    if pfx:
        url = scope.get("xmlns:" + pfx[:-1])
        m = {v: k for k, v in URL.items()}.get(url)
        if url is None:
            sx.assume(pfx != "p:" and pfx != "q:")    # undeclared names of modules are tolerated
    else:
        m = default
    o = sx.attempt(lambda: DU.from_xml(reparse(sx, e)), RawTypeError)
    sx.observe("outcome", o[0])
    if m is None or (leaf == "u" and f"{m}:{name}" not in IDS):
        sx.check(o[0] == "exc" and o[1].path == "/p:c/" + leaf, "refused")
    else:
        sx.check(o[0] == "ok" and o[1].raw_value() == {"p:c": {leaf: f"{m}:{name}"}}, "namespace of the prefix")


@task(cases=[{"sub": s} for s in ("p:rp", "p:no", "out")])
def operations(sx, sub):
    """input and output of rpcs, notifications"""
    body = pick(sx, {"i": sx.choice("i", IDS[2:] + ["e", 5]), "l": [sx.int("l0", -128, 127), 5],
                     "c": {"k": [{"k": sx.str("k", 0, 2, "a b")}, {"k": "x"}]},
                     "q:i": "q:a"})
    if sub == "p:rp":
        doc = {"p:input": body}
    elif sub == "out":
        sub, doc = "p:rp", {"p:output": {"i": sx.int("o", -9, 9), "j": sx.choice("j", IDS)}}
    else:
        doc = {k if ":" in k else "p:" + k: v for k, v in body.items()}
    ins, back = again(sx, DU, doc, sub)
    sx.check(same(sx, back.raw_value(), doc), "survives")
    sx.check(back.value == ins.value, "equal values")
    x = reparse(sx, ins.to_xml())
    sx.check(x.tag == "{" + URL["p"] + "}" + (list(doc)[0][2:] if sub == "p:rp" else "no"), "document element")


@task(cases=[{"what": w} for w in ("ac", "no")])
def nested_operations(sx, what):
    sn = DU.get_schema_node("/p:o/l/" + what)
    if what == "ac":
        doc = sx.choice("dir", [{"p:input": {"i": "q:a"}}, {"p:output": {"i": 5, "j": "p:b"}}, {"p:input": {}}])
    else:
        doc = sx.choice("doc", [{"p:i": "q:a", "p:j": 4}, {"p:j": 5}, {}])
    val = sn.from_raw(doc)
    ins = RootNode(val, sn, DU.schema_data, val.timestamp)
    sx.check(ins.raw_value() == doc, "raw value")
    back = sn.from_xml(reparse(sx, ins.to_xml()))
    sx.check(back == val, "survives")


# places of a small document: (path of tags, JSON pointer, kind)
DOC = ("c", None, "", [("i8", "5", "i8", []), ("g", None, "g", [("h", "1", "h", [])]),
                       ("li", None, "li=1,x", [("k", "1", "k", []), ("j", "x", "j", []), ("v", "5", "v", [])]),
                       ("ll", "4", "ll/0", []), ("s", "", "s", []), ("ll", "5", "ll/1", []),
                       ("li", None, "li=2,y", [("k", "2", "k", []), ("j", "y", "j", [])]),
                       ("kl", None, "kl/0", [("v", "3", "v", [])]), ("kl", None, "kl/1", [])])


def flat(n, ptr):
    yield ptr, n
    for c in n[3]:
        yield from flat(c, ptr + "/" + c[2])


PLACES = dict(flat(DOC, "/m:c"))


def make(n, ptr, at, edit):
    e = ET.Element(n[0])
    e.text = n[1]
    for c in n[3]:
        e.append(make(c, ptr + "/" + c[2], at, edit))
    if ptr == at:
        edit(e)
    return e


BASE = {"m:c": {"i8": 5, "g": {"h": 1}, "li": [{"k": 1, "j": "x", "v": "5"}, {"k": 2, "j": "y"}],
                "ll": [4, 5], "s": "", "kl": [{"v": 3}, {}]}}


@task(cases=[{"what": w} for w in ("text", "tail", "child", "space", "twice", "nons", "own", "badns", "othermod")],
      budget=100)
def misfits(sx, what):
    """content that does not fit is refused with its place"""
    at = sx.choice("at", list(PLACES))
    leaf = PLACES[at][1] is not None
    t = sx.str("t", 1, 2, " \n\tx5<") if what in ("text", "tail", "space") else None
    nm = None
    if what in ("child", "own", "othermod"):
        nm = sx.choice("nm", ["x", "i8", "li", "ll", "kl", "g", "h", "e", "k", "v", "in", "w", "r", "c", "m", "i", "g1", "lr"])

    def edit(e):
        if what in ("text", "space"):
            e.text = t
        elif what == "tail":
            e[0].tail = t
        elif what in ("child", "own"):
            c = ET.SubElement(e, nm)
            c.text = "5"
            if what == "own":
                c.attrib["xmlns"] = NS["m"]
        elif what == "twice":
            for i in range(len(e)):
                e.append(e[i])
        elif what == "nons":
            e.attrib["xmlns"] = ""
        elif what == "badns":
            e.attrib["xmlns"] = "http://x/zz"
        elif what == "othermod":
            c = ET.SubElement(e, nm)
            c.attrib["xmlns"] = NS["n"]
            c.text = "5"
    if what in ("tail", "twice"):
        sx.assume(len(PLACES[at][3]) > 0)
    if what in ("text", "space"):
        sx.assume(not leaf)
    if what == "nons":
        sx.assume(at != "/m:c")
    root = ET.Element("content-data", {"xmlns": TOP})
    c = make(DOC, "/m:c", at, edit)
    c.attrib.setdefault("xmlns", NS["m"])
    root.append(c)
    o = sx.attempt(lambda: DM.from_xml(reparse(sx, root)), RawDataError, MissingModuleNamespace)
    sx.observe("outcome", type(o[1]).__name__ if o[0] == "exc" else "ok")
    if what in ("text", "tail", "space"):
        blank = sx.settle(sx.And(*[sx.char_in(ch, " \n\t") for ch in t]))
        if blank:
            sx.check(o[0] == "ok" and same(sx, o[1].raw_value(), BASE), "white space has no effect")
        else:
            sx.check(o[0] == "exc" and isinstance(o[1], RawTypeError) and o[1].path == at, "misplaced text")
    elif what == "twice":
        keep = at.split("/")[-1].startswith("kl")
        first = PLACES[at][3][0]
        sx.check(o[0] == "exc" and isinstance(o[1], RawTypeError) and
                 o[1].path == at + "/" + first[2], "one instance only")
    elif what == "badns":
        sx.check(o[0] == "exc" and isinstance(o[1], MissingModuleNamespace), "unknown namespace")
    elif what == "nons":
        sx.check(o[0] == "ok" and o[1].raw_value() == BASE, "namespace of the parent")
    elif leaf:
        sx.check(o[0] == "exc" and isinstance(o[1], RawTypeError) and o[1].path == at, "child of a leaf")
    else:
        known = {"/m:c": {"i8", "s", "en", "bi", "li", "ll", "kl", "lr", "lu", "lb", "g", "h", "ii", "un", "d", "bo", "em",
                          "p", "q", "ad", "ax", "bin", "idr", "u64"}, "/m:c/g": {"h", "e"}}.get(
            at, {"k", "j", "v", "in"} if "li" in at else {"v"})
        other = {"/m:c": {"i8", "g", "r"}, "/m:c/g": {"h"}}.get(at, {"v"} if "li" in at else set())
        names = other if what == "othermod" else known
        hit = False
        for x in sorted(names):
            if nm == x:
                hit = True
        if hit:
            return
        sx.check(o[0] == "exc" and isinstance(o[1], RawMemberError), "unknown member")
        sx.check(o[1].path == at + "/" + ("n:" if what == "othermod" else "") + nm, "its place")


@task(cases=[{"n": n} for n in ("i8", "ll", "li", "ns")])
def root_errors(sx, n):
    """errors at the top level and in entries"""
    v = sx.int("v", -300, 300)
    bad = sx.settle(sx.Or(v < -128, v > 127))
    e = ET.Element("d")
    if n == "ns":
        e.append(ET.Element("c"))
        o = sx.attempt(lambda: DM.from_xml(e), RawMemberError)
        sx.check(o[0] == "exc" and o[1].path == "/c", "no namespace")
        return
    c = ET.SubElement(e, "c", {"xmlns": NS["m"]})
    where = {"i8": "/m:c/i8", "ll": "/m:c/kl/1/v", "li": "/m:c/li=2,y/k"}[n]
    if n == "i8":
        ET.SubElement(c, "i8").text = str(v)
    elif n == "ll":
        ET.SubElement(c, "kl")
        ET.SubElement(c, "i8").text = "1"
        ET.SubElement(ET.SubElement(c, "kl"), "v").text = str(v)
    else:
        for k, j in (("1", "x"), (str(v), "y")):
            li = ET.SubElement(c, "li")
            ET.SubElement(li, "k").text = k
            ET.SubElement(li, "j").text = j
        where = "/m:c/li=" + str(v) + ",y/k"
    txt = e if n == "i8" else e
    o = sx.attempt(lambda: DM.from_xml(reparse(sx, txt)), RawTypeError)
    if o[0] == "exc":
        sx.check(bad, "fits")
        sx.check(o[1].path == where, "place")
    else:
        # values outside of the range are refused by validation at the latest
        sx.check(sx.Implies(bad, sx.raises(lambda: o[1].validate(ctype=ContentType.all), ValidationError)), "refused")


@task()
def annotations(sx):
    """metadata (known finding)"""
    doc = sx.choice("doc", [{"m:c": {"@": {"m:x": 5}, "i8": 1}}, {"m:c": {"i8": 1, "@i8": {"m:x": 5}}}])
    o = sx.attempt(lambda: DM.from_xml(reparse(sx, DM.from_raw(doc).to_xml())).raw_value(), ET.ParseError, RawDataError)
    sx.check(o[0] == "ok" and o[1] == doc, "annotations survive")


@task()
def instance_identifiers(sx):
    """prefixes in instance identifiers (known finding for those that are not module names)"""
    p = sx.choice("prefix", ["p", "x"])
    e = ET.Element("d", {"xmlns": TOP, "xmlns:" + p: URL["p"]})
    c = ET.SubElement(e, "c", {"xmlns": URL["p"]})
    ET.SubElement(c, "ii").text = f"/{p}:c/{p}:i"
    ins = DU.from_xml(reparse(sx, e))
    v = ins["p:c"]["ii"].value
    sx.check([(s.name, s.namespace) for s in v][0] == ("c", "p"), "namespace of the prefix in an instance identifier")
