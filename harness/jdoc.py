"""A schema with all kinds of nodes and documents for it."""
from .common import *
from yangson.xmlparser import XMLParser

TYPES = {
    "i8": "int8", "u64": "uint64", "d": "decimal64 { fraction-digits 2; }",
    "s": "string", "bo": "boolean", "em": "empty", "bi": "bits { bit a; bit x; }",
    "en": "enumeration { enum a; enum x; }", "bin": "binary",
    "idr": "identityref { base a; }", "un": "union { type int8; type boolean; type string; }",
    "ii": "instance-identifier { require-instance false; }",
    "lr": "leafref { path \"/m:c/m:s\"; require-instance false; }",
}
LEAFS = "\n".join(f"leaf {n} {{ type {t} }}".replace("} }", "} }") if t.endswith("}")
                  else f"leaf {n} {{ type {t}; }}" for n, t in TYPES.items())
META = {"ietf-yang-metadata": module("ietf-yang-metadata", """
extension annotation { argument name; }""", prefix="md")}
DM = build({**META, "m": module("m", f"""
md:annotation x {{ type int8; }} md:annotation y {{ type int64; }}
md:annotation z {{ type identityref {{ base a; }} }} md:annotation s {{ type string; }}
md:annotation e {{ type empty; }} md:annotation u {{ type union {{ type int8; type string; }} }}
identity a; identity b {{ base a; }} identity x {{ base a; }}
container c {{
  {LEAFS}
  leaf-list ll {{ type int32; }} leaf-list lu {{ type uint64; config false; }}
  leaf-list lb {{ type boolean; }}
  container g {{ leaf h {{ type int8; }} container e {{ presence x; }} }}
  list li {{ key "k j"; leaf k {{ type int8; }} leaf j {{ type string; }}
    leaf v {{ type int64; }}
    list in {{ key k; leaf k {{ type string; }} leaf-list w {{ type int8; }} }} }}
  list kl {{ config false; leaf v {{ type int8; }} }}
  choice h {{ case p {{ leaf p {{ type int8; }} }} leaf-list q {{ type string; }} }}
  anydata ad; anyxml ax;
}}
leaf t {{ type string; }}
leaf-list tl {{ type int8; }}
list tt {{ key k; leaf k {{ type int8; }} }}""",
                                     imports="import ietf-yang-metadata { prefix md; }"),
            "n": module("n", """
identity b { base p:a; }
augment /p:c { leaf i8 { type int64; } container g { leaf h { type string; } leaf-list o { type int8; } } }
augment /p:c/p:g { leaf h { type uint8; } }
augment /p:c/p:li { leaf v { type int8; } }
augment /p:c/p:h { leaf r { type empty; } }
leaf t { type int8; }""", imports="import m { prefix p; }")})
I8, I32, I64 = (-128, 127), (-2 ** 31, 2 ** 31 - 1), (-2 ** 63, 2 ** 63 - 1)


BIG = [2 ** 53 + 1, -2 ** 63, 2 ** 63 - 1, -5]


def long(sx, t):
    """text of a 64-bit integer"""
    k = sx.choice(t + ".k", [None] + BIG)
    return str(sx.int(t, 0, sx.n(19, 999)) if k is None else k)


def cval(sx, n, txt=None):
    """a raw value of the leaf in its canonical form"""
    if n == "i8":
        return sx.int(n, *I8)
    if n == "u64":
        return long(sx, n) if sx.choice("uk", [0, 1]) else str(2 ** 64 - 1)
    if n == "d":
        v = sx.int(n, *sx.n((-20, 120), (-999, 999)))
        neg = sx.settle(v < 0)
        a = -v if neg else v
        s = f"{'-' if neg else ''}{a // 100}.{a // 10 % 10}"
        return s if a % 10 == 0 else f"{s}{a % 10}"
    if n in ("s", "lr"):
        return (txt or sx.str)(n, 0, 3)
    if n == "bo":
        return sx.bool(n)
    if n == "em":
        return [None]
    if n == "un":
        k = sx.choice("un", ["int", "bool", "str"])
        return sx.int("un.i", *I8) if k == "int" else sx.bool("un.b") if k == "bool" \
            else (txt or sx.str)("un.s", 0, 2)
    return sx.choice(n, {"bi": ["", "a", "a x", "x"], "en": ["a", "x"],
                         "bin": ["", "QQ==", "QUI=", "QUJD"],
                         "idr": ["m:b", "n:b", "m:x"],
                         "ii": ["/m:c", "/m:c/li[k=\"1\"][j=\"x\"]/v", "/m:tl[.=\"1\"]", "/m:c/n:i8"]}[n])


def kinds_of(v):
    """kinds of the values inside"""
    if isinstance(v, dict):
        return {k: kinds_of(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [kinds_of(x) for x in v]
    return None


def orders(v):
    if isinstance(v, dict):
        return [(k, orders(x)) for k, x in v.items() if k[:1] != "@"]
    if isinstance(v, (list, tuple)):
        return [orders(x) for x in v]
    return None


def pick(sx, obj, tag=""):
    return {k: v for k, v in obj.items() if sx.choice(f"?{tag}{k}", [False, True])}


def shape(sx, part, txt=None, num=None):
    """a document of some shape"""
    txt, num = txt or sx.str, num or sx.int
    if part == "leaflists":
        doc = {"m:c": pick(sx, {
            "ll": [num(f"ll{i}", *I32) for i in range(sx.choice("n", [0, 1, 2, 3]))],
            "lu": [str(2 ** 60 + i) for i in range(sx.choice("m", [0, 1, 2]))],
            "lb": [sx.bool(f"lb{i}") for i in range(sx.choice("o", [0, 2]))],
            "g": {}, "n:g": {"o": [num("o0", *I8)]}})}
    elif part == "list":
        ent = [pick(sx, {"k": num(f"k{i}", *I8), "j": txt(f"j{i}", 0, 1),
                         "v": "5" if i else long(sx, "v"), "n:v": num(f"nv{i}", *I8)}, f"{i}")
               for i in range(sx.choice("n", [0, 1, 2]))]
        if len(ent) == 2:
            sx.assume(len(ent[0]) > 2 or len(ent[1]) > 2)
            ent.append({"k": 1, "j": "x"})
        doc = {"m:c": {"li": ent}}
    elif part == "nested":
        doc = {"m:c": {"li": [
            {"in": [pick(sx, {"k": txt(f"k{i}{j}", 0, 1), "w": [num(f"w{i}{j}", *I8)]}, f"{i}{j}")
                    for j in range(sx.choice(f"n{i}", [0, 1, 2] if i == 0 else sx.n([1], [0, 1, 2])))]}
                          for i in range(2)],
            "kl": [pick(sx, {"v": num("v", *I8)}), {}]}}
    elif part == "choice":
        doc = {"m:c": sx.choice("c", [{"p": num("p", *I8)}, {"q": [txt("q", 0, 2), "x"]},
                                      {"n:r": [None]}, {"q": []}])}
    elif part == "top":
        doc = pick(sx, {"n:t": num("nt", *I8), "m:c": {}, "m:t": txt("mt", 0, 2),
                        "m:tl": [num("tl", *I8)], "m:tt": [{"k": num("k", *I8)}]})
    else:
        doc = {"m:c": pick(sx, {"g": pick(sx, {"h": num("h", *I8), "e": {},
                                               "n:h": num("nh", 0, 255)}, "g"),
                                "n:g": pick(sx, {"h": txt("ngh", 0, 2),
                                                 "o": []}, "n"),
                                "s": txt("s", 0, 2)})}
    if sx.choice("reverse", [False, True]):
        doc = rev(doc)
    return doc


def rev(v):
    if isinstance(v, dict):
        return {k: rev(v[k]) for k in reversed(list(v))}
    return [rev(x) for x in v] if isinstance(v, list) else v


def reparse(sx, el):
    """what the XML parser makes of the serialised element"""
    if not sx.symbolic:
        return XMLParser(ET.tostring(el, encoding="unicode")).root

    def conv(e, scope):
        scope = dict(scope)
        for k, v in e.attrib.items():
            if k == "xmlns" or k.startswith("xmlns:"):
                scope[k] = v
        p, colon, loc = e.tag.partition(":")
        tag = e.tag if not colon else loc
        ns = scope.get("xmlns:" + p) if colon else scope.get("xmlns")
        r = ET.Element("{" + ns + "}" + tag if ns else tag)
        for k, v in e.attrib.items():
            p, colon, loc = k.partition(":")
            if p == "xmlns":
                continue
            if colon and "xmlns:" + p not in scope:
                raise ET.ParseError("unbound prefix")
            r.attrib["{%s}%s" % (scope["xmlns:" + p], loc) if colon else k] = v
        r.attrib.update(scope)
        r.text = e.text if e.text is not None and len(e.text) else None
        r.tail = e.tail
        for c in e:
            r.append(conv(c, scope))
        return r
    return conv(el, {})
