"""enumeration, bits, boolean, binary, empty."""
import base64
from symex.api import task
from .common import *

BOUNDS = ("enumerations and bits types of 3 (thorough: 4) members with every mix of "
          "implicit and explicit values (enum values -20..20 and extreme ones, positions 0..12 and some up to 255), "
          "restrictions of them, all subsets of bits in all orders; texts of up to 6 "
          "characters; binary values of 0..6 octets (thorough: 8)")

NAMES = ["aa", "b", "c-c", "d"]


def model(sx, kind, vname, lo, hi, n):
    body = ""
    exp = {}
    top = None
    for i in range(n):
        lab = NAMES[i]
        if sx.choice(f"expl{i}", [False, True]):
            v = sx.int(f"v{i}", lo, hi)
            sx.assume(sx.And(*[v != w for w in exp.values()]))
            body = body + f"{kind} {lab} {{ {vname} " + str(v) + "; }\n"
        else:
            v = 0 if top is None else top + 1
            body = body + f"{kind} {lab};\n"
        exp[lab] = v
        top = v if top is None else sx.ite(v > top, v, top)
    return body, exp


@task()
def enum_values(sx):
    n = sx.n(3, 4)
    body, exp = model(sx, "enum", "value", -20, 20, n)
    dm = sbuild(sx, {"m": module("m", "leaf x { type enumeration {" + body + "} }")})
    t = dm.get_data_node("/m:x").type
    sx.check(len(t.enum) == n, "all enums are there")
    for lab, v in exp.items():
        sx.check(t.enum[lab] == v, "value of an enum")
    vals = [v for _, v in t.sorted_enums()]
    for a, b in zip(vals, vals[1:]):
        sx.check(a < b, "sorted by values")


FDM = build({"m": module("m", """
feature f;
leaf e { type enumeration { enum a; enum b { if-feature f; } enum c; enum d {
  if-feature "not f"; value 8; } enum e; } }
leaf b { type bits { bit a; bit b { if-feature f; } bit c; bit d {
  if-feature f; position 8; } bit e; } }""")})


@task()
def feature_members(sx):
    """members excluded by if-feature count for the implicit values"""
    T = types_of(FDM, "m", "eb")
    i = sx.choice("i", [0, 1, 2, 3])
    lab = "acde"[i]
    sx.check(T["e"].enum.get(lab) == [0, 2, 8, 9][i], "values of enums")
    sx.check(T["b"].bit.get(lab) == [0, 2, None, 9][i], "positions of bits")
    sx.check("b" not in T["e"] and ("b",) not in T["b"], "excluded member")


@task()
def bit_positions(sx):
    n = sx.n(3, 4)
    body, exp = model(sx, "bit", "position", 0, 12, n)
    dm = sbuild(sx, {"m": module("m", "leaf x { type bits {" + body + "} }")})
    t = dm.get_data_node("/m:x").type
    sx.check(len(t.bit) == n, "all bits are there")
    for lab, v in exp.items():
        sx.check(t.bit[lab] == v, "position of a bit")
    # a value with two of them, written in the order of their positions
    p, q = NAMES[n - 1], NAMES[0]
    s = t.canonical_string((p, q))
    sx.check(s == sx.ite(exp[p] < exp[q], p + " " + q, q + " " + p),
             "canonical order of bits")
    v = t.as_int((p, q))
    sx.check(v == 2 ** sx_conc(sx, exp[p], 0, 20) + 2 ** sx_conc(sx, exp[q], 0, 20),
             "integer form of bits")


def sx_conc(sx, v, lo, hi):
    """v as a concrete number (case split)"""
    for k in range(lo, hi):
        if v == k:
            return k
    return hi


ENUM = 'enum one; enum two; enum "with space"; enum t { value -3; }'
BITS = "bit a; bit b { position 5; } bit cc; bit d { position 2; }"
DM = build({"m": module("m", f"""
feature f;
typedef te {{ type enumeration {{ {ENUM} }} }}
typedef tb {{ type bits {{ {BITS} }} }}
leaf e {{ type te; }}
leaf er {{ type te {{ enum two; enum t; }} }}
leaf b {{ type tb; }}
leaf br {{ type tb {{ bit cc; bit a; }} }}
leaf ef {{ type enumeration {{ enum on; enum off {{ if-feature f; }} enum mid; }} }}
leaf bool {{ type boolean; }}
leaf bin {{ type binary; }}
leaf em {{ type empty; }}
""")})
T = types_of(DM, "m", ["e", "er", "b", "br", "bool", "bin", "em", "ef"])
POS = {"a": 0, "b": 5, "cc": 6, "d": 2}
MEMB = {"e": ["one", "two", "with space", "t"], "er": ["two", "t"],
        "ef": ["on", "mid"]}


def decode(sx, t, s):
    """The ways to obtain a value from a text; None if refused."""
    out = []
    for n, w in (("JSON", lambda: t.from_raw(s)), ("text", lambda: t.parse_value(s)),
                 ("XML", lambda: t.from_xml(elem(s)))):
        st, v = sx.attempt(w, Exception)
        sx.check(st == "ok", "no exception when reading " + n)
        if v is not None:
            st, m = sx.attempt(lambda: v in t, Exception)
            sx.check(st == "ok", "no exception in the membership test")
            if not m:
                v = None
        out.append(v)
    return out


def encode(sx, t, v):
    """v survives all encodings"""
    sx.check(t.from_raw(t.to_raw(v)) == v, "JSON round trip")
    sx.check(t.from_xml(elem(t.to_xml(v))) == v, "XML round trip")
    sx.check(t.parse_value(t.canonical_string(v)) == v, "text round trip")


@task(cases=[{"leaf": x} for x in ("e", "er", "ef")])
def enum_text(sx, leaf):
    t = T[leaf]
    s = sx.str("s", 0, 6) if sx.choice("known", [False, True]) is False else \
        sx.choice("label", MEMB["e"] + MEMB["ef"])
    member = False
    for m in MEMB[leaf]:
        if s == m:
            member = True
    for v in decode(sx, t, s):
        if member:
            sx.check(v is not None, "an enum label is accepted")
            sx.check(v == s, "the value of an enum is its label")
            encode(sx, t, v)
        else:
            sx.check(v is None, "a text that is no enum label is refused")


@task(cases=[{"leaf": x} for x in ("b", "br")])
def bits_value(sx, leaf):
    """every subset in every order, with varying white space"""
    t = T[leaf]
    labs = ["a", "b", "cc", "d"]
    words = [sx.choice(f"w{i}", labs + ["", "e", "A"]) for i in range(3)]
    sep = sx.choice("sep", [" ", "  ", "\n\t"])
    s = sep.join(w for w in words)
    got = [w for w in words if w]
    ok = all(w in (labs if leaf == "b" else ["a", "cc"]) for w in got) and len(
        set(got)) == len(got)
    for v in decode(sx, t, s):
        if not ok:
            sx.check(v is None, "unknown and duplicate bits are refused")
            continue
        sx.check(v is not None, "known bits are accepted")
        sx.check(sorted(v) == sorted(got), "the value has exactly the given bits")
        sx.check(t.canonical_string(v) == " ".join(
            sorted(got, key=lambda b: POS[b])), "bits in the order of positions")
        sx.check(t.as_int(v) == sum(1 << POS[b] for b in got), "integer form")
        encode(sx, t, v)


@task(cases=[{"leaf": "b"}])
def bits_text(sx, leaf):
    t = T[leaf]
    s = sx.str("s", 0, sx.n(5, 6), "abcde ")
    words = s.split()
    n = len(words)
    ok = True
    for i in range(n):
        if not (words[i] == "a" or words[i] == "b" or words[i] == "cc"
                or words[i] == "d"):
            ok = False
        for j in range(i):
            if words[i] == words[j]:
                ok = False
    for v in decode(sx, t, s):
        sx.check((v is not None) == ok, "exactly the sequences of known bits")
        if v is not None:
            encode(sx, t, v)


@task(cases=[{"leaf": "bool"}])
def boolean(sx, leaf):
    t = T[leaf]
    b = sx.bool("b")
    sx.check(b in t, "truth values are members")
    encode(sx, t, b)
    raw = t.to_raw(b)
    sx.check(isinstance(raw, bool), "JSON encoding is a boolean")
    s = t.canonical_string(b)
    sx.check(s == sx.ite(b, "true", "false"), "canonical form")
    sx.check(t.to_xml(b) == s, "XML form")


@task(cases=[{"leaf": "bool"}])
def boolean_text(sx, leaf):
    t = T[leaf]
    s = sx.str("s", 0, 6)
    v = decode(sx, t, s)
    sx.check(v[0] is None, "JSON strings are no booleans")
    for x in v[1:]:
        if s == "true":
            sx.check(x is True, "true")
        elif s == "false":
            sx.check(x is False, "false")
        else:
            sx.check(x is None, "no other text is a boolean")


@task(cases=[{"leaf": "bin"}])
def binary(sx, leaf):
    t = T[leaf]
    v = sx.bytes("v", 0, sx.n(6, 8))
    sx.check(v in t, "octets are members")
    encode(sx, t, v)


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


@task(cases=[{"leaf": "bin"}])
def binary_text(sx, leaf):
    """canonical base64 texts are accepted, everything else raises nothing"""
    t = T[leaf]
    s = sx.str("s", 0, 4, "AQ/+=z- \u00e9\n")
    n = len(s)
    vs = decode(sx, t, s)
    bad = n % 4 != 0
    for i in range(n):
        c = s[i]
        if not ("A" <= c <= "Z" or "a" <= c <= "z" or c == "/" or c == "+"
                or c == "=" and (i == n - 1 or i == n - 2 and s[n - 1] == "=")):
            bad = True
    for v in vs:
        sx.check((v is None) == bad, "exactly the well-formed base64 texts")


@task(cases=[{"leaf": "em"}])
def empty(sx, leaf):
    t = T[leaf]
    v = t.from_raw([None])
    sx.check(v is not None and v in t, "[null] is the value of empty")
    sx.check(t.to_raw(v) == [None], "JSON encoding of empty")
    sx.check(t.from_xml(elem(t.to_xml(v))) == v, "XML round trip")
    sx.check(t.parse_value(t.canonical_string(v)) == v, "text round trip")
    s = sx.str("s", 1, 3)
    sx.check(t.parse_value(s) is None, "no text but the empty one")
    sx.check(t.from_xml(elem(s)) is None, "no XML text but the empty one")


KINDS = [None, True, False, 0, 1, -1, 2**40, 1.5, "", "a", "true", "one", "é", [None],
         [], ["a"], [[None]], [0], [False], {}, {"a": None}, [None, None]]


@task(cases=[{"leaf": x} for x in T])
def any_raw(sx, leaf):
    """raw values of every JSON kind: accepted or refused, never an exception"""
    t = T[leaf]
    i = sx.choice("raw", list(range(len(KINDS))))
    raw = KINDS[i]
    st, v = sx.attempt(lambda: t.from_raw(raw), Exception)
    sx.check(st == "ok", "no exception when reading JSON")
    if v is not None:
        st, m = sx.attempt(lambda: v in t, Exception)
        sx.check(st == "ok", "no exception in the membership test")
        v = v if m else None
    good = {"bool": raw is True or raw is False, "em": raw == [None] and type(raw) is
            list and raw[0] is None,
            "bin": raw == "" or raw == "true",
            "b": raw in ("", "a") if isinstance(raw, str) else False,
            "br": raw in ("", "a") if isinstance(raw, str) else False,
            "e": raw == "one" if isinstance(raw, str) else False,
            "er": False, "ef": False}[leaf]
    sx.check((v is not None) == bool(good), "exactly the values of the right kind")


@task(cases=[{"leaf": x} for x in T])
def any_cooked(sx, leaf):
    """membership test of values of any kind"""
    t = T[leaf]
    vals = [None, True, 0, 1.5, "", "a", "one", b"", b"a", (), ("a",), ("a", "a"),
            ("x",), (1,), (None,), [None], [], {}]
    v = vals[sx.choice("v", list(range(len(vals))))]
    st, m = sx.attempt(lambda: v in t, Exception)
    sx.check(st == "ok", "no exception in the membership test")
    good = {"bool": v is True, "em": v == (None,), "bin": isinstance(v, bytes),
            "b": v == () or v == ("a",), "br": v == () or v == ("a",),
            "e": v == "one" if isinstance(v, str) else False, "er": False,
            "ef": False}[leaf]
    sx.check(bool(m) == bool(good), "exactly the members")


WIDE = [0, 1, 7, 31, 32, 63, 64, 70, 255]


@task(budget=200)
def wide_positions(sx):
    """positions up to 255, values in any order of bits"""
    pos, body = {}, ""
    for lab in NAMES[:3]:
        p = sx.choice("p" + lab, WIDE)
        sx.assume(p not in pos.values())
        pos[lab] = p
        body += f"bit {lab} {{ position {p}; }} "
    body += "bit last; bit more;"
    pos["last"] = max(pos.values()) + 1
    pos["more"] = pos["last"] + 1
    t = sbuild(sx, {"m": module("m", "leaf x { type bits {" + body + "} }")}).get_data_node("/m:x").type
    sx.check(t.bit == pos, "positions")
    val = [b for b in ("last", "aa", "b", "c-c") if sx.choice("has-" + b, [False, True])]
    v = t.from_raw(" ".join(val))
    sx.check(v in t and t.as_int(v) == sum(2 ** pos[b] for b in val), "integer form")
    sx.check(t.canonical_string(v) == " ".join(sorted(val, key=lambda b: pos[b])), "order")
    sx.check([b for b, _ in t.sorted_bits()] == sorted(pos, key=lambda b: pos[b]), "sorted bits")


EXT = [-2147483648, -7, -1, 0, 1, 7, 2147483645]


@task(cases=[{"kind": k} for k in ("enum", "bit")], budget=200)
def restricted(sx, kind):
    """restricting a type, also twice, selects from its members and keeps their values"""
    stmt = "value" if kind == "enum" else "position"
    vals, body = {}, ""
    for i, lab in enumerate(NAMES):
        p = sx.choice("v" + lab, [None, *(EXT if kind == "enum" else WIDE)]) if i % 2 else None
        if p is None:
            p = max(vals.values()) + 1 if vals else 0
            body += f"{kind} {lab};"
        else:
            body += f"{kind} {lab} {{ {stmt} {p}; }} "
        sx.assume(p not in vals.values())
        vals[lab] = p
    one = [x for x in NAMES if sx.choice("one-" + x, [False, True])]
    two = [x for x in one if sx.choice("two-" + x, [False, True])]
    sx.assume(two)

    def sub(xs):
        return "".join(f"{kind} {x};" for x in xs)
    w = "enumeration" if kind == "enum" else "bits"
    dm = sbuild(sx, {"m": module("m", f"""typedef t {{ type {w} {{ {body} }} }} typedef u {{ type t {{ {sub(one)} }} }}
leaf a {{ type t; }} leaf b {{ type u; }} leaf c {{ type u {{ {sub(two[::-1])} }} }} leaf d {{ type t {{ {sub(two)} }} }}""")})
    for leaf, xs in (("a", NAMES), ("b", one), ("c", two), ("d", two)):
        t = dm.get_data_node("/m:" + leaf).type
        sx.check((t.enum if kind == "enum" else t.bit) == {x: vals[x] for x in xs}, "members of " + leaf)
        for x in NAMES:
            v = t.from_raw(x)
            sx.check((v in t) == (x in xs), "member of the type")
            if kind == "bit" and x in xs:
                sx.check(t.as_int(v) == 2 ** vals[x], "integer form")
