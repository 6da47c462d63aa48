"""Integer types: acceptance by value space, round trips."""
from symex.api import task
from .common import *

BOUNDS = ("integers in [-2**70, 2**70] (all widths and their boundaries); integer "
          "texts: every canonical decimal string of those values, and every string "
          "of up to 4 characters (thorough: 5) over ASCII plus non-ASCII digits, "
          "spaces and letters; raw values of every JSON kind")

BITS = {"int8": (-2**7, 2**7 - 1), "int16": (-2**15, 2**15 - 1),
        "int32": (-2**31, 2**31 - 1), "int64": (-2**63, 2**63 - 1),
        "uint8": (0, 2**8 - 1), "uint16": (0, 2**16 - 1),
        "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1)}
DM = build({"m": module("m", "".join(
    f"leaf {t} {{ type {t}; }}\n" for t in BITS))})
T = types_of(DM, "m", BITS)
CASES = [{"typ": t} for t in BITS]


@task(cases=CASES)
def membership(sx, typ):
    """x in type  <=>  lo <= x <= hi"""
    t = T[typ]
    lo, hi = BITS[typ]
    v = sx.int("v", -2**70, 2**70)
    sx.check(sx.Iff(v in t, sx.And(lo <= v, v <= hi)), "membership")


@task(cases=CASES)
def roundtrip(sx, typ):
    t = T[typ]
    lo, hi = BITS[typ]
    v = sx.int("v", lo, hi)
    raw = t.to_raw(v)
    if typ in ("int64", "uint64"):
        sx.check(isinstance(raw, str), "64-bit integers are encoded as strings")
    else:
        sx.check(isinstance(raw, int) and not isinstance(raw, bool),
                 "integer encoded as number")
    sx.check(t.from_raw(raw) == v, "raw round trip")
    s = t.canonical_string(v)
    sx.check(t.parse_value(s) == v, "canonical string round trip")
    sx.check(t.from_xml(elem(t.to_xml(v))) == v, "XML round trip")
    sx.observe("s", s)


@task(cases=CASES)
def not_a_member(sx, typ):
    """Values of other kinds are not members, whatever they compare equal to."""
    v = sx.choice("v", [True, False, None, "1", 1.0, 0.0, decimal_(1), (None,),
                        b"1", ()])
    sx.check(not (v in T[typ]), "only integers belong to an integer type")


@task(cases=CASES)
def wrong_kind(sx, typ):
    t = T[typ]
    wide = typ in ("int64", "uint64")
    raw = sx.choice("raw", [None, True, False, [None], [1], {}, {"a": 1}, 1.0, 0.5]
                    + ([0, 7] if wide else ["", "7", "-1"]))
    st, v = sx.attempt(lambda: t.from_raw(raw), Exception)
    sx.check(st == "ok", "a raw value of a wrong kind raises no exception")
    sx.check(v is None, "a raw value of a wrong kind is refused")


def spec_int(s):
    """The integer denoted by s, or None (surrounding white space is tolerated)."""
    t = s.strip(" \t\n\r\f\v")
    neg = False
    if t[:1] in ("+", "-"):
        neg = t[0] == "-"
        t = t[1:]
    if len(t) == 0:
        return None
    n = 0
    for c in t:
        if not "0" <= c <= "9":
            return None
        n = 10 * n + (ord(c) - 48)
    return -n if neg else n


@task(cases=[{"typ": "int8"}, {"typ": "uint64"}],
      thorough_cases=CASES, budget=400)
def text(sx, typ):
    """Every text is either the integer it denotes or refused."""
    t = T[typ]
    s = sx.str("s", 0, sx.n(4, 5))
    exp = spec_int(s)
    ways = [("parse_value", lambda: t.parse_value(s)),
            ("from_xml", lambda: t.from_xml(elem(s)))]
    if typ in ("int64", "uint64"):
        ways.append(("from_raw", lambda: t.from_raw(s)))
    for n, w in ways:
        st, v = sx.attempt(w, Exception)
        sx.check(st == "ok", n + " of a text raises no exception")
        if exp is None:
            sx.check(v is None, n + " refuses a text that is not an integer")
        else:
            sx.check(v is not None, n + " accepts an integer text")
            sx.check(v == exp, n + " gives the integer denoted by the text")


@task(cases=[{"typ": "int32"}])
def default_text(sx, typ):
    """Hexadecimal and octal notation in defaults of YANG modules."""
    t = T[typ]
    base = sx.choice("base", [16, 8])
    s = sx.str("s", 1, sx.n(3, 4), "0123456789abcdefABCDEF" if base == 16
               else "01234567")
    n = 0
    for c in s:
        d = (ord(c) - 48 if "0" <= c <= "9" else
             ord(c) - 55 if "A" <= c <= "F" else ord(c) - 87)
        n = n * base + d
    neg = sx.bool("neg")
    txt = ("-" if neg else "") + ("0x" if base == 16 else "0") + s
    sx.check(t.from_yang(txt) == (-n if neg else n), "default value in other base")
