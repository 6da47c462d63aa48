"""decimal64: value space, canonical form, exact parsing."""
from decimal import Decimal
from symex.api import task
from .common import *

BOUNDS = ("fraction-digits 1..18; decimals with up to 20 significant digits and up to "
          "two digits more than the type's precision; texts with up to 5 (thorough: 6) "
          "free characters, and digit strings of the full precision")

FD = range(1, 19)
DM = build({"m": module("m", "".join(
    f"leaf d{n} {{ type decimal64 {{ fraction-digits {n}; }} }}\n" for n in FD))})
T = types_of(DM, "m", [f"d{n}" for n in FD])
CASES = [{"fd": n} for n in (1, 2, 6, 10, 18)]
ALL = [{"fd": n} for n in FD]


@task(cases=ALL)
def membership(sx, fd):
    """multiples of 10^-fd within the 64-bit bounds"""
    t = T[f"d{fd}"]
    c = sx.int("c", -10**20, 10**20)
    d = sx.dec("d", -10**20, 10**20, -fd)
    sx.check(sx.Iff(d in t, sx.And(Decimal(-2**63).scaleb(-fd) <= d,
                                   d <= Decimal(2**63 - 1).scaleb(-fd))),
             "membership of multiples of the precision")


@task(cases=ALL)
def finer(sx, fd):
    """values with more digits than the precision are not members"""
    t = T[f"d{fd}"]
    m = sx.int("m", -10**18, 10**18)
    k = sx.int("k", 1, 99)
    d = Decimal(m * 100 + k).scaleb(-(fd + 2))
    sx.check(not (d in t), "a value that is no multiple of the precision")


@task(cases=ALL)
def not_a_member(sx, fd):
    v = sx.choice("v", [True, False, None, 0, 1, "1.0", 1.0, (None,), b"1", (),
                        Decimal("NaN"), Decimal("Infinity"), Decimal("-Infinity"),
                        Decimal("sNaN")])
    st, r = sx.attempt(lambda: v in T[f"d{fd}"], Exception)
    sx.check(st == "ok", "no exception for a value of another kind")
    sx.check(not r, "only finite decimals belong to decimal64")


def canonical(sx, s, fd):
    """s is in canonical form"""
    body = s[1:] if s[:1] == "-" else s
    sx.check("." in body, "canonical form has a decimal point")
    ip, _, fp = body.partition(".")
    sx.check(len(ip) >= 1 and len(fp) >= 1, "a digit on both sides of the point")
    sx.check(len(fp) <= fd, "no more digits than the precision")
    for c in ip + fp:
        sx.check("0" <= c <= "9", "only digits")
    sx.check(len(ip) == 1 or ip[0] != "0", "no leading zero")
    sx.check(len(fp) == 1 or fp[-1] != "0", "no trailing zero")


@task(cases=CASES, thorough_cases=ALL)
def roundtrip(sx, fd):
    t = T[f"d{fd}"]
    # the magnitude splits the work, the digits are free
    d = sx.dec("d", -2**63, 2**63 - 1, -fd)
    s = t.canonical_string(d)
    canonical(sx, s, fd)
    sx.check((s[:1] == "-") == (d < 0), "sign of the canonical form")
    sx.check(t.parse_value(s) == d, "canonical form parses back")
    raw = t.to_raw(d)
    sx.check(raw == s, "JSON encoding is the canonical form")
    sx.check(t.from_raw(raw) == d, "JSON encoding decodes back")
    x = t.to_xml(d)
    sx.check(x == s, "XML encoding is the canonical form")
    sx.check(t.from_xml(elem(x)) == d, "XML encoding decodes back")


@task(cases=[{"fd": n} for n in (1, 2, 18)], thorough_cases=CASES)
def exact(sx, fd):
    """text with up to fd fraction digits is parsed exactly"""
    t = T[f"d{fd}"]
    neg = sx.choice("sign", ["", "-", "+"])
    ip = sx.str("ip", 1, 2, "0123456789")
    fp = sx.str("fp", max(1, fd - 2), fd, "0123456789")
    n = 0
    for c in ip + fp:
        n = 10 * n + (ord(c) - 48)
    if neg == "-":
        n = -n
    v = t.parse_value(neg + ip + "." + fp)
    sx.check(v == Decimal(n).scaleb(-len(fp)), "text parsed exactly")


def spec_dec(s):
    """(coefficient, exponent) denoted by s or None."""
    t = s.strip(" \t\n\r\f\v")
    neg = False
    if t[:1] in ("+", "-"):
        neg = t[0] == "-"
        t = t[1:]
    n = 0
    frac = None
    nd = 0
    for c in t:
        if c == ".":
            if frac is not None or nd == 0:
                return None
            frac = 0
        elif "0" <= c <= "9":
            n = 10 * n + (ord(c) - 48)
            nd += 1
            if frac is not None:
                frac += 1
        else:
            return None
    if nd == 0 or frac == 0:
        return None
    return (-n if neg else n, -(frac or 0))


@task(cases=[{"fd": 3}], budget=500)
def text(sx, fd):
    t = T[f"d{fd}"]
    s = sx.str("s", 0, sx.n(5, 6), "0123456789" "+-. _eENaInf\u0660\u00e9\u3000x")
    exp = spec_dec(s)
    for n, w in (("parse_value", lambda: t.parse_value(s)),
                 ("from_raw", lambda: t.from_raw(s)),
                 ("from_xml", lambda: t.from_xml(elem(s)))):
        st, v = sx.attempt(w, Exception)
        sx.check(st == "ok", n + " of a text raises no exception")
        if exp is None:
            sx.check(v is None, n + " refuses a text that is not a decimal number")
        elif -exp[1] <= fd:
            sx.check(v is not None, n + " accepts a decimal number")
            sx.check(v == Decimal(exp[0]).scaleb(exp[1]), n + " is exact")


@task(cases=[{"fd": 2}])
def wrong_kind(sx, fd):
    t = T[f"d{fd}"]
    raw = sx.choice("raw", [None, True, 0, 1, 1.5, [None], [], {}, ["1.0"]])
    st, v = sx.attempt(lambda: t.from_raw(raw), Exception)
    sx.check(st == "ok", "a raw value of a wrong kind raises no exception")
    sx.check(v is None, "a raw value of a wrong kind is refused")
