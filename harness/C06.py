"""union: the first member type that accepts the value."""
from decimal import Decimal
from symex.api import task
from .common import *

BOUNDS = ("16 unions of up to four member types (all kinds of types, nested, with "
          "restrictions, in different orders); raw inputs: texts of up to 4 "
          "characters (thorough: 5), integers in [-2**65, 2**65], booleans, and every "
          "other JSON kind")

UNIONS = [
    ["type int8;", "type string;"],
    ["type string { length 2; }", "type int8;", "type boolean;"],
    ['type int8 { range "0..9"; }', "type uint64;", "type string;"],
    ["type uint64;", "type int8;"],
    ["type enumeration { enum 1; enum a; enum true; }", "type boolean;", "type int16;"],
    ["type boolean;", "type enumeration { enum 1; enum a; enum true; }"],
    ["type bits { bit a; bit b; }", "type string;"],
    ['type string { pattern "[ab ]+"; }', "type bits { bit b; bit a; }"],
    ["type decimal64 { fraction-digits 1; }", "type int8;", "type string;"],
    ["type int32;", "type decimal64 { fraction-digits 2; }"],
    ["type binary { length 1; }", "type string;"],
    ["type empty;", "type boolean;", "type string;"],
    ["type identityref { base i; }", "type string;"],
    ["type instance-identifier;", "type int8;", "type string { length 1..3; }"],
    ["type union { type int8; type string { length 1; } }", "type uint64;",
     "type enumeration { enum zz; }"],
    ["type leafref { path '/m:r'; }", "type boolean;"],
]
_body = "identity i; identity j { base i; } leaf r { type uint8; }\n"
for k, u in enumerate(UNIONS):
    _body += f"leaf u{k} {{ type union {{ {' '.join(u)} }} }}\n"
    for n, t in enumerate(u):
        if t == "type empty;":
            # a mandatory-free leaf of the member type on its own
            pass
        _body += f"leaf u{k}m{n} {{ {t} }}\n"
DM = build({"m": module("m", _body)})
U = {}
for k, u in enumerate(UNIONS):
    U[k] = (DM.get_data_node(f"/m:u{k}").type,
            [DM.get_data_node(f"/m:u{k}m{n}").type for n in range(len(u))])
CASES = [{"u": k} for k in U]


def accept(sx, ts, how):
    """(member number, value) by the definition"""
    for n, t in enumerate(ts):
        st, v = sx.attempt(lambda: how(t), Exception)
        sx.check(st == "ok", "member types raise nothing")
        if v is None:
            continue
        st, m = sx.attempt(lambda: v in t, Exception)
        sx.check(st == "ok", "member types raise nothing in the membership test")
        if m:
            return n, v
    return None, None


def same(a, b):
    return type(a) is type(b) and a == b


def compare(sx, u, how, enc, dec):
    ut, ts = U[u]
    n, exp = accept(sx, ts, how)
    st, got = sx.attempt(lambda: how(ut), Exception)
    sx.check(st == "ok", "no exception")
    if n is None:
        sx.check(got is None, "refused when no member type accepts")
        return None
    sx.check(got is not None, "accepted when a member type accepts")
    sx.check(isinstance(got, bool) == isinstance(exp, bool) and
             isinstance(got, str) == isinstance(exp, str) and
             isinstance(got, tuple) == isinstance(exp, tuple) and
             isinstance(got, Decimal) == isinstance(exp, Decimal) and
             isinstance(got, bytes) == isinstance(exp, bytes),
             "value of the kind of the first accepting member type")
    sx.check(got == exp, "value given by the first accepting member type")
    sx.check(got in ut, "the value is a member of the union")
    # encode; an earlier member may also accept the encoded form
    e = enc(ut, got)
    st, back = sx.attempt(lambda: dec(ut, e), Exception)
    sx.check(st == "ok", "encoded form is readable")
    n2, _ = accept(sx, ts, lambda t: dec(t, e))
    sx.check(n2 is not None and n2 <= n, "encoded form is accepted")
    if n2 == n:
        sx.check(back == got, "encoded form is read back as an equal value")
    return n


def to_xml(t, v):
    if isinstance(v, tuple) and v == (None,):
        return elem(None)
    e = elem(t.to_xml(v))
    if isinstance(v, tuple) and len(v) == 2 and v[1] == "m":
        e.attrib["xmlns:m"] = "http://x/m"
    return e


def from_raw(t, r):
    return t.from_raw(r)


@task(cases=CASES, budget=300)
def text(sx, u):
    s = sx.str("s", 0, sx.n(4, 5), "019ab.- +tz:/=[]\u00e9" if u != 13
               else "/a:b1=[]. ")
    compare(sx, u, lambda t: t.from_raw(s), lambda t, v: t.to_raw(v), from_raw)
    compare(sx, u, lambda t: t.from_xml(elem(s)), to_xml, lambda t, e: t.from_xml(e))
    compare(sx, u, lambda t: t.parse_value(s), lambda t, v: t.canonical_string(v),
            lambda t, c: t.parse_value(c))


WORDS = ["true", "false", "zz", "one", "a b", "b a", "j", "m:j", "i", "m:i", "x:j",
         "YQ==", "YWI=", "1.5", "-1.25", "18446744073709551615", "/m:r", "/m:u0/x",
         "256", "-128", "127", "128", ""]


@task(cases=CASES)
def words(sx, u):
    s = sx.choice("s", WORDS)
    compare(sx, u, lambda t: t.from_raw(s), lambda t, v: t.to_raw(v), from_raw)
    compare(sx, u, lambda t: t.from_xml(elem(s or None)), to_xml,
            lambda t, e: t.from_xml(e))
    compare(sx, u, lambda t: t.parse_value(s), lambda t, v: t.canonical_string(v),
            lambda t, c: t.parse_value(c))


@task(cases=CASES)
def number(sx, u):
    v = sx.int("v", -2**65, 2**65)
    compare(sx, u, lambda t: t.from_raw(v), lambda t, x: t.to_raw(x), from_raw)


@task(cases=CASES)
def other(sx, u):
    vals = [True, False, None, 1.5, [None], [], [1], {}, {"a": 1}]
    v = vals[sx.choice("v", list(range(len(vals))))]
    compare(sx, u, lambda t: t.from_raw(v), lambda t, x: t.to_raw(x), from_raw)


EXPECT = [  # (union, raw, expected first member)
    (0, 5, 0), (0, "5", 1), (0, 200, None), (1, "ab", 0), (1, "5", None), (1, 5, 1),
    (1, True, 2), (2, "5", 1), (2, 5, 0), (2, 10, None), (2, "-5", 2), (3, "5", 0),
    (3, -5, 1), (4, "true", 0), (4, True, 1), (4, 1, 2), (4, "1", 0), (5, "true", 1),
    (6, "a b", 0), (6, "a c", 1), (7, "a b", 0), (8, "1.5", 0), (8, 3, 1), (8, "x", 2),
    (9, 3, 0), (9, "3", 1), (10, "YQ==", 0), (10, "YWI=", 1), (11, [None], 0),
    (11, False, 1), (11, "", 2), (12, "j", 0), (12, "m:j", 0), (12, "i", 1),
    (13, "/m:r", 0), (13, "abc", 2), (13, "abcd", None), (14, 3, 0), (14, "x", 0),
    (14, "11", 1), (14, "zz", 2), (15, 7, 0), (15, True, 1), (15, 300, None)]


@task()
def table(sx):
    """which member is taken, written down independently of the member types"""
    u, raw, n = EXPECT[sx.choice("row", list(range(len(EXPECT))))]
    ut, ts = U[u]
    v = ut.from_raw(raw)
    sx.check((v is None) == (n is None), "accepted or refused")
    if n is not None:
        sx.check(same(v, ts[n].from_raw(raw)), "value of the expected member type")
