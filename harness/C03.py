"""range and length restrictions."""
from decimal import Decimal
from symex.api import task
from .common import *

BOUNDS = ("range/length expressions of up to 3 parts in all arrangements of single "
          "values, intervals, min and max, over symbolic boundaries; chains of up to "
          "three derived types; values: all integers of the base type, decimals with "
          "up to 4 digits, strings and binary values of length 0..6")


def bounds_of(sx, shape, lo, hi, nums):
    """(text, intervals) for a shape such as "N..N|N..max"."""
    txt = ""
    ivs = []
    it = iter(nums)
    for k, part in enumerate(shape.split("|")):
        if k:
            txt += " | "
        iv = []
        for j, b in enumerate(part.split("..")):
            if j:
                txt += ".."
            if b == "min":
                txt += "min"
                iv.append(lo)
            elif b == "max":
                txt += "max"
                iv.append(hi)
            else:
                n = next(it)
                txt = txt + str(n)
                iv.append(n)
        ivs.append((iv[0], iv[-1]))
    return txt, ivs


def within(sx, v, ivs):
    return sx.Or(*[sx.And(a <= v, v <= b) for a, b in ivs])


def ascending(sx, name, n, lo, hi):
    ns = [sx.int(f"{name}{i}", lo, hi) for i in range(n)]
    for i in range(n - 1):
        sx.assume(ns[i] < ns[i + 1])
    return ns


SHAPES = ["N", "N..N", "min..N", "N..max", "min..max", "min", "max", "N|N..N",
          "min..N|N..max", "min|N..N", "N..N|max", "N|N|N", "min|N|max",
          "min..N|N|N..max"]


def nnum(shape):
    return shape.count("N")


@task(cases=[{"shape": s} for s in SHAPES])
def int_range(sx, shape):
    """leaf of a built-in integer type with a range"""
    lo, hi = -128, 127
    small = nnum(shape) > 1
    ns = ascending(sx, "n", nnum(shape), -3 if small else lo, 12 if small else hi)
    txt, ivs = bounds_of(sx, shape, lo, hi, ns)
    dm = sbuild(sx, {"m": module("m", 'leaf x { type int8 { range "' + txt +
                                 '"; } }')})
    t = dm.get_data_node("/m:x").type
    v = sx.int("v", -200, 200)
    sx.check(sx.Iff(v in t, within(sx, v, ivs)), "member iff in a listed interval")


CHAINS = [("N..N", "min..N", "N..max"), ("N..N", "min..N|N..max", None),
          ("N|N..N", "min|N..N", None), ("N..N", None, "N..max"),
          ("min..N", "max", None), ("N..max", "min", None), ("N..N", "min..max", None),
          ("N..N|N..N", "min..N|N..max", None)]


@task(cases=[{"chain": list(c)} for c in CHAINS])
def int_chain(sx, chain):
    """typedef t1 restricts uint8, t2 restricts t1, the leaf restricts t2"""
    lo, hi = 0, 255
    a = ascending(sx, "a", nnum(chain[0]), 1, 12)
    txt1, iv = bounds_of(sx, chain[0], lo, hi, a)
    body = 'typedef t1 { type uint8 { range "' + txt1 + '"; } }\n'
    last = "t1"
    for k, sh in enumerate(chain[1:]):
        if sh is None:
            if k == 0:
                body += "typedef t2 { type t1; }\n"
                last = "t2"
            continue
        b = ascending(sx, "bc"[k], nnum(sh), 1, 12)
        l, h = iv[0][0], iv[-1][1]
        txt, niv = bounds_of(sx, sh, l, h, b)
        # a restriction must lie within the restricted type
        for x, y in niv:
            sx.assume(sx.And(x <= y, sx.Or(
                *[sx.And(p <= x, y <= q) for p, q in iv])))
        iv = niv
        if k == 0:
            body += 'typedef t2 { type t1 { range "' + txt + '"; } }\n'
            last = "t2"
        else:
            last = 't2 { range "' + txt + '"; }'
    body += "leaf x { type " + last + (" }" if last.endswith("}") else "; }")
    dm = sbuild(sx, {"m": module("m", body)})
    t = dm.get_data_node("/m:x").type
    v = sx.int("v", -5, 300)
    sx.check(sx.Iff(v in t, within(sx, v, iv)),
             "the most derived range decides, min/max taken from the restricted type")


@task(cases=[{"typ": t} for t in ("int16", "int32", "int64", "uint16", "uint32",
                                  "uint64")])
def wide(sx, typ):
    """every integer type takes its own bounds for min and max"""
    b = int(typ.lstrip("uint"))
    lo, hi = (0, 2**b - 1) if typ[0] == "u" else (-2**(b - 1), 2**(b - 1) - 1)
    n = sx.int("n", lo, hi)
    k = sx.choice("k", ["min..N", "N..max", "N"])
    txt, ivs = bounds_of(sx, k, lo, hi, [n])
    dm = sbuild(sx, {"m": module("m", f'leaf x {{ type {typ} {{ range "' + txt +
                                 '"; } }')})
    v = sx.int("v", -2**65, 2**65)
    sx.check(sx.Iff(v in dm.get_data_node("/m:x").type, within(sx, v, ivs)),
             "member iff in a listed interval")


@task(cases=[{"shape": s} for s in ("N..N", "min..N", "N..max", "N|N..N",
                                    "min..N|N..max")])
def dec_range(sx, shape):
    """range of a decimal64 type"""
    ns = ascending(sx, "n", nnum(shape), -2, 11)
    lim = (Decimal(-2**63).scaleb(-2), Decimal(2**63 - 1).scaleb(-2))
    txt, ivs = bounds_of(sx, shape, None, None, ns)
    half = sx.bool("half")       # boundaries n or n.5 (for non-negative ones)
    if half:
        sx.assume(sx.And(*[n >= 0 for n in ns]))
        txt, _ = bounds_of(sx, shape, None, None, [str(n) + ".5" for n in ns])
    off = 50 if half else 0
    dm = sbuild(sx, {"m": module("m", 'leaf x { type decimal64 { fraction-digits 2; '
                                 'range "' + txt + '"; } }')})
    v = sx.int("v", -2000, 2000)
    iv = [(lim[0] if a is None and k == 0 else Decimal(a * 100 + off).scaleb(-2),
           lim[1] if b is None else Decimal(b * 100 + off).scaleb(-2))
          for k, (a, b) in enumerate(ivs)]
    d = Decimal(v).scaleb(-2)
    sx.check(sx.Iff(d in dm.get_data_node("/m:x").type, within(sx, d, iv)),
             "member iff in a listed interval")


LSHAPES = ["N", "N..N", "min..N", "N..max", "N|N..N", "min..N|N..max", "min|N..max",
           "max", "min"]


@task(cases=[{"typ": t, "shape": s} for t in ("string", "binary")
             for s in LSHAPES])
def length(sx, typ, shape):
    """length counts characters of strings and octets of binary values"""
    hi = 4294967295
    ns = ascending(sx, "n", nnum(shape), 0, 11)
    txt, ivs = bounds_of(sx, shape, 0, hi, ns)
    dm = sbuild(sx, {"m": module("m", f'leaf x {{ type {typ} {{ length "' + txt +
                                 '"; } }')})
    t = dm.get_data_node("/m:x").type
    v = sx.str("v", 0, 6) if typ == "string" else sx.bytes("v", 0, 6)
    sx.check(sx.Iff(v in t, within(sx, len(v), ivs)), "length decides membership")


@task(cases=[{"typ": t} for t in ("string", "binary")])
def length_chain(sx, typ):
    a = ascending(sx, "a", 2, 0, 7)
    b = sx.int("b", 0, 7)
    c = sx.int("c", 0, 7)
    sx.assume(sx.And(a[0] <= b, b <= c, c <= a[1]))
    order = sx.choice("order", ["min..b", "b..max", "b..c", "max"])
    exp = {"min..b": (a[0], b), "b..max": (b, a[1]), "b..c": (b, c),
           "max": (a[1], a[1])}[order]
    txt = {"min..b": "min.." + str(b), "b..max": str(b) + "..max",
           "b..c": str(b) + ".." + str(c), "max": "max"}[order]
    dm = sbuild(sx, {"m": module(
        "m", f'typedef t {{ type {typ} {{ length "' + str(a[0]) + ".." + str(a[1]) +
        '"; } } typedef u { type t; }\n leaf x { type u { length "' + txt + '"; } }'
        ' leaf y { type t; }')})
    v = sx.str("v", 0, 6) if typ == "string" else sx.bytes("v", 0, 6)
    sx.check(sx.Iff(v in dm.get_data_node("/m:x").type,
                    sx.And(exp[0] <= len(v), len(v) <= exp[1])),
             "the most derived length decides")
    sx.check(sx.Iff(v in dm.get_data_node("/m:y").type,
                    sx.And(a[0] <= len(v), len(v) <= a[1])),
             "the restricted type itself is not affected")


@task()
def two_users(sx):
    """restricting a derived type does not restrict its other uses"""
    n = sx.int("n", 0, 9)
    k = sx.int("k", 0, 9)
    sx.assume(n <= k)
    dm = sbuild(sx, {"m": module(
        "m", 'typedef t { type int32 { range "0..9"; } }\n'
        'leaf x { type t { range "' + str(n) + ".." + str(k) + '"; } }\n'
        "leaf y { type t; } leaf z { type int32; }")})
    v = sx.int("v", -2**33, 2**33)
    T = types_of(dm, "m", "xyz")
    sx.check(sx.Iff(v in T["x"], sx.And(n <= v, v <= k)), "restricted use")
    sx.check(sx.Iff(v in T["y"], sx.And(0 <= v, v <= 9)), "unrestricted use")
    sx.check(sx.Iff(v in T["z"], sx.And(-2**31 <= v, v < 2**31)), "base type")
