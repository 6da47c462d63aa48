"""XPath comparisons and boolean operators."""
from symex.api import task
from .xp import *

BOUNDS = ("numbers are integers between -20 and 20 and NaN, strings of up to 2 "
          "characters, node-sets of up to 3 integer leafs or 2 string leafs "
          "(or both together), boolean and decimal64 leafs, and every pair of kinds of operands")

BODY = """
leaf a { type int32; } leaf b { type int32; }
leaf s { type string; } leaf t { type string; }
leaf i { type int8; } leaf j { type int8; }
leaf-list p { type int32; ordered-by user; } leaf-list q { type int32; }
leaf-list k { type string; } leaf-list l { type string; }
leaf-list e { type decimal64 { fraction-digits 1; } }
leaf-list o { type boolean; }
container c { leaf z { type string; } }
"""
OPS = ("=", "!=", "<", "<=", ">", ">=")
CH = "01- x"


def number(s):
    """XPath number of a short text; None is NaN"""
    s = list(s)
    while s and s[0] == " ":
        s.pop(0)
    while s and s[-1] == " ":
        s.pop()
    neg = bool(s) and s[0] == "-"
    if neg:
        s.pop(0)
    v = 0
    for c in s:
        if c == "0":
            v = 10 * v
        elif c == "1":
            v = 10 * v + 1
        else:
            return None
    return None if not s else -v if neg else v


def operand(sx, kind, w, data, other=""):
    """(expression, kind, value) with the data it needs"""
    top = sx.n(1 if "str" in other or other in ("mix*", "boo*", "dec*", "int*") else 2, 2)
    A, S, I, P, K = ("a", "s", "i", "p", "k") if w == 0 else ("b", "t", "j", "q", "l")
    if kind == "num":
        v = data["m:" + A] = sx.int(A, -20, 20)
        return f"(m:{A} + 0)", "num", v
    if kind == "nan":
        return "(0 div 0)", "num", None
    if kind == "str":
        v = data["m:" + S] = sx.str(S, 0, top, CH)
        return f"string(m:{S})", "str", v
    if kind == "bool":
        v = data["m:" + I] = sx.int(I, 0, 1)
        return f"(m:{I} = 1)", "bool", v == 1
    if kind == "int*":
        n = sx.choice(P + "n", [0, 1, 2] if other == "str*" else [0, 1, 2, 3])
        v = data["m:" + P] = [sx.int(f"{P}{x}", -20, 20) for x in range(n)]
        return f"m:{P}", "ns", [("int", x) for x in v]
    if kind == "str*":
        n = sx.choice(K + "n", [1] if other in ("dec*", "boo*") else [0, 1, 2])
        v = data["m:" + K] = [sx.str(f"{K}{x}", 0, 1 if x else top, CH) for x in range(n)]
        return f"m:{K}", "ns", [("str", x) for x in v]
    if kind == "mix*":
        x = data["m:" + A] = sx.int(A, -20, 20)
        y = data["m:" + S] = sx.str(S, 0, 1, CH)
        data["m:c"] = {"z": "1"}
        return f"(m:{A} | m:c | m:{S})", "ns", [("int", x), ("str", y)]
    if kind == "dec*":
        n = sx.choice("en", [1, 2])
        v = [sx.int(f"e{x}", -19, 19) for x in range(n)]
        data["m:e"] = [decstr(sx, x) for x in v]
        return "m:e", "ns", [("dec", x) for x in v]
    n = sx.choice("on", [1, 2])
    v = data["m:o"] = [sx.bool(f"o{x}") for x in range(n)]
    return "m:o", "ns", [("boo", x) for x in v]


def decstr(sx, x):
    neg = sx.settle(x < 0)
    a = -x if neg else x
    return f"{'-' if neg else ''}{a // 10}.{a % 10}"


def num10(k, v):
    """tenths of the number of a value, None is NaN"""
    if k == "boo":
        return None
    if k == "str":
        v = number(v)
    return None if v is None else v if k == "dec" else v * 10


def txt(sx, k, v):
    if k == "boo":
        return "true" if v else "false"
    return v if k == "str" else str(v) if k == "int" else decstr(sx, v)


def rel(op, x, y):
    return {"=": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y,
            "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()


def nrel(op, x, y):
    if x is None or y is None:
        return op == "!="
    return rel(op, x, y)


def boolean(sx, k, v):
    if k == "num":
        return v is not None and v != 0
    if k == "bool":
        return v
    return len(v) > 0


def bnum(sx, b):
    return 10 if b else 0


def spec(sx, op, x, y):
    (kx, vx), (ky, vy) = x, y
    if "bool" in (kx, ky) and (op in ("=", "!=") or "ns" in (kx, ky)):
        p, q = boolean(sx, kx, vx), boolean(sx, ky, vy)
        return rel(op, bnum(sx, p), bnum(sx, q))
    items = [[("boon" if k == "bool" else k if k == "str" else "int", v)]
             if k != "ns" else v for k, v in (x, y)]
    numeric = op not in ("=", "!=") or "num" in (kx, ky)

    def n10(k, v):
        return bnum(sx, v) if k == "boon" else num10(k, v)
    return sx.Or(*[nrel(op, n10(*p), n10(*q)) if numeric else
                   rel(op, txt(sx, *p), txt(sx, *q))
                   for p in items[0] for q in items[1]])


KINDS = ("num", "nan", "str", "bool", "int*", "str*", "mix*")


@task(cases=[{"x": x, "y": y, "o": o} for x in KINDS for y in KINDS for o in (0, 1)
             if (x, y, o) != ("nan", "nan", 0)], budget=200)
def compare(sx, x, y, o):
    dm = model(BODY)
    data = {}
    tx, *vx = operand(sx, x, 0, data, y)
    ty, *vy = operand(sx, y, 1, data, x)
    rt = dm.from_raw(data)
    for op in (OPS[:2] if o == 0 else OPS[2:]):
        r = ev(dm, f"{tx} {op} {ty}", rt)
        sx.check(sx.Iff(r, spec(sx, op, vx, vy)), f"{op}")


@task(cases=[{"x": x, "y": y} for x in ("dec*", "boo*") for y in ("num", "str", "bool", "int*", "str*")],
      budget=300)
def kinds(sx, x, y):
    """leafs of other types"""
    dm = model(BODY)
    data = {}
    tx, *vx = operand(sx, x, 0, data, y)
    ty, *vy = operand(sx, y, 1, data, x)
    if y == "int*":
        sx.assume(len(data["m:q"]) < 2)
    rt = dm.from_raw(data)
    for op in OPS:
        w = spec(sx, op, vx, vy)
        sx.check(sx.Iff(ev(dm, f"{tx} {op} {ty}", rt), w), op)
        back = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        sx.check(sx.Iff(ev(dm, f"{ty} {back} {tx}", rt), w), "swapped " + op)


@task(cases=[{"x": x, "y": y} for x in KINDS for y in KINDS], budget=100)
def logic(sx, x, y):
    dm = model(BODY)
    data = {}
    tx, *vx = operand(sx, x, 0, data, y)
    ty, *vy = operand(sx, y, 1, data, x)
    rt = dm.from_raw(data)
    p, q = boolean(sx, *vx), boolean(sx, *vy)
    for t, w in ((f"{tx} and {ty}", sx.And(p, q)), (f"{tx} or {ty}", sx.Or(p, q)),
                 (f"not({tx})", sx.Not(p)), (f"boolean({ty})", q),
                 (f"not({tx} and not({ty}))", sx.Or(sx.Not(p), q)),
                 (f"({tx} or {ty}) and {tx}", p)):
        r = ev(dm, t, rt)
        sx.check(isinstance(r, bool), "a boolean")
        sx.check(sx.Iff(r, w), t)


@task(budget=60)
def chains(sx):
    """comparisons are left associative, their results are booleans"""
    dm = model(BODY)
    a, b = sx.int("a", -3, 3), sx.int("b", -3, 3)
    i = sx.int("i", 0, 2)
    rt = dm.from_raw({"m:a": a, "m:b": b, "m:i": i})
    c = a == b
    sx.check(sx.Iff(ev(dm, "m:a = m:b = (m:i + 0)", rt), sx.Iff(c, i != 0)), "=")
    c = a < b
    sx.check(sx.Iff(ev(dm, "m:a < m:b < m:i + 0", rt), sx.Or(
        sx.And(c, i == 2), sx.And(sx.Not(c), i > 0))), "<")
    sx.check(sx.Iff(ev(dm, "1 = m:a + 0 or 2 = m:b", rt), sx.Or(a == 1, b == 2)), "or")
    sx.check(sx.Iff(ev(dm, "not(m:a - m:b)", rt), a == b), "number")
    sx.check(sx.Iff(ev(dm, "(m:a - m:b) and true()", rt), a != b), "number")


LEVEL = {"or": 0, "and": 1, "=": 2, "!=": 2, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4}


def tobool(v):
    return v if v[0] == "bool" else ("bool", v[1] != 0)


def tonum(sx, v):
    return v[1] if v[0] == "num" else sx.ite(v[1], 1, 0)


def apply(sx, op, x, y):
    if op in ("or", "and"):
        return ("bool", (sx.Or if op == "or" else sx.And)(tobool(x)[1], tobool(y)[1]))
    if op in ("=", "!=") and "bool" in (x[0], y[0]):
        r = sx.Iff(tobool(x)[1], tobool(y)[1])
        return ("bool", r if op == "=" else sx.Not(r))
    p, q = tonum(sx, x), tonum(sx, y)
    if op in "+-":
        return ("num", p + q if op == "+" else p - q)
    return ("bool", rel(op, p, q))


def climb(sx, vals, ops):
    """value of an infix expression: all operators are left associative"""
    while ops:
        top = max(LEVEL[o] for o in ops)
        i = [LEVEL[o] for o in ops].index(top)
        vals = vals[:i] + [apply(sx, ops[i], vals[i], vals[i + 1])] + vals[i + 2:]
        ops = ops[:i] + ops[i + 1:]
    return vals[0]


@task(cases=[{"o": o, "w": w} for o in LEVEL for w in (0, 1)], budget=300)
def mixed(sx, o, w):
    """precedence and associativity of all operators in every combination"""
    dm = model(BODY)
    nm = ["a", "b", "i", "j"]
    vs = [sx.int(x, -1, 2) for x in nm]
    rt = dm.from_raw({f"m:{x}": v for x, v in zip(nm, vs)})
    ops = [o] + [sx.choice(f"o{i}", list(LEVEL)) for i in (1,)]
    if w:
        ops.append(sx.choice("o2", sx.n(["or", "=", "!=", "<", ">=", "-"], list(LEVEL))))
    sp = sx.choice("sp", [" ", "  "]) if not w else " "
    t = "number(m:a)" + "".join(f"{sp}{p}{sp}number(m:{x})" for p, x in zip(ops, nm[1:]))
    r = ev(dm, t, rt)
    k, v = climb(sx, [("num", x) for x in vs[:len(ops) + 1]], ops)
    if k == "bool":
        sx.check(isinstance(r, bool) and sx.Iff(r, v), "boolean result")
    else:
        sx.check(not isinstance(r, bool) and r == v, "number")
