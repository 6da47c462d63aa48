"""XPath number and string functions."""
from symex.api import task
from .xp import *

BOUNDS = ("numbers are the quarters between -1000 and 1000 and NaN and the "
          "infinities (divisors of mod: quarters between -2 and 2); strings of up to 4 "
          "arbitrary characters (conversion to number: 5, normalize-space: 6 characters of a small alphabet)")

BODY = """
leaf a { type int32; } leaf b { type int32; } leaf c { type int32; }
leaf s { type string; } leaf t { type string; } leaf u { type string; }
leaf d { type decimal64 { fraction-digits 2; } }
leaf p { type boolean; }
"""
SPECIAL = {"nan": "(0 div 0)", "inf": "(1 div 0)", "-inf": "(-1 div 0)"}


def num(sx, name, lim=4000):
    """(text, quarters) of a number, quarters may be the name of a special value"""
    k = sx.choice(name + ".kind", ["q", "nan", "inf", "-inf"])
    if k != "q":
        return SPECIAL[k], k, 0
    v = sx.int(name, -lim, lim)
    return f"(m:{name} div 4)", v, v


def text(sx, q):
    """text of a number of quarters"""
    if isinstance(q, str):
        return {"nan": "NaN", "inf": "Infinity", "-inf": "-Infinity"}[q]
    neg = sx.settle(q < 0)
    a = -q if neg else q
    f = 0
    while a % 4 != f:
        f += 1
    return f"{'-' if neg else ''}{a // 4}{['', '.25', '.5', '.75'][f]}"


def same(sx, r, q, label, den=4):
    """number r is q / den"""
    if isinstance(q, str):
        ok = (r != r) if q == "nan" else r == float(q)
    else:
        ok = r * den == q
    sx.check(ok, label)


def root(dm, **kw):
    return dm.from_raw({"m:" + k: v for k, v in kw.items()})


@task(cases=[{"f": f} for f in ("floor", "ceiling", "round", "number", "-", "- -", "boolean",
                                "string")], budget=200)
def unary(sx, f):
    dm = model(BODY)
    x, q, raw = num(sx, "a")
    r = ev(dm, f"{f}({x})" if f[0] != "-" else f"{f}{x}", root(dm, a=raw))
    sx.observe("result", r + 0.0 if isinstance(r, float) else r)
    if f == "boolean":
        sx.check(sx.Iff(r, q != "nan" if isinstance(q, str) else q != 0), f)
        return
    if f == "string":
        sx.check(r == text(sx, q), f)
        return
    if f == "-" and isinstance(q, str):
        q = {"nan": "nan", "inf": "-inf", "-inf": "inf"}[q]
    elif not isinstance(q, str):
        q = {"floor": lambda: q // 4 * 4, "ceiling": lambda: -(-q // 4) * 4,
             "round": lambda: (q + 2) // 4 * 4, "-": lambda: -q}.get(
                 f, lambda: q)()
    same(sx, r, q, f)


def sign(q):
    return {"inf": 1, "-inf": -1}.get(q) if isinstance(q, str) else \
        1 if q > 0 else -1 if q < 0 else 0


def arith(sx, op, x, y):
    """(result, denominator) by IEEE 754 and XPath 1.0; operands in quarters"""
    nx, ny = isinstance(x, str), isinstance(y, str)
    if x == "nan" or y == "nan":
        return "nan", 1
    inf = {1: "inf", -1: "-inf", 0: "nan"}
    if op in "+-":
        if op == "-":
            y = {"inf": "-inf", "-inf": "inf"}[y] if ny else -y
        if nx and ny:
            return (x if x == y else "nan"), 1
        return (x if nx else y if ny else x + y), 4
    if op == "*":
        if nx or ny:
            return inf[sign(x) * sign(y)], 1
        return x * y, 16
    if op == "div":
        if ny:
            return ("nan" if nx else 0), 1
        if nx:
            return inf[sign(x) * (sign(y) or 1)], 1
        if y == 0:
            return inf[sign(x)], 1
        return (x, y), 0
    # mod: sign of the dividend
    if nx or not ny and y == 0:
        return "nan", 1
    if ny:
        return x, 4
    ax, ay = (-x if x < 0 else x), (-y if y < 0 else y)
    return (-(ax % ay) if x < 0 else ax % ay), 4


@task(cases=[{"op": o} for o in ("+", "-", "*", "div", "mod")], budget=300)
def binary(sx, op):
    dm = model(BODY)
    x, p, a = num(sx, "a")
    y, q, b = num(sx, "b", 4000 if op in "+-" else 40 if op == "*" else 8)
    r = ev(dm, f"{x} {op} {y}", root(dm, a=a, b=b))
    sx.observe("result", r + 0.0 if isinstance(r, float) else r)
    w, den = arith(sx, op, p, q)
    if den:
        same(sx, r, w, op, den)
    else:
        sx.check(r == float(w[0]) / w[1] if not hasattr(w[0], "e") else
                 r * w[1] == w[0], op)


@task(budget=100)
def precedence(sx):
    dm = model(BODY)
    a, b, c = (sx.int(n, -9, 9) for n in "abc")
    rt = root(dm, a=a, b=b, c=c)
    for t, w in (("m:a + m:b * m:c", a + b * c), ("m:a - m:b - m:c", a - b - c),
                 ("m:a - (m:b - m:c)", a - (b - c)), ("-m:a + m:b", b - a),
                 ("(m:a + m:b) * m:c", (a + b) * c), ("m:a --m:b", a + b),
                 ("m:a * -m:b", -a * b), ("m:a*m:b - 4 div 2", a * b - 2)):
        sx.check(ev(dm, t, rt) == w, t)
    for t, w in (("m:a < m:b = true()", a < b), ("m:a = m:b or m:a < m:b and m:b < m:c",
                                                sx.Or(a == b, sx.And(a < b, b < c))),
                 ("m:a + 1 < m:b * 2", a + 1 < b * 2)):
        sx.check(sx.Iff(ev(dm, t, rt), w), t)


@task(budget=100)
def extreme(sx):
    """neither small nor large numbers have an exponent"""
    dm = model(BODY)
    a = sx.int("a", 1, 18)
    e = sx.choice("e", [8, 12])
    r = ev(dm, f"string(m:a div 1{'0' * e})", root(dm, a=a))
    s = str(a)
    sx.check(r == ("0." + "0" * (e - len(s)) + (s[:-1] if s[-1] == "0" else s)),
             "small")
    r = ev(dm, f"string(m:a * 1{'0' * 21})", root(dm, a=a))
    sx.check(r == s + "0" * 21, "large")


NCH = "05.-+e \t\xa0x_"


@task(cases=[{"n": i} for i in range(6)], budget=300)
def number(sx, n):
    """strings to numbers"""
    dm = model(BODY)
    s = sx.str("s", n, n, NCH)
    v, den = None, 1
    cs = list(s)
    while cs and cs[0] in " \t":
        cs.pop(0)
    while cs and cs[-1] in " \t":
        cs.pop()
    neg = bool(cs) and cs[0] == "-"
    if neg:
        cs.pop(0)
    v, den, dig, dot = 0, 1, False, False
    for c in cs:
        if c == "." and not dot:
            dot = True
        elif c == "0" or c == "5":
            v = 10 * v + (5 if c == "5" else 0)
            den *= 10 if dot else 1
            dig = True
        else:
            dig = False
            break
    rt = root(dm, s=s)
    for r in (ev(dm, "number(m:s)", rt), ev(dm, "m:s + 0", rt),
              ev(dm, "number()", rt["m:s"])):
        sx.check(abs(r - (-v if neg else v) / den) < 1e-9 if dig else r != r,
                 "number")


@task(budget=60)
def booleans(sx):
    dm = model(BODY)
    p, s = sx.bool("p"), sx.str("s", 0, 2)
    rt = root(dm, p=p, s=s)
    sx.check(ev(dm, "string(m:p)", rt) == ("true" if p else "false"), "leaf")
    a = sx.int("a", -3, 3)
    rt = root(dm, a=a, s=s)
    c = a == 1
    sx.check(ev(dm, "string(m:a = 1)", rt) == ("true" if c else "false"), "string")
    sx.check(ev(dm, "number(m:a = 1)", rt) == (1 if c else 0), "number")
    sx.check(sx.Iff(ev(dm, "boolean(m:s)", rt), True), "node-set")
    sx.check(sx.Iff(ev(dm, "boolean(m:t)", rt), False), "empty node-set")
    sx.check(sx.Iff(ev(dm, "boolean(string(m:s))", rt), len(s) > 0), "string")
    sx.check(ev(dm, "string(m:t)", rt) == "", "empty")
    sx.check(ev(dm, "string(m:a)", rt) == str(a), "integer")
    r = ev(dm, "number(m:t)", rt)
    sx.check(r != r, "number of nothing")


def at(s, t):
    """position of t in s or -1"""
    for i in range(len(s) - len(t) + 1):
        if all(s[i + j] == t[j] for j in range(len(t))):
            return i
    return -1


@task(cases=[{"n": i} for i in range(5)], thorough_cases=[{"n": i} for i in range(6)], budget=300)
def search(sx, n):
    dm = model(BODY)
    s = sx.str("s", n, n)
    t = sx.str("t", 0, 2)
    rt = root(dm, s=s, t=t)
    i = at(s, t)
    sx.check(sx.Iff(ev(dm, "contains(m:s, m:t)", rt), i >= 0), "contains")
    sx.check(sx.Iff(ev(dm, "starts-with(m:s, m:t)", rt), i == 0), "starts-with")
    sx.check(ev(dm, "substring-before(m:s, m:t)", rt) == (s[:i] if i > 0 else ""),
             "before")
    sx.check(ev(dm, "substring-after(m:s, m:t)", rt) ==
             (s[i + len(t):] if i >= 0 else ""), "after")
    sx.check(ev(dm, "string-length(m:s)", rt) == n, "string-length")
    sx.check(ev(dm, "string-length()", rt["m:t"]) == len(t), "string-length()")
    sx.check(ev(dm, "concat(m:s, 'x', m:t, 1)", rt) == s + "x" + t + "1", "concat")


def rnd(q):
    """round: quarters to quarters"""
    return q if isinstance(q, str) else (q + 2) // 4 * 4


@task(cases=[{"n": n, "l": l} for n in (0, 1, 3) for l in (0, 1)], budget=300)
def substring(sx, n, l):
    dm = model(BODY)
    s = sx.str("s", n, n)
    x, p, a = num(sx, "a", 20)
    y, q, b = num(sx, "b", 24) if l else ("", None, 0)
    r = ev(dm, f"substring(m:s, {x}{', ' + y if l else ''})", root(dm, s=s, a=a, b=b))
    st = rnd(p)
    end = "inf" if not l else arith(sx, "+", st, rnd(q))[0]
    w = ""
    for i in range(n):
        lo = st == "-inf" if isinstance(st, str) else st <= 4 * (i + 1)
        hi = end == "inf" if isinstance(end, str) else 4 * (i + 1) < end
        if lo and hi:
            w += s[i]
    sx.check(r == w, "substring")


@task(cases=[{"n": i} for i in range(7)], budget=200)
def normalize(sx, n):
    dm = model(BODY)
    s = sx.str("s", n, n, "a \t\n\xa0\x85")
    rt = root(dm, s=s)
    w = ""
    gap = False
    for c in s:
        if c in " \t\n":
            gap = True
        else:
            w += (" " if gap and w else "") + c
            gap = False
    sx.check(ev(dm, "normalize-space(m:s)", rt) == w, "normalize-space")
    sx.check(ev(dm, "normalize-space()", rt["m:s"]) == w, "normalize-space()")


@task(cases=[{"f": f, "t": t} for f in range(4) for t in range(4)], budget=200)
def translate(sx, f, t):
    dm = model(BODY)
    s = sx.str("s", 0, 2)
    u, v = sx.str("t", f, f), sx.str("u", t, t)
    r = ev(dm, "translate(m:s, m:t, m:u)", root(dm, s=s, t=u, u=v))
    w = ""
    for c in s:
        i = at(u, c)
        w += c if i < 0 else v[i] if i < t else ""
    sx.check(r == w, "translate")
