"""XPath spelling: whitespace, abbreviations, precedence, literals."""
from symex.api import task
from .xp import *
from yangson.xpathparser import XPathParser

BOUNDS = ("fifty expressions with up to two arbitrary whitespace characters at any one (thorough: two) of the token "
          "boundaries, all pairs of binary operators and unary minus over three operands, all number literals of up to 4 "
          "and string literals of up to 3 characters, about forty pairs of abbreviated and full paths, on a fixed model "
          "with three arbitrary leafs")

BODY = """
leaf a { type int32; } leaf b { type int32; } leaf d { type int32; }
leaf or { type int32; } leaf div { type int32; } leaf s-1.x { type string; }
container c { leaf a { type int32; } container c { leaf a { type int32; } }
  list l { key k; ordered-by user; leaf k { type int8; } leaf a { type int32; } } }
leaf-list p { type int32; ordered-by user; }
"""
DM = model(BODY)


def instance(sx, lo=0, hi=3):
    a, b, d = (sx.int(n, lo, hi) for n in "abd")
    return DM.from_raw({"m:a": a, "m:b": b, "m:d": d, "m:or": 4, "m:div": 2, "m:s-1.x": "text",
                        "m:c": {"a": b, "c": {"a": d}, "l": [{"k": 1, "a": a}, {"k": 2, "a": 2}, {"k": 3}]},
                        "m:p": [5, 6, 1]})


def fresh(text):
    return XPathParser(text, SchemaContext(DM.schema_data, "m", ("m", ""))).parse()


def result(node, text):
    r = fresh(text).evaluate(node)
    return ("nodes", [n.json_pointer() for n in r]) if isinstance(r, NodeSet) else (
        "bool" if r is True or r is False else "str" if isinstance(r, str) else "num", r)


def same(sx, x, y):
    if x[0] == "bool" or y[0] == "bool":
        return sx.And(x[0] != "nodes", sx.Iff(x[1], y[1])) if x[0] not in ("str", "num") and \
            y[0] not in ("str", "num") else False
    if x[0] != y[0]:
        return False
    if x[0] == "num":
        return sx.Or(x[1] == y[1], sx.And(x[1] != x[1], y[1] != y[1]))
    return x[1] == y[1]


WORDS = ("or", "and", "div", "mod")
EXPRS = [[t.replace("~", " ") for t in e.split(" ")] for e in (
    "a", "m:a = b", "a != 1", "a < b", "a <= b", "a > b", "a >= b", "a + b", "a - b", "a * b", "a div 2", "a mod 2",
    "- a", "- - a", "a or b", "a and 0", "p | a", "p [ 2 ]", "p [ last ( ) ]", "p [ . > 5 ]", "c / a", "c / c / a",
    "/ c / a", "/", "// a", "c // a", "c / l [ k = 2 ] / a", "c / l [ k = 2 ] [ 1 ] / k", "( a )", "( a + b ) * d",
    "( p ) [ 1 ]", "( c | p ) / a", "* / a", "c / *", "c / l / ..", "c / .", "child :: a", "c / child :: m:a",
    "c / descendant :: a", "c / descendant-or-self :: node ( )", "c / child :: *", "self :: node ( )",
    "c / a / ancestor :: node ( )", "p [ 1 ] / following-sibling :: p", "count ( p )", "concat ( 'x' , a , \"y~z\" )",
    "substring ( s-1.x , 2 , 2 )", "substring ( 'abc' , 2 )", "not ( a )", "true ( )", "current ( ) / a",
    "string ( c / a )", "string ( )", "or or or", "div div div", "a and or", "c / l [ a ] / k", "p = 5 and a",
    "1 . 5", "sum ( p ) - 3", "p [ position ( ) < 3 ]", "boolean ( c // k )", "translate ( 'ab' , 'a' , 'c' )",
    "starts-with ( s-1.x , 't' )", "c [ a = .. / b ] / a", "name ( c )", "number ( a ) + 1", "( 1 )", "'~a~~b~'",
    "floor ( 1.5 )", "p [ p = 1 or not ( a ) ]")]


def joins(toks):
    """whether whitespace is needed / allowed between tokens"""
    out = []
    for x, y in zip(toks, toks[1:]):
        if (x, y) in (("1", "."), (".", "5")):
            out.append("none")
        else:
            wx = x[-1].isalnum() or x in "..'" and False
            wy = y[0].isalnum()
            out.append("need" if wx and wy or wx and y[0] in "-." and y != ".." or
                       x[-1].isalnum() and y == ".." else "may")
    return out


@task(cases=[{"i": i} for i in range(len(EXPRS))])
def spaces(sx, i):
    """whitespace between tokens has no meaning"""
    toks = EXPRS[i]
    js = joins(toks)
    places = [j for j, k in enumerate(["may"] + js + ["may"]) if k != "none"]
    at = [sx.choice("at", places)]
    if sx.n(1, 2) == 2:
        at.append(sx.choice("at2", places))
    plain, text = "", ""
    for j, t in enumerate(toks + [""]):
        need = 0 < j <= len(js) and js[j - 1] == "need"
        plain = plain + (" " if need else "") + t
        for z, y in enumerate(at):
            if y == j:
                text = text + sx.str(f"w{z}", 0, 2, " \t\n\r")
        text = text + (" " if need and j not in at else "") + t
        if need and j in at:
            text = text[:len(text) - len(t)] + " " + t
    node = instance(sx)
    r1 = result(node, plain)
    r2 = result(node, text)
    sx.observe("text", text)
    sx.observe("value", (r2[0], r2[1] + 0) if r2[0] == "num" else r2)
    sx.check(same(sx, r1, r2), "value with other whitespace")


PAIRS = [
    (".", "self::node()"), ("c/.", "c/self::node()"), ("c/..", "c/parent::node()"), ("a", "child::a"),
    ("c/a", "child::c/child::a"), ("//a", "/descendant-or-self::node()/child::a"),
    ("c//a", "c/descendant-or-self::node()/a"), ("c//.", "c/descendant-or-self::node()"),
    ("*", "child::*"), ("c/*", "c/child::*"), ("p[2]", "p[position() = 2]"), ("p[last()]", "p[position() = last()]"),
    ("m:a", "a"), ("m:c/m:a", "c/a"), ("child::m:a", "a"), ("c/l[2]/a", "c/l[position()=2]/a"),
    ("/m:c", "/child::m:c"), ("//*", "/descendant-or-self::node()/*"), ("c//l[1]", "c/descendant-or-self::node()/l[1]"),
    ("p[1][1]", "p[position()=1][position()=1]"), ("count(p[.>1])", "count(p[self::node() > 1])"),
    ("c/l/k[../a]", "c/l/k[parent::node()/child::a]"), ("string()", "string(.)"), ("number(a)", "number(child::a)"),
    ("string-length()", "string-length(string(.))"), ("normalize-space()", "normalize-space(string(.))"),
    ("name()", "name(.)"), ("local-name()", "local-name(.)"), ("number()", "number(.)"),
    ("c/l/ancestor::*", "c/l/ancestor::node()[name()]"), ("(p)[1]", "p[1]"), ("c/descendant::a", "c//a"),
    ("'x'", "\"x\""), ("1", "1.0"), ("01", "1"), (".5", "0.5"), ("1.50", "1.5"), ("1.", "1"), ("- -1", "1"),
    ("not(a)", "not(boolean(a))"), ("a[true()]", "a"), ("c[l]/a", "c[count(l) > 0]/a"), ("p[.=5]", "p[number(.)=5]"),
    ("/", "/."), ("/c/a", "/./c/./a"), ("(c)/a", "c/a"), ("(c/l)[2]", "c/l[2]"), ("(//a)[2]/..", "(//a)[2]/parent::*"),
    ("c/self::c/a", "c/a"), ("c/l[k=2]/preceding-sibling::l", "c/l[k=1]"),
]


@task(cases=[{"i": i} for i in range(len(PAIRS))])
def abbreviations(sx, i):
    node = instance(sx)
    if sx.choice("below", [False, True]):
        node = node["m:c"]
    r1, r2 = (result(node, t) for t in PAIRS[i])
    sx.observe("kinds", (r1[0], r2[0]))
    if PAIRS[i][0].startswith(("c/l/anc", "(//a)")) and r1[0] == "nodes":
        r1, r2 = (("nodes", [p for p in r[1] if p not in ("", "/")]) for r in (r1, r2))
    sx.check(same(sx, r1, r2), f"{PAIRS[i][0]} is {PAIRS[i][1]}")


PREC = {"or": 1, "and": 2, "=": 3, "!=": 3, "<": 4, "<=": 4, ">": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "div": 6,
        "mod": 6}


@task(cases=[{"op1": o} for o in PREC])
def precedence(sx, op1):
    """operators of one level group to the left, others by their level; unary minus binds tighter"""
    op2 = sx.choice("op2", list(PREC))
    neg = sx.choice("neg", [0, 1, 2, 3]) if sx.n(0, 1) or op1 in ("+", "*", "=", "<", "or") else 0
    small = {op1, op2} & {"div", "mod", "*"}
    x = [f"{'- ' if neg == k + 1 else ''}{n}" for k, n in enumerate("abd")]
    px = [f"(- {n})" if neg == k + 1 else n for k, n in enumerate("abd")]
    text = f"{x[0]} {op1} {x[1]} {op2} {x[2]}"
    if PREC[op1] >= PREC[op2]:
        full = f"({px[0]} {op1} {px[1]}) {op2} {px[2]}"
    else:
        full = f"{px[0]} {op1} ({px[1]} {op2} {px[2]})"
    if small:
        data = {f"m:{n}": sx.choice(n, [1, 2, 0] if n != "a" else [3, 0, -2]) for n in "abd"}
        node = DM.from_raw(data)
    else:
        node = instance(sx, -1, 2)
    r1, r2 = result(node, text), result(node, full)
    sx.observe("text", text)
    sx.observe("kinds", (r1[0], r2[0]))
    sx.check(same(sx, r1, r2), f"{text} is {full}")


@task(cases=[{"n": n} for n in (1, 2, 3, 4)], thorough_cases=[{"n": 5}])
def numbers(sx, n):
    """number literals"""
    t = sx.str("t", n, n, "0123456789.")
    dots = 0
    for c in t:
        dots = dots + sx.ite(c == ".", 1, 0)
    valid = sx.And(dots <= 1, t != ".")
    # ".." and "." are paths, "..1" isn't an expression
    out, e = sx.attempt(lambda: fresh(t), ParserException)
    if t == "." or t == "..":
        return
    sx.observe("accepted", out)
    sx.check(sx.Iff(out == "ok", valid), "accepted exactly if it is a number")
    if out == "ok":
        want, scale, seen = 0, 1, False
        for c in t:
            if c == ".":
                seen = True
            else:
                want = 10 * want + "0123456789".index(c)
                if seen:
                    scale = 10 * scale
        v = e.evaluate(DM.from_raw({}))
        sx.observe("value", v)
        d = v - float(want) / scale
        sx.check(sx.And(d < 1e-9, d > -1e-9), "value of the literal")


@task(cases=[{"q": q} for q in "'\""])
def literals(sx, q):
    """string literals hold every character but their quote"""
    t = sx.str("t", 0, 3)
    sx.assume(sx.And(*[c != q for c in t]))
    tail = sx.choice("tail", ["", " ", "\n"])
    v = fresh(q + t + q + tail).evaluate(DM.from_raw({}))
    sx.observe("value", v)
    sx.check(v == t, "value of the literal")


BAD = ["", " ", "a b", "a[", "a]", "a[]", "(", ")", "(a", "a)", "1 2", "a/", "//", "a//", "a or", "or a b", "a and",
       "a =", "= a", "a ! b", "a ! = b", "a < ", "a + ", "+ a", "a |", "| a", "'x", "\"x", "x'", "count(", "count(a",
       "count()", "not()", "true(1)", "concat('a')", "contains('a')", "substring('a')", "foo()", "foo(1)", "child::",
       "child", "child::()", "nope::a", "a::b::c", ":a", "m:", "m::a", "m :a", "..a", "$x", "@a", "a,b", "1 to 2",
       "a == b", "a && b", "a[1", "a[1]]", "position(1)", "last(1)", "floor()", "starts-with('a')", "sum()", "a!=",
       "node", "()", "a()", "/ /", "a / / b c", "translate('a','b')", "current(1)", "5a", "a[1] 2", "a#b", "é!"]
FINE = {"node", "child"}


@task(cases=[{"i": i} for i in range(len(BAD))])
def invalid(sx, i):
    """texts that are no expressions are refused"""
    if BAD[i] in FINE:
        return sx.check(fresh(BAD[i]) is not None, "a path")
    w = sx.str("w", 0, 1, " \n")
    out, e = sx.attempt(lambda: fresh(w + BAD[i] + w), ParserException)
    sx.observe("outcome", (out, type(e).__name__))
    sx.check(out == "exc", "refused")
