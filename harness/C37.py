"""XPath expressions: text form and syntax tree."""
from symex.api import task
from .xp import *
from yangson.exceptions import InvalidXPath, NotSupported
from xml.sax.saxutils import unescape
from yangson.xpathparser import XPathParser

BOUNDS = ("all expressions built from about forty operands (paths, filters, functions, literals) and all binary operators and "
          "unary minus with up to three operators, on a fixed model with three arbitrary leafs; all string literals of up to "
          "3 characters over quotes, markup and letters; all pairs of about sixty expressions as must statements of which one "
          "is removed by a deviation")

BODY = """
identity i1; identity i2 { base i1; }
leaf a { type int32; } leaf b { type int32; } leaf d { type int32; }
container c { leaf a { type int32; } container c { leaf a { type int32; } }
  list l { key k; ordered-by user; leaf k { type int8; } leaf a { type int32; } } }
leaf-list p { type int32; ordered-by user; }
leaf e { type enumeration { enum x; enum y { value 5; } } }
leaf t { type bits { bit u; bit v; } }
leaf i { type identityref { base i1; } }
leaf r { type leafref { path ../p; } }
"""
DM = model(BODY)


def instance(sx, lo=0, hi=3):
    a, b, d = (sx.int(n, lo, hi) for n in "abd")
    return DM.from_raw({"m:a": a, "m:b": b, "m:d": d, "m:c": {"a": b, "c": {"a": d}, "l": [
        {"k": 1, "a": a}, {"k": 2, "a": 2}, {"k": 3}]}, "m:p": [5, 6, 1], "m:e": "y", "m:t": "v", "m:i": "i2", "m:r": 6})


def fresh(text):
    return XPathParser(text, SchemaContext(DM.schema_data, "m", ("m", ""))).parse()


def reread(text):
    """parse a text form: literals are escaped in it as in XML"""
    return fresh(unescape(text, {"&#9;": "\t", "&#10;": "\n", "&quot;": '"'}))


def value(expr, node):
    k, r = "ok", None
    try:
        r = expr.evaluate(node)
    except XPathTypeError:
        return ("error",)
    return ("nodes", [n.json_pointer() for n in r]) if isinstance(r, NodeSet) else (
        "bool" if r is True or r is False else "str" if isinstance(r, str) else "num", r)


def same(sx, x, y):
    if "error" in (x[0], y[0]):
        return x[0] == y[0]
    if x[0] == "bool" or y[0] == "bool":
        return sx.And(x[0] != "nodes", sx.Iff(x[1], y[1])) if x[0] not in ("str", "num") and \
            y[0] not in ("str", "num") else False
    if x[0] != y[0]:
        return False
    if x[0] == "num":
        return sx.Or(x[1] == y[1], sx.And(x[1] != x[1], y[1] != y[1]))
    return x[1] == y[1]


NODESETS = ["a", "c/a", "p", "/c/c/a", "//a", "c//a", "p[. > 5]", "c/l[k=2]/a", "(p | a)[2]", "(//a)[2]", "(c | c/c)/a",
            "(c/l)[2]/k", "c/descendant-or-self::node()", "c/c/..", "c/l/../a", ".", "..", "*", "c/*", "p[2]/preceding-sibling::p",
            "p[1]/following-sibling::*", "c/c/a/ancestor::node()", "c/c/ancestor-or-self::c", "c/descendant::a", "c/l[2][a=2]",
            "self::node()[a]", "c/self::node()[a = 1]/a", "c/a/parent::node()[c]", "c/descendant-or-self::node()[a]",
            "c/descendant-or-self::*", "/", "current()/a", "deref(r)", "deref(r)/../a", "(p)[1]/../b", "c/self::c",
            "c/descendant-or-self::c", "c/l[position() = last()]/k", "c/l/a[. = ../k]", "p[last() - 1]", "(c/l/a | p)[. > 1][2]",
            "((p | a)[2] | b)[1]", "//c[a]/a", "c/.//a", "./c/a", "(.//a)[1]"]
SCALARS = ["1", "2.5", "'x'", '"it\'s"', "'a & b < c'", "true()", "false()", "count(p)", "sum(p) - 1", "string(a)", "string()",
           "concat('a', b, 'c')", "contains('abc', 'b')", "starts-with('abc', 'b')", "substring('abc', 2)",
           "substring('abc', 2, 1)", "substring-before('abc', 'c')", "substring-after('abc', 'a')", "translate('abc', 'ab', 'x')",
           "string-length('abc')", "string-length()", "normalize-space(' a  b ')", "normalize-space()", "boolean(p)", "not(a = 1)",
           "number(a)", "number()", "floor(2.5)", "ceiling(2.5)", "round(2.5)", "name(c)", "name()", "local-name(c)",
           "local-name()", "position()", "last()", "bit-is-set(t, 'v')", "enum-value(e)", "derived-from(i, 'm:i1')",
           "derived-from-or-self(i, 'm:i2')", "re-match(a, '[01]')", "derived-from(i, 'm:i2')", "bit-is-set(t, 'u')",
           "local-name(c/l[1])", "name(p)", "string(-a)", "not(not(a))", "substring('abcde', a, b)", "sum(p | a)"]
OPS = ["or", "and", "=", "!=", "<", "<=", ">", ">=", "+", "-", "*", "div", "mod"]


def faithful(sx, text, node):
    e = fresh(text)
    k, s = sx.attempt(lambda: str(e))
    sx.check(k == "ok", "an expression has a text form")
    k, again = sx.attempt(lambda: reread(s), ParserException, InvalidXPath, NotSupported)
    sx.check(k == "ok", "the text form is an expression")
    sx.check(same(sx, value(e, node), value(again, node)), "the text form has the value of the expression")
    sx.check(str(again) == s, "the text form is stable")
    return e, again


@task(cases=[{"i": i} for i in range(len(NODESETS) + len(SCALARS))])
def operands(sx, i):
    text = (NODESETS + SCALARS)[i]
    top = instance(sx)
    node = top[sx.choice("context", ["m:c", "m:a"])] if i % 2 and not text.startswith("deref") and \
        "(t" not in text and "(e" not in text and "(i" not in text else top
    e, again = faithful(sx, text, node)
    sx.check(e.syntax_tree() == again.syntax_tree(), "same syntax tree")


@task(cases=[{"o1": o1, "o2": o2} for o1 in OPS for o2 in OPS])
def operators(sx, o1, o2):
    """every grouping of two operators with unary minus anywhere"""
    node = instance(sx, 0, 2)
    form = sx.choice("form", ["a {0} b {1} d", "(a {0} b) {1} d", "a {0} (b {1} d)", "-(a {0} b) {1} d", "a {0} -(b {1} d)",
                              "-a {0} b {1} -d", "-(a {0} (b {1} d))", "a {0} (b {1} (d {0} 1))", "(a {0} (b {1} d)) {0} 1"])
    faithful(sx, form.format(o1, o2), node)


@task(cases=[{"form": f} for f in ("a | b | d", "(a | b) | d", "a | (b | d)", "-(a | b)", "-(a)", "--a + 0", "-(-a)", "-(a + b) * d",
                                   "(a | b) = d", "a = (b | d)", "count(a | b) + 1", "(a + b) * d", "a + b * d", "(a = b)[1]",
                                   "(p | a)[2] = 1", "-p[2]", "(-a)", "(a | c)/a", "(c | c/c)/a | b", "((c))/a", "(p)[2][1]",
                                   "((p)[. > 1])[2]", "(c/l/a)[2]", "c/l/a[2]", "c/l[2]/a", "(c/l)[2]/a", "-a * -b", "- a - - b",
                                   "(1)[1]", "concat((a), (a = b))", "not(a or b and d)", "(a)[. = (b or d)]", "1000000 * 1000000",
                                   "0.1 + 0.2", "123456789.5", "100000000000000000", "0.00001", ".5", "5.", "007")])
def groupings(sx, form):
    k, e = sx.attempt(lambda: fresh(form), ParserException, InvalidXPath)
    if k == "exc":
        sx.check(False, "expression is parsed")
    faithful(sx, form, instance(sx))


@task(cases=[{"k": k, "q": q} for k in range(4) for q in "'\""])
def literals(sx, k, q):
    """string literals with any characters"""
    s = sx.str("s", k, k, alphabet="a &<>'\"\n\t")
    sx.assume(sx.Not(q in s))
    e = fresh(q + s + q)
    sx.check(e.evaluate(DM.from_raw({})) == s, "value of the literal")
    k_, again = sx.attempt(lambda: reread(str(e)), ParserException, InvalidXPath)
    sx.check(k_ == "ok", "the text form is an expression")
    sx.check(again.evaluate(DM.from_raw({})) == s, "value of the text form")


MUSTS = ["a = 1", "a != 1", "a > 1", "a < 1", "a >= 1", "a <= 1", "a + 1", "a - 1", "a * 2", "a div 2", "a mod 2", "-a", "a",
         "m:a = 1", "b = 1", "a = 2", "1 = a", "a = '1'", "a or b", "a and b", "not(a)", "a | b", "count(a)", "sum(a)",
         "floor(a)", "ceiling(a)", "round(a)", "string(a)", "string-length(a)", "number(a)", "boolean(a)", "name(a)", "local-name(a)",
         "p[1]", "p[2]", "p[. = 1]", "p[1][. = 1]", "(p)[1]", "p", "c/a", "c//a", "/c/a", "../a", "./a", "c/*", "*", "c/parent::node()",
         "contains(a, 1)", "starts-with(a, 1)", "substring(a, 1)", "substring(a, 1, 2)", "substring-before(a, 1)",
         "substring-after(a, 1)", "translate(a, 1, 2)", "translate(a, 1, 3)", "concat(a, 1)", "concat(a, 2)", "concat(a, 1, 1)",
         "derived-from(i, 'm:i1')", "derived-from-or-self(i, 'm:i1')", "bit-is-set(t, 'v')", "bit-is-set(t, 'u')",
         "enum-value(e)", "re-match(a, '1')", "re-match(a, '2')", "true()", "false()", "position()", "last()", "current()/a",
         "deref(r)", "normalize-space(a)", "(a + b) * d", "a + b * d", "a - (b - d)", "a - b - d", "(a = b) = d", "a = (b = d)",
         "2.5", "2.25", "c/descendant::a", "c/descendant-or-self::a", "c/a/ancestor::node()", "c/a/ancestor-or-self::node()",
         "p/following-sibling::p", "p/preceding-sibling::p", "c/self::c", "c/self::node()"]


@task(cases=[{"i": i} for i in range(len(MUSTS))])
def told_apart(sx, i):
    """a deviation removes exactly the must statement it spells"""
    j = sx.choice("other", list(range(len(MUSTS))))
    sx.assume(j != i)
    if sx.n(0, 1) == 0:
        sx.assume(abs(j - i) < 12)
    body = BODY + f'container z {{ must "{MUSTS[i]}"; must "{MUSTS[j]}"; }}'
    dev = f'deviation "/z" {{ deviate delete {{ must "{MUSTS[i]}"; }} }}'
    k, dm = sx.attempt(lambda: build({"m": module("m", body + dev)}), AttributeError)
    sx.check(k == "ok", "the model is built")
    left = dm.get_schema_node("/m:z").must
    want = fresh(MUSTS[j])
    same_tree = fresh(MUSTS[i]).syntax_tree() == want.syntax_tree()
    if same_tree:
        node = instance(sx)
        sx.check(same(sx, value(fresh(MUSTS[i]), node), value(want, node)), "equal syntax trees mean equal expressions")
    sx.check(len(left) == 1 and str(left[0].expression) == str(want) or same_tree, "the other must statement stays")
