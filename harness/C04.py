"""string: length, patterns, invert-match, derived types."""
from symex.api import task
from .common import *

BOUNDS = ("strings of length 0..7 (thorough: 9) over ASCII, newline and non-ASCII "
          "characters; 13 pattern expressions in combinations of up to three (all pairs of six of them) with and "
          "without invert-match over chains of up to three types, with a length")


def every(s, f):
    for c in s:
        if not f(c):
            return False
    return True


PATS = {
    "[a-c]+": lambda s: len(s) > 0 and every(s, lambda c: "a" <= c <= "c"),
    "a|bc": lambda s: s == "a" or s == "bc",
    "(ab)*": lambda s: s == "ab" * (len(s) // 2),
    ".*": lambda s: every(s, lambda c: c != "\n" and c != "\r"),
    "[^a]*": lambda s: every(s, lambda c: c != "a"),
    "\\d\\d": lambda s: len(s) == 2 and every(s, lambda c: c.isdecimal()),
    "a?b{1,2}": lambda s: s == "b" or s == "bb" or s == "ab" or s == "abb",
    "x^y$": lambda s: s == "x^y$",
    "[0-9a-f]{2,3}": lambda s: 2 <= len(s) <= 3 and every(
        s, lambda c: "0" <= c <= "9" or "a" <= c <= "f"),
}


def pstmt(p, inv):
    return ("pattern '" + p + "'" +
            (" { modifier invert-match; }\n" if inv else ";\n"))


def restr(pats, length=None):
    return (f'length "{length[0]}..{length[1]}";\n' if length else "") + "".join(
        pstmt(p, i) for p, i in pats)


# (patterns of t1, patterns of t2, patterns of the leaf, length at each level)
CASES = [
    dict(levels=[[[p, inv]]], lens=[None]) for p in PATS for inv in (False, True)
] + [
    dict(levels=[[["[a-c]+", False], ["a|bc", True]]], lens=[None]),
    dict(levels=[[["a|bc", False], ["[a-c]+", False], ["(ab)*", True]]],
         lens=[[1, 2]]),
    dict(levels=[[["[a-c]+", False]], [["a|bc", True]]], lens=[None, [2, 3]]),
    dict(levels=[[["a|bc", True]], [["[a-c]+", False]]], lens=[[1, 3], None]),
    dict(levels=[[["[^a]*", False]], [[".*", False]], [["\\d\\d", True]]],
         lens=[[0, 3], None, [1, 3]]),
    dict(levels=[[["[a-c]+", False]], [], [["a?b{1,2}", True]]],
         lens=[None, [1, 3], [2, 3]]),
    dict(levels=[[], [["[0-9a-f]{2,3}", False]], [["\\d\\d", True]]],
         lens=[[1, 3], None, None]),
    dict(levels=[[["(ab)*", True], ["a|bc", True]], [["[a-c]+", True]]],
         lens=[None, [0, 2]]),
]


def model(levels, lens):
    body = ""
    base = "string"
    for k, (ps, ln) in enumerate(zip(levels, lens)):
        r = restr(ps, ln)
        body += f"typedef t{k} {{ type {base} " + ("{" + r + "}" if r else ";") + "}\n"
        base = f"t{k}"
    # the last level again directly on a leaf, and a leaf with the base of it
    r = restr(levels[-1], lens[-1])
    prev = f"t{len(levels) - 2}" if len(levels) > 1 else "string"
    body += f"leaf x {{ type {base}; }}\nleaf y {{ type {prev} " + (
        "{" + r + "}" if r else ";") + "}\n" + f"leaf z {{ type {prev}; }}\n"
    return build({"m": module("m", body)})


MODELS = [types_of(model(c["levels"], c["lens"]), "m", "xyz") for c in CASES]
for k, c in enumerate(CASES):
    c["no"] = k


def allowed(s, levels, lens):
    for ps, ln in zip(levels, lens):
        if ln and not ln[0] <= len(s) <= ln[1]:
            return False
        for p, inv in ps:
            if bool(PATS[p](s)) == inv:
                return False
    return True


@task(cases=CASES)
def membership(sx, levels, lens, no):
    t = MODELS[no]
    s = sx.str("s", 0, sx.n(7, 9) if len(levels) == 1 else sx.n(6, 7),
               None if len(levels) == 1 else "abcd0f\u0660\n~")
    exp = allowed(s, levels, lens)
    sx.check((s in t["x"]) == exp, "member of the derived type")
    sx.check((s in t["y"]) == exp, "member of the type restricted on the leaf")
    if len(levels) > 1:
        sx.check((s in t["z"]) == allowed(s, levels[:-1], lens[:-1]),
                 "the restricted type itself stays as it was")


@task(cases=[{"no": 0}, {"no": 3}])
def roundtrip(sx, no):
    """members of string types are encoded as they are"""
    t = MODELS[no]["x"]
    s = sx.str("s", 0, 4)
    sx.check(t.from_raw(s) == s and t.parse_value(s) == s, "cooked value is the text")
    sx.check(t.from_xml(elem(s)) == s, "cooked value from XML is the text")
    if s in t:
        sx.check(t.to_raw(s) == s, "JSON encoding is the text")
        sx.check(t.to_xml(s) == s, "XML encoding is the text")
        sx.check(t.canonical_string(s) == s, "canonical string is the text")


@task(cases=[{"no": 0}])
def wrong_kind(sx, no):
    raw = sx.choice("raw", [None, True, 0, 1, 1.5, [None], [], {}, ["a"], b"a"])
    t = MODELS[no]["x"]
    st, v = sx.attempt(lambda: t.from_raw(raw), Exception)
    sx.check(st == "ok" and v is None, "a raw value of a wrong kind is refused")
    st, v = sx.attempt(lambda: raw in t, Exception)
    sx.check(st == "ok" and not v, "a value of another kind is not a member")


@task()
def empty_xml(sx):
    """an empty element is the empty string"""
    t = MODELS[2]["x"]       # any string type
    e = elem(None)
    sx.check(t.from_xml(e) == "", "empty element")


@task(cases=[{"inv": False}, {"inv": True}])
def literal(sx, inv):
    """a pattern consisting of literal characters"""
    p = sx.choice("p", ["ab", "a", "0_", "", "\\.", "x\\\\", "é", "aa?"])
    lits = {"\\.": ["."], "x\\\\": ["x\\"], "aa?": ["a", "aa"]}.get(p, [p])
    dm = sbuild(sx, {"m": module("m", "leaf x { type string { pattern '" + p + "'" + (
        "{ modifier invert-match; }" if inv else ";") + "} }")})
    s = sx.str("s", 0, sx.n(3, 4))
    sx.check((s in dm.get_data_node("/m:x").type) == (sx.settle(sx.Or(*[s == q for q in lits])) != inv),
             "literal pattern")


SMALL = ["a*b", "c+", "a|bc", "", "[^a]*", ".{1,2}"]
PATS["a*b"] = lambda s: len(s) > 0 and s[-1] == "b" and every(s[:-1], lambda c: c == "a")
PATS["c+"] = lambda s: len(s) > 0 and every(s, lambda c: c == "c")
PATS[""] = lambda s: len(s) == 0
PATS[".{1,2}"] = lambda s: 1 <= len(s) <= 2 and every(s, lambda c: c != "\n" and c != "\r")
_combo = {}


@task(cases=[{"p": p, "inv": i} for p in SMALL for i in (False, True)], budget=300)
def combos(sx, p, inv):
    """every sequence of two patterns (thorough: three), on one level or two"""
    ps = [[p, inv]]
    for k in range(sx.n(1, 2)):
        ps.append([sx.choice(f"p{k}", SMALL), sx.choice(f"i{k}", [False, True])])
    cut = sx.choice("cut", [0, 1])
    levels = [ps[:1], ps[1:]] if cut else [ps]
    key = str(levels)
    if key not in _combo:
        _combo[key] = types_of(model(levels, [None] * len(levels)), "m", "xy")
    t = _combo[key]
    s = sx.str("s", 0, 3, "abc\n")
    exp = allowed(s, levels, [None] * len(levels))
    sx.check((s in t["x"]) == exp and (s in t["y"]) == exp, "member")
