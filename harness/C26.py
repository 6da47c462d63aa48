"""equality and hashes of structured values and routes."""
from symex.api import task
from .common import *
from .inst import DM, dup, same
from yangson.instvalue import ObjectValue, ArrayValue
from yangson.instance import (MemberName, EntryIndex, EntryValue, EntryKeys,
                              InstanceRoute)

BOUNDS = ("all pairs of 21 shapes of objects and arrays nested up to depth 3 with "
          "symbolic leaf values, made by four histories; routes of up to 2 "
          "selectors (thorough: 3) with symbolic contents")

O, A = ObjectValue, ArrayValue

SHAPES = [
    lambda x, y: O(), lambda x, y: A(), lambda x, y: A([x]), lambda x, y: A([x, y]),
    lambda x, y: A([y, x]), lambda x, y: O({"a": x}), lambda x, y: O({"b": x}),
    lambda x, y: O({"a": x, "b": y}), lambda x, y: O({"b": y, "a": x}),
    lambda x, y: O({"a": O({"a": x})}), lambda x, y: O({"a": A([x])}),
    lambda x, y: A([O({"a": x})]), lambda x, y: A([A([x])]),
    lambda x, y: O({"a": O(), "b": x}), lambda x, y: O({"a": A(), "b": x}),
    lambda x, y: O({"a": x, "@a": {"m:x": y}}), lambda x, y: A([O(), O({"a": x})]),
    lambda x, y: O({"l": A([O({"k": x, "v": A([y])}), O({"k": y})])}),
    lambda x, y: A(["1", x]), lambda x, y: A([(x,), (y, "m")]),
    lambda x, y: O({"a": x, "b": O({"c": A([y, O({"d": x})])})}),
]


def plain(v):
    """content with kinds"""
    if isinstance(v, ObjectValue):
        return {"o": {k: plain(x) for k, x in v.items()}}
    if isinstance(v, ArrayValue):
        return {"a": [plain(x) for x in v]}
    if isinstance(v, tuple):
        return [plain(x) for x in v]
    return {True: "True", False: "False"}[v] if isinstance(v, bool) else v


def other_history(sx, v, how):
    """a value of the same content made in another way"""
    if not isinstance(v, (ObjectValue, ArrayValue)) or how == 0:
        return v
    if how == 1:
        return v.copy()
    if isinstance(v, ObjectValue):
        r = ObjectValue()
        if how == 2:
            for k in reversed(list(v)):
                r[k] = other_history(sx, v[k], how)
        else:
            r["zz"] = 1
            r.update({k: other_history(sx, v[k], how) for k in v})
            hash(r)
            del r["zz"]
        return r
    if how == 2:
        r = ArrayValue()
        r.extend(other_history(sx, x, how) for x in v)
        return r
    r = ArrayValue([0])
    hash(r)
    del r[0]
    r += [other_history(sx, x, how) for x in v]
    return r


@task(cases=[{"i": i} for i in range(len(SHAPES))], budget=300)
def values(sx, i):
    x, y = sx.int("x", -9, 9), sx.int("y", -9, 9)
    z, w = sx.int("z", -9, 9), sx.int("w", -9, 9)
    a = SHAPES[i](x, y)
    b = SHAPES[sx.choice("j", list(range(len(SHAPES))))](z, w)
    b = other_history(sx, b, sx.choice("how", [0, 1, 2, 3]))
    exp = same(sx, plain(a), plain(b))
    e = a == b
    sx.check(sx.Iff(e, exp), "equal exactly when the content is equal")
    sx.check(sx.Iff(b == a, exp), "equality is symmetric")
    sx.check(sx.Iff(a != b, sx.Not(exp)), "inequality is the opposite")
    if e:
        sx.check(hash(a) == hash(b), "equal values have equal hashes")
    for p in (None, 1, "a", {}, []):
        sx.check(not a == p and a != p, "not equal to values of other kinds")


@task()
def kinds(sx):
    """values of different kinds are different wherever they are"""
    from decimal import Decimal
    vals = [0, 1, True, False, "1", "", "true", (None,), ("a", "m"), b"", b"1", Decimal("1.5"),
            (), ("a",), None]
    i, j = (sx.choice(n, list(range(len(vals)))) for n in "ij")
    a, b = vals[i], vals[j]
    for f in (lambda v: A([v]), lambda v: O({"a": v}), lambda v: A([O({"a": A([v])})]),
              lambda v: O({"b": O({"a": v}), "c": 1}), lambda v: A([2, v])):
        sx.check((f(a) == f(b)) == (i == j), "values of different kinds")
        sx.check((f(a) != f(b)) == (i != j), "inequality")
        sx.check(i != j or hash(f(a)) == hash(f(b)), "hash")


@task(cases=[{"how": h} for h in range(6)], budget=200)
def instances(sx, how):
    """values of instances whatever their history"""
    mk = lambda t: {"m:c": {"a": sx.int(t + "a", -9, 9), "d": {"e": sx.int(t + "e", -9, 9)},
                            "ll": [sx.int(t + "l", -9, 9)],
                            "li": [{"k": sx.int(t + "k", -9, 9)}]}}
    r1, r2 = mk("p"), mk("q")
    i1, i2 = DM.from_raw(r1), DM.from_raw(r2)
    if how == 1:
        i2 = i2["m:c"]["d"]["e"].update(r1["m:c"]["d"]["e"]).top()
        r2["m:c"]["d"]["e"] = r1["m:c"]["d"]["e"]
    elif how == 2:
        i2 = i2["m:c"]["ll"][0].insert_after(5).top()["m:c"]["ll"].delete_item(1).top()
    elif how == 3:
        i2 = i2["m:c"].delete_item("a").put_member("a", r2["m:c"]["a"]).top()
    elif how == 4:
        i2 = i2["m:c"]["li"][0]["k"].up().next_or_self() if False else \
            i2["m:c"]["li"][0]["k"].top()
    elif how == 5:
        i2 = i2.merge(i2.value)
    exp = same(sx, r1, r2)
    sx.check(sx.Iff(i1.value == i2.value, exp), "equal values of instances")
    sx.check(sx.Iff(i1["m:c"].value == i2["m:c"].value, exp), "of containers")
    if i1.value == i2.value:
        sx.check(hash(i1.value) == hash(i2.value), "equal hashes")
        sx.check(i1["m:c"]["li"].value in [i2["m:c"]["li"].value], "membership")
    sx.check(not (i1["m:c"]["ll"].value == i2["m:c"].value), "array and object")


def selector(sx, n):
    """(selector, its content)"""
    k = sx.choice(n, [0, 1, 2, 3])
    if k == 0:
        a, b = sx.str(n + "n", 1, 1, "ab"), sx.choice(n + "m", [None, "m", "n"])
        return MemberName(a, b), ["m", a, b or ""]
    if k == 1:
        i = sx.int(n + "i", 0, 9)
        return EntryIndex(i), ["i", i]
    if k == 2:
        s = sx.str(n + "v", 0, 1, "ab")
        return EntryValue(s), ["v", s]
    if sx.choice(n + "two", [False, True]):
        s, t = sx.str(n + "p", 1, 1, "ab"), sx.str(n + "q", 1, 1, "ab")
        d = {("x", None): s, ("y", "n"): t}
        if sx.choice(n + "rev", [False, True]):
            d = dict(reversed(list(d.items())))
        return EntryKeys(d), ["k2", s, t]
    s = sx.str(n + "p", 1, 1, "ab")
    return EntryKeys({("x", None): s}), ["k", s]


@task(cases=[{"n": a, "m": b} for a in range(3) for b in range(a + 1)],
      thorough_cases=[{"n": a, "m": b} for a in range(4) for b in range(a + 1)
                      if a + b < 6], budget=400)
def routes(sx, n, m):
    p = [selector(sx, f"p{i}") for i in range(n)]
    q = [selector(sx, f"q{i}") for i in range(m)]
    r, s = InstanceRoute([x for x, _ in p]), InstanceRoute([x for x, _ in q])
    exp = same(sx, [c for _, c in p], [c for _, c in q])
    sx.check(sx.Iff(r == s, exp), "routes are equal exactly when selectors are")
    sx.check(sx.Iff(s == r, exp), "symmetric")
    sx.check(sx.Iff(r != s, sx.Not(exp)), "inequality")
    if r == s:
        sx.check(hash(r) == hash(s), "equal routes have equal hashes")
        sx.check(str(r) == str(s) or any(c[0] == "k2" for _, c in p),
                 "equal routes have the same text")


@task()
def selectors_other(sx):
    """comparison with other objects is defined"""
    s, _ = selector(sx, "s")
    for o in (None, 0, 1, "a", ("a", None), [], {}):
        sx.check(s != o and not s == o, "not equal to an object of another kind")
