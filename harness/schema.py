"""Small schemas as plain data: YANG text and an independent specification of
validity (RFC 7950, sections 7.5 - 7.9 and 8.1).

A schema node is a dict with "kind" (leaf, ll, cont, list, choice, case),
"name" and some of: mand, pres, config (False), when ((text, predicate)),
min, max, key, dflt, type, ch (children).
"""
from .common import *
from yangson.enumerations import ContentType, ValidationScope

ALL = ContentType.all
CFG = ContentType.config


def leaf(name, mand=False, **k):
    return dict(kind="leaf", name=name, mand=mand, **k)


def ll(name, **k):
    return dict(kind="ll", name=name, **k)


def cont(name, ch, pres=False, **k):
    return dict(kind="cont", name=name, ch=ch, pres=pres, **k)


def lst(name, key, ch, **k):
    return dict(kind="list", name=name, key=key, ch=ch, **k)


def choice(name, ch, mand=False, **k):
    return dict(kind="choice", name=name, ch=ch, mand=mand, **k)


def case(name, ch, **k):
    return dict(kind="case", name=name, ch=ch, **k)


KW = {"leaf": "leaf", "ll": "leaf-list", "cont": "container", "list": "list",
      "choice": "choice", "case": "case"}


def yang(n, dress="", key=""):
    """YANG text; dress: neutral things to add or change"""
    parts = []
    k = n["kind"]
    if k in ("leaf", "ll"):
        parts.append(f"type {n.get('type', 'int8')};\n".replace("};", "}"))
    if n.get("when"):
        parts.append(f'when "{n["when"][0]}";\n')
    elif dress == "when" and n["name"] not in key.split():
        parts.append('when "true()";\n')
    if n.get("mand"):
        parts.append("mandatory true;\n")
    if n.get("pres"):
        parts.append("presence x;\n")
    if n.get("config") is False:
        parts.append("config false;\n")
    if n.get("key"):
        parts.append(f"key \"{n['key']}\";\n")
    if n.get("min"):
        parts.append(f"min-elements {n['min']};\n")
    if n.get("max"):
        parts.append(f"max-elements {n['max']};\n")
    for u in n.get("unique", ()):
        parts.append(f"unique \"{u}\";\n")
    d = n.get("dflt")
    parts.append("".join(f"default {x};\n" for x in
                         (d if isinstance(d, list) else [] if d is None else [d])))
    if dress == "must" and k not in ("choice", "case"):
        parts.append('must "true()"; must "1" { error-message "x"; }\n')
    if dress == "text":
        parts.append("description \"mandatory true;\"; reference 'x'; status current;\n")
        if k in ("leaf", "ll"):
            parts.append("units s;\n")
        if k in ("list", "ll"):
            parts.append("ordered-by user;\n")
    parts += [yang(c, dress, n.get("key") or "") for c in n.get("ch", ())]
    if dress == "rev":
        # children keep their order
        m = len(parts) - len(n.get("ch", ()))
        parts = parts[m:] + parts[:m][::-1]
    return (f"{KW[k]} {n['name'].split(':')[-1]} {{\n" + "".join(parts) + "}\n")


DRESS = ["must", "when", "text", "rev", "uses", "deep"]


def text(nodes, dress=""):
    s = "".join(yang(n, dress) for n in nodes)
    if dress == "uses":
        s = f"uses g;\ngrouping g {{\n{s}}}\n"
    elif dress == "deep":
        s = (f"grouping g {{\n{s}}}\ngrouping f {{ uses g; }}\n"
             "grouping e { uses f { description x; } } uses e;\n")
    return s


class Bad(Exception):
    pass


def names(n):
    """member names of data nodes a (non-)data node may contribute"""
    if n["kind"] in ("choice", "case"):
        r = []
        for c in n["ch"]:
            r += names(c)
        return r
    return [n["name"]]


def is_cfg(n, cfg):
    return cfg and n.get("config") is not False


def expect(nodes, obj, ctype, cfg=True, path=(), root=None):
    """Raise Bad unless the object has the members that the schema requires,
    and only those that it permits."""
    allowed = []
    for n in nodes:
        allowed += names(n)
    for m in obj:
        if m not in allowed:
            raise Bad(f"member {m}")
    for n in nodes:
        node(n, obj, ctype, cfg, path, root)


def node(n, obj, ctype, cfg, path, root):
    c = is_cfg(n, cfg)
    used = [m for m in names(n) if m in obj]
    off = ctype == CFG and not c
    w = n.get("when")
    if off or (w and not w[1](root, path)):
        if used:
            raise Bad(f"member {used[0]} not permitted here")
        return
    k = n["kind"]
    if k == "choice":
        cases = [x for x in n["ch"] if any(m in obj for m in names(x))]
        if len(cases) > 1:
            raise Bad(f"two cases of {n['name']}")
        if not cases:
            if n["mand"]:
                raise Bad(f"choice {n['name']} missing")
            return
        node(cases[0], obj, ctype, c, path, root)
    elif k == "case":
        for x in n["ch"]:
            node(x, obj, ctype, c, path, root)
    elif k == "cont":
        if n["name"] in obj:
            expect(n["ch"], obj[n["name"]], ctype, c, path + (n["name"],), root)
        elif not n["pres"]:
            # as if it were there and empty
            expect(n["ch"], {}, ctype, c, path + (n["name"],), root)
    elif k == "list":
        if n["name"] in obj:
            for i, e in enumerate(obj[n["name"]]):
                expect([dict(x, mand=True) if x["name"] in n["key"].split() else x
                        for x in n["ch"]], e, ctype, c,
                       path + (n["name"], i), root)
        elif n.get("min"):
            raise Bad(f"{n['name']} missing")
    elif k == "ll":
        if n["name"] not in obj and n.get("min"):
            raise Bad(f"{n['name']} missing")
    elif n.get("mand") and n["name"] not in obj:
        raise Bad(f"{n['name']} missing")


def shorthand(nodes):
    """add the cases that are only implied in choices (for the specification)"""
    r = []
    for n in nodes:
        n = dict(n)
        if "ch" in n:
            n["ch"] = shorthand(n["ch"])
        if n["kind"] == "choice":
            n["ch"] = [x if x["kind"] == "case" else case(x["name"], [x])
                       for x in n["ch"]]
        r.append(n)
    return r


def valid(nodes, obj, ctype=ALL):
    try:
        expect(shorthand(nodes), obj, ctype, root=obj)
        return True
    except Bad:
        return False


_cache = {}


def model(body, more=None, mods=None):
    """Data model of a module m with the body (kept for other paths)."""
    key = (body, tuple(sorted((more or {}).items())), str(mods))
    if key not in _cache:
        _cache[key] = build({"m": module("m", body), **(more or {})}, mods)
    return _cache[key]


def flags(sx, **k):
    """choices of configuration, by name: list of options or None for bool"""
    return {n: sx.choice(n, o or [False, True]) for n, o in k.items()}


def subset(sx, nodes, tag=""):
    """an arbitrary object with members of the schema (any cases)"""
    r = {}
    for n in nodes:
        if n["kind"] in ("choice", "case"):
            r.update(subset(sx, n["ch"], tag))
            continue
        t = tag + n["name"]
        if n["kind"] == "list":
            k = sx.choice("#" + t, [None] + list(range(n.get("least", 0), n.get("upto", 1) + 1)))
            if k is not None:
                r[n["name"]] = [
                    {**{q: i for q in n["key"].split()},
                     **subset(sx, [x for x in n["ch"]
                                   if x["name"] not in n["key"].split()],
                              f"{t}{i}/")}
                    for i in range(k)]
            continue
        if not sx.choice("?" + t, [False, True]):
            continue
        if n["kind"] == "cont":
            r[n["name"]] = subset(sx, n["ch"], t + "/")
        elif n["kind"] == "ll":
            r[n["name"]] = [1]
        else:
            r[n["name"]] = 1
    return r


def ordered(sx, obj, tag="ord"):
    """the object with its members in another order"""
    ks = list(obj)
    if len(ks) < 2:
        return obj
    k = sx.choice(tag, list(range(len(ks) if sx.n(0, 1) else min(len(ks), 2))))
    # rotations in both directions
    ks = ks[k:] + ks[:k]
    if sx.choice(tag + "r", [False, True]):
        ks.reverse()
    return {k: obj[k] for k in ks}


def qual(obj, mod="m"):
    return {k if ":" in k else f"{mod}:{k}": v for k, v in obj.items()}


def verdict(dm, obj, ctype=ALL, scope=ValidationScope.all):
    """(valid, exception) of a top-level object"""
    inst = dm.from_raw(qual(obj))
    try:
        inst.validate(scope, ctype)
        return True, None
    except ValidationError as e:
        return False, e
