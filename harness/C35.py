"""Schema nodes: paths, names, state roots, mandatory and protection flags."""
from symex.api import task
from .common import *
from yangson.instance import ObjectMember, ArrayEntry
from yangson.instroute import InstanceRoute

BOUNDS = ("a fixed two-module schema with equal names on several levels and kinds of nodes: all paths of up to four steps "
          "with arbitrary names of up to 2 characters and any of four prefixes, and all path texts of up to 5 (thorough: 6) "
          "characters; all config, mandatory, min-elements and presence combinations of a schema of four levels; all NACM "
          "protection statements; all routes of the fixed schema with arbitrary keys and positions; three parts of a container from any of six "
          "kinds of groups (uses, augments and choices, with conditions)")

M = module("m", """
container a { leaf a { type int8; }
  choice b { case a { leaf b { type int8; } container c { leaf a { type int8; } } } leaf d { type int8; } }
  list l { key k; leaf k { type int8; } container a { leaf b { type int8; } } leaf-list p { type int8; } } }
choice c { container c { choice a { case c { leaf a { type int8; } leaf c { type int8; } } } } }
leaf b { type int8; }
rpc r { input { leaf a { type int8; } } output { leaf b { type int8; } } }
notification ab { container a { leaf b { type int8; } } }
""")
N = module("n", """
augment /m:a { leaf a { type int8; } container c { leaf a { type int8; } } }
augment /m:a/m:b { case a { leaf e { type int8; } } }
augment /m:a/m:b/m:a { leaf b { type int8; } }
augment /m:a/m:l/m:a { leaf-list b { type int8; } }
container a { leaf b { type int8; } list l { config false; leaf a { type int8; } } }
""", imports="import m { prefix m; }")
DM = build({"m": M, "n": N})

# an independent statement of the schema: (schema path, kind), with explicit modules
SCHEMA = {
    "m:a": "data", "m:a m:a": "data", "m:a m:b": "choice", "m:a m:b m:a": "case", "m:a m:b m:a m:b": "data",
    "m:a m:b m:a m:c": "data", "m:a m:b m:a m:c m:a": "data", "m:a m:b m:d": "case", "m:a m:b m:d m:d": "data",
    "m:a m:l": "data", "m:a m:l m:k": "data", "m:a m:l m:a": "data", "m:a m:l m:a m:b": "data", "m:a m:l m:p": "data",
    "m:c": "choice", "m:c m:c": "case", "m:c m:c m:c": "data", "m:c m:c m:c m:a": "choice", "m:c m:c m:c m:a m:c": "case",
    "m:c m:c m:c m:a m:c m:a": "data", "m:c m:c m:c m:a m:c m:c": "data", "m:b": "data",
    "m:r": "rpc", "m:r m:input": "rpc", "m:r m:output": "rpc", "m:r m:input m:a": "data", "m:r m:output m:b": "data",
    "m:ab": "rpc", "m:ab m:a": "data", "m:ab m:a m:b": "data",
    "m:a n:a": "data", "m:a n:c": "data", "m:a n:c n:a": "data", "m:a m:b n:a": "case", "m:a m:b n:a n:e": "data",
    "m:a m:b m:a n:b": "data", "m:a m:l m:a n:b": "data", "n:a": "data", "n:a n:b": "data", "n:a n:l": "data",
    "n:a n:l n:a": "data"}


def short(steps):
    """the documented text: a module name exactly where the namespace changes"""
    out, prev = "", None
    for s in steps:
        m, n = s.split(":")
        out += "/" + (n if m == prev else s)
        prev = m
    return out


def datasteps(p):
    steps = p.split()
    return [s for i, s in enumerate(steps) if SCHEMA[" ".join(steps[:i + 1])] == "data"]


def ref_node(p):
    """the schema node of an explicit schema path, found by hand"""
    node = DM.schema
    for s in p.split():
        m, n = s.split(":")
        node = descend(node, m, n)
    return node


def descend(node, m, n):
    for c in node.children:
        if c.name is None:
            r = descend(c, m, n)
            if r is not None:
                return r
        elif c.name == n and c.ns == m:
            return c
    return None


NODES = {p: ref_node(p) for p in SCHEMA}
BYSCHEMA = {short(p.split()): NODES[p] for p in SCHEMA}
BYDATA = {short(datasteps(p)): NODES[p] for p in SCHEMA if SCHEMA[p] == "data" and "m:r" not in p and "m:ab" not in p}
assert all(x is not None for x in NODES.values())


def lookup(sx, which, text):
    f = DM.get_schema_node if which == "schema" else DM.get_data_node
    k, r = sx.attempt(lambda: f(text), InvalidSchemaPath)
    return r if k == "ok" else None


def agree(sx, which, text, r):
    tab = BYSCHEMA if which == "schema" else BYDATA
    # a leading slash is optional
    def is_(p):
        return sx.Or(text == p, text == p[1:])
    if r is None:
        sx.check(sx.Not(sx.Or(*[is_(p) for p in tab])), "a path of a schema node leads to it")
    else:
        mine = [p for p in tab if tab[p] is r]
        if mine:
            sx.check(sx.Or(*[is_(p) for p in mine]), "a schema node is found by its own path only")
        else:
            sx.check(sx.Or(text == "", text == "/"), "only the empty path leads to the root")


@task(cases=[{"which": w, "n": n, "p1": p1} for w in ("schema", "data") for n in (1, 2, 3) for p1 in "mn"] +
      [{"which": w, "n": 4, "p1": p1} for w in ("schema", "data") for p1 in "mn"])
def steps(sx, which, n, p1):
    """paths with arbitrary names"""
    text = ""
    for i in range(n):
        pr = p1 + ":" if i == 0 else sx.choice(f"prefix{i}", ["", "m:", "n:", "x:"][:4 if n < 4 else 3])
        text = text + "/" + pr + sx.str(f"name{i}", 1, 1 if n > 2 else 2, alphabet="abcdeklpr" if n < 3 else "abcdel")
    agree(sx, which, text, lookup(sx, which, text))


@task(cases=[{"which": w, "k": k} for w in ("schema", "data") for k in range(6)],
      thorough_cases=[{"which": w, "k": k} for w in ("schema", "data") for k in range(7)])
def texts(sx, which, k):
    """arbitrary path texts"""
    text = sx.str("path", k, k, alphabet="/:mnab")
    r = lookup(sx, which, text)
    if k == 0:
        sx.check(r is DM.schema, "the empty path is the root")
        return
    if r is DM.schema:
        sx.check(text == "/", "only / is the root")
        return
    agree(sx, which, text, r)


@task(cases=[{"p": p} for p in SCHEMA if SCHEMA[p] == "data" and "m:r" not in p and "m:ab" not in p])
def names(sx, p):
    """each data node knows its data path, instance name and parent"""
    sn = NODES[p]
    ds = datasteps(p)
    pre = sx.choice("slash", ["/", ""])
    sx.check(sn.data_path() == short(ds), "data path")
    sx.check(DM.get_data_node(pre + sn.data_path()[1:]) is sn, "data path leads back")
    sx.check(DM.get_schema_node(pre + short(p.split())[1:]) is sn, "schema path leads to the node")
    m, n = ds[-1].split(":")
    sx.check(sn.iname() == (n if len(ds) > 1 and ds[-2].split(":")[0] == m else ds[-1]), "instance name")
    par = [q for q in SCHEMA if SCHEMA[q] == "data" and datasteps(q) == ds[:-1] and p.startswith(q + " ")]
    sx.check(sn.data_parent() is (NODES[par[0]] if par else None), "data parent")
    sx.check(sn.schema_root() is DM.schema, "schema root")
    sx.check(sn.qual_name == (n, m), "qualified name")


# -- config, mandatory --------------------------------------------------------

def flags(sx):
    """a schema of four levels and, for each node, (path, kind, config, mandatory)"""
    cf = ["", "config false;", "config true;"]
    c = {n: sx.choice("config " + n, cf) for n in ("top", "mid", "ch", "leaf")}
    eff = {}

    def down(name, parent):
        sx.assume(not (not parent and c[name] == "config true;"))
        eff[name] = parent and c[name] != "config false;"
        return eff[name]
    top = down("top", True)
    mid = down("mid", top)
    down("ch", top)
    down("leaf", mid)
    mand = sx.choice("mandatory", ["", "leaf", "list", "ll", "any", "choice", "inner", "case leaf"])
    pres = sx.choice("presence", ["", "top", "mid"])

    def M_(n):
        return "mandatory true;" if mand == n else "mandatory false;"

    def P_(n):
        return "presence x;" if pres == n else ""

    def E_(n):
        return "min-elements 2;" if mand == n else ""
    text = (f"container top {{ {c['top']} {P_('top')} container mid {{ {c['mid']} {P_('mid')} leaf l {{ {c['leaf']} "
            f"type int8; {M_('leaf')} }} list q {{ {E_('list')} key k; leaf k {{ type int8; }} "
            f"leaf i {{ type int8; {M_('inner')} }} }} leaf-list p {{ {E_('ll')} type int8; }} anydata y {{ {M_('any')} }} }}"
            f" choice ch {{ {c['ch']} {M_('choice')} leaf x {{ type int8; {M_('case leaf')} }} "
            f"container z {{ leaf w {{ type int8; }} }} }} }} leaf other {{ type int8; }}")
    conf = {"top": top, "top/mid": mid, "top/mid/l": eff["leaf"], "top/mid/q": mid, "top/mid/q/k": mid, "top/mid/q/i": mid,
            "top/mid/p": mid, "top/mid/y": mid, "top/x": eff["ch"], "top/z": eff["ch"], "top/z/w": eff["ch"],
            "other": True}
    own = {"leaf": "top/mid/l", "list": "top/mid/q", "ll": "top/mid/p", "any": "top/mid/y", "inner": "top/mid/q/i",
           "case leaf": "top/x"}.get(mand)
    mset = {own, "top/mid/q/k"} if own else {"top/mid/q/k"}     # a key is always needed
    if mand in ("leaf", "list", "ll", "any") and pres != "mid":
        mset.add("top/mid")
        if pres != "top":
            mset.add("top")
    if mand == "choice" and pres != "top":
        mset.add("top")
    # the configuration is affected if the node that makes it mandatory is configuration
    cause = conf[own] if own else eff["ch"] if mand == "choice" else None
    return text, conf, mset, cause, mand, eff


@task(cases=[{}])
def properties(sx):
    """config and mandatory follow RFC 7950, state_roots lists the topmost state nodes"""
    text, conf, mset, cause, mand, eff = flags(sx)
    dm = build({"m": module("m", text)})
    for p, cfg in conf.items():
        sn = dm.get_data_node("/m:" + p)
        sx.check(sn.config == cfg, "config")
        sx.check(sn.mandatory == (p in mset), "mandatory node")
        sx.check(sn.mandatory_config == (p in mset and bool(conf[p] if p == "top/mid/q/k" else cause)), "mandatory node of the configuration")
    ch = dm.get_schema_node("/m:top/ch")
    sx.check(ch.mandatory == (mand == "choice"), "mandatory choice")
    sx.check(ch.config == eff["ch"], "config of a choice")
    states = sorted(p for p in conf if not conf[p] and ("/" not in p or conf[p.rpartition("/")[0]]))
    for start in ("", "top", "top/mid", "top/z", "top/mid/q", "top/mid/l", "other"):
        sn = dm.get_data_node("/m:" + start) if start else dm.schema
        if start and not conf[start]:
            exp = ["/m:" + start]
        else:
            exp = ["/m:" + p for p in states if p.startswith(start + "/" if start else "")]
        sx.check(sorted(sn.state_roots()) == exp, "state roots")
    exp = ["/m:" + p for p in states if p in ("top/x", "top/z")] if eff["ch"] else \
        ["/m:top/x", "/m:top/z"]
    sx.check(sorted(ch.state_roots()) == exp, "state roots under a choice")


NACM = """module ietf-netconf-acm { namespace "urn:ietf:params:xml:ns:yang:ietf-netconf-acm"; prefix nacm;
extension default-deny-write; extension default-deny-all; }"""
KINDS = {"leaf": "type int8;", "leaf-list": "type int8;", "container": "", "list": "key k; leaf k { type int8; }",
         "anydata": "", "anyxml": ""}


@task(cases=[{"kind": k} for k in KINDS])
def protection(sx, kind):
    """NACM statements"""
    st = [sx.choice(f"s{i}", ["", "n:default-deny-write;", "n:default-deny-all;", 'n:other "x";',
                              "o:default-deny-all;"]) for i in (0, 1)]
    sx.assume(sx.Not(st[0] != "" and st[1] != "" and st[0] != st[1]))
    sx.assume(not (st[0] != "" and st[1] == st[0]))
    mods = {"ietf-netconf-acm": NACM,
            "o": 'module o { namespace "http://x/o"; prefix o; extension default-deny-all; }',
            "m": module("m", f"{kind} x {{ {st[0]} {KINDS[kind]} {st[1]} }} {kind} y {{ {KINDS[kind]} }}",
                        imports="import ietf-netconf-acm { prefix n; } import o { prefix o; }")}
    dm = build(mods, [{"name": "ietf-netconf-acm", "namespace": "urn:ietf:params:xml:ns:yang:ietf-netconf-acm"},
                      {"name": "o"}, {"name": "m"}])
    want = "write" if "n:default-deny-write;" in st else "all" if "n:default-deny-all;" in st else "none"
    sx.check(dm.get_data_node("/m:x").default_deny.name == want, "protection of the node")
    sx.check(dm.get_data_node("/m:y").default_deny.name == "none", "other nodes are not protected")


# -- routes -------------------------------------------------------------------

ROUTES = ["", "/m:a", "/m:a/a", "/m:a/n:a", "/m:a/l", "/m:a/l[K]", "/m:a/l[I]", "/m:a/l[K]/a", "/m:a/l[K]/a/b",
          "/m:a/l[I]/a/n:b", "/m:a/l[I]/p[I]", "/m:a/l[K]/p[V]", "/m:a/c/a", "/m:a/n:c/a", "/m:a/n:b", "/n:a/b", "/n:a/l[I]/a", "/m:c/c",
          "/m:b"]


@task(cases=[{"r": r} for r in range(len(ROUTES))])
def split(sx, r):
    """an instance route is split at the node of any data node on it"""
    key = sx.str("key", 1, 2, alphabet="0123456789")
    idx = sx.str("index", 1, 2, alphabet="123456789")
    spec = ROUTES[r]
    text = ""
    for seg in spec.split("/")[1:]:
        name, br, what = seg.partition("[")
        text = text + "/" + name
        if what == "K]":
            text = text + "[k='" + key + "']"
        elif what == "V]":
            text = text + "[.='" + key + "']"
        elif what == "I]":
            text = text + "[" + idx + "]"
    route = DM.parse_instance_id(text) if spec else InstanceRoute([])
    steps_ = [s for s in spec.split("/") if s]
    for path, sn in BYDATA.items():
        res = sn.split_instance_route(route)
        names_ = [s.split("[")[0] for s in steps_]
        on = None
        for k in range(1, len(names_) + 1):
            if "/" + "/".join(names_[:k]) == path:
                on = k
        if on is None:
            sx.check(res is None, "a node that is not on the route")
        else:
            sx.check(res is not None, "a node on the route")
            pre, post = res
            sx.check(list(pre) + list(post) == list(route), "the parts make up the route")
            n = sum(1 + s.count("[") for s in steps_[:on])
            sx.check(len(pre) == n, "the first part ends with the instance of the node")
            sx.check(str(pre) + (str(post) if post else "") == str(route), "texts of the parts")


@task(cases=[{"p": p} for p in ("/m:a/a", "/m:a/l/p", "/m:a/l/a", "/n:a", "/m:a/l", "/m:a/n:c", "/m:b")])
def orphans(sx, p):
    """isolated instances"""
    v = sx.int("v", -200, 200)
    sn = DM.get_data_node(p)
    raw = {"/m:a/a": v, "/m:b": v, "/m:a/l/p": [v], "/m:a/l/a": {"b": v, "n:b": [v]}, "/n:a": {"b": v},
           "/m:a/l": [{"k": v, "p": [1]}], "/m:a/n:c": {"a": v}}[p]
    k, o = sx.attempt(lambda: sn.orphan_instance(raw), RawTypeError)
    sx.check(k == "ok", "any integer is cooked")
    sx.check(sx.And(o.name == sn.iname(), o.parinst is None, dict(o.siblings) == {}, o.schema_node is sn), "isolated instance")
    sx.check(sx.Or(v < -128, v > 127, o.raw_value() == raw), "the value is there")
    k2, _ = sx.attempt(o.validate, YangTypeError)
    sx.check(sx.Iff(k2 == "ok", sx.And(v >= -128, v <= 127)), "its values are checked against their types")
    if p == "/m:a/l":
        e = sn.orphan_entry({"k": v, "a": {"b": 1}})
        sx.check(sx.And(e.index == 0, e.parinst is None, len(e.before) == 0, len(e.after) == 0, e.schema_node is sn),
                 "isolated entry")
        sx.check(sx.And(e["k"].value == v, sx.Or(v < -128, v > 127, e.raw_value() == {"k": v, "a": {"b": 1}})),
                 "the entry is there")


@task(cases=[{}])
def counters(sx):
    """validation counters count the validated instances"""
    n, times = sx.int("entries", 0, 3), sx.int("times", 0, 3)
    ent = []
    for i in range(3):
        if i < n:
            ent.append({"k": i, "p": [1, 2]})
    DM.clear_val_counters()
    inst = DM.from_raw({"m:a": {"l": ent}} if ent else {})
    t = 0
    for i in range(3):
        if i < times:
            inst.validate()
            t += 1
    sx.check(DM.get_data_node("/m:a/l/k").val_count == len(ent) * t, "a leaf counts its instances")
    sx.check(DM.get_data_node("/m:a").val_count == (t if ent else 0), "a container counts its instances")
    sx.check(DM.get_data_node("/m:b").val_count == 0, "nothing else is counted")
    DM.clear_val_counters()
    sx.check(all(s.val_count == 0 for s in NODES.values()), "counters are cleared")


# -- anonymous groups -----------------------------------------------------------

GROUPS = {   # text, data paths and schema paths below the container, texts outside of it
    "leaf": ("leaf {0} {{ type int8; }}", ["{0}"], ["{0}"]),
    "uses": ("uses g{0} {{ when '1'; }}", ["{0}", "c{0}/x"], ["{0}", "c{0}/x"]),
    "choice": ("choice h{0} {{ leaf {0} {{ type int8; }} }}", ["{0}"], ["h{0}/{0}/{0}"]),
    "nested": ("uses q{0} {{ when '1'; }}", ["{0}", "z{0}", "y{0}"], ["{0}", "z{0}", "k{0}/y{0}/y{0}"]),
    "augment": ("", ["n:{0}"], ["n:{0}"]),
    "cases": ("", ["n:{0}", "n:y{0}"], ["n:h{0}/{0}/{0}", "n:h{0}/z{0}/y{0}"]),
}
AUG = {"augment": "leaf {0} {{ type int8; }}", "cases": "choice h{0} {{ leaf {0} {{ type int8; }} case z{0} {{ leaf y{0} {{ type int8; }} }} }}"}


@task(cases=[{"first": k} for k in GROUPS])
def groups(sx, first):
    """nodes that come with conditional uses and augments are found next to all others"""
    kinds = [first, sx.choice("second", list(GROUPS)), sx.choice("third", list(GROUPS))]
    body, out, aug, data, schema = "", "", "", [], []
    for n, k in zip("abd", kinds):
        text, d, s = GROUPS[k]
        body += text.format(n)
        data += [x.format(n) for x in d]
        schema += [x.format(n) for x in s]
        if k == "uses":
            out += f"grouping g{n} {{ leaf {n} {{ type int8; }} container c{n} {{ leaf x {{ type int8; }} }} }}"
        elif k == "nested":
            out += (f"grouping q{n} {{ uses r{n} {{ when '1'; }} leaf z{n} {{ type int8; }} choice k{n} {{ leaf y{n} {{ type int8; }} }} }} "
                    f"grouping r{n} {{ leaf {n} {{ type int8; }} }}")
        elif k in AUG:
            aug += f"augment /m:top {{ when '1'; {AUG[k].format(n)} }}"
    dm = build({"m": module("m", out + "container top { leaf own { type int8; } " + body + " }"),
                "n": module("n", aug, imports="import m { prefix m; }")})
    names_ = [n for n in "abd"] + ["own", "ca", "ya", "zb", "nope"]
    which = sx.choice("which", sorted(set(data + schema + ["own"] + names_ + ["n:" + n for n in names_])))
    for paths, get in ((data + ["own"], dm.get_data_node), (schema + ["own"], dm.get_schema_node)):
        r = get("/m:top/" + which)
        last = which.split("/")[-1].split(":")[-1]
        if which in paths:
            sx.check(r is not None and r.name == last, "a node is found by its path")
            sx.check(r.ns == ("n" if which.startswith("n:") else "m"), "its namespace")
            if get == dm.get_data_node:
                sx.check(r.data_path() == "/m:top/" + which, "its data path")
        else:
            sx.check(r is None or any(p.startswith(which + "/") for p in paths), "no other path leads to a node")
