"""Earlier nodes and values are never changed by later operations."""
from symex.api import task
from .inst import *

BOUNDS = ("histories of three operations (thorough: four) - edits, moves, merging, "
          "adding defaults and reading - from 19 places of three trees; all leaf "
          "values symbolic; keys of lists int8")


class Mem:
    """Everything obtained so far with its content when it was obtained."""

    def __init__(self):
        self.nodes = []
        self.vals = []

    def node(self, n):
        if any(n is m for m, _, _ in self.nodes):
            return
        self.nodes.append((n, snap(n.value), list(n.path)))
        m = n.parinst
        if m is not None:
            self.node(m)
        self.value(n.value)

    def value(self, v):
        if not isinstance(v, StructuredValue) or \
                any(v is w for w, _ in self.vals):
            return
        self.vals.append((v, snap(v)))
        for x in (v.values() if isinstance(v, ObjectValue) else v):
            self.value(x)

    def verify(self, sx, lab):
        for n, s, p in self.nodes:
            sx.check(same(sx, snap(n.value), s), f"{lab}: node obtained earlier")
            sx.check(list(n.path) == p, f"{lab}: place of a node obtained earlier")
        for v, s in self.vals:
            sx.check(same(sx, snap(v), s), f"{lab}: value obtained earlier")


def others(raw, path):
    """operations other than plain edits and moves"""
    v = get(raw, path)
    r = ["defaults", "defaults tagged", "read"]
    if kind(path) in ("m:c", "li.", "li", "ll", "d", ""):
        r += ["merge", "merge cooked"]
    return r


def mergeval(sx, key, tag):
    i = lambda n, t=I32: sx.int(f"{tag}.{n}", *t)
    return {
        "m:c": lambda: {"a": i("a"), "d": {"e": i("e")}, "ll": [i("m", I8)],
                        "li": [{"k": i("k", I8), "v": i("v"), "g": {"h": i("h")}}],
                        "kl": [{"v": i("x")}], "n:b": {"t": "x"}},
        "li": lambda: [{"k": i("k", I8), "v": i("v")}, {"k": i("k2", I8)}],
        "li.": lambda: {"v": i("v"), "g": {"h": i("h")}},
        "ll": lambda: [i("m", I8), i("m2", I8)],
        "d": lambda: {"e": i("e")},
        "": lambda: {"m:z": i("z"), "m:c": {"li": [{"k": i("k", I8)}]}},
    }[key]()


def step(sx, mem, node, tag, last, w):
    path = list(node.path)
    raw = node.top().raw_value()
    acts = [("e", e) for e in edits(raw, path)] + [
        ("m", m) for m in moves(raw, path)] + [("o", o) for o in others(raw, path)]
    if sx.tier == "quick" and not last:
        n = {}
        sel = []
        for a in acts:
            k = a[1] if a[0] == "o" else a[1][0]
            n[k] = n.get(k, 0) + 1
            if n[k] <= 2 and k not in ("goto", "iter", "look", "merge cooked",
                                       "defaults tagged"):
                sel.append(a)
        acts = sel
    k, a = acts[sx.choice(tag + ".act", list(range(len(acts))))]
    if k == "e":
        f, _, p2 = edit(sx, a, node, raw, path, tag, True)
        lab = a[0]
    elif k == "m":
        f, p2 = move(sx, a, node, raw, path, tag)
        lab = a[0]
    else:
        lab = a

        def f():
            if a == "defaults":
                return node.add_defaults()
            if a == "defaults tagged":
                return node.add_defaults(tag=True)
            if a == "read":
                node.raw_value()
                str(node)
                sx.attempt(lambda: node.validate(), YangsonException)
                if w != "meta":     # anydata have no XML form here
                    sx.attempt(lambda: node.top().to_xml(), YangsonException)
                node.instance_route()
                hash(node.value)
                return node.top()
            key = kind(path)
            nv = mergeval(sx, key, tag)
            if a == "merge":
                return node.merge(nv, raw=True)
            c = cook(key, nv)
            mem.value(c)
            return node.merge(c)
    st, r = sx.attempt(f, NonexistentInstance, InstanceValueError, IndexError)
    mem.verify(sx, lab)
    if st == "exc":
        return None
    mem.node(r)
    t = r.top()
    mem.verify(sx, "top after " + lab)
    mem.node(t)
    return r


@task(cases=[{"f": i, "w": w} for i in range(len(FOCI))
             for w in ("full", "meta")] + [{"f": 1, "w": "sparse"},
                                           {"f": 9, "w": "sparse"}], budget=500)
def history(sx, f, w):
    raw = tree(sx, w)
    doc = dup(raw)
    root = DM.from_raw(doc)
    mem = Mem()
    mem.node(root)
    node = root
    for k in FOCI[f]:
        node = node[k]
        mem.node(node)
    n = sx.n(2, 3)
    for i in range(n):
        node = step(sx, mem, node, f"s{i}", i == n - 1, w)
        if node is None:
            break
    sx.check(same(sx, doc, raw), "the document given is not changed")
    sx.check(same(sx, root.raw_value(), raw), "original tree keeps its raw value")
