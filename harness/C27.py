"""time stamps under a symbolic clock."""
from symex.api import task
from .inst import *

BOUNDS = ("histories of one move and two edits or merges from 19 places (thorough: "
          "two moves); every reading of the clock is any time not before the "
          "previous one")


class Clock:
    def __init__(self, sx):
        self.sx = sx
        self.t = 1
        self.n = 0

    def __call__(self):
        self.n += 1
        self.t = self.t + self.sx.int(f"dt{self.n}", 0, 1000)
        return self.t


def stamps(v):
    """(value, time stamp) of all structured values inside v"""
    r = []
    if isinstance(v, StructuredValue):
        r.append((v, v.timestamp))
        for x in (v.values() if isinstance(v, ObjectValue) else v):
            r += stamps(x)
    return r


def old_stamp(root, path):
    """time stamp of the value at the path, if there was a structured one"""
    v = root.value
    for k in path:
        if isinstance(v, ObjectValue) and k in v:
            v = v[k]
        elif isinstance(v, ArrayValue) and isinstance(k, int) and k < len(v):
            v = v[k]
        else:
            return None
    return v.timestamp if isinstance(v, StructuredValue) else None


def newest(root, path):
    """the newest time stamp inside the value at the path"""
    v = root.value
    for k in path:
        v = v[k]
    ts = [t for _, t in stamps(v)]
    m = ts[0]
    for t in ts[1:]:
        m = max(m, t)
    return m


def verify(sx, node, before, t0, lab):
    """along the way up from an edited node"""
    child = node
    sx.check(node.timestamp >= t0, f"{lab}: stamp of the edited node")
    keep = None
    while True:
        o = old_stamp(before, child.path)
        if o is not None and child is not node and \
                isinstance(child.value, StructuredValue):
            sx.check(child.value.timestamp >= o,
                     f"{lab}: value of an ancestor not older than before")
        if child.parinst is None:
            break
        up = child.up()
        sx.check(up.timestamp >= child.timestamp, f"{lab}: not older than the child")
        sx.check(up.timestamp >= t0, f"{lab}: not older than the edit")
        sx.check(up.value.timestamp >= t0, f"{lab}: value not older than the edit")
        if isinstance(child.value, StructuredValue) and child is not node:
            sx.check(up.value.timestamp >= child.value.timestamp,
                     f"{lab}: value not older than that of the child")
        child = up
    return child


def mk(sx, w="full"):
    raw = {"m:c": {"a": 1, "d": {"e": 2}, "ll": [3, 4],
                   "li": [{"k": 1, "v": 2}, {"k": 2, "g": {"h": 5}}],
                   "kl": [{"v": 1}, {"v": 2}], "n:a": 4, "w": "7"},
           "m:z": 9}
    return raw


def untouched(sx, old, new, lab):
    """values shared by both trees keep their stamps"""
    for v, t in old:
        sx.check(v.timestamp == t, f"{lab}: stamps of the original tree")


def one_edit(sx, node, tag, clock, ck=(False, True)):
    path = list(node.path)
    raw = node.top().raw_value()
    es = edits(raw, path)
    if kind(path) in ("m:c", "li", "li.", "ll", "d", ""):
        es = es + [("merge", None)]
    e = es[sx.choice(tag + ".edit", list(range(len(es))))]
    if e[0] == "merge":
        if kind(path) == "li" and not all("k" in x for x in get(raw, path)):
            return None, "merge"
        if kind(path) in ("m:c", "") and not all(
                "k" in x for x in get(raw, ([] if path else ["m:c"]) + path
                                      ).get("li", ())):
            return None, "merge"
        nv = {"m:c": {"a": 5, "d": {"e": 1}, "li": [{"k": 2, "v": 4}]},
              "li": [{"k": 2, "v": 1}, {"k": 7}], "li.": {"v": 7},
              "ll": [8], "d": {"e": 2}, "": {"m:z": 1, "m:c": {"w": "5"}}}[kind(path)]
        cn = cook(kind(path), nv)
        c = sx.choice(tag + ".cook", ck)
        f = (lambda: node.merge(cn)) if c else (lambda: node.merge(nv, raw=True))
    else:
        # a structured value made earlier than the edit
        f, _, p2 = edit(sx, e, node, raw, path, tag, sx.choice(tag + ".cook", ck))
        if p2 is None:
            return None, e[0]
    before = node.top()
    sts = stamps(before.value)
    pst = stamps(node.value)
    t0 = clock()
    r = f()
    untouched(sx, sts + pst, None, e[0])
    top = verify(sx, r, before, t0, e[0])
    untouched(sx, sts + pst, None, e[0])
    # values outside the path are the same objects
    if e[0] != "merge":
        same_outside(sx, before.value, top.value, list(r.path), e[0])
    return r, e[0]


def same_outside(sx, old, new, path, lab):
    if not path or not isinstance(old, ObjectValue):
        return
    for k in old:
        if k != path[0] and k in new and isinstance(old[k], StructuredValue):
            sx.check(new[k] is old[k] or new[k].timestamp == old[k].timestamp,
                     f"{lab}: stamp of an untouched sibling")
    if path[0] in old and path[0] in new:
        same_outside(sx, old[path[0]], new[path[0]], path[1:], lab)


@task(cases=[{"f": i} for i in range(len(FOCI))], budget=300)
def edits_up(sx, f):
    clock = Clock(sx)
    sx.clock(clock)
    try:
        node = start(sx, mk(sx), FOCI[f])
        r, _ = one_edit(
            sx, node, "e1", clock,
            [True] if sx.n(1, 0) and FOCI[f][-1:] in ([0], [1]) else (False, True))
        if r is None:
            return
        ms = [m for m in moves(r.top().raw_value(), list(r.path))
              if m[0] in ("up", "next", "previous", "sibling", "top", "down")]
        n = {}
        sel = []
        for m in ms:
            n[m[0]] = n.get(m[0], 0) + 1
            if n[m[0]] <= sx.n(1, 9):
                sel.append(m)
        mv = sel[sx.choice("m", list(range(len(sel))))]
        g, p2 = move(sx, mv, r, r.top().raw_value(), list(r.path), "mv")
        if p2 is None:
            return
        r2 = g()
        one_edit(sx, r2, "e2", clock,
                 [(f + mv[0].count("n")) % 2 == 0] if sx.n(1, 0) else (False, True))
    finally:
        sx.clock(None)


@task(cases=[{"f": i} for i in range(len(FOCI))], budget=100)
def moving(sx, f):
    """moving around doesn't make any value look edited"""
    clock = Clock(sx)
    sx.clock(clock)
    try:
        top0 = DM.from_raw(mk(sx))
        n = top0
        for k in FOCI[f]:
            n = n[k]
        old = {p: old_stamp(top0, p) for p in map(tuple, FOCI)}
        lim = {p: newest(top0, p) for p in old if old[p] is not None}
        if sx.choice("mv", [False, True]):
            ms = moves(mk(sx), FOCI[f])
            mv = ms[sx.choice("m", list(range(len(ms))))]
            if mv[0] == "look":
                return
            g, p2 = move(sx, mv, n, mk(sx), FOCI[f], "mv")
            if p2 is None:
                return
            n = g()
        t = n.top()
        for p, ts in old.items():
            now = old_stamp(t, p)
            sx.check((now is None) == (ts is None), "values after moving")
            if ts is not None:
                sx.check(now >= ts, "a value is older after moving")
                sx.check(now <= lim[p], "a value is newer after moving")
        sx.check(t.timestamp <= lim[()], "root is newer after moving")
    finally:
        sx.clock(None)
