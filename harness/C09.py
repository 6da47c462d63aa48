"""edits and moves against a plain specification."""
from symex.api import task
from .inst import *

BOUNDS = ("histories of one edit, one move and one more edit or move (thorough: "
          "two more of each) starting at 19 places of a tree with containers, "
          "leaf-lists and lists of two entries (up to five entries for one move, an edit, a move and an insertion); all leaf values symbolic")


def verify(sx, node, raw, path, lab):
    sx.check(list(node.path) == path, lab + ": place of the resulting node")
    sx.check(node.json_pointer() == pointer(path), lab + ": JSON pointer")
    sx.check(same(sx, node.raw_value(), get(raw, path)),
             lab + ": value of the resulting node")
    t = node.top()
    sx.check(same(sx, t.raw_value(), raw), lab + ": the whole tree")
    n = node
    for i in range(len(path) - 1, -1, -1):
        n = n.up()
        sx.check(same(sx, n.raw_value(), get(raw, path[:i])),
                 lab + ": content of the parent")


def do_move(sx, mv, node, raw, path, tag, check=True):
    f, p2 = move(sx, mv, node, raw, path, tag)
    st, r = sx.attempt(f, NonexistentInstance, IndexError)
    if p2 is None:
        sx.check(st == "exc", f"{mv[0]} has no target")
        return None
    sx.check(st == "ok", f"{mv[0]} has a target")
    if check:
        verify(sx, r, raw, p2, mv[0])
    return r, p2


def do_edit(sx, ed, node, raw, path, tag, cooked, check=True):
    f, r2, p2 = edit(sx, ed, node, raw, path, tag, cooked)
    st, r = sx.attempt(f, NonexistentInstance)
    if p2 is None:
        sx.check(st == "exc", "deleted item must exist")
        return None
    sx.check(st == "ok", f"{ed[0]} succeeds")
    if check:
        verify(sx, r, r2, p2, ed[0])
    return r, r2, p2


@task(cases=[{"f": i} for i in range(len(FOCI))], budget=300)
def edit_once(sx, f):
    raw = tree(sx)
    path = FOCI[f]
    node = start(sx, raw, path)
    cooked = sx.choice("cooked", [False, True])
    es = edits(raw, path)
    e = es[sx.choice("e1", list(range(len(es))))]
    do_edit(sx, e, node, raw, path, "n1", cooked)


@task(cases=[{"f": i} for i in range(len(FOCI))], budget=300)
def move_twice(sx, f):
    raw = tree(sx)
    path = FOCI[f]
    node = start(sx, raw, path)
    for i in range(sx.n(2, 3)):
        ms = moves(raw, path)
        mv = ms[sx.choice(f"m{i}", list(range(len(ms))))]
        r = do_move(sx, mv, node, raw, path, f"v{i}")
        if r is None:
            return
        node, path = r


def few(sx, acts, without=()):
    """at most four actions of each kind in the quick tier"""
    if sx.tier != "quick":
        return acts
    n = {}
    r = []
    for a in acts:
        n[a[0]] = n.get(a[0], 0) + 1
        if a[0] not in without and n[a[0]] <= 4:
            r.append(a)
    return r


@task(cases=[{"f": i} for i in range(len(FOCI))], budget=600)
def edit_move_edit(sx, f):
    raw = tree(sx)
    path = FOCI[f]
    node = start(sx, raw, path)
    cooked = sx.choice("cooked", [False, True])
    es = few(sx, edits(raw, path))
    r = do_edit(sx, es[sx.choice("e1", list(range(len(es))))], node, raw, path,
                "n1", cooked, False)
    if r is None:
        return
    node, raw, path = r
    ms = few(sx, moves(raw, path), ("goto", "iter"))
    r = do_move(sx, ms[sx.choice("m1", list(range(len(ms))))], node, raw, path,
                "v1", False)
    if r is None:
        return
    node, path = r
    verify(sx, node, raw, path, "moved")
    es = few(sx, edits(raw, path))
    r = do_edit(sx, es[sx.choice("e2", list(range(len(es))))], node, raw, path,
                "n2", not cooked)


@task(cases=[{"n": n, "k": k} for n in (3, 4, 5) for k in ("ll", "li")], budget=300)
def longer(sx, n, k):
    """any entry of longer arrays"""
    vs = [sx.int(f"x{i}", *I8) for i in range(n)]
    raw = {"m:c": {k: vs if k == "ll" else [{"k": i, "v": v} for i, v in enumerate(vs)], "a": 1}}
    i = sx.choice("i", list(range(n)))
    path = ["m:c", k, i]
    node = start(sx, raw, path[:-1])[i - n if sx.choice("neg", [False, True]) else i]
    m = sx.choice("m", [[], ["next"], ["previous"], ["next", "previous"], ["previous", "previous"],
                        ["up", "last"]])
    for j, mv in enumerate(m):
        mv = ("down", -1) if mv == "last" else (mv, None)
        r = do_move(sx, mv, node, raw, path, f"v{j}")
        if r is None:
            return
        node, path = r
    e = sx.choice("e", [("update", None), ("before", None), ("after", None), ("delete", None)])
    if e[0] == "delete":
        node, path, e = node.up(), path[:-1], ("delete", path[-1])
    r = do_edit(sx, e, node, raw, path, "n1", False)
    if r is None or len(r[2]) < 3:
        return
    node, raw, path = r
    r = do_move(sx, sx.choice("m2", [("next", None), ("previous", None)]), node, raw, path, "w")
    if r is None:
        return
    do_edit(sx, ("before", None), r[0], raw, r[1], "n2", True)
