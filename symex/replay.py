"""Replay recorded assignments against the plain, uninstrumented yangson.

usage: replay.py FILE   (FILE: JSON list of {check, task, case, inputs} objects, or
one such object).  Prints one JSON object per line of the form
{"status": "pass"|"violated"|"assume"|"error", "label":..., "obs":[...]}
"""
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from symex import api  # noqa: E402


def stale(e):
    """The harness uses a name that the code no longer has."""
    f = traceback.extract_tb(e.__traceback__)[-1].filename
    if "/harness/" not in f or not f.startswith(VERIF):
        return False
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        return (o is not None and getattr(
            o if isinstance(o, type) else type(o), "__module__", "").startswith(
                "yangson")) or type(o).__name__ == "module"
    return isinstance(e, (ImportError, NameError))


def run_one(item, mods):
    name = item["check"]
    if "tier" in item:
        api.Ctx.tier = item["tier"]
    if name not in mods:
        del api.TASKS[:]
        try:
            importlib.import_module("harness." + name)
        except Exception as e:
            f = traceback.extract_tb(e.__traceback__)[-1].filename
            st = ("violated" if f.startswith(os.path.join(REPO, "yangson"))
                  and not isinstance(e, (ImportError, SyntaxError)) else "error")
            return {"status": st, "label": f"uncaught {type(e).__name__}: {e}",
                    "trace": traceback.format_exc()[-2000:], "obs": []}
        if item["task"] == "<load>":
            return {"status": "pass", "label": None, "obs": []}
        mods[name] = {t["name"]: t["fn"] for t in api.TASKS}
    fn = mods[name][item["task"]]
    sx = api.ConcCtx(item["inputs"])
    res = {"status": "pass", "label": None}
    try:
        fn(sx, **item.get("case", {}))
    except api.CheckFailed as e:
        res = {"status": "violated", "label": str(e)}
    except api.AssumeFailed:
        res = {"status": "assume", "label": None}
    except Exception as e:
        res = {"status": "stale" if stale(e) else "violated", "label": f"uncaught {type(e).__name__}: {e}",
               "trace": traceback.format_exc()[-2000:]}
    try:
        res["obs"] = sx.observations
        json.dumps(res)
    except (TypeError, ValueError):
        res["obs"] = []
    return res


def main():
    with open(sys.argv[1]) as f:
        items = json.load(f)
    one = isinstance(items, dict)
    if one:
        items = [items]
    mods = {}
    bad = 0
    for it in items:
        r = run_one(it, mods)
        bad |= r["status"] == "violated"
        print(json.dumps(r), flush=True)
    sys.exit(1 if one and bad else 0)


if __name__ == "__main__":
    main()
