"""Helpers shared by the harnesses (run both instrumented and plain)."""
import atexit
from decimal import Decimal as decimal_
import json
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

from yangson import DataModel
from yangson.exceptions import *   # noqa

_dirs = []


def _cleanup():
    for pid, d in _dirs:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


atexit.register(_cleanup)


def tmpdir():
    d = tempfile.mkdtemp(prefix="sxmod-")
    _dirs.append((os.getpid(), d))
    return d


def ylib(mods):
    """YANG library text; mods: list of dict(name, revision, features,
    conformance, submodules)."""
    out = []
    for m in mods:
        e = {"name": m["name"], "revision": m.get("revision", ""),
             "namespace": m.get("namespace", "http://x/" + m["name"]),
             "conformance-type": m.get("conformance", "implement")}
        if m.get("features"):
            e["feature"] = list(m["features"])
        if m.get("submodules"):
            e["submodule"] = [{"name": n, "revision": r}
                              for n, r in m["submodules"]]
        out.append(e)
    return json.dumps({"ietf-yang-library:modules-state": {
        "module-set-id": "x", "module": out}})


def build(texts, mods=None):
    """DataModel from {file name without suffix: text}."""
    d = tmpdir()
    for n, t in texts.items():
        with open(os.path.join(d, n + ".yang"), "w", encoding="utf-8") as f:
            f.write(t)
    if mods is None:
        mods = [{"name": n} for n in texts]
    try:
        return DataModel(ylib(mods), (d,))
    finally:
        for n in texts:
            os.remove(os.path.join(d, n + ".yang"))
        os.rmdir(d)


def sbuild(sx, texts, mods=None):
    """DataModel from module texts that may contain symbolic parts."""
    return DataModel(ylib(mods or [{"name": n} for n in texts]),
                     (sx.module_dir(texts),))


def module(name, body, prefix=None, imports=""):
    p = prefix or name
    return (f'module {name} {{\n  yang-version 1.1;\n  namespace "http://x/{name}";\n'
            f'  prefix {p};\n{imports}\n{body}\n}}\n')


def types_of(dm, mod, names):
    """Data types of top-level leafs of the model."""
    return {n: dm.get_data_node(f"/{mod}:{n}").type for n in names}


def elem(text, tag="x"):
    e = ET.Element(tag)
    e.text = text
    return e
