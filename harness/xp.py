"""Helpers of the XPath harnesses."""
from .common import *
from yangson.schemadata import SchemaContext
from yangson.xpathparser import XPathParser
from yangson.nodeset import NodeSet

_cache = {}


def parse(dm, text, mod="m"):
    """Expression parsed with the prefixes of a module, unprefixed names are in m."""
    k = (id(dm), text, mod)
    if k not in _cache:
        mid = [m for m in dm.schema_data.modules if m[0] == mod][0]
        _cache[k] = (XPathParser(
            text, SchemaContext(dm.schema_data, "m", mid)).parse(), dm)
    return _cache[k][0]


def model(body, **more):
    k = (body, tuple(sorted(more.items())))
    if k not in _cache:
        _cache[k] = build({"m": module("m", body), **more})
    return _cache[k]


def ev(dm, text, node, mod="m"):
    return parse(dm, text, mod).evaluate(node)
