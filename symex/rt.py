"""Run-time support of instrumented code: operations and calls that may involve
symbolic values."""
import base64
import binascii
import collections
import copy
import datetime
import decimal
import enum
import functools
import itertools
import json
import math
import operator
import re
import types
import urllib.parse
import xml.sax.saxutils
import z3
from .core import (E, Sym, SymBool, SymInt, SymFloat, SymDec, PathIncomplete, Steer,
                   EngineError, mkbool, mkint, mkfloat, as_cond, num_e, lnot, to_q,
                   and_, or_, not_, as_symfloat, as_symdec, int_digits)
from . import strings as _strings
from .strings import (SymStr, SymBytes, S, mkstr, mkbytes, chars, bchars, join,
                      mklazy, char_is, in_ranges, eqc, class_ranges)
from . import rx

SYMTYPES = {SymBool: bool, SymInt: int, SymFloat: float, SymDec: decimal.Decimal,
            SymStr: str, SymBytes: bytes}

_tmp = []


def push(x):
    _tmp.append(x)
    return x


def pop():
    return _tmp.pop()


def fn(name):
    E.funcs.add(name)


def tobool(x):
    return x if type(x) is bool else bool(x)


def toint(x):
    if type(x) is SymInt:
        return x.__index__()
    return x


# ------------------------------------------------------------ symbolic hash

class SymHash(int):
    """A hash value derived from symbolic content."""
    def __new__(cls, term):
        o = int.__new__(cls, E.next_hash())
        o.term = term
        return o

    def __eq__(self, o):
        if type(o) is SymHash:
            return eq(self.term, o.term)
        return False

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    __hash__ = int.__hash__


def _hash_term(x):
    """Term whose equality stands for equality of hash values."""
    t = type(x)
    if t is SymInt:
        M = (1 << 61) - 1
        a = z3.If(x.e < 0, -x.e, x.e)
        a = a - M * (a / z3.IntVal(M))
        h = z3.If(x.e < 0, -a, a)
        return SymInt(z3.If(h == -1, z3.IntVal(-2), h))
    if t in (SymFloat, SymDec):
        return x
    if t is SymBool:
        return x
    if t in (SymStr, SymBytes, str, bytes):
        return x
    if t is SymHash:
        return x.term
    if t is tuple:
        return tuple(_hash_term(y) for y in x)
    if t is frozenset:
        return frozenset(x)
    h = type(x).__hash__
    if isinstance(h, types.FunctionType):
        v = h(x)
        return v.term if type(v) is SymHash else v
    return hash(x)


def m_hash(x):
    if deep_sym(x) or type(x) is SymHash:
        return SymHash(_hash_term(x))
    h = type(x).__hash__
    if isinstance(h, types.FunctionType):
        return h(x)
    if type(x) is tuple:
        for y in x:
            if symkey(y):
                return SymHash(_hash_term(x))
    return hash(x)


def deep_sym(x, depth=4):
    """Does the built-in structure x contain a symbolic value?"""
    t = type(x)
    if t in SYMTYPES:
        return True
    if depth == 0:
        return False
    if t in (list, tuple, set, frozenset, collections.deque):
        return any(deep_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(deep_sym(k, depth - 1) or deep_sym(v, depth - 1)
                   for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return any(deep_sym(y, depth - 1) for y in x)
    return False


def symkey(k):
    """May k, used as a key, be equal to another key with a different hash?"""
    t = type(k)
    if t is str or t is int:
        return False
    if t in SYMTYPES:
        return True
    if t is tuple or t is frozenset:
        return any(symkey(y) for y in k)
    if t is SymHash:
        return True
    h = t.__hash__
    if isinstance(h, types.FunctionType) and not isinstance(k, (enum.Enum, type)) \
            and "_sx_rt" in h.__globals__:
        v = k.__hash__()
        return type(v) is SymHash
    return False


def tainted(d):
    if not E.taint:
        return False
    return any(symkey(k) for k in d)


_MISS = object()


def find_key(d, k):
    """The stored key of d equal to k, or _MISS."""
    if type(k) not in SYMTYPES:
        # an identical object is equal
        for x in d:
            if x is k:
                return x
    for x in d:
        if x is k:
            return x
    for x in list(d):
        if truth(eq(x, k)):
            return x
    return _MISS


def truth(x):
    return bool(x)


# ----------------------------------------------------------------- compare

_FAST = {str, int, type(None), bool, float, bytes}


def _coll(x):
    return isinstance(x, (dict, set, frozenset)) or type(x) in (
        type({}.keys()), type({}.items()))


def _simple_eq(a, b):
    """type(a).__eq__ is a built-in container comparison"""
    f = type(a).__eq__
    return not isinstance(f, types.FunctionType)


def eq(a, b):
    ta, tb = type(a), type(b)
    if ta in _FAST and tb in _FAST:
        return a == b
    if ta is decimal.Decimal and tb in SYMTYPES:
        r = b.__eq__(a)
        return False if r is NotImplemented else r
    if ta is tuple and tb is tuple or ta is list and tb is list:
        return _seq_eq(a, b)
    if E.active and (ta in (dict, set, frozenset) or isinstance(a, (dict, set))) \
            and _simple_eq(a, b) and _simple_eq(b, a):
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            if tainted(a) or tainted(b):
                return len(a) == len(b) and all(contains(b, x) for x in a)
            return a == b
        if isinstance(a, dict) and isinstance(b, dict):
            return _dict_eq(a, b)
    return a == b


def _dict_eq(a, b):
    if len(a) != len(b):
        return False
    r = True
    for k in a:
        if not contains(b, k):
            return False
        r = land(r, eq(getitem(a, k), getitem(b, k)))
        if r is False:
            return False
    return r


def _builtin_eq(a, b):
    """dict.__eq__ and list.__eq__"""
    if isinstance(a, dict):
        return _dict_eq(a, b) if isinstance(b, dict) else NotImplemented
    return _seq_eq(a, b) if isinstance(b, list) else NotImplemented


def land(a, b):
    """Conjunction without forking when both are conditions."""
    if a is True:
        return b
    if a is False:
        return False
    if type(a) is SymBool and (type(b) is SymBool or b is True or b is False):
        return a & b
    return a and b


def _seq_eq(a, b):
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        if x is y:
            continue
        c = eq(x, y)
        if c is False:
            return False
        r = land(r, c if isinstance(c, bool) else bool(c))
        if r is False:
            return False
    return r


def ne(a, b):
    ta, tb = type(a), type(b)
    if ta in _FAST and tb in _FAST:
        return a != b
    f = type(a).__ne__
    if isinstance(f, types.FunctionType) and ta not in SYMTYPES:
        return a != b
    if ta in SYMTYPES or tb in SYMTYPES or not isinstance(
            type(a).__eq__, types.FunctionType):
        r = eq(a, b)
        return lnot(r) if isinstance(r, bool) else (a != b)
    r = a == b
    return lnot(r) if isinstance(r, bool) else a != b


def _order(a, b, op, rop):
    if type(a) is decimal.Decimal and type(b) in SYMTYPES:
        return rop(b, a)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) \
            and (tainted(a) or tainted(b)):
        sub = lambda x, y: all(contains(y, z) for z in x)
        if op is operator.le:
            return sub(a, b)
        if op is operator.ge:
            return sub(b, a)
        if op is operator.lt:
            return len(a) < len(b) and sub(a, b)
        return len(b) < len(a) and sub(b, a)
    return op(a, b)


def lt(a, b):
    return _order(a, b, operator.lt, operator.gt)


def le(a, b):
    return _order(a, b, operator.le, operator.ge)


def gt(a, b):
    return _order(a, b, operator.gt, operator.lt)


def ge(a, b):
    return _order(a, b, operator.ge, operator.le)


def is_(a, b):
    if type(a) is SymBool and type(b) is bool:
        return a if b else lnot(a)
    if type(b) is SymBool and type(a) is bool:
        return b if a else lnot(b)
    return a is b


def is_not(a, b):
    return lnot(is_(a, b))


# -------------------------------------------------------------- containers

_KEYV = (type({}.keys()),)


def contains(c, x):
    tc = type(c)
    if tc is str:
        if type(x) is SymStr:
            return S(c).__contains__(x)
        return x in c
    if tc is SymStr:
        return c.__contains__(x)
    if tc is list or tc is tuple or tc is collections.deque:
        r = False
        for y in c:
            if y is x:
                return True
            e = eq(y, x)
            if e is True:
                return True
            if type(e) is SymBool:
                r = e if r is False else (r | e)
            elif e is not False and bool(e):
                return True
        return r
    if isinstance(c, (dict, set, frozenset)) or tc in _KEYV:
        if isinstance(tc.__contains__, types.FunctionType):
            return x in c
        if symkey(x) or tainted(c):
            return find_key(c, x) is not _MISS
        return x in c
    if tc is type({}.values()):
        return contains(list(c), x)
    if tc is range and type(x) is SymInt:
        lo, hi, st = c.start, c.stop, c.step
        if st > 0:
            r = z3.And(x.e >= lo, x.e < hi)
        else:
            r = z3.And(x.e <= lo, x.e > hi)
        if abs(st) != 1:
            r = z3.And(r, (x.e - lo) % abs(st) == 0)
        return mkbool(r)
    if tc is bytes and type(x) is SymInt:
        return mkbool(or_([x.e == b for b in c]))
    if tc is SymBytes:
        if isinstance(x, int):
            return mkbool(or_([eqc(b, num_e(x)) for b in c.cs]))
        return SymStr(c.cs).__contains__(SymStr(bchars(x)))
    return x in c


def ncontains(c, x):
    return lnot(contains(c, x))


def in_(x, c):
    return contains(c, x)


def nin_(x, c):
    return lnot(contains(c, x))


def store(v, o, i):
    setitem(o, i, v)


def getitem(o, i):
    if isinstance(o, dict) and not isinstance(
            type(o).__getitem__, types.FunctionType):
        if type(i) is not str and symkey(i) or E.taint and tainted(o):
            k = find_key(o, i)
            if k is _MISS:
                m = getattr(type(o), "__missing__", None)
                if m is not None:
                    if isinstance(o, collections.defaultdict):
                        v = o.default_factory()
                        setitem(o, i, v)
                        return v
                    return m(o, i)
                raise KeyError(i)
            return dict.__getitem__(o, k)
    elif type(i) is SymInt and isinstance(o, (list, tuple, str, bytes)):
        n = len(o)
        if not E.branch(z3.And(i.e >= -n, i.e < n)):
            raise IndexError("index out of range")
        return o[E.concretize_int(i.e)]
    return o[i]


def setitem(o, i, v):
    if isinstance(o, dict) and not isinstance(
            type(o).__setitem__, types.FunctionType):
        sk = type(i) is not str and symkey(i)
        if sk or E.taint and tainted(o):
            return _dset(o, i, v)
    o[i] = v


def _dset(o, i, v):
    """dict.__setitem__ (not the one of a subclass)"""
    if type(i) is not str and symkey(i) or E.taint and tainted(o):
        k = find_key(o, i)
        if k is _MISS:
            if type(i) is not str and symkey(i):
                E.taint = True
            k = i
        i = k
    dict.__setitem__(o, i, v)


def delitem(o, i):
    if isinstance(o, dict) and not isinstance(
            type(o).__delitem__, types.FunctionType):
        if type(i) is not str and symkey(i) or E.taint and tainted(o):
            k = find_key(o, i)
            if k is _MISS:
                raise KeyError(i)
            dict.__delitem__(o, k)
            return
    del o[i]


_AUG = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul,
        "Div": operator.itruediv, "FloorDiv": operator.ifloordiv,
        "Mod": operator.imod, "Pow": operator.ipow, "LShift": operator.ilshift,
        "RShift": operator.irshift, "BitOr": operator.ior,
        "BitXor": operator.ixor, "BitAnd": operator.iand}


def aug(d, k, op, v):
    old = getitem(d, k)
    if op in ("BitOr", "BitAnd", "BitXor", "Sub", "Mod"):
        new = {"BitOr": ior_, "BitAnd": iand_, "BitXor": ixor, "Sub": isub,
               "Mod": imod}[op](old, v)
    else:
        new = _AUG[op](old, v)
    setitem(d, k, new)


def set_add(s, x):
    if symkey(x) or tainted(s):
        if find_key(s, x) is _MISS:
            if symkey(x):
                E.taint = True
            set.add(s, x)
    else:
        s.add(x)


def mkset(items):
    s = set()
    for x in items:
        set_add(s, x)
    return s


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        setitem(d, k, v)
    return d


def _is_set(x):
    return isinstance(x, (set, frozenset)) or type(x) in (
        type({}.keys()), type({}.items()))


def _set_op(a, b, op):
    if op == "or":
        r = mkset(a)
        for x in b:
            set_add(r, x)
    elif op == "and":
        r = mkset([x for x in a if contains(b, x)])
    elif op == "sub":
        r = mkset([x for x in a if not contains(b, x)])
    else:
        r = mkset([x for x in a if not contains(b, x)])
        for x in b:
            if not contains(a, x):
                set_add(r, x)
    return frozenset(r) if isinstance(a, frozenset) else r


def _sets_tainted(a, b):
    return E.taint and _is_set(a) and _is_set(b) and (tainted(a) or tainted(b))


def band_(a, b):
    return _set_op(a, b, "and") if _sets_tainted(a, b) else a & b


def bor_(a, b):
    if E.taint and isinstance(a, dict) and isinstance(b, dict) and (
            tainted(a) or tainted(b)):
        r = type(a)(a)
        for k, v in b.items():
            setitem(r, k, v)
        return r
    return _set_op(a, b, "or") if _sets_tainted(a, b) else a | b


def bsub(a, b):
    return _set_op(a, b, "sub") if _sets_tainted(a, b) else a - b


def bxor(a, b):
    return _set_op(a, b, "xor") if _sets_tainted(a, b) else a ^ b


def iand_(a, b):
    if _sets_tainted(a, b) and isinstance(a, set):
        r = _set_op(a, b, "and")
        a.clear()
        for x in r:
            set.add(a, x)
        return a
    a &= b
    return a


def ior_(a, b):
    if _sets_tainted(a, b) and isinstance(a, set):
        for x in b:
            set_add(a, x)
        return a
    if isinstance(a, dict) and isinstance(b, dict) and E.taint:
        for k, v in b.items():
            setitem(a, k, v)
        return a
    a |= b
    return a


def isub(a, b):
    if _sets_tainted(a, b) and isinstance(a, set):
        for x in list(b):
            k = find_key(a, x)
            if k is not _MISS:
                set.discard(a, k)
        return a
    a -= b
    return a


def ixor(a, b):
    if _sets_tainted(a, b) and isinstance(a, set):
        r = _set_op(a, b, "xor")
        a.clear()
        for x in r:
            set.add(a, x)
        return a
    a ^= b
    return a


# --------------------------------------------------------------- formatting

def to_str(x):
    """str(x)"""
    t = type(x)
    if t is str or t is SymStr:
        return x
    if t in SYMTYPES:
        if t is SymBytes:
            raise PathIncomplete("str(bytes)")
        return SymStr(parts=[x])
    f = t.__str__
    if isinstance(f, types.FunctionType):
        return f(x)
    if t in (list, tuple, dict) or isinstance(x, (list, dict, tuple)):
        if f is object.__str__ and isinstance(t.__repr__, types.FunctionType):
            return t.__repr__(x)
        return to_repr(x) if deep_sym(x, 8) or _has_user(x) else str(x)
    if isinstance(x, BaseException) and f in (BaseException.__str__,
                                              Exception.__str__):
        if len(x.args) == 1:
            return to_str(x.args[0])
        return str(x) if not deep_sym(x.args) else to_repr(x.args)
    if f is object.__str__ and isinstance(t.__repr__, types.FunctionType):
        return t.__repr__(x)
    return str(x)


def _has_user(x):
    if isinstance(x, dict):
        return any(_has_user(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(_has_user(v) for v in x)
    return isinstance(type(x).__repr__, types.FunctionType) and not isinstance(
        x, enum.Enum)


def to_repr(x):
    t = type(x)
    if t is SymStr:
        return SymStr(parts=[lambda: repr_str(x)])
    if t in (SymInt, SymBool, SymFloat):
        return SymStr(parts=[x])
    if t is SymDec:
        return mklazy(["Decimal('", SymStr(parts=[x]), "')"])
    if t is SymBytes:
        return SymStr(parts=[lambda: repr_bytes(x)])
    f = t.__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    if not deep_sym(x, 8) and not _has_user(x):
        return repr(x)
    if f is list.__repr__:
        return mklazy(["["] + _commas([[to_repr(y)] for y in x]) + ["]"])
    if f is tuple.__repr__:
        body = _commas([[to_repr(y)] for y in x])
        return mklazy(["("] + body + [",)" if len(x) == 1 else ")"])
    if f is dict.__repr__:
        return mklazy(["{"] + _commas([[to_repr(k), ": ", to_repr(v)]
                                       for k, v in x.items()]) + ["}"])
    if isinstance(x, BaseException):
        return mklazy([t.__name__, "("] + _commas([[to_repr(y)] for y in x.args])
                      + [")"])
    return SymStr(parts=[lambda: repr(concretize(x))])


def _commas(xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(", ")
        out.extend(x)
    return out


def repr_str(s):
    cs = s.cs
    has = lambda ch: E.branch(or_([eqc(c, ord(ch)) for c in cs]))
    q = '"' if has("'") and not has('"') else "'"
    out = [ord(q)]
    for c in cs:
        if isinstance(c, int):
            r = repr(chr(c))
            if c in (34, 39):
                out += ([92, c] if chr(c) == q else [c])
            else:
                out += chars(r[1:-1])
        elif E.branch(or_([eqc(c, 92), eqc(c, ord(q))])):
            out += [92, c]
        elif E.branch(char_is(c, "isprintable")):
            out.append(c)
        else:
            v = E.concretize_int(c, 300)
            out += chars(repr(chr(v))[1:-1])
    out.append(ord(q))
    return mkstr(out)


def repr_bytes(b):
    return repr(bytes(E.concretize_int(c, 300) for c in b.cs))


def fmt(x, conv, spec):
    if conv == 114:
        x = to_repr(x)
    elif conv == 115:
        x = to_str(x)
    elif conv == 97:
        x = ascii(concretize(x))
    return m_format(x, spec)


def m_format(x, spec=""):
    if type(spec) is not str:
        spec = concretize(spec)
    t = type(x)
    if t in SYMTYPES:
        if spec == "":
            return to_str(x)
        if t is SymStr and re.fullmatch(r"<?\d+s?", spec):
            return x.ljust(int(re.sub(r"\D", "", spec)))
        if t is SymInt and spec == "d":
            return to_str(x)
        mo = re.fullmatch(r"(?:\.(\d+))?f", spec)
        if mo and t is SymDec:
            if mo.group(1) is not None:
                x = x.quantize(decimal.Decimal(1).scaleb(-int(mo.group(1))))
            return mkstr(_strings.dec_str(x, plain=True))
        return SymStr(parts=[lambda: format(concretize(x), spec)])
    f = t.__format__
    if f is object.__format__ or spec == "":
        if isinstance(f, types.FunctionType):
            return f(x, spec)
        return to_str(x)
    return format(x, spec)


def fstr(*parts):
    return mklazy(parts)


def m_str_format(tmpl, *a, **k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = __import__("_string").formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        o = a[first] if isinstance(first, int) else k[first]
        for is_attr, n in rest:
            o = getattr(o, n) if is_attr else getitem(o, n)
        if conv == "r":
            o = to_repr(o)
        elif conv == "s":
            o = to_str(o)
        if spec and "{" in spec:
            spec = m_str_format(spec, *a, **k)
        out.append(m_format(o, spec or ""))
    return mklazy(out)


def bmod(a, b):
    if isinstance(a, str):
        args = b if isinstance(b, tuple) else (b,)
        if type(a) is str and (deep_sym(b) or any(
                isinstance(type(z).__str__, types.FunctionType) for z in args)):
            out, i, pos = [], 0, 0
            for m in re.finditer(r"%(\(\w+\))?([-#0 +]*)(\d+)?(\.\d+)?([a-zA-Z%])", a):
                out.append(a[pos:m.start()])
                pos = m.end()
                if m.group(5) == "%":
                    out.append("%")
                    continue
                if m.group(1):
                    v = getitem(b, m.group(1)[1:-1])
                else:
                    v = args[i]
                    i += 1
                if m.group(5) in "sdi" and not (m.group(2) or m.group(3) or m.group(4)):
                    out.append(to_str(v))
                elif m.group(5) == "r":
                    out.append(to_repr(v))
                else:
                    out.append(m.group(0).replace(m.group(1) or "", "")
                               % (concretize(v),))
            out.append(a[pos:])
            return mklazy(out)
        return a % b
    return a % b


def imod(a, b):
    return bmod(a, b)


# ------------------------------------------------------------- conversions

def str_value(s):
    """(sign, digit expressions) of an integer literal or None. Forks."""
    cs = s.cs
    i, j = 0, len(cs)
    while i < j and E.branch(char_is(cs[i], "isspace")):
        i += 1
    while j > i and E.branch(char_is(cs[j - 1], "isspace")):
        j -= 1
    cs = cs[i:j]
    if not cs:
        return None
    sign = 1
    if E.branch(eqc(cs[0], 45)):
        sign, cs = -1, cs[1:]
    elif E.branch(eqc(cs[0], 43)):
        cs = cs[1:]
    return sign, cs


DEC_RANGES = class_ranges("isdecimal")


def digit_val(c):
    """Value expression of a character known to be a decimal digit."""
    if isinstance(c, int):
        import unicodedata
        return unicodedata.decimal(chr(c))
    if E.branch(z3.And(c >= 48, c <= 57)):
        return c - 48
    return c - 0x660


def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    t = type(x)
    base = a[1] if len(a) > 1 else k.get("base")
    if t is SymInt:
        return x
    if t is SymBool:
        return x._i()
    if t in (SymFloat, SymDec):
        return x.__trunc__()
    if t is SymStr:
        b = 10 if base is None else base
        r = parse_int(x, b)
        if r is None:
            raise ValueError(mklazy(["invalid literal for int() with base ",
                                     str(b), ": ", to_repr(x)]))
        return r
    if t is SymBytes:
        return m_int(SymStr(x.cs), *a[1:], **k)
    f = getattr(t, "__int__", None) or getattr(t, "__index__", None)
    if isinstance(f, types.FunctionType) and base is None:
        return f(x)
    return int(*a, **k)


def parse_int(s, base):
    r = str_value(s)
    if r is None:
        return None
    sign, cs = r
    if base not in (2, 8, 10, 16, 0):
        raise PathIncomplete("int base")
    if base in (16, 8, 2, 0) and len(cs) >= 2 and E.branch(eqc(cs[0], 48)):
        for ch, b in ((120, 16), (111, 8), (98, 2)):
            if base in (b, 0) and E.branch(or_([eqc(cs[1], ch), eqc(cs[1], ch - 32)])):
                cs = cs[2:]
                base = b
                if cs and E.branch(eqc(cs[0], 95)):
                    cs = cs[1:]
                break
        else:
            if base == 0:
                if any(E.branch(not_(or_([eqc(c, 48), eqc(c, 95)]))) for c in cs):
                    return None
                base = 10
    elif base == 0:
        base = 10
    if not cs:
        return None
    val = 0
    prev_us = True
    for c in cs:
        if E.branch(eqc(c, 95)):
            if prev_us:
                return None
            prev_us = True
            continue
        prev_us = False
        if base == 16:
            if E.branch(or_([eqc(z, c) for z in ()]) if False else
                        in_ranges(c, [[97, 102]])):
                d = c - 87
            elif E.branch(in_ranges(c, [[65, 70]])):
                d = c - 55
            elif E.branch(char_is(c, "isdecimal")):
                d = digit_val(c)
            else:
                return None
        else:
            if not E.branch(char_is(c, "isdecimal")):
                return None
            d = digit_val(c)
            if base < 10 and not E.branch(d < base):
                return None
        val = val * base + d
    if prev_us:
        return None
    return mkint(val if sign > 0 else -val)


def parse_dec(s):
    """Parse a decimal/float literal: ('num', coeff, exp10) / special / None."""
    r = str_value(s)
    if r is None:
        return None
    sign, cs = r
    return _parse_dec_body(sign, cs)


def _parse_dec_body(sign, cs):
    n = len(cs)
    val, digs, exp, i = 0, 0, 0, 0
    prev_us = None
    def digit(c):
        return E.branch(char_is(c, "isdecimal"))
    while i < n and digit(cs[i]):
        val = val * 10 + digit_val(cs[i])
        digs += 1
        i += 1
    if i < n and E.branch(eqc(cs[i], 46)):
        i += 1
        while i < n and digit(cs[i]):
            val = val * 10 + digit_val(cs[i])
            digs += 1
            exp -= 1
            i += 1
    if digs == 0:
        rest = mkstr(cs)
        if len(cs) in (3, 8, 4):
            low = S(rest).lower()
            for w in ("inf", "infinity", "nan"):
                if len(cs) == len(w) and truth(S(low) == w):
                    return ("nan",) if w == "nan" else ("inf", sign)
            if len(cs) == 4 and truth(S(low) == "snan"):
                return ("snan",)
        return None
    if i < n and E.branch(or_([eqc(cs[i], 101), eqc(cs[i], 69)])):
        e = parse_int_plain(cs[i + 1:])
        if e is None:
            return None
        exp += E.concretize_int(num_e(e), 200)
        i = n
    if i < n:
        if E.branch(eqc(cs[i], 95)):
            raise PathIncomplete("underscore in number literal")
        return None
    return ("num", val if sign > 0 else -val, exp)


def parse_int_plain(cs):
    if not cs:
        return None
    sign = 1
    if E.branch(eqc(cs[0], 45)):
        sign, cs = -1, cs[1:]
    elif E.branch(eqc(cs[0], 43)):
        cs = cs[1:]
    if not cs:
        return None
    v = 0
    for c in cs:
        if not E.branch(char_is(c, "isdecimal")):
            return None
        v = v * 10 + digit_val(c)
    return mkint(sign * v)


def m_float(*a, **k):
    if not a:
        return float()
    x = a[0]
    t = type(x)
    if t is SymFloat:
        return x
    if t in (SymInt, SymBool):
        return as_symfloat(x)
    if t is SymDec:
        return mkfloat(x.n, x.d)
    if t is SymStr:
        r = parse_dec(x)
        if r is None or r[0] == "snan":
            raise ValueError(mklazy(["could not convert string to float: ",
                                     to_repr(x)]))
        if r[0] == "nan":
            return float("nan")
        if r[0] == "inf":
            return r[1] * float("inf")
        c, e = r[1], r[2]
        if abs(e) > 300:
            raise PathIncomplete("float exponent")
        return mkfloat(c * 10 ** e, 1) if e >= 0 else mkfloat(c, 10 ** -e)
    f = getattr(t, "__float__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return float(*a, **k)


def m_decimal(*a, **k):
    x = a[0] if a else "0"
    t = type(x)
    if t is SymDec:
        return x
    if t is SymInt:
        return SymDec(x.e, 0)
    if t is SymBool:
        return SymDec(x._i().e, 0)
    if t is SymFloat:
        d, kk = x.d, 0
        if d & (d - 1):
            raise PathIncomplete("Decimal of an inexact float")
        kk = d.bit_length() - 1
        return SymDec(x.n * 5 ** kk, -kk)
    if t is SymStr:
        r = parse_dec(x)
        if r is None:
            raise decimal.InvalidOperation([decimal.ConversionSyntax])
        if r[0] in ("nan", "snan"):
            return decimal.Decimal("NaN" if r[0] == "nan" else "sNaN")
        if r[0] == "inf":
            return decimal.Decimal("Infinity") * r[1]
        if isinstance(r[1], int):
            return decimal.Decimal(r[1]).scaleb(r[2])
        return SymDec(r[1], r[2])
    return decimal.Decimal(*a, **k)


def m_bool(*a):
    if not a:
        return False
    x = a[0]
    t = type(x)
    if t is SymBool:
        return x
    if t in (SymInt,):
        return mkbool(x.e != 0)
    if t in (SymFloat, SymDec):
        return mkbool(x.n != 0)
    return bool(x)


def m_str(*a, **k):
    if not a:
        return str(*a, **k)
    if len(a) == 1 and not k:
        return to_str(a[0])
    if type(a[0]) is SymBytes:
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def m_bytes(*a, **k):
    if a and isinstance(a[0], str) and type(a[0]) is SymStr:
        return a[0].encode(*a[1:], **k)
    if a and type(a[0]) is SymBytes:
        return a[0]
    if a and not isinstance(a[0], (int, str, bytes)):
        xs = list(a[0])
        if deep_sym(xs):
            return mkbytes([num_e(x) for x in xs])
        return bytes(xs)
    return bytes(*a, **k)


def m_set(*a):
    return mkset(a[0]) if a else set()


def m_frozenset(*a):
    if not a:
        return frozenset()
    if type(a[0]) is frozenset:
        return a[0]
    return frozenset(mkset(a[0]))


def m_dict(*a, **k):
    if a and not isinstance(a[0], dict) and not hasattr(a[0], "keys"):
        d = mkdict([(x, y) for x, y in a[0]])
        d.update(k)
        return d
    return dict(*a, **k)


def m_type(*a):
    if len(a) == 1:
        return SYMTYPES.get(type(a[0]), type(a[0]))
    return type(*a)


def m_len(x):
    f = getattr(type(x), "__len__", None)
    if isinstance(f, types.FunctionType) and type(x) not in SYMTYPES:
        return f(x)
    return len(x)


def m_ord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return mkint(c.cs[0])
    return ord(c)


def m_chr(i):
    if type(i) is SymInt:
        if not E.branch(z3.And(i.e >= 0, i.e <= 0x10FFFF)):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([i.e])
    return chr(i)


def m_isnan(x):
    if type(x) in (SymFloat, SymInt, SymDec, SymBool):
        return False
    return math.isnan(x)


def m_isinf(x):
    if type(x) in (SymFloat, SymInt, SymDec, SymBool):
        return False
    return math.isinf(x)


def m_isfinite(x):
    return True if type(x) in (SymFloat, SymInt, SymDec, SymBool) \
        else math.isfinite(x)


def m_copysign(x, y):
    if type(y) in (SymFloat, SymInt):
        y = 1.0 if E.branch(to_q(y)[0] >= 0) else -1.0
    if type(x) in (SymFloat, SymInt):
        a = abs(x)
        a = as_symfloat(a) if type(a) is SymInt else a
        return a if math.copysign(1.0, y) > 0 else -a
    return math.copysign(x, y)


def m_fmod(x, y):
    if type(x) is SymFloat or type(y) is SymFloat:
        q = to_q(y)
        p = to_q(x)
        if isinstance(p, str):
            if p == "nan":
                return float("nan")
            raise ValueError("math domain error")
        if isinstance(q, str):
            return float("nan") if q == "nan" else x
        (n1, d1), (n2, d2) = p, q
        if not isinstance(n2, int):
            n2 = E.concretize_int(n2)
        if n2 == 0:
            raise ValueError("math domain error")
        n1, n2, d = n1 * d2, abs(n2 * d1), d1 * d2
        if isinstance(n1, int):
            return math.fmod(n1 / d, n2 / d)
        neg = E.branch(n1 < 0)
        a = -n1 if neg else n1
        r = a - (a / z3.IntVal(n2)) * n2
        return mkfloat(-r if neg else r, d)
    return math.fmod(x, y)


def m_trunc(x):
    return x.__trunc__() if type(x) in SYMTYPES else math.trunc(x)


def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def _wrap(f):
    if f is None or isinstance(f, types.FunctionType):
        return f
    return lambda *a: call(f, *a)


def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=_wrap(key), reverse=reverse)


def m_minmax(real):
    def m(*a, **k):
        if k.get("key") is not None:
            k = dict(k, key=_wrap(k["key"]))
        return real(*a, **k)
    return m


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_reduce(f, it, *init):
    it = iter(it)
    r = init[0] if init else next(it)
    for x in it:
        r = call(f, r, x)
    return r


def m_round(x, nd=None):
    if type(x) in SYMTYPES:
        return x.__round__() if nd is None else x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


def m_isinstance(x, t):
    return isinstance(x, t)


def m_repr(x):
    return to_repr(x)


def m_getattr(o, n, *d):
    return getattr(o, concretize(n), *d)


# ------------------------------------------------------------ stdlib models

def json_str(s, ascii_=True):
    out = [34]
    esc = {34: '\\"', 92: "\\\\", 10: "\\n", 13: "\\r", 9: "\\t", 12: "\\f",
           8: "\\b"}
    for c in chars(s):
        if isinstance(c, int):
            out += chars(json.dumps(chr(c), ensure_ascii=ascii_)[1:-1])
            continue
        done = False
        for k, v in esc.items():
            if E.branch(eqc(c, k)):
                out += chars(v)
                done = True
                break
        if done:
            continue
        if E.branch(z3.And(c >= 32, c <= (126 if ascii_ else 0x10FFFF))):
            out.append(c)
        else:
            v = E.concretize_int(c, 300)
            out += chars(json.dumps(chr(v), ensure_ascii=ascii_)[1:-1])
    out.append(34)
    return mkstr(out)


def m_json_dumps(x, **k):
    if not deep_sym(x, 20):
        return json.dumps(x, **k)
    if set(k) - {"ensure_ascii"}:
        return json.dumps(concretize(x), **k)
    asc = k.get("ensure_ascii", True)

    def go(v):
        t = type(v)
        if t in (SymInt, SymFloat):
            return SymStr(parts=[v])
        if t is SymBool:
            return mklazy(["true" if v else "false"])
        if isinstance(v, str):
            return SymStr(parts=[lambda: json_str(v, asc)])
        if isinstance(v, (list, tuple)):
            return mklazy(["["] + _commas([[go(y)] for y in v]) + ["]"])
        if isinstance(v, dict):
            return mklazy(["{"] + _commas([[go(kk), ": ", go(y)]
                                           for kk, y in v.items()]) + ["}"])
        if t in SYMTYPES:
            raise TypeError(f"Object of type {SYMTYPES[t].__name__} "
                            "is not JSON serializable")
        return json.dumps(v, **k)
    return go(x)


def _hexd(c):
    return in_ranges(c, [[48, 57], [65, 70], [97, 102]])


def _hexv(c):
    if isinstance(c, int):
        return int(chr(c), 16)
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


def m_unquote(s, encoding="utf-8", errors="replace"):
    if type(s) is not SymStr:
        return urllib.parse.unquote(s, encoding, errors)
    cs = s.cs
    out, i = [], 0
    buf = []

    def flush():
        if not buf:
            return
        if all(isinstance(b, int) for b in buf):
            out.extend(chars(bytes(buf).decode(encoding, errors)))
        elif not E.branch(or_([b > 127 for b in buf])):
            out.extend(buf)
        else:
            bs = bytes(E.concretize_int(b, 300) for b in buf)
            out.extend(chars(bs.decode(encoding, errors)))
        buf.clear()
    while i < len(cs):
        if (i + 2 < len(cs) and E.branch(eqc(cs[i], 37))
                and E.branch(and_([_hexd(cs[i + 1]), _hexd(cs[i + 2])]))):
            buf.append(_simp(_hexv(cs[i + 1]) * 16 + _hexv(cs[i + 2])))
            i += 3
            continue
        flush()
        out.append(cs[i])
        i += 1
    flush()
    return mkstr(out)


def _simp(e):
    if isinstance(e, int):
        return e
    return e


_SAFE = ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~")


def m_quote(s, safe="/", encoding=None, errors=None):
    if type(s) is not SymStr:
        return urllib.parse.quote(s, safe, encoding, errors)
    ok = class_of(_SAFE + safe)
    out = []
    for c in s.cs:
        if isinstance(c, int):
            out += chars(urllib.parse.quote(chr(c), safe))
        elif E.branch(in_ranges(c, ok)):
            out.append(c)
        elif E.branch(c < 128):
            hi, lo = c / z3.IntVal(16), c - 16 * (c / z3.IntVal(16))
            hx = lambda d: z3.If(d < 10, d + 48, d + 55)
            out += [37, hx(hi), hx(lo)]
        else:
            v = E.concretize_int(c, 300)
            out += chars(urllib.parse.quote(chr(v)))
    return mkstr(out)


def _replace_all(s, pairs):
    for a, b in pairs:
        s = s.replace(a, b)
    return s


def m_escape(data, entities={}):
    if type(data) is not SymStr:
        return xml.sax.saxutils.escape(data, entities)
    return _replace_all(data, [("&", "&amp;"), (">", "&gt;"), ("<", "&lt;")] +
                        list(entities.items()))


def m_unescape(data, entities={}):
    if type(data) is not SymStr:
        return xml.sax.saxutils.unescape(data, entities)
    return _replace_all(data, [("&gt;", ">"), ("&lt;", "<")] +
                        list(entities.items()) + [("&amp;", "&")])


def m_quoteattr(data, entities={}):
    if type(data) is not SymStr:
        return xml.sax.saxutils.quoteattr(data, entities)
    data = m_escape(data, {**entities, "\n": "&#10;", "\r": "&#13;",
                           "\t": "&#9;"})
    if not E.branch(or_([eqc(c, 34) for c in chars(data)])):
        return mkstr([34] + list(chars(data)) + [34])
    if E.branch(or_([eqc(c, 39) for c in chars(data)])):
        data = _replace_all(data, [('"', "&quot;")])
        return mkstr([34] + list(chars(data)) + [34])
    return mkstr([39] + list(chars(data)) + [39])


def class_of(s):
    from .strings import ranges_of
    return ranges_of({ord(c) for c in s})


_B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def m_b64encode(b, altchars=None):
    if type(b) is not SymBytes:
        return base64.b64encode(b, altchars)
    cs = b.cs
    out = []

    def enc(v):
        if isinstance(v, int):
            return ord(_B64[v])
        return z3.If(v < 26, v + 65, z3.If(v < 52, v + 71, z3.If(
            v < 62, v - 4, z3.If(v == 62, z3.IntVal(43), z3.IntVal(47)))))

    def div(v, n):
        return v // n if isinstance(v, int) else v / z3.IntVal(n)
    for i in range(0, len(cs), 3):
        ch = cs[i:i + 3]
        k = len(ch)
        x = ch + [0] * (3 - k)
        a, b_, c = x
        s = [div(a, 4), (a - 4 * div(a, 4)) * 16 + div(b_, 16),
             (b_ - 16 * div(b_, 16)) * 4 + div(c, 64), c - 64 * div(c, 64)]
        o = [enc(v) for v in s]
        for t in range(k + 1, 4):
            o[t] = 61
        out += o
    return mkbytes(out)


def m_b64decode(s, altchars=None, validate=False):
    if type(s) not in (SymStr, SymBytes):
        return base64.b64decode(s, altchars, validate)
    if altchars is not None:
        raise PathIncomplete("b64 altchars")
    cs = s.cs
    if type(s) is SymStr and E.branch(or_([c > 127 for c in cs])):
        raise ValueError("string argument should contain only ASCII characters")
    alpha = class_of(_B64)
    if not validate:
        kept = []
        for c in cs:
            if E.branch(or_([in_ranges(c, alpha), eqc(c, 61)])):
                kept.append(c)
        cs = kept
    # split body and padding
    n = len(cs)
    npad = 0
    body = []
    for i, c in enumerate(cs):
        if E.branch(in_ranges(c, alpha)):
            body.append(c)
        elif E.branch(eqc(c, 61)):
            npad = i
            rest = cs[i:]
            q = len(body) % 4
            if validate:
                # strict mode: leading padding / excess data are errors
                allpad = E.branch(and_([eqc(x, 61) for x in rest]))
                if not body or not allpad:
                    raise binascii.Error("padding error")
                if (q == 2 and len(rest) == 2) or (q == 3 and len(rest) == 1):
                    break
                raise binascii.Error("padding error")
            raise PathIncomplete("non-strict base64 padding")
        else:
            raise binascii.Error("Only base64 data is allowed")
    else:
        if len(body) % 4:
            raise binascii.Error("Incorrect padding")
    dec = lambda c: (_B64.index(chr(c)) if isinstance(c, int) else
                     z3.If(c == 43, z3.IntVal(62), z3.If(c == 47, z3.IntVal(63),
                           z3.If(c <= 57, c + 4, z3.If(c <= 90, c - 65, c - 71)))))
    out = []
    for i in range(0, len(body), 4):
        v = [dec(c) for c in body[i:i + 4]]
        k = len(v)
        if k == 1:
            raise binascii.Error("Incorrect padding")
        dv = lambda x, m: x // m if isinstance(x, int) else x / z3.IntVal(m)
        out.append(v[0] * 4 + dv(v[1], 16))
        if k > 2:
            out.append((v[1] - 16 * dv(v[1], 16)) * 16 + dv(v[2], 4))
        if k > 3:
            out.append((v[2] - 4 * dv(v[2], 4)) * 64 + v[3])
    return mkbytes(out)


def m_re(name):
    def m(pattern, *a, **k):
        rxo = re.compile(pattern, *(
            [k.pop("flags")] if "flags" in k else [])) \
            if not isinstance(pattern, re.Pattern) else pattern
        if name == "sub":
            return m_pattern(rxo, "sub", *a, **k)
        return m_pattern(rxo, name, *a[:1], **k)
    return m


def m_pattern(p, name, *a, **k):
    if not deep_sym(a) and not (name == "sub" and deep_sym(a)):
        return getattr(p, name)(*a, **k)
    a = [concretize(x) if (i and name != "sub" and type(x) is SymInt) else x
         for i, x in enumerate(a)]
    if name == "match":
        return rx.match(p, *a, **k)
    if name == "fullmatch":
        return rx.match(p, a[0], *a[1:], full=True)
    if name == "search":
        return rx.search(p, *a, **k)
    if name == "finditer":
        return rx.finditer(p, *a)
    if name == "findall":
        return rx.findall(p, *a)
    if name == "split":
        return rx.split(p, *a)
    if name == "sub":
        repl = a[0]
        f = (lambda m: call(repl, m)) if callable(repl) else repl
        return rx.sub(p, f, *a[1:])
    raise PathIncomplete(f"regex {name}")


# ----------------------------------------------------- method dispatch (C types)

def _dict_method(d, name, a, k):
    if name == "get":
        kk = find_key(d, a[0])
        return (a[1] if len(a) > 1 else k.get("default")) if kk is _MISS \
            else dict.__getitem__(d, kk)
    if name == "pop":
        kk = find_key(d, a[0])
        if kk is _MISS:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        return dict.pop(d, kk)
    if name == "setdefault":
        kk = find_key(d, a[0])
        if kk is _MISS:
            _dset(d, a[0], a[1] if len(a) > 1 else None)
            return a[1] if len(a) > 1 else None
        return dict.__getitem__(d, kk)
    if name == "__contains__":
        return find_key(d, a[0]) is not _MISS
    if name == "__getitem__":
        return getitem(d, a[0])
    if name == "__setitem__":
        return _dset(d, *a)
    if name == "__delitem__":
        kk = find_key(d, a[0])
        if kk is _MISS:
            raise KeyError(a[0])
        return dict.__delitem__(d, kk)
    if name == "update":
        for src in a:
            for x, y in (src.items() if hasattr(src, "items") else src):
                _dset(d, x, y)
        for x, y in k.items():
            _dset(d, x, y)
        return None
    return None


_DKEY = {"get", "pop", "setdefault", "__contains__", "__getitem__", "__setitem__",
         "__delitem__"}
_SKEY = {"add", "discard", "remove", "__contains__"}
_SBIN = {"union": "or", "intersection": "and", "difference": "sub",
         "symmetric_difference": "xor"}
_SUPD = {"update": ior_, "intersection_update": iand_, "difference_update": isub,
         "symmetric_difference_update": ixor}


def _set_method(s, name, a):
    if name == "add":
        return set_add(s, a[0])
    if name in ("discard", "remove"):
        k = find_key(s, a[0])
        if k is not _MISS:
            set.discard(s, k)
        elif name == "remove":
            raise KeyError(a[0])
        return None
    if name == "__contains__":
        return contains(s, a[0])
    if name in _SBIN:
        r = s
        for o in a:
            r = _set_op(r, mkset(o), _SBIN[name])
        return r if a else s.copy()
    if name in _SUPD:
        for o in a:
            _SUPD[name](s, mkset(o))
        return None
    if name == "issubset":
        o = mkset(a[0])
        return all(contains(o, x) for x in s)
    if name == "issuperset":
        return all(contains(s, x) for x in a[0])
    if name == "isdisjoint":
        return not any(contains(s, x) for x in a[0])
    raise PathIncomplete(f"set.{name}")


def builtin_method(f, slf, name, a, k):
    ts = type(slf)
    if ts is str:
        if name == "join":
            return join(slf, a[0])
        if name == "format":
            return m_str_format(slf, *a, **k)
        if name == "format_map":
            return m_str_format(slf, **dict(a[0]))
        if deep_sym(a) or deep_sym(k):
            if name == "translate" or hasattr(SymStr, name):
                return getattr(S(slf), name)(*a, **k)
            return f(*concretize(a), **concretize(k))
        return f(*a, **k)
    if isinstance(slf, dict):
        if name in _DKEY:
            if a and (type(a[0]) is not str and symkey(a[0]) or
                      E.taint and tainted(slf)):
                return _dict_method(slf, name, a, k)
        elif name == "update" and a:
            src = a[0]
            if E.taint:
                if not isinstance(src, dict):
                    src = [tuple(z) for z in src]
                    a = (src,)
                ks = src if isinstance(src, dict) else [z[0] for z in src]
                if tainted(slf) or any(symkey(z) for z in ks):
                    return _dict_method(slf, name, a, k)
        return f(*a, **k)
    if isinstance(slf, (set, frozenset)):
        if name in _SKEY:
            if symkey(a[0]) or tainted(slf):
                return _set_method(slf, name, a)
            return f(*a, **k)
        if name in _SBIN or name in _SUPD or name in ("issubset", "issuperset",
                                                      "isdisjoint"):
            a = tuple(x if isinstance(x, (set, frozenset, dict)) else list(x)
                      for x in a)
            if tainted(slf) or any(symkey(y) for x in a for y in x):
                E.taint = True
                return _set_method(slf, name, a)
            return f(*a, **k)
        return f(*a, **k)
    if isinstance(slf, (list, collections.deque)):
        if name in ("index", "count", "remove"):
            if name == "count":
                return m_sum(eq(y, a[0]) for y in slf)
            lo = a[1] if len(a) > 1 else 0
            for i, y in enumerate(list(slf)):
                if i >= lo and truth(eq(y, a[0])):
                    if name == "index":
                        return i
                    del slf[i]
                    return None
            raise ValueError("not in list")
        if name == "sort":
            if k.get("key"):
                k = dict(k, key=_wrap(k["key"]))
        return f(*a, **k)
    if ts is tuple and name in ("index", "count"):
        return builtin_method(f, list(slf), name, a, k)
    if isinstance(slf, re.Pattern):
        return m_pattern(slf, name, *a, **k)
    if ts is bytes:
        if deep_sym(a):
            if name == "join":
                out = []
                for i, x in enumerate(a[0]):
                    if i:
                        out += list(slf)
                    out += bchars(x)
                return mkbytes(out)
            return f(*concretize(a), **k)
        return f(*a, **k)
    if ts is decimal.Decimal:
        if deep_sym(a):
            r = getattr(SymDec(as_symdec(slf).c, as_symdec(slf).x), name, None)
            if r is None:
                raise PathIncomplete(f"Decimal.{name}")
            return r(*a, **k)
        return f(*a, **k)
    if slf is datetime.datetime and name in ("now", "utcnow"):
        if CLOCK[0] is not None:
            return CLOCK[0]()
        return f(*a, **k)
    if slf is dict and name == "fromkeys":
        return mkdict([(x, a[1] if len(a) > 1 else None) for x in a[0]])
    if isinstance(slf, types.ModuleType) or slf is None or isinstance(slf, type):
        if deep_sym(a) or deep_sym(k):
            if slf in (int, float, bytes, bytearray) or isinstance(
                    slf, types.ModuleType) and slf.__name__ not in (
                    "builtins", "_operator", "_functools", "itertools"):
                return f(*concretize(a), **concretize(k))
        return f(*a, **k)
    return f(*a, **k)


CLOCK = [None]


# --------------------------------------------------------------- concretise

def concretize(x, cap=6):
    """Replace symbolic values inside x by concrete ones, forking over the values
    (the path is marked incomplete when more than `cap` values are possible)."""
    t = type(x)
    if t is SymBool:
        return bool(x)
    if t is SymInt:
        E.stats["concretised"] += 1
        return E.concretize_int(x.e, cap, "argument of an unmodelled function")
    if t is SymStr:
        E.stats["concretised"] += 1
        return "".join(chr(E.concretize_int(
            c, cap, "argument of an unmodelled function")) for c in x.cs)
    if t is SymBytes:
        E.stats["concretised"] += 1
        return bytes(E.concretize_int(c, cap, "argument of an unmodelled function")
                     for c in x.cs)
    if t is SymFloat:
        return E.concretize_int(x.n, cap) / x.d
    if t is SymDec:
        return decimal.Decimal(E.concretize_int(x.c, cap)).scaleb(x.x)
    if t in (list, tuple, set, frozenset):
        return t(concretize(y, cap) for y in x)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return t(*(concretize(y, cap) for y in x))
    if t is dict:
        return {concretize(a, cap): concretize(b, cap) for a, b in x.items()}
    return x


# --------------------------------------------------------------------- call

MODELS = {
    int: m_int, float: m_float, str: m_str, bool: m_bool, bytes: m_bytes,
    set: m_set, frozenset: m_frozenset, dict: m_dict, type: m_type,
    decimal.Decimal: m_decimal, map: m_map, filter: m_filter,
    len: m_len, ord: m_ord, chr: m_chr, repr: m_repr, hash: m_hash,
    sorted: m_sorted, min: m_minmax(min), max: m_minmax(max), sum: m_sum,
    any: m_any, all: m_all, round: m_round, format: m_format,
    math.isnan: m_isnan, math.isinf: m_isinf, math.isfinite: m_isfinite,
    math.copysign: m_copysign, math.fmod: m_fmod, math.trunc: m_trunc,
    functools.reduce: m_reduce,
    json.dumps: m_json_dumps, urllib.parse.unquote: m_unquote,
    urllib.parse.quote: m_quote, xml.sax.saxutils.escape: m_escape,
    xml.sax.saxutils.unescape: m_unescape,
    xml.sax.saxutils.quoteattr: m_quoteattr,
    base64.b64encode: m_b64encode, base64.b64decode: m_b64decode,
    re.match: m_re("match"), re.fullmatch: m_re("fullmatch"),
    re.search: m_re("search"), re.sub: m_re("sub"), re.split: m_re("split"),
    re.findall: m_re("findall"), re.finditer: m_re("finditer"),
    operator.contains: lambda c, x: contains(c, x),
    operator.eq: eq, operator.ne: ne, operator.lt: lt, operator.le: le,
    operator.gt: gt, operator.ge: ge, operator.getitem: getitem,
    operator.setitem: setitem, operator.delitem: delitem,
    operator.mod: bmod, operator.and_: band_, operator.or_: bor_,
    operator.sub: bsub, operator.xor: bxor,
    operator.not_: lambda x: lnot(x) if isinstance(x, bool) else not x,
    operator.truth: m_bool,
    str.join: join,
    base64.standard_b64encode: m_b64encode,
    base64.standard_b64decode: m_b64decode,
}

# built-in functions that use only the Python protocols of their arguments
_PROTO = {isinstance, issubclass, iter, next, abs, divmod, pow, getattr, setattr,
          hasattr, callable, id, print, math.floor, math.ceil, delattr}
_PROTO_T = {list, tuple, zip, enumerate, reversed, range, slice, object,
            itertools.chain, itertools.product, itertools.islice,
            itertools.takewhile, itertools.dropwhile, itertools.zip_longest,
            itertools.accumulate, itertools.repeat, itertools.count,
            itertools.permutations, itertools.combinations,
            collections.deque, property, staticmethod, classmethod,
            collections.defaultdict, collections.OrderedDict, functools.partial,
            super}

VFS = {}        # virtual module files with symbolic text: path -> text


class VFile:
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text

    def __iter__(self):
        return iter(self.text.splitlines(True))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def m_open(file, *a, **k):
    f = concretize(file)
    if isinstance(f, str) and f.startswith("/vfs-sx/"):
        if f not in VFS:
            raise FileNotFoundError(2, "No such file or directory", f)
        return VFile(VFS[f])
    return open(f, *a, **k)


MODELS[open] = m_open

_BM = types.BuiltinFunctionType
_BM2 = type(re.compile("a").match)      # METH_METHOD methods have a type of their own
_MW = type("".__add__)           # method-wrapper
_MD = type(str.join)             # method descriptor
_WD = type(str.__add__)          # wrapper descriptor


def call(f, /, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        g = f.__globals__
        if "_sx_rt" in g:
            return f(*a, **k)
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if deep_sym(a) or deep_sym(k):
            mod = g.get("__name__", "")
            if mod in _PY_OK or f.__name__ in ("__init__", "namedtuple"):
                return f(*a, **k)
            if f is copy.copy or f is copy.deepcopy:
                return f(*a, **k)
            return f(*concretize(a), **concretize(k))
        return f(*a, **k)
    if t is types.MethodType:
        fn_ = f.__func__
        if type(f.__self__) in SYMTYPES and f.__name__ == "__hash__":
            return m_hash(f.__self__)
        if isinstance(fn_, types.FunctionType) and (
                "_sx_rt" in fn_.__globals__ or not (deep_sym(a) or deep_sym(k))):
            return f(*a, **k)
        if isinstance(f.__self__, Sym) or getattr(
                fn_, "__module__", "").split(".")[0] in (
                "symex", "xml", "collections", "_collections_abc", "abc"):
            return f(*a, **k)
        return f(*concretize(a), **concretize(k))
    if t is _BM or t is _BM2:
        s = f.__self__
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*a, **k)
        if f in _PROTO if _hashable(f) else False:
            if f is getattr or f is hasattr:
                return f(a[0], concretize(a[1]), *a[2:])
            return f(*a, **k)
        if isinstance(s, types.ModuleType) and s.__name__ == "builtins":
            if deep_sym(a):
                return f(*concretize(a), **concretize(k))
            return f(*a, **k)
        return builtin_method(f, s, f.__name__, a, k)
    if isinstance(f, type):
        m = MODELS.get(f)
        if m is not None:
            return m(*a, **k)
        if f in _PROTO_T:
            return f(*a, **k)
        if f.__flags__ & (1 << 9):          # heap type: defined in Python
            if f is datetime.datetime:
                return f(*a, **k)
            if isinstance(f, enum.EnumMeta):
                return f(*concretize(a), **k)
            if issubclass(f, dict) and a and (
                    E.taint or not isinstance(a[0], dict)) and f.__new__ is dict.__new__ \
                    and f.__init__ is dict.__init__:
                src = a[0]
                pairs = list(src.items()) if isinstance(src, dict) else [
                    (x, y) for x, y in src]
                if any(symkey(x) for x, _ in pairs):
                    o = f()
                    for x, y in pairs:
                        setitem(o, x, y)
                    return o
                return f(pairs, **k)
            return f(*a, **k)
        if issubclass(f, BaseException):
            return f(*a, **k)
        if deep_sym(a) or deep_sym(k):
            return f(*concretize(a), **concretize(k))
        return f(*a, **k)
    if t is _MD or t is _WD:
        # unbound method of a C type, e.g. str.lower(x) or dict.get(d, k)
        if a and f.__objclass__ in (str, dict, set, frozenset, list, tuple, bytes):
            o = a[0]
            if type(o) in SYMTYPES:
                return getattr(o, f.__name__)(*a[1:], **k)
            b = f.__get__(o, type(o))
            if f.__name__ in ("__init__", "__new__"):
                return f(*a, **k)
            return builtin_method(b, o, f.__name__, a[1:], k)
        return f(*a, **k)
    if t is _MW:
        s = f.__self__
        if f.__name__ in ("__eq__", "__ne__") and isinstance(s, (dict, list)):
            # the built-in comparison, also below an overriding one
            r = _builtin_eq(s, a[0])
            return r if r is NotImplemented or f.__name__ == "__eq__" else lnot(r)
        if isinstance(s, (dict, set, str, frozenset)) and f.__name__ not in (
                "__init__", "__str__", "__repr__"):
            if f.__name__ == "__eq__":
                return eq(s, a[0])
            return builtin_method(f, s, f.__name__, a, k)
        if f.__name__ in ("__str__", "__repr__"):
            return to_repr(s) if deep_sym(s) else f()
        if f.__name__ == "__hash__":
            if isinstance(s, tuple):
                return m_hash(tuple(s))
            return m_hash(s)
        return f(*a, **k)
    return f(*a, **k)


_PY_OK = {"symex.api", "symex.core", "symex.strings", "symex.rx", "symex.rt",
          "functools", "collections", "contextlib", "abc", "enum", "typing",
          "itertools", "_collections_abc", "dataclasses", "xml.etree.ElementTree"}


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False
