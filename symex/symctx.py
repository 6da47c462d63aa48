"""Symbolic side of the harness interface."""
import datetime
import decimal
import enum
from fractions import Fraction
import z3
from . import core, strings, rt
from .core import (E, SymBool, SymInt, SymFloat, SymDec, as_cond, mkbool, mkint,
                   and_, or_, not_, num_e)
from .strings import SymStr, SymBytes, DOM_RANGES, in_ranges, ranges_of, mkstr, mkbytes
from .api import Ctx, jsonable


class SymCtx(Ctx):
    symbolic = True

    def _name(self, name, getter):
        if name in E.inputs:
            raise core.EngineError(f"duplicate input {name}")
        E.inputs[name] = getter

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self._name(name, lambda m: m.eval(v, model_completion=True).as_long())
        E.add(z3.And(v >= lo, v <= hi))
        E.bounds[v.get_id()] = (lo, hi, v)
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self._name(name, lambda m: z3.is_true(m.eval(v, model_completion=True)))
        return SymBool(v)

    def _chars(self, name, lo, hi, ranges):
        n = lo
        if hi > lo:
            ln = z3.Int(name + ".len")
            E.add(z3.And(ln >= lo, ln <= hi))
            n = lo
            while n < hi and not E.branch(ln == n):
                n += 1
        cs = []
        for i in range(n):
            c = z3.Int(f"{name}[{i}]")
            E.add(in_ranges(c, ranges))
            cs.append(c)
        return cs

    def str(self, name, lo, hi, alphabet=None):
        rs = DOM_RANGES if alphabet is None else ranges_of({ord(c) for c in alphabet})
        cs = self._chars(name, lo, hi, rs)
        self._name(name, lambda m: "".join(
            chr(m.eval(c, model_completion=True).as_long()) for c in cs))
        return mkstr(cs)

    def bytes(self, name, lo, hi):
        cs = self._chars(name, lo, hi, [[0, 255]])
        self._name(name, lambda m: bytes(
            m.eval(c, model_completion=True).as_long() for c in cs).hex())
        return mkbytes(cs)

    def float(self, name, lo, hi, den=1):
        v = z3.Int(name)
        self._name(name, lambda m: m.eval(v, model_completion=True).as_long())
        E.add(z3.And(v >= lo, v <= hi))
        return SymFloat(v, den)

    def dec(self, name, lo, hi, exp):
        v = z3.Int(name)
        self._name(name, lambda m: m.eval(v, model_completion=True).as_long())
        E.add(z3.And(v >= lo, v <= hi))
        return SymDec(v, exp)

    def choice(self, name, options):
        options = list(options)
        v = z3.Int(name)
        self._name(name, lambda m: m.eval(v, model_completion=True).as_long())
        E.add(z3.And(v >= 0, v < len(options)))
        i = 0
        while i < len(options) - 1 and not E.branch(v == i):
            i += 1
        return options[i]

    def assume(self, c):
        E.assume(c)

    def check(self, c, label):
        E.check(c, label)

    def reached(self, label):
        E.check(True, label)

    def observe(self, label, value):
        E.observations.append((label, value))

    def And(self, *cs):
        return mkbool(and_([as_cond(c) for c in cs]))

    def Or(self, *cs):
        return mkbool(or_([as_cond(c) for c in cs]))

    def Not(self, c):
        return mkbool(not_(as_cond(c)))

    def Implies(self, a, b):
        return mkbool(or_([not_(as_cond(a)), as_cond(b)]))

    def Iff(self, a, b):
        a, b = as_cond(a), as_cond(b)
        if isinstance(a, bool):
            return mkbool(b if a else not_(b))
        if isinstance(b, bool):
            return mkbool(a if b else not_(a))
        return mkbool(a == b)

    def ite(self, c, a, b):
        c = as_cond(c)
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, bool) and isinstance(b, bool):
            x, y = as_cond(a), as_cond(b)
            return mkbool(or_([and_([c, x]), and_([not_(c), y])]))
        ea, eb = num_e(a), num_e(b)
        if ea is not None and eb is not None:
            I = lambda e: z3.IntVal(e) if isinstance(e, int) else e
            return SymInt(z3.If(c, I(ea), I(eb)))
        if isinstance(a, float) and isinstance(b, float):
            qa, qb = core.to_q(a), core.to_q(b)
            if not isinstance(qa, str) and not isinstance(qb, str):
                d = qa[1] * qb[1]
                I = lambda e: z3.IntVal(e) if isinstance(e, int) else e
                return SymFloat(z3.If(c, I(qa[0] * qb[1]), I(qb[0] * qa[1])), d)
        return a if E.branch(c) else b

    def char_in(self, s, chars):
        """s is a single character out of chars"""
        if type(s) is not SymStr:
            return s in chars
        return mkbool(in_ranges(s.cs[0], ranges_of({ord(c) for c in chars})))

    def clock(self, fn):
        rt.CLOCK[0] = fn

    def module_dir(self, texts, cr=False):
        """Directory with module files whose texts may be symbolic; with cr,
        the texts may contain carriage returns (translated as by open())."""
        if len(rt.VFS) > 64:
            rt.VFS.clear()
        d = f"/vfs-sx/{len(rt.VFS)}"
        for n, t in texts.items():
            if cr:
                t = t.replace("\r\n", "\n").replace("\r", "\n")
            rt.VFS[f"{d}/{n}.yang"] = t
        return d

    def settle(self, x):
        """Force a truth value now."""
        return bool(x) if isinstance(x, bool) else x


def model_value(x, depth=0):
    """Concrete value of x in the current model."""
    t = type(x)
    if t is SymBool:
        return E.ev_bool(x.e)
    if t is SymInt:
        return E.ev_int(x.e)
    if t is SymFloat:
        return E.ev_int(x.n) / x.d
    if t is SymDec:
        return decimal.Decimal(E.ev_int(x.c)).scaleb(x.x)
    if t is SymStr:
        if x._cs is not None:
            return "".join(chr(E.ev_int(c)) for c in x._cs)
        out = []
        for p in x._parts:
            if callable(p):
                p = p()
            out.append(str(model_value(p)))
        return "".join(out)
    if t is SymBytes:
        return bytes(E.ev_int(c) for c in x.cs)
    if isinstance(x, dict):
        return {model_value(a): model_value(b) for a, b in x.items()}
    if isinstance(x, (set, frozenset)):
        return frozenset(model_value(y) for y in x)
    if isinstance(x, (list, tuple)):
        r = [model_value(y) for y in x]
        return r if isinstance(x, list) else tuple(r)
    return x


def obs_json():
    out = []
    for lab, v in E.observations:
        out.append([lab, jsonable(model_value(v))])
    return out
