"""The interface harnesses are written against.

A harness is a plain function h(sx, **case).  Under `SymCtx` its inputs are
symbolic; under `ConcCtx` (replay, run with the plain sources of yangson) they are
the concrete values of a recorded assignment.
"""
import decimal
import os

TASKS = []


def task(cases=None, thorough_cases=None, thorough_only=False, budget=None):
    """Register a harness; `cases` is a list of keyword dictionaries."""
    def deco(fn):
        TASKS.append(dict(name=fn.__name__, fn=fn, cases=cases or [{}],
                          tcases=thorough_cases, tonly=thorough_only,
                          budget=budget))
        return fn
    return deco


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class Ctx:
    tier = os.environ.get("VERIF_TIER", "quick")

    def n(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def attempt(self, fn, *excs):
        """("ok", value) or ("exc", exception) for the listed exceptions."""
        try:
            return ("ok", fn())
        except excs as e:
            return ("exc", e)

    def raises(self, fn, *excs):
        return self.attempt(fn, *excs)[0] == "exc"


class ConcCtx(Ctx):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.observations = []
        self.checked = 0
        self.failed = []

    def _get(self, name):
        if name not in self.inputs:
            raise KeyError(f"no recorded value for {name}")
        return self.inputs[name]

    def int(self, name, lo, hi):
        return self._get(name)

    def bool(self, name):
        return self._get(name)

    def str(self, name, lo, hi, alphabet=None):
        return self._get(name)

    def bytes(self, name, lo, hi):
        return bytes.fromhex(self._get(name))

    def float(self, name, lo, hi, den=1):
        n = self._get(name)
        return n / den

    def dec(self, name, lo, hi, exp):
        return decimal.Decimal(self._get(name)).scaleb(exp)

    def choice(self, name, options):
        return list(options)[self._get(name)]

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label):
        self.checked += 1
        if not c:
            self.failed.append(label)
            raise CheckFailed(label)

    def observe(self, label, value):
        self.observations.append([label, jsonable(value)])

    def reached(self, label):
        self.checked += 1

    def And(self, *cs):
        return all(cs)

    def Or(self, *cs):
        return any(cs)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def char_in(self, s, chars):
        return s in chars

    def clock(self, fn):
        import datetime as dtm
        import sys

        class FakeDT(dtm.datetime):
            @classmethod
            def now(cls, tz=None):
                return fn()
            utcnow = now
        for n, m in list(sys.modules.items()):
            c = getattr(m, "datetime", None)
            if n.startswith("yangson") and isinstance(c, type) and \
                    issubclass(c, dtm.datetime):
                m.datetime = FakeDT if fn else dtm.datetime

    def module_dir(self, texts, cr=False):
        import atexit
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix="sxmod-")
        atexit.register(shutil.rmtree, d, True)
        for n, t in texts.items():
            with open(os.path.join(d, n + ".yang"), "w", encoding="utf-8",
                      newline="") as f:
                f.write(t)
        return d

    def settle(self, x):
        return x


def jsonable(v):
    """Canonical JSON form of an observed value."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return {"f": v.hex()}
    if isinstance(v, decimal.Decimal):
        return {"d": str(v)}
    if isinstance(v, (bytes, bytearray)):
        return {"b": bytes(v).hex()}
    if isinstance(v, dict):
        return {"m": [[jsonable(a), jsonable(b)] for a, b in v.items()]}
    if isinstance(v, (set, frozenset)):
        return {"s": sorted((jsonable(x) for x in v), key=repr)}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, BaseException):
        return {"e": type(v).__name__}
    return {"r": type(v).__name__}
