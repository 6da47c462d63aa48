"""Path exploration engine and symbolic scalar values.

The engine explores a Python function by repeated execution.  Every time the
executed program needs the truth value of a symbolic condition, the engine asks
Z3 which outcomes are feasible under the current path condition, follows one and
queues the other.  `check` asks Z3 whether the negation of an assertion is
satisfiable together with the path condition.
"""
import time
from fractions import Fraction
import z3

z3.set_param("smt.random_seed", 1)


class Steer(BaseException):
    """Base of the exceptions that steer exploration (never caught by yangson)."""


class Infeasible(Steer):
    """The current path has an unsatisfiable assumption."""


class PathIncomplete(Steer):
    """The current path cannot be followed completely; reason in args[0]."""


class PathViolation(Steer):
    """An assertion failed on the current path (concretely false)."""


class EngineError(BaseException):
    """Internal error; ends the exploration of the harness."""


class Sym:
    """Marker base class of symbolic values."""
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EngineError("pickle of symbolic value")


class Dec:
    """A decision taken on the current path."""
    __slots__ = ("cond", "taken", "open", "level", "alt_model", "payload")

    def __init__(self, cond, taken, open_, level, alt_model=None, payload=None):
        self.cond = cond
        self.taken = taken
        self.open = open_
        self.level = level
        self.alt_model = alt_model
        self.payload = payload


class Engine:
    def __init__(self):
        self.query_timeout = 20000
        self.reset_all()

    def reset_all(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_timeout)
        self.decs = []
        self.pos = 0
        self.model = None
        self.level = 0
        self.active = False
        self.stats = dict(paths=0, forks=0, queries=0, solver_s=0.0, checks=0,
                          discharged=0, unknown=0, infeasible=0, incomplete=0,
                          concretised=0, cutoff=0)
        self.incomplete_reasons = {}
        self.reached = {}
        self.violations = []
        self.funcs = set()
        self.deadline = None
        self.clear_path()

    # -- per-path state

    def clear_path(self):
        self.pos = 0
        self.fresh_no = 0
        self.hash_no = 0
        self.taint = False
        self.inputs = {}
        self.bounds = {}
        self.digit_cache = {}
        self.path_checks = 0
        self.path_incomplete = None
        self.observations = []
        self.nbranch = 0
        self.pins = []

    @property
    def replaying(self):
        return self.pos < len(self.decs)

    def fresh(self, prefix, sort="int"):
        self.fresh_no += 1
        name = f"{prefix}!{self.fresh_no}"
        return z3.Int(name) if sort == "int" else z3.Bool(name)

    def next_hash(self):
        self.hash_no += 1
        return self.hash_no * 2654435761 % (1 << 60)

    # -- solver access

    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                raise PathIncomplete("solver unknown on path condition")
            self.model = self.solver.model()
        return self.model

    def ev(self, e):
        """Value of expression e in the current model."""
        return self.get_model().eval(e, model_completion=True)

    def ev_int(self, e):
        if isinstance(e, int):
            return e
        return self.ev(e).as_long()

    def ev_bool(self, e):
        if isinstance(e, bool):
            return e
        return z3.is_true(self.ev(e))

    def add(self, e):
        """Add a constraint that is consistent by construction or checked later."""
        if self.replaying:
            return
        self.solver.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def assume(self, cond):
        c = as_cond(cond)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if self.replaying:
            return
        self.add(c)
        self.get_model()

    def branch(self, cond):
        """Decide symbolic condition, forking the path if both outcomes are feasible."""
        if isinstance(cond, bool):
            return cond
        if self.pos < len(self.decs):
            d = self.decs[self.pos]
            if d.payload is not None or not d.cond.eq(cond):
                raise EngineError(
                    f"replay divergence: {cond} instead of {d.cond}")
            self.pos += 1
            if d.level > self.level:
                # the decision that was just flipped
                self.solver.push()
                self.level += 1
                self.solver.add(cond if d.taken else z3.Not(cond))
                self.model = d.alt_model
                d.alt_model = None
            return d.taken
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise PathIncomplete("time budget")
        self.nbranch += 1
        if self.nbranch > 20000:
            raise PathIncomplete("branch limit on one path")
        v = z3.is_true(self.get_model().eval(cond, model_completion=True))
        other = z3.Not(cond) if v else cond
        self.solver.push()
        self.solver.add(other)
        r = self._check()
        am = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.sat:
            self.stats["forks"] += 1
            self.solver.push()
            self.level += 1
            self.solver.add(cond if v else z3.Not(cond))
            self.decs.append(Dec(cond, v, True, self.level, am))
        else:
            if r == z3.unknown:
                self.note_incomplete("solver unknown on a branch")
            self.decs.append(Dec(cond, v, False, self.level))
        self.pos += 1
        return v

    def record(self, value_fn):
        """Record a model-dependent concrete choice so that replays repeat it."""
        if self.pos < len(self.decs):
            d = self.decs[self.pos]
            if d.payload is None:
                raise EngineError("replay divergence: recorded choice expected")
            self.pos += 1
            return d.payload[0]
        val = value_fn()
        self.decs.append(Dec(None, True, False, self.level, None, (val,)))
        self.pos += 1
        return val

    def note_incomplete(self, why):
        self.path_incomplete = why
        self.incomplete_reasons[why] = self.incomplete_reasons.get(why, 0) + 1

    # -- concretisation

    def concretize_int(self, e, cap=64, why="integer used as a concrete value"):
        if isinstance(e, int):
            return e
        for _ in range(cap):
            v = self.record(lambda: self.ev_int(e))
            if self.branch(e == v):
                return v
        raise PathIncomplete(f"concretisation cap: {why}")

    # -- exploration

    def explore(self, fn, max_paths=200000, budget_s=None, on_path=None,
                max_violations=3):
        """Run fn() on all feasible paths."""
        self.deadline = None if budget_s is None else time.monotonic() + budget_s
        self.active = True
        complete = True
        while True:
            self.clear_path()
            outcome = "ok"
            try:
                fn()
            except Infeasible:
                outcome = "infeasible"
                self.stats["infeasible"] += 1
            except PathIncomplete as e:
                outcome = "incomplete"
                self.note_incomplete(str(e.args[0]))
            except PathViolation:
                outcome = "violation"
            except Steer:
                raise
            except RecursionError as e:
                outcome = "exception"
                self.fail(f"uncaught RecursionError", None)
            except Exception as e:
                outcome = "exception"
                self.exc_path(e)
            if outcome != "infeasible":
                self.stats["paths"] += 1
                if self.path_incomplete:
                    self.stats["incomplete"] += 1
                if on_path is not None:
                    on_path(outcome)
            if len(self.violations) >= max_violations:
                complete = False
                break
            if not self.backtrack():
                break
            if (self.stats["paths"] >= max_paths
                    or (self.deadline and time.monotonic() > self.deadline)):
                complete = False
                self.stats["cutoff"] = 1
                self.incomplete_reasons["path or time budget exhausted"] = 1
                break
        self.active = False
        return complete and not self.incomplete_reasons

    def backtrack(self):
        while self.decs and not self.decs[-1].open:
            self.decs.pop()
        if not self.decs:
            while self.level > 0:
                self.solver.pop()
                self.level -= 1
            return False
        d = self.decs[-1]
        while self.level >= d.level:
            self.solver.pop()
            self.level -= 1
        d.open = False
        d.taken = not d.taken
        self.model = None
        return True

    # -- assertions

    def concrete_inputs(self):
        m = self.get_model()
        return {n: g(m) for n, g in self.inputs.items()}

    def fail(self, label, model):
        if model is not None:
            self.model = model
        try:
            inp = self.concrete_inputs()
        except Infeasible:
            return
        self.violations.append(dict(label=label, inputs=inp,
                                    incomplete=self.path_incomplete))

    def exc_path(self, e):
        import traceback
        tb = "".join(traceback.format_exception(e)[-6:])
        self.fail(f"uncaught {type(e).__name__}", None)
        if self.violations:
            self.violations[-1]["trace"] = tb

    def check(self, cond, label):
        """Assert that cond holds for all inputs of the current path."""
        c = as_cond(cond)
        self.path_checks += 1
        if self.replaying:
            return
        self.reached[label] = self.reached.get(label, 0) + 1
        self.stats["checks"] += 1
        if c is True:
            # the condition is constant on this path: it holds for all inputs
            # that satisfy the path condition
            self.stats["discharged"] += 1
            return
        if c is False:
            self.fail(label, None)
            raise PathViolation()
        self.solver.push()
        self.solver.add(z3.Not(c))
        r = self._check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:
            self.stats["discharged"] += 1
        elif r == z3.sat:
            self.fail(label, m)
            raise PathViolation()
        else:
            self.note_incomplete("solver unknown on an assertion")


E = Engine()


# ---------------------------------------------------------------- conditions

def as_cond(x):
    """Turn a truth-like value into bool or z3 BoolRef."""
    t = type(x)
    if t is SymBool:
        return x.e
    if t is bool:
        return x
    if isinstance(x, z3.BoolRef):
        return x
    if t is SymInt:
        return x.e != 0
    return bool(x)


def mkbool(e):
    """Wrap bool or BoolRef."""
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def and_(xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def not_(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


class SymBool(Sym):
    __slots__ = ("e", "_h")

    def __init__(self, e):
        self.e = e
        self._h = None

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.branch(self.e)

    def __hash__(self):
        if self._h is None:
            self._h = E.next_hash()
        return self._h

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, bool):
            if type(o) is SymBool:
                return mkbool(self.e == o.e)
            return self if o else mkbool(z3.Not(self.e))
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else lnot(r)

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(and_([self.e, as_cond(o)]))
        return self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(or_([self.e, as_cond(o)]))
        return self._i() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return self != o
        return NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        return ~self._i()

    def __repr__(self):
        return f"<SymBool {self.e}>"

    def __format__(self, spec):
        return "<SymBool>"

    def __index__(self):
        return 1 if bool(self) else 0

    def __float__(self):
        return 1.0 if bool(self) else 0.0
    __int__ = __index__


def _fwd(name):
    def m(self, *a):
        return getattr(self._i(), name)(*a)
    return m


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lt__ __le__ "
           "__gt__ __ge__ __neg__ __pos__ __abs__ __floordiv__ __mod__ "
           "__truediv__ __rtruediv__ __rfloordiv__ __rmod__").split():
    setattr(SymBool, _n, _fwd(_n))


def lnot(x):
    """Logical not without forking."""
    if isinstance(x, bool) and type(x) is not SymBool:
        return not x
    if type(x) is SymBool:
        return mkbool(z3.Not(x.e))
    return not x


def num_e(x):
    """z3 Int expression or python int of an int-like value, else None."""
    t = type(x)
    if t is SymInt:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if t is int:
        return x
    if t is bool:
        return int(x)
    if isinstance(x, int):
        return int(x)
    return None


def mkint(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def floordiv_e(a, b):
    """Python floor division; b is a concrete non-zero int."""
    if isinstance(a, int):
        return a // b
    if b > 0:
        return a / z3.IntVal(b)
    return (-a) / z3.IntVal(-b)


def b_cmp(op, lo, hi, n):
    """Outcome of op(x, n) for all x in lo..hi if it is the same one."""
    if n < lo or n > hi:
        return op(lo, n)
    if lo < n < hi:
        return None
    outs = {op(lo, n), op(hi, n)}
    if lo + 1 < hi:
        outs.add(op(lo + 1, n))
    return outs.pop() if len(outs) == 1 else None


class SymInt(Sym):
    __slots__ = ("e", "_h")

    def __init__(self, e):
        self.e = e
        self._h = None

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return E.branch(self.e != 0)

    def __hash__(self):
        if self._h is None:
            self._h = E.next_hash()
        return self._h

    def __index__(self):
        return E.concretize_int(self.e)
    __int__ = __index__

    def __float__(self):
        return float(E.concretize_int(self.e))

    def __repr__(self):
        return f"<SymInt {self.e}>"

    def __format__(self, spec):
        return "<SymInt>"

    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)
    real = property(lambda self: self)
    imag = property(lambda self: 0)

    def bit_length(self):
        return E.concretize_int(self.e).bit_length()

    def is_integer(self):
        return True

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e < 0, -self.e, self.e))

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __trunc__

    def __round__(self, nd=None):
        if nd is None or nd >= 0:
            return self
        return round(E.concretize_int(self.e), nd)

    def __invert__(self):
        return SymInt(-self.e - 1)

    def _cmp(self, o, op):
        oe = num_e(o)
        if oe is not None:
            if type(oe) is int:
                b = E.bounds.get(self.e.get_id())
                if b is not None:
                    # decided by the declared bounds of the input
                    r = b_cmp(op, b[0], b[1], oe)
                    if r is not None:
                        return r
            return mkbool(op(self.e, oe))
        f = to_q(o)
        if f is None:
            return NotImplemented
        return q_cmp(to_q(self), f, op)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _arith(self, o, op, fop, rev=False):
        oe = num_e(o)
        if oe is not None:
            return mkint(op(oe, self.e) if rev else op(self.e, oe))
        if type(o).__name__ in ("float", "SymFloat"):
            return fop(o, as_symfloat(self)) if rev else fop(as_symfloat(self), o)
        if type(o).__name__ in ("Decimal", "SymDec"):
            return fop(o, as_symdec(self)) if rev else fop(as_symdec(self), o)
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return NotImplemented
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return NotImplemented
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b, True)

    def _divisor(self, o):
        if type(o) is SymInt:
            if E.branch(o.e == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            return E.concretize_int(o.e)
        o = num_e(o)
        if isinstance(o, z3.ExprRef):
            o = E.concretize_int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return o

    def __floordiv__(self, o):
        if num_e(o) is None:
            return as_symfloat(self) // o
        return mkint(floordiv_e(self.e, self._divisor(o)))

    def __rfloordiv__(self, o):
        return num_e(o) // self._divisor(self)

    def __mod__(self, o):
        if num_e(o) is None:
            return as_symfloat(self) % o
        d = self._divisor(o)
        return mkint(self.e - floordiv_e(self.e, d) * d)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return num_e(o) % self._divisor(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return as_symfloat(self) / o

    def __rtruediv__(self, o):
        return o / as_symfloat(self)

    def __pow__(self, o, m=None):
        o = num_e(o)
        if not isinstance(o, int):
            o = E.concretize_int(o)
        if o < 0:
            return as_symfloat(self) ** o
        r = 1
        for _ in range(o):
            r = r * self
        return r if m is None else r % m

    def __rpow__(self, o, m=None):
        return o ** E.concretize_int(self.e)

    def __lshift__(self, o):
        o = num_e(o)
        if not isinstance(o, int):
            o = E.concretize_int(o)
        return mkint(self.e * (1 << o))

    def __rlshift__(self, o):
        return o << E.concretize_int(self.e)

    def __rshift__(self, o):
        o = num_e(o)
        if not isinstance(o, int):
            o = E.concretize_int(o)
        return mkint(floordiv_e(self.e, 1 << o))

    def __rrshift__(self, o):
        return o >> E.concretize_int(self.e)

    def __and__(self, o):
        oe = num_e(o)
        if oe is None:
            return NotImplemented
        if isinstance(oe, int) and oe >= 0 and (oe & (oe + 1)) == 0:
            return self % (oe + 1)
        if not isinstance(oe, int):
            oe = E.concretize_int(oe)
        return E.concretize_int(self.e) & oe
    __rand__ = __and__

    def __or__(self, o):
        oe = num_e(o)
        if oe is None:
            return NotImplemented
        if not isinstance(oe, int):
            oe = E.concretize_int(oe)
        return E.concretize_int(self.e) | oe
    __ror__ = __or__

    def __xor__(self, o):
        oe = num_e(o)
        if oe is None:
            return NotImplemented
        if not isinstance(oe, int):
            oe = E.concretize_int(oe)
        return E.concretize_int(self.e) ^ oe
    __rxor__ = __xor__


# -------------------------------------------------- rational / float values

def to_q(x):
    """(numerator int|z3, concrete denominator) of a numeric value;
    None if not a number; the strings 'nan','inf','-inf' for special values."""
    import decimal
    t = type(x)
    if t is SymFloat or t is SymDec:
        return x.q()
    e = num_e(x)
    if e is not None:
        return (e, 1)
    if t is float:
        if x != x:
            return "nan"
        if x in (float("inf"), float("-inf")):
            return "inf" if x > 0 else "-inf"
        f = Fraction(x)
        return (f.numerator, f.denominator)
    if t is decimal.Decimal:
        if x.is_nan():
            return "nan"
        if x.is_infinite():
            return "inf" if x > 0 else "-inf"
        f = Fraction(x)
        return (f.numerator, f.denominator)
    if t is Fraction:
        return (x.numerator, x.denominator)
    return None


def q_cmp(a, b, op):
    """Compare two to_q results."""
    if isinstance(a, str) or isinstance(b, str):
        m = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}
        x = m[a] if isinstance(a, str) else 0.0
        y = m[b] if isinstance(b, str) else 0.0
        return bool(op(x, y))
    (n1, d1), (n2, d2) = a, b
    if d1 != d2:
        n1, n2 = n1 * d2, n2 * d1
    return mkbool(op(n1, n2))


class _Num(Sym):
    """Common part of exact rational symbolic numbers n/d (d concrete > 0)."""
    __slots__ = ()

    def __hash__(self):
        if self._h is None:
            self._h = E.next_hash()
        return self._h

    def q(self):
        return (self.n, self.d)

    def __bool__(self):
        return E.branch(self.n != 0)

    def _cmp(self, o, op):
        f = to_q(o)
        if f is None:
            return NotImplemented
        return q_cmp(self.q(), f, op)

    __eq__ = lambda self, o: self._cmp(o, lambda a, b: a == b)
    __ne__ = lambda self, o: self._cmp(o, lambda a, b: a != b)
    __lt__ = lambda self, o: self._cmp(o, lambda a, b: a < b)
    __le__ = lambda self, o: self._cmp(o, lambda a, b: a <= b)
    __gt__ = lambda self, o: self._cmp(o, lambda a, b: a > b)
    __ge__ = lambda self, o: self._cmp(o, lambda a, b: a >= b)

    def __trunc__(self):
        fl = floordiv_e(self.n, self.d)
        ce = -floordiv_e(-self.n, self.d)
        return mkint(z3.If(self.n >= 0, fl, ce))

    def __floor__(self):
        return mkint(floordiv_e(self.n, self.d))

    def __ceil__(self):
        return mkint(-floordiv_e(-self.n, self.d))

    def _rhe(self, n, d):
        """round half even of n/d as expression"""
        fl = floordiv_e(n, d)
        r2 = 2 * (n - fl * d)
        return z3.If(r2 < d, fl, z3.If(r2 > d, fl + 1,
                     z3.If(fl - 2 * (fl / z3.IntVal(2)) == 0, fl, fl + 1)))

    def __int__(self):
        return E.concretize_int(self.__trunc__().e)

    def is_integer(self):
        if self.d == 1:
            return True
        return mkbool(self.n - floordiv_e(self.n, self.d) * self.d == 0)

    def __format__(self, spec):
        return "<symnum>"


def _q_norm(n, d):
    return n, d


class SymFloat(_Num):
    """A finite float given exactly as n/d.

    Arithmetic is exact rational arithmetic: it agrees with IEEE doubles as long
    as results are representable, which the harness bounds must guarantee.
    Negative zero is not represented."""
    __slots__ = ("n", "d", "_h")

    def __init__(self, n, d=1):
        self.n = n
        self.d = d
        self._h = None

    @property
    def __class__(self):
        return float

    def __repr__(self):
        return f"<SymFloat {self.n}/{self.d}>"

    def __float__(self):
        v = E.concretize_int(self.n)
        return v / self.d

    def __neg__(self):
        return mkfloat(-self.n, self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkfloat(z3.If(self.n < 0, -self.n, self.n), self.d)

    def __round__(self, nd=None):
        if nd is None:
            return mkint(self._rhe(self.n, self.d))
        raise PathIncomplete("round(float, n)")

    def _bin(self, o, f, rev=False):
        q = to_q(o)
        if q is None or type(o).__name__ in ("Decimal", "SymDec"):
            return NotImplemented
        if isinstance(q, str):
            return NotImplemented
        a, b = (q, self.q()) if rev else (self.q(), q)
        return f(a, b)

    @staticmethod
    def _add(a, b):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return mkfloat(n1 + n2, d1)
        return mkfloat(n1 * d2 + n2 * d1, d1 * d2)

    @staticmethod
    def _sub(a, b):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return mkfloat(n1 - n2, d1)
        return mkfloat(n1 * d2 - n2 * d1, d1 * d2)

    @staticmethod
    def _mul(a, b):
        return mkfloat(a[0] * b[0], a[1] * b[1])

    def _special(self, o, op, rev):
        """Arithmetic with nan/inf: depends on the sign of self only."""
        if E.branch(self.n == 0):
            me = 0.0
        else:
            me = 1.5 if E.branch(self.n > 0) else -1.5
        return op(o, me) if rev else op(me, o)

    def _ar(self, o, f, op, rev=False):
        if type(o) is float and to_q(o).__class__ is str:
            return self._special(o, op, rev)
        return self._bin(o, f, rev)

    def __add__(self, o):
        return self._ar(o, self._add, lambda a, b: a + b)

    def __radd__(self, o):
        return self._ar(o, self._add, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._ar(o, self._sub, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, self._sub, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._ar(o, self._mul, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._ar(o, self._mul, lambda a, b: a * b, True)

    @staticmethod
    def _div(a, b):
        (n1, d1), (n2, d2) = a, b
        if E.branch(n2 == 0) if not isinstance(n2, int) else n2 == 0:
            raise ZeroDivisionError("float division by zero")
        if not isinstance(n2, int):
            n2 = E.concretize_int(n2, why="symbolic divisor")
        if n2 < 0:
            n1, n2 = -n1, -n2
        return mkfloat(n1 * d2, d1 * n2)

    def __truediv__(self, o):
        if type(o) is float and to_q(o).__class__ is str:
            return self._special(o, lambda a, b: a / b, False)
        return self._bin(o, self._div)

    def __rtruediv__(self, o):
        if type(o) is float and to_q(o).__class__ is str:
            if E.branch(self.n == 0):
                raise ZeroDivisionError("float division by zero")
            return self._special(o, lambda a, b: a / b, True)
        return self._bin(o, self._div, True)

    @staticmethod
    def _floordiv(a, b):
        r = SymFloat._div(a, b)
        if type(r) is float:
            return float(r // 1)
        return mkfloat(floordiv_e(r.n, r.d), 1)

    def __floordiv__(self, o):
        return self._bin(o, self._floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, self._floordiv, True)

    @staticmethod
    def _mod(a, b):
        (n1, d1), (n2, d2) = a, b
        if E.branch(n2 == 0) if not isinstance(n2, int) else n2 == 0:
            raise ZeroDivisionError("float modulo")
        if not isinstance(n2, int):
            n2 = E.concretize_int(n2, why="symbolic divisor")
        # common denominator
        n1, n2, d = n1 * d2, n2 * d1, d1 * d2
        fl = floordiv_e(n1, n2)
        return mkfloat(n1 - fl * n2, d)

    def __mod__(self, o):
        if type(o) is float and to_q(o).__class__ is str:
            return self._special_mod(o, False)
        return self._bin(o, self._mod)

    def _special_mod(self, o, rev):
        if rev or o != o:
            if not rev or E.branch(self.n != 0):
                return float("nan")
            raise ZeroDivisionError("float modulo")
        if E.branch(self.n == 0):
            return 0.0 * o if o > 0 else -0.0
        if E.branch(self.n > 0):
            return self if o > 0 else o
        return self if o < 0 else o

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        if type(o) is float and to_q(o).__class__ is str:
            return self._special_mod(o, True)
        return self._bin(o, self._mod, True)

    def __pow__(self, o, m=None):
        if isinstance(o, int) and type(o) is int and o >= 0:
            r = 1.0
            for _ in range(o):
                r = r * self
            return r
        raise PathIncomplete("float power")

    def as_integer_ratio(self):
        raise PathIncomplete("as_integer_ratio")

    def hex(self):
        return float(self).hex()


def _reduce(n, d):
    return n, d


def mkfloat(n, d):
    if not isinstance(n, int) and z3.is_int_value(n):
        n = n.as_long()
    if isinstance(n, int):
        return n / d
    return SymFloat(n, d)


def as_symfloat(x):
    e = num_e(x)
    return mkfloat(e, 1)


class SymDec(_Num):
    """decimal.Decimal with symbolic coefficient and concrete exponent.

    value = c * 10**x.  Sign of zero is not represented."""
    __slots__ = ("c", "x", "_h")
    PREC = 28

    def __init__(self, c, x):
        self.c = c
        self.x = x
        self._h = None

    @property
    def __class__(self):
        import decimal
        return decimal.Decimal

    def __repr__(self):
        return f"<SymDec {self.c}E{self.x}>"

    @property
    def n(self):
        return self.c if self.x <= 0 else self.c * 10 ** self.x

    @property
    def d(self):
        return 10 ** -self.x if self.x <= 0 else 1

    def is_nan(self):
        return False
    is_snan = is_qnan = is_infinite = is_nan

    def is_finite(self):
        return True

    def is_zero(self):
        return mkbool(self.c == 0)

    def is_signed(self):
        return mkbool(self.c < 0)

    def _fits(self):
        return E.branch(z3.And(self.c < 10 ** self.PREC, self.c > -10 ** self.PREC))

    def _round_prec(self):
        if not self._fits():
            raise PathIncomplete("decimal result exceeds context precision")
        return self

    def quantize(self, exp, rounding=None, context=None):
        import decimal
        if type(exp) is SymDec:
            ex = exp.x
        else:
            ex = decimal.Decimal(exp).as_tuple().exponent
        if rounding not in (None, decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_UP,
                            decimal.ROUND_DOWN, decimal.ROUND_FLOOR,
                            decimal.ROUND_CEILING, decimal.ROUND_HALF_DOWN):
            raise PathIncomplete("decimal rounding mode")
        if ex <= self.x:
            r = SymDec(self.c * 10 ** (self.x - ex), ex)
        else:
            d = 10 ** (ex - self.x)
            fl = floordiv_e(self.c, d)
            rem2 = 2 * (self.c - fl * d)
            if rounding in (None, decimal.ROUND_HALF_EVEN):
                c = self._rhe(self.c, d)
            elif rounding == decimal.ROUND_FLOOR:
                c = fl
            elif rounding == decimal.ROUND_CEILING:
                c = -floordiv_e(-self.c, d)
            elif rounding == decimal.ROUND_DOWN:
                c = z3.If(self.c >= 0, fl, -floordiv_e(-self.c, d))
            elif rounding == decimal.ROUND_HALF_UP:
                c = z3.If(self.c >= 0, z3.If(rem2 >= d, fl + 1, fl),
                          z3.If(rem2 > d, fl + 1, fl))
            else:
                c = z3.If(self.c >= 0, z3.If(rem2 > d, fl + 1, fl),
                          z3.If(rem2 >= d, fl + 1, fl))
            r = SymDec(c, ex)
        if not r._fits():
            raise decimal.InvalidOperation("quantize result has too many digits")
        return r

    def __neg__(self):
        return SymDec(-self.c, self.x)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymDec(z3.If(self.c < 0, -self.c, self.c), self.x)

    copy_abs = __abs__

    def __round__(self, nd=None):
        if nd is None:
            return mkint(self._rhe(self.n, self.d))
        return self.quantize_exp(-nd)

    def quantize_exp(self, ex):
        import decimal
        return self.quantize(decimal.Decimal(1).scaleb(ex))

    def scaleb(self, n, context=None):
        return SymDec(self.c, self.x + int(n))

    def to_integral_value(self, rounding=None, context=None):
        if self.x >= 0:
            return self
        import decimal
        return self.quantize(decimal.Decimal(1), rounding)
    to_integral = to_integral_value

    def adjusted(self):
        a = z3.If(self.c < 0, -self.c, self.c)
        k = 1
        while not E.branch(a < 10 ** k):
            k += 1
        return k - 1 + self.x

    def as_tuple(self):
        import decimal
        neg = E.branch(self.c < 0)
        ds = int_digits(z3.If(self.c < 0, -self.c, self.c))
        return decimal.DecimalTuple(1 if neg else 0, tuple(mkint(x) for x in ds), self.x)

    def is_integer(self):
        return mkbool(self.n - floordiv_e(self.n, self.d) * self.d == 0)

    def normalize(self, context=None):
        if E.branch(self.c == 0):
            import decimal
            return decimal.Decimal(0)
        c, x = self.c, self.x
        while E.branch(c - 10 * (c / z3.IntVal(10)) == 0):
            c, x = c / z3.IntVal(10), x + 1
        return SymDec(c, x)

    def _bin(self, o, f, rev=False):
        a, b = self, as_symdec(o)
        if b is None:
            return NotImplemented
        if isinstance(b, str):
            raise PathIncomplete("decimal special value arithmetic")
        if rev:
            a, b = b, a
        return f(a, b)

    @staticmethod
    def _add(a, b):
        x = min(a.x, b.x)
        return SymDec(a.c * 10 ** (a.x - x) + b.c * 10 ** (b.x - x), x)._round_prec()

    @staticmethod
    def _sub(a, b):
        x = min(a.x, b.x)
        return SymDec(a.c * 10 ** (a.x - x) - b.c * 10 ** (b.x - x), x)._round_prec()

    @staticmethod
    def _mul(a, b):
        return SymDec(a.c * b.c, a.x + b.x)._round_prec()

    def __add__(self, o):
        return self._bin(o, self._add)

    def __radd__(self, o):
        return self._bin(o, self._add, True)

    def __sub__(self, o):
        return self._bin(o, self._sub)

    def __rsub__(self, o):
        return self._bin(o, self._sub, True)

    def __mul__(self, o):
        return self._bin(o, self._mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        raise PathIncomplete("decimal division")
    __rtruediv__ = __floordiv__ = __truediv__

    def __mod__(self, o):
        q = to_q(o)
        if q is None or isinstance(q, str) or not isinstance(q[0], int):
            raise PathIncomplete("decimal modulo")
        # truncated remainder
        b = as_symdec(o)
        x = min(self.x, b.x)
        n = self.c * 10 ** (self.x - x)
        m = abs(b.c) * 10 ** (b.x - x)
        if m == 0:
            import decimal
            raise decimal.InvalidOperation()
        r = z3.If(n >= 0, n - floordiv_e(n, m) * m, -(-n - floordiv_e(-n, m) * m))
        return SymDec(r, x)

    def __float__(self):
        v = E.concretize_int(self.c)
        return float(Fraction(v) * Fraction(10) ** self.x)


def as_symdec(o):
    import decimal
    if type(o) is SymDec:
        return o
    if type(o) is decimal.Decimal:
        if not o.is_finite():
            return "special"
        t = o.as_tuple()
        c = int("".join(map(str, t.digits)) or "0")
        return SymDec(-c if t.sign else c, t.exponent)
    e = num_e(o)
    if e is not None:
        return SymDec(e, 0)
    return None


def int_digits(a, k=None):
    """Decimal digits (most significant first) of non-negative expression a.
    Forks on the number of digits."""
    if isinstance(a, int):
        return [int(ch) for ch in str(a)]
    key = a.get_id()
    if key in E.digit_cache:
        return E.digit_cache[key][1]
    if k is None:
        k = 1
        while not E.branch(a < 10 ** k):
            k += 1
            if k > 60:
                raise PathIncomplete("number of digits")
    ds = []
    if k == 1:
        ds = [a]
    else:
        tot = 0
        for i in range(k):
            d = E.fresh("dg")
            E.add(z3.And(d >= 0, d <= 9))
            ds.append(d)
            tot = tot * 10 + d
        E.add(tot == a)
    E.digit_cache[key] = (a, ds)
    return ds
