"""Self test of the engine: facts of Python that must be found to hold."""
import re
from decimal import Decimal
from symex.api import task
from .common import *

BOUNDS = "self test"


@task()
def ints(sx):
    a = sx.int("a", -50, 50)
    b = sx.int("b", 1, 7)
    sx.check(a // b * b + a % b == a, "division")
    sx.check(int(str(a)) == a, "text round trip")
    sx.check(Decimal(a).scaleb(-1) * 10 == a, "decimal")
    sx.observe("s", f"{a}:{b}")


@task()
def strs(sx):
    s = sx.str("s", 0, 4)
    t = sx.str("t", 0, 2, "ab/ ")
    i = (s + t).find(t)
    sx.check(i >= 0, "find")
    sx.check(t.join(s.split(t)) == s if len(t) else True, "split and join")
    m = re.compile(r"[a-z]+(\d*)").match(s)
    if m:
        sx.check(s.startswith(m.group()), "match")
    d = {s: 1}
    sx.check(d.get(s) == 1 and (t in d) == (s == t), "dict")
    sx.observe("x", [s.strip(), s.upper(), t.replace("a", s)])
