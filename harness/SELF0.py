"""Self test of the engine: a claim that must be refuted."""
from symex.api import task
from .common import *

BOUNDS = "self test"


@task()
def wrong(sx):
    s = sx.str("s", 0, 5)
    sx.check(len(s.split("ab")) < 3, "no two separators")
