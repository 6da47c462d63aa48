"""Self test of the engine: a few harnesses with known outcome over plain Python
semantics (run by setup_cmd)."""
import sys
from . import core, symctx, rt, strings  # noqa
from .run import *   # noqa
import z3


def main():
    import subprocess
    import os
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, VERIF_TIER="quick", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", SX_SELFTEST="1")
    # SELF1 must hold, SELF0 must be refuted
    r1 = subprocess.run([sys.executable, "-m", "symex.run", "SELF1"], cwd=here,
                        env=env, capture_output=True, text=True)
    r0 = subprocess.run([sys.executable, "-m", "symex.run", "SELF0"], cwd=here,
                        env=env, capture_output=True, text=True)
    ok = r1.returncode == 0 and r0.returncode == 1 and "VIOLATION" in r0.stdout
    if not ok:
        print(r1.stdout[-2000:], r1.stderr[-2000:], r0.stdout[-2000:],
              r0.stderr[-2000:])
    print("selftest", "passed" if ok else "FAILED", "z3", z3.get_version_string())
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
