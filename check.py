#!/usr/bin/env python3
"""check.py <property> [--replay FILE]     (tier and seed: VERIF_TIER, VERIF_SEED)"""

import importlib
import os
import sys

PYTHON = "/opt/venv/bin/python"


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")

    # Run with the project's interpreter, a reproducible hash seed, and
    # without reading or writing compiled files in /repo.
    if os.environ.get("_VERIF_STAGE") != "2":
        environment = dict(os.environ)
        environment.update(
            _VERIF_STAGE="2",
            PYTHONHASHSEED=str(seed % 4294967296),
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONPYCACHEPREFIX="/nonexistent/verif-no-pycache",
            PYTHONNOUSERSITE="1",
            LC_ALL="C.UTF-8",
        )
        for name in ("NO_COLOR", "FORCE_COLOR", "COLUMNS", "LINES", "COLORTERM", "PYTHONPATH"):
            environment.pop(name, None)
        os.execve(PYTHON, [PYTHON, *sys.argv], environment)

    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    from mon import core

    sys.path.insert(0, core.SRC)
    import gaspra

    if not os.path.abspath(gaspra.__file__).startswith(os.path.abspath(core.SRC) + os.sep):
        print(f"INCONCLUSIVE imported {gaspra.__file__} instead of {core.SRC}")
        return 2

    identifier = sys.argv[1].upper()
    module = importlib.import_module(f"mon.props.{identifier.lower()}")
    if "--replay" in sys.argv:
        return core.replay(module, sys.argv[sys.argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return core.run(module, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
