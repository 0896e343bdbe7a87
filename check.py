#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] : decides one property by simulation (see DESIGN.md).

exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself failed."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    env = os.environ
    if env.get("VERIF_BOOTED") != "1":
        # one fixed environment: interpreter, hash seed, file-operation shim
        sys.path.insert(0, HERE)
        e = dict(env, VERIF_BOOTED="1", PYTHONHASHSEED=env.get("VERIF_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1",
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE")
        for k in ("PYTHONPATH", "PYTHONSTARTUP"):
            e.pop(k, None)
        from sim import shim

        so = shim.build()
        if so:
            e["LD_PRELOAD"] = so
            e["VERIF_SHIM"] = so
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)
    env.pop("LD_PRELOAD", None)  # not for the compilers
    sys.path.insert(0, HERE)
    from sim import engine

    sys.exit(engine.main(sys.argv[1:]))


if __name__ == "__main__":
    main()
