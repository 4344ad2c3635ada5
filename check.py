#!/usr/bin/env python3
"""Entry point of every check:  check.py P01 [--tier quick|thorough] [--replay FILE]

Re-executes itself with the interpreter rt1 is installed for, in a pinned environment and
with a private scratch directory, and imports rt1 from /repo's working tree.
"""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def main():
    scratch = tempfile.mkdtemp(prefix="vf_")
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": scratch,
        "LC_ALL": "C.UTF-8",
        "TZ": "UTC",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "PYTHONWARNINGS": "ignore",
        "PYTHONUNBUFFERED": "1",
        "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "NUMEXPR_NUM_THREADS": "1",
        "NUMEXPR_MAX_THREADS": "1",
        "PYTHONPATH": REPO + os.pathsep + HERE,
        "VF_REPO": REPO,
        "VF_SCRATCH": scratch,
        "TMPDIR": scratch,
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"),
    }
    for k in ("VF_ONLY", "VF_SCALE", "VF_JOBS", "VF_DEBUG"):
        if k in os.environ:
            env[k] = os.environ[k]
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    import subprocess

    try:
        p = subprocess.Popen([PY, "-m", "vf.core"] + sys.argv[1:], env=env, cwd=HERE)
        rc = p.wait()
    except KeyboardInterrupt:
        p.kill()
        rc = 130
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 3)


if __name__ == "__main__":
    main()
