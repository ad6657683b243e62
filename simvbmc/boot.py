"""Process bootstrap: pinned environment, then simulated seams, then PyVBMC.

Nothing here may import numpy or pyvbmc before the environment is pinned and
the clock seam is installed.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIMVBMC_REPO", "/repo")

PIN = {
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_CORETYPE": "Haswell",
    "NPY_DISABLE_CPU_FEATURES": "AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "PYTHONNOUSERSITE": "1",
}


def pinned_env(hashseed="0"):
    env = dict(os.environ)
    env.update(PIN)
    env["PYTHONHASHSEED"] = hashseed
    env["SIMVBMC_PINNED"] = "1"
    # only the environment of the interpreter matters, not the caller's path
    env["PYTHONPATH"] = VERIF + os.pathsep + REPO
    env.pop("PYTHONSTARTUP", None)
    return env


def python():
    p = "/opt/venv/bin/python"
    return p if os.path.exists(p) else sys.executable


def ensure_pinned():
    """Re-exec once under the pinned environment."""
    if os.environ.get("SIMVBMC_PINNED") == "1":
        return
    env = pinned_env()
    import tempfile

    base = tempfile.mkdtemp(prefix="simvbmc-")
    env["SIMVBMC_BASE"] = base
    mpl = os.path.join(base, "mpl")
    os.makedirs(mpl)
    # seed matplotlib's font cache from a read-only copy, if there is one
    for src in ("/opt/vp/mpl",):
        try:
            for f in os.listdir(src):
                s = os.path.join(src, f)
                if os.path.isfile(s):
                    with open(s, "rb") as a, open(os.path.join(mpl, f), "wb") as b:
                        b.write(a.read())
        except OSError:
            pass
    env["MPLCONFIGDIR"] = mpl
    import subprocess

    p = subprocess.Popen([python(), "-m", "simvbmc.cli"] + sys.argv[1:], env=env, cwd=VERIF)
    try:
        rc = p.wait()
    except KeyboardInterrupt:
        p.terminate()
        rc = 2
    import shutil

    shutil.rmtree(base, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 2)


def load_system():
    """Install the seams, then import the system under simulation."""
    from simvbmc import seams

    seams.install()
    sys.path[:] = [p for p in sys.path if p not in (REPO,)]
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.raiseExceptions = False
    import pyvbmc  # noqa
    import pyvbmc.vbmc.vbmc  # noqa

    assert os.path.realpath(pyvbmc.__file__).startswith(
        os.path.realpath(REPO)
    ), pyvbmc.__file__
    seams.install_late()
    warnings.simplefilter("ignore")
    # (a filter in front, so that the same one set again by a run would show)
    warnings.filterwarnings("ignore", category=BytesWarning)
