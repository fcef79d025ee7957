"""Process set-up shared by the runner and the workers: interpreter paths, the
two configurations of the library ("pure" Python helpers or compiled ones) and
the scratch area."""
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CYTHONIZE = "/opt/venv/bin/cythonize"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child_env(scratch):
    env = dict(os.environ)
    env.update(HOME=scratch, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               PYTHONPATH=ROOT, PYTHONWARNINGS="ignore")
    return env


def _pyx_files():
    res = []
    base = os.path.join(REPO, "pyparticleest")
    for d, _sub, files in os.walk(base):
        for f in files:
            if f.endswith((".pyx", ".pxd", ".pxi")) or f == "__init__.py":
                res.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(res)


def build_ext(scratch):
    """Compile the repository's .pyx files (as they are now) in a scratch
    directory.  Returns the directory holding the extension modules."""
    out = os.path.join(scratch, "ext")
    h = hashlib.sha256()
    files = _pyx_files()
    for f in files:
        h.update(f.encode())
        h.update(open(os.path.join(REPO, f), "rb").read())
    cache = os.environ.get("VERIF_EXT_CACHE")
    if cache:
        cdir = os.path.join(cache, h.hexdigest()[:24])
        if os.path.isdir(cdir):
            return os.path.join(cdir, "pyparticleest", "utils")
    for f in files:
        dst = os.path.join(out, f)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy(os.path.join(REPO, f), dst)
    inc = subprocess.check_output([PY, "-c", "import numpy; print(numpy.get_include())"],
                                  env=child_env(scratch), text=True).strip()
    env = child_env(scratch)
    env["CFLAGS"] = "-O1 -w -I" + inc
    env.pop("PYTHONPATH", None)
    procs = []
    for m in ("ckalman", "cmlnlg_compute"):
        procs.append((m, subprocess.Popen(
            [CYTHONIZE, "-q", "-i", "pyparticleest/utils/%s.pyx" % m], cwd=out, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for m, p in procs:
        log, _ = p.communicate()
        have = [f for f in os.listdir(os.path.join(out, "pyparticleest", "utils"))
                if f.startswith(m + ".") and f.endswith(".so")]
        if p.returncode != 0 or not have:
            raise RuntimeError("could not compile %s.pyx:\n%s" % (m, log))
    if cache:
        os.makedirs(cache, exist_ok=True)
        shutil.copytree(out, cdir, dirs_exist_ok=True)
    return os.path.join(out, "pyparticleest", "utils")


def setup_import(config, extdir):
    """Make ``import pyparticleest`` give the wanted configuration of the
    working tree in REPO."""
    import builtins
    import warnings
    warnings.simplefilter("ignore")
    sys.path[:] = [p for p in sys.path if p != REPO]
    sys.path.insert(0, REPO)
    import numpy  # noqa: F401  (before the fallback path is added)
    import scipy.linalg  # noqa: F401
    import scipy.stats  # noqa: F401
    import scipy.optimize  # noqa: F401
    if HYP not in sys.path:
        sys.path.append(HYP)
    import pyparticleest.utils
    names = ("pyparticleest.utils.ckalman", "pyparticleest.utils.cmlnlg_compute")
    if config == "pure":
        for n in names:
            sys.modules[n] = None
    else:
        pyparticleest.utils.__path__.append(extdir)
        import importlib
        for n in names:
            importlib.import_module(n)
    real = builtins.print

    def quiet(*a, **k):
        if a and isinstance(a[0], str) and (a[0].startswith("Falling back") or
                                            a[0].startswith("N > 1 redundamt")):
            return
        real(*a, **k)
    builtins.print = quiet
    import pyparticleest.filter
    assert os.path.realpath(pyparticleest.filter.__file__).startswith(os.path.realpath(REPO)), \
        pyparticleest.filter.__file__
    numpy.seterr(all="ignore")
