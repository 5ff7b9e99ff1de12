"""Bring up the environment of a check: compiled extensions of /repo, Hypothesis."""
import fcntl, glob, importlib.machinery, importlib.util, os, pathlib, subprocess, sys, tempfile, zipfile

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))      # VERIF_REPO: a scratch copy, for development only
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NAMES = ("hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_ftz_detector",
         "attr", "attrs", "exceptiongroup")


class _Only(object):
    """Finds just Hypothesis (and its pure dependencies) in the tools venv, nothing else."""
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in NAMES and "." not in name:
            return importlib.machinery.PathFinder.find_spec(name, [self.path])
        return None


def prepare_path():
    if importlib.util.find_spec("hypothesis") is not None:
        return
    src = PYVENV
    if not os.path.isdir(os.path.join(PYVENV, "hypothesis")):
        whl = sorted(glob.glob("/opt/veriftools/wheels/hypothesis-[0-9]*.whl")) + \
            sorted(glob.glob("/opt/veriftools/wheels/sortedcontainers-*.whl"))
        src = os.path.join(tempfile.gettempdir(), f"verif-hyp-{os.getuid()}")
        with open(src + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.isdir(os.path.join(src, "hypothesis")):
                for w in whl:
                    zipfile.ZipFile(w).extractall(src)
    sys.meta_path.append(_Only(src))


def build_extensions():
    """Rebuild the compiled parts of /repo's working tree when their sources changed."""
    with open("/tmp/.verif-ext-build.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        script = "/opt/vp/build_ext.sh"
        if os.path.exists(script) and str(REPO) == "/repo":
            cmd = ["bash", script]
        elif os.path.exists(script):
            cmd = ["bash", "-c", open(script).read().replace("/repo", str(REPO))]
        else:
            cmd = [sys.executable, "setup.py", "-q", "build_ext", "--inplace", "--force", "--parallel", "4"]
        r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-3000:] + r.stderr[-3000:])
        raise SystemExit(2)


def import_ready():
    """Import stcal quietly and make sure it is the tree under test."""
    import logging, warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import stcal
    if not stcal.__file__.startswith(str(REPO / "src")):
        sys.path.insert(0, str(REPO / "src"))
        for m in [m for m in sys.modules if m.split(".")[0] == "stcal"]:
            del sys.modules[m]
        import stcal
        assert stcal.__file__.startswith(str(REPO / "src")), stcal.__file__
    import numpy as np
    np.seterr(all="ignore")
