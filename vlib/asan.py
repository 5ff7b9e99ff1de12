"""Build slope_fitter.c of the tree under test with the address and undefined-behaviour sanitizers, and load it in a worker."""
import fcntl, glob, hashlib, importlib.util, os, pathlib, subprocess, sys, sysconfig, tempfile
from .boot import REPO

SRC = REPO / "src/stcal/ramp_fitting/src/slope_fitter.c"
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")


def _dir():
    import numpy as np
    h = hashlib.sha256(SRC.read_bytes())
    for f in sorted(glob.glob(str(REPO / "src/stcal/ramp_fitting/src/*.h"))):
        h.update(open(f, "rb").read())
    h.update(np.__version__.encode())
    return pathlib.Path(tempfile.gettempdir()) / f"verif-asan-{os.getuid()}-{h.hexdigest()[:16]}"


def lib():
    import numpy as np
    d = _dir()
    so = d / ("slope_fitter" + SUFFIX)
    d.mkdir(exist_ok=True)
    with open(d / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not so.exists():
            cmd = ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                   "-shared", "-fPIC", "-DNUMPY=1", "-w", "-I", sysconfig.get_paths()["include"], "-I", np.get_include(),
                   str(SRC), "-o", str(so) + ".tmp", "-lm"]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError("sanitizer build failed: " + r.stderr[-2000:])
            os.rename(str(so) + ".tmp", so)
    return so


def env():
    lib()
    pre = [subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip() for n in ("libasan.so", "libubsan.so")]
    return {"LD_PRELOAD": " ".join(pre), "PYTHONMALLOC": "malloc",
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:max_malloc_fill_size=100000000:malloc_fill_byte=190:allocator_may_return_null=1",
            "UBSAN_OPTIONS": "print_stacktrace=0:abort_on_error=1:halt_on_error=1"}


def setup():
    name = "stcal.ramp_fitting.slope_fitter"
    spec = importlib.util.spec_from_file_location(name, lib())
    import stcal.ramp_fitting
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules[name] = m
    stcal.ramp_fitting.slope_fitter = m
    import stcal.ramp_fitting.ols_fit  # noqa: F401  binds to the instrumented module
