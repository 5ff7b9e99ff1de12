"""sweep.py N WORKERS FILE... : random one-place mutants of the given source files (relative to src/stcal) in scratch copies; a mutant that the
repository's own tests miss is given to the quick checks of the properties anchored in its file.  For development only; nothing registered uses it.
Results go to /tmp/sweep/results.jsonl; --seed S picks other mutants."""
import ast, copy, json, multiprocessing as mp, os, pathlib, random, re, shutil, subprocess, sys, time
PY = "/opt/venv/bin/python"
OUT = pathlib.Path("/tmp/sweep/results.jsonl")
TWEAK = "tests/test_tweakreg.py -k 'not GAIA and not catalogs_match and not gaia_dr2 and not single_source'"
MAP = {
    "ramp_fitting/ols_fit.py": ("tests/test_ramp_fitting.py tests/test_ramp_fitting_cases.py", "C01 C03 C04 C05 C06 C42"),
    "ramp_fitting/ramp_fit.py": ("tests/test_ramp_fitting.py tests/test_ramp_fitting_cases.py tests/test_ramp_fitting_likely_fit.py", "C01 C02 C03 C05 C06 C08 C09"),
    "ramp_fitting/ramp_fit_class.py": ("tests/test_ramp_fitting.py tests/test_ramp_fitting_cases.py tests/test_ramp_fitting_likely_fit.py", "C01 C05 C06 C08"),
    "ramp_fitting/utils.py": ("tests/test_ramp_fitting.py tests/test_ramp_fitting_cases.py tests/test_ramp_fitting_likely_fit.py", "C01 C03 C05 C08 C06"),
    "ramp_fitting/src/slope_fitter.c": ("tests/test_ramp_fitting.py tests/test_ramp_fitting_cases.py", "C01 C02 C03 C04 C06 C07 C05 C42"),
    "ramp_fitting/likely_fit.py": ("tests/test_ramp_fitting_likely_fit.py", "C08 C09 C03 C42"),
    "ramp_fitting/likely_algo_classes.py": ("tests/test_ramp_fitting_likely_fit.py", "C08 C09 C42"),
    "ramp_fitting/ols_cas22_fit.py": ("tests/test_ramp_fitting_cas22.py tests/test_jump_cas22.py", "C10 C11"),
    "ramp_fitting/ols_cas22/_fit.pyx": ("tests/test_ramp_fitting_cas22.py tests/test_jump_cas22.py", "C10 C11 C42"),
    "ramp_fitting/ols_cas22/_jump.pyx": ("tests/test_ramp_fitting_cas22.py tests/test_jump_cas22.py", "C10 C11 C42"),
    "ramp_fitting/ols_cas22/_ramp.pyx": ("tests/test_ramp_fitting_cas22.py tests/test_jump_cas22.py", "C10 C11 C42"),
    "jump/twopoint_difference.py": ("tests/test_jump.py tests/test_jump_twopoint_difference.py", "C12 C13 C14 C42"),
    "jump/jump.py": ("tests/test_jump.py tests/test_jump_twopoint_difference.py", "C14 C15 C16 C12 C13"),
    "jump/jump_class.py": ("tests/test_jump.py tests/test_jump_twopoint_difference.py", "C12 C13 C14 C15 C16"),
    "jump/twopoint_difference_class.py": ("tests/test_jump.py tests/test_jump_twopoint_difference.py", "C12 C13 C14 C15 C16"),
    "saturation/saturation.py": ("tests/test_saturation.py", "C17 C18 C42"),
    "linearity/linearity.py": ("tests/test_linearity.py", "C19 C20 C42"),
    "dark_current/dark_sub.py": ("tests/test_dark_current.py", "C21 C22 C42"),
    "dark_current/dark_class.py": ("tests/test_dark_current.py", "C21 C22"),
    "outlier_detection/median.py": ("tests/outlier_detection", "C23"),
    "outlier_detection/utils.py": ("tests/outlier_detection", "C24 C25"),
    "resample/utils.py": ("tests/resample", "C26 C27 C28 C29 C43 C25 C44"),
    "resample/resample.py": ("tests/resample", "C28 C29 C43 C26 C44"),
    "skymatch/skymatch.py": ("tests/skymatch", "C30 C31"),
    "skymatch/skyimage.py": ("tests/skymatch", "C31 C30"),
    "skymatch/skystatistics.py": ("tests/skymatch", "C31 C30"),
    "alignment/util.py": ("tests/test_alignment.py tests/test_combine_sregions.py", "C33 C32 C34"),
    "alignment/resample_utils.py": ("tests/test_alignment.py tests/test_combine_sregions.py", "C34 C33"),
    "tweakreg/tweakreg.py": (TWEAK, "C36 C35"),
    "tweakreg/astrometric_utils.py": (TWEAK, "C36 C38"),
    "tweakreg/utils.py": (TWEAK, "C39 C36"),
    "tweakreg/_s3_catalog.py": (TWEAK, "C37 C38"),
    "velocity_aberration.py": ("tests/test_velocity_aberration.py", "C40"),
    "multiprocessing.py": ("tests/test_multiprocessing.py tests/test_jump.py", "C41"),
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.FloorDiv: [ast.Div],
       ast.Pow: [ast.Mult], ast.Mod: [ast.Add], ast.BitXor: [ast.BitOr]}
SKIP = re.compile(r"\b(log|logger|warnings|LOGGER)\b\.")


def quiet(n):
    s = ast.unparse(n)
    return bool(SKIP.match(s)) or s.startswith(("raise", "msg", "import", "from", "'", '"')) or isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise))


def sites(tree):
    """(path of node, description, edit) for every mutation point."""
    out = []

    def add(node, what, fn):
        out.append((node.lineno, what, fn))

    def visit(node, infn):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            infn = True
        if infn and isinstance(node, ast.stmt) and quiet(node):
            return
        if infn:
            if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
                for o in CMP[type(node.ops[0])]:
                    add(node, f"{ast.unparse(node)} -> {o.__name__}", lambda n=node, o=o: n.ops.__setitem__(0, o()))
            if isinstance(node, (ast.BinOp, ast.AugAssign)) and type(node.op) in BIN:
                for o in BIN[type(node.op)]:
                    add(node, f"{ast.unparse(node)} -> {o.__name__}", lambda n=node, o=o: setattr(n, "op", o()))
            if isinstance(node, ast.AugAssign) and isinstance(node.target, (ast.Name, ast.Subscript, ast.Attribute)):
                add(node, f"{ast.unparse(node)} -> =", lambda n=node: ("replace", n, ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)))
            if isinstance(node, ast.BoolOp):
                o = ast.Or if isinstance(node.op, ast.And) else ast.And
                add(node, f"{ast.unparse(node)} -> {o.__name__}", lambda n=node, o=o: setattr(n, "op", o()))
                for i in range(len(node.values)):
                    add(node, f"{ast.unparse(node)} drop term {i}", lambda n=node, i=i: n.values.pop(i) if len(n.values) > 2 else n.values.__setitem__(i, n.values[1 - i]))
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)) and not (isinstance(node.operand, ast.Constant) and isinstance(node.op, ast.USub)):
                add(node, f"{ast.unparse(node)} drop operator", lambda n=node: ("replace", n, n.operand))
            if isinstance(node, ast.Constant) and type(node.value) in (int, float):
                for v in ([node.value + 1] + ([node.value - 1] if node.value else [])) if type(node.value) is int else [node.value * 1.1 + (node.value == 0)]:
                    add(node, f"{node.value} -> {v}", lambda n=node, v=v: setattr(n, "value", v))
            if isinstance(node, ast.Constant) and type(node.value) is bool:
                add(node, f"{node.value} -> {not node.value}", lambda n=node: setattr(n, "value", not n.value))
            if isinstance(node, ast.Call):
                f = ast.unparse(node.func)
                if f.endswith(".copy") or f in ("np.abs", "abs", "float", "int", "np.asarray", "np.sqrt", "np.ceil", "np.floor", "np.deg2rad", "np.rad2deg", "deepcopy", "copy.deepcopy", "sorted", "list"):
                    arg = node.func.value if f.endswith(".copy") and not node.args else node.args[0] if node.args else None
                    if arg is not None:
                        add(node, f"{ast.unparse(node)} -> argument", lambda n=node, a=arg: ("replace", n, a))
                swap = {"min": "max", "max": "min", "np.minimum": "np.maximum", "np.maximum": "np.minimum", "np.nanmedian": "np.median", "np.nanmean": "np.mean", "np.nansum": "np.sum",
                        "np.nanmax": "np.max", "np.nanmin": "np.min", "np.any": "np.all", "np.all": "np.any", "np.isnan": "np.isinf", "np.isfinite": "np.isreal", "np.logical_and": "np.logical_or",
                        "np.logical_or": "np.logical_and", "np.ceil": "np.floor", "np.floor": "np.ceil", "np.cos": "np.sin", "np.sin": "np.cos", "any": "all", "all": "any", "np.round": "np.floor"}
                if f in swap:
                    add(node, f"{ast.unparse(node)} -> {swap[f]}", lambda n=node, g=swap[f]: setattr(n, "func", ast.parse(g, mode="eval").body))
                if not (f.startswith(("log", "warnings")) or "Error" in f):
                    for i, k in enumerate(node.keywords):
                        add(node, f"{f}(... {k.arg} dropped)", lambda n=node, i=i: n.keywords.pop(i))
                    if len(node.args) >= 2 and not re.search(r"bitwise|logical|np.dot|array_equal|isinstance|hasattr|getattr|m[ai][xn]|isclose|open", f):
                        i = 0
                        add(node, f"{ast.unparse(node)} swap args", lambda n=node: n.args.__setitem__(slice(0, 2), [n.args[1], n.args[0]]))
            if isinstance(node, (ast.If, ast.While, ast.IfExp)):
                for v in (True, False):
                    if isinstance(node, ast.While) and v:
                        continue
                    if not (isinstance(node, ast.If) and len(node.body) == 1 and quiet(node.body[0]) and not v):
                        add(node, f"if {ast.unparse(node.test)} -> {v}", lambda n=node, v=v: setattr(n, "test", ast.copy_location(ast.Constant(v), n.test)))
            if isinstance(node, ast.Slice):
                for nm in ("lower", "upper"):
                    b = getattr(node, nm)
                    if b is not None and not isinstance(b, ast.Constant):
                        out.append((b.lineno, f"slice {ast.unparse(node)} {nm} + 1", lambda n=node, nm=nm, b=b: setattr(n, nm, ast.BinOp(b, ast.Add(), ast.Constant(1)))))
            if isinstance(node, (ast.Expr, ast.AugAssign, ast.Assign, ast.Delete, ast.Continue, ast.Break)):
                simple = isinstance(node, ast.Assign) and not all(isinstance(t, (ast.Subscript, ast.Attribute)) for t in node.targets)
                if not simple and not (isinstance(node, ast.Expr) and isinstance(node.value, (ast.Constant, ast.Yield))):
                    add(node, f"drop: {ast.unparse(node)[:100]}", lambda n=node: ("replace", n, ast.copy_location(ast.Pass(), n)))
        for ch in ast.iter_child_nodes(node):
            if isinstance(node, (ast.FunctionDef, ast.arguments)) and isinstance(ch, ast.arguments):
                for dft in ch.defaults + ch.kw_defaults:
                    if dft is not None:
                        visit(dft, True)
                continue
            if isinstance(node, ast.Raise):
                continue
            visit(ch, infn)
    visit(tree, False)
    return out


class Rep(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        return self.new if n is self.old else self.generic_visit(n)


def py_mutant(src, i):
    tree = ast.parse(src)
    line, what, fn = sites(tree)[i]
    r = fn()
    if isinstance(r, tuple) and r and r[0] == "replace":
        tree = Rep(r[1], r[2]).visit(tree)
    ast.fix_missing_locations(tree)
    return line, what, ast.unparse(tree)


CRULES = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
          (r" \+= ", " = "), (r" \|= ", " = "), (r" && ", " || "), (r" \|\| ", " && "), (r" and ", " or "), (r" or ", " and "), (r" & ", " | "), (r" - 1\b", ""), (r" \+ 1\b", ""), (r"\b1\.0\b", "1.1"),
          (r"\b0\.5\b", "0.6"), (r"\b2\b", "3"), (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\bnot ", ""), (r"!(?=[a-z(])", ""), (r"sqrtf?\(", "("), (r"~", "")]


def text_sites(src, c):
    out, doc, cm = [], False, False
    for n, l in enumerate(src.split("\n")):
        s = l.strip()
        if c:
            if s.startswith("/*"):
                cm = True
            if cm or s.startswith(("//", "#", "*", "printf", "dbg", "err_", "PyErr", "ols_base_print", "static", "extern", "struct", "typedef")) or not l.startswith(" "):
                cm = cm and "*/" not in s
                continue
            if re.search(r"print|PyErr|NULL|malloc|calloc|free|FREE|\"", s):
                continue
        else:
            if s.count('"""') == 1:
                doc = not doc
                continue
            if doc or s.count('"""') == 2 or s.startswith(("#", "cimport", "from", "import", "cdef ", "cpdef", "@", "def ", "raise")) and " = " not in s or not l.startswith(" "):
                continue
        code = re.split(r"//|/\*|#", l)[0]
        for a, b in CRULES:
            for m in re.finditer(a, code):
                out.append((n, f"{s} : '{m.group()}' -> '{b}' at {m.start()}", l[:m.start()] + b + l[m.end():]))
        if c and s.endswith(";") and not s.startswith(("return", "int", "float", "double", "goto", "break", "continue", "npy", "char", "for", "}")) and l.count("(") == l.count(")"):
            out.append((n, f"drop {s}", ""))
        if not c and re.match(r"^[\w\[\]., :]+ [+\-*/|&]?= ", s) and "(" not in s.split("=")[0] and not s.startswith("cdef"):
            out.append((n, f"drop {s}", l[:len(l) - len(l.lstrip())] + "pass"))
    return out


def run(cmd, cwd, env=None, timeout=900):
    e = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return "timeout", ""


def worker(w, q, lock):
    base = pathlib.Path(f"/tmp/sweep/w{w}")
    shutil.rmtree(base, ignore_errors=True)
    base.mkdir(parents=True)
    repo, ver = base / "repo", base / "verif"
    subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
    subprocess.run(f"git -C {repo} checkout -q -- . ; mkdir {ver}; git -C /verif archive HEAD | tar x -C {ver}", shell=True, check=True)
    env = {"PYTHONPATH": f"{repo}/src", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    while True:
        try:
            f, i = q.get_nowait()
        except Exception:
            break
        path = repo / "src/stcal" / f
        src = path.read_text()
        tests, props = MAP[f]
        t0 = time.time()
        try:
            if f.endswith(".py"):
                line, what, new = py_mutant(src, i)
            else:
                L = src.split("\n")
                line, what, nl = text_sites(src, f.endswith(".c"))[i]
                L[line] = nl
                new, line = "\n".join(L), line + 1
            path.write_text(new)
            res = {"file": f, "site": i, "line": line, "what": what}
            ok = True
            if not f.endswith(".py"):
                rc, o = run(f"sed 's#/repo#{repo}#g' /opt/vp/build_ext.sh | bash", repo, timeout=300)
                if rc:
                    res["result"], ok = "no build", False
            if ok:
                rc = 0
                if not f.startswith("resample"):
                    rc, o = run(f"{PY} -m pytest -q -x -p no:cacheprovider --timeout=120 --color=no -n 2 {tests}", repo, env, 900)
                if rc not in (0, 5):
                    res["result"] = "tests"
                else:
                    res["result"] = "MISSED"
                    for c in props.split():
                        rc, o = run(f"./check {c} quick", ver, {"VERIF_REPO": str(repo)}, 900)
                        if rc == 1 and "VIOLATION" in o:
                            res["result"] = "caught " + c
                            break
                        if rc != 0:
                            res["result"] = f"rc {rc} {c} " + o[-300:]
                            break
                    if res["result"] == "MISSED" and f.startswith("resample") and "--tests" in os.environ.get("SWEEP", ""):
                        rc, o = run(f"{PY} -m pytest -q -x -p no:cacheprovider --timeout=120 --color=no -n 3 {tests}", repo, env, 1800)
                        if rc:
                            res["result"] = "tests, not checks"
            res["s"] = round(time.time() - t0)
            with lock, open(OUT, "a") as fh:
                fh.write(json.dumps(res) + "\n")
        finally:
            path.write_text(src)
    shutil.rmtree(base, ignore_errors=True)


def main():
    a = sys.argv[1:]
    seed = 0
    if "--seed" in a:
        k = a.index("--seed")
        seed = int(a[k + 1])
        del a[k:k + 2]
    n, workers, files = int(a[0]), int(a[1]), a[2:] or list(MAP)
    OUT.parent.mkdir(exist_ok=True)
    done = {(d["file"], d["site"]) for d in map(json.loads, open(OUT))} if OUT.exists() else set()
    rng = random.Random(seed)
    todo = []
    for f in files:
        src = open(f"/repo/src/stcal/{f}").read()
        m = sites(ast.parse(src)) if f.endswith(".py") else text_sites(src, f.endswith(".c"))
        pick = [i for i in rng.sample(range(len(m)), min(n, len(m))) if (f, i) not in done]
        print(f, len(m), "sites", len(pick), "to do", flush=True)
        todo += [(f, i) for i in pick]
    rng.shuffle(todo)
    if "--list" in os.environ.get("SWEEP", ""):
        return
    q, lock = mp.Queue(), mp.Lock()
    for t in todo:
        q.put(t)
    time.sleep(1)
    ps = [mp.Process(target=worker, args=(w, q, lock)) for w in range(workers)]
    [p.start() for p in ps]
    [p.join() for p in ps]


main()
