"""plant.py SPEC.py [ID ...]: confirm planted changes in a scratch copy (demo passes without, fails with; stable tests pass) and keep them in
seeded/<id>.  SPEC.py defines BUGS: list of dicts id, prop, edits [(file, old, new)], demo (python source), needs, breaks, tests (pytest args)."""
import json, os, pathlib, runpy, shutil, subprocess, sys, xml.etree.ElementTree as ET
PY = "/opt/venv/bin/python"
V = pathlib.Path("/verif")
base = json.load(open("/opt/vp/BASELINE.json"))
ALL = ["tests"]


def sh(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ, **(env or {}))
    for k in list(e):
        if k.startswith("VERIF"):
            del e[k]
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)


def stable():
    s = base
    for k in ("stable", "tests", "passed"):
        if isinstance(s, dict) and k in s:
            s = s[k]
    return s


def one(b):
    i = b["id"]
    d = pathlib.Path(f"/tmp/plant/{i}")
    shutil.rmtree(d, ignore_errors=True)
    d.parent.mkdir(exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
    sh("git checkout -q -- .", d)
    try:
        native = False
        for f, old, new in b["edits"]:
            p = d / "src/stcal" / f
            s = p.read_text()
            if s.count(old) != 1:
                return f"{i}: text found {s.count(old)} times in {f}"
            p.write_text(s.replace(old, new))
            native |= p.suffix in (".c", ".pyx")
        diff = sh("git diff", d).stdout
        out = V / "seeded" / i
        tmp = pathlib.Path(f"/tmp/plant/{i}.demo")
        shutil.rmtree(tmp, ignore_errors=True)
        tmp.mkdir(parents=True)
        (tmp / "demo.py").write_text(b["demo"].lstrip("\n"))
        (tmp / "demo.sh").write_text('#!/bin/bash\ncd /tmp && exec /opt/venv/bin/python "$(cd "$OLDPWD" && realpath "$(dirname "$0")")/demo.py"\n'
                                     if False else '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (tmp / "patch.diff").write_text(diff)
        (tmp / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        env = {"PYTHONPATH": f"{d}/src", "PYTHONDONTWRITEBYTECODE": "1"}
        if native:
            r = sh(f"{PY} setup.py build_ext --inplace", d, {"SETUPTOOLS_SCM_PRETEND_VERSION": "1.19.1"})
            if r.returncode:
                return f"{i}: does not build: {r.stderr[-500:]}"
        r = sh(f"bash {tmp}/demo.sh", "/repo", timeout=300)
        if r.returncode:
            return f"{i}: demo fails on the unchanged tree: {(r.stdout + r.stderr)[-800:]}"
        r = sh(f"bash {tmp}/demo.sh", d, env, timeout=300)
        if r.returncode == 0:
            return f"{i}: demo passes with the change: {r.stdout[-300:]}"
        tests = " ".join(b.get("tests") or ALL)
        r = sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --color=no -n 3 --dist loadfile -o junit_family=xunit2 --junitxml={tmp}.xml {tests}", d, env)
        bad = []
        for tc in ET.parse(f"{tmp}.xml").getroot().iter("testcase"):
            if tc.find("failure") is not None or tc.find("error") is not None:
                bad.append(tc.get("classname") + "::" + tc.get("name"))
        txt = json.dumps(base)
        bad = [t for t in bad if json.dumps(t.split("::")[-1])[1:-1] in txt]
        if bad:
            return f"{i}: tests fail: {bad[:4]}"
        shutil.rmtree(out, ignore_errors=True)
        out.parent.mkdir(exist_ok=True)
        shutil.copytree(tmp, out)
        return f"{i}: kept ({r.stdout.strip().splitlines()[-1]})"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(f"/tmp/plant/{i}.demo", ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    from concurrent.futures import ThreadPoolExecutor
    todo = [b for b in bugs if (b["id"] in sys.argv[2:] if sys.argv[2:] else not (V / "seeded" / b["id"]).exists())]
    with ThreadPoolExecutor(3) as ex:
        for m in ex.map(lambda b: one(b) if True else "", todo):
            print(m, flush=True)
