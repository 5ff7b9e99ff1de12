"""Drive the components of a property check, write evidence, report violations."""
import collections, hashlib, importlib, json, os, pathlib, pickle, signal, subprocess, sys, tempfile, time, traceback

from . import boot
from .core import Violation, brief, dec, enc

ROOT = pathlib.Path(__file__).resolve().parent.parent
NPROC = max(1, min(8, os.cpu_count() or 1))


def seed_of():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)


def load(prop):
    return importlib.import_module("checks." + prop.lower())


# ---------------------------------------------------------------- worker
class CaseTimeout(Violation):
    pass


def _in_repo(exc):
    """Was the exception raised by (or below) the code under test?"""
    tb, hit = exc.__traceback__, False
    for f in traceback.extract_tb(tb):
        if "/repo/src/" in f.filename or f.filename.endswith((".pyx", ".pxd")):
            hit = True
    return hit


def _unjudgeable(exc):
    """Is this a result without the expected entries (and not a helper which is called otherwise or has gone)?"""
    if isinstance(exc, AttributeError) and str(exc).startswith("module "):
        return False
    if isinstance(exc, TypeError) and "argument" in str(exc):
        return False
    return isinstance(exc, (KeyError, IndexError, AttributeError, TypeError, ValueError)) and not isinstance(exc, UnicodeError)


def run_case(comp, case):
    """Run one case; raises Violation when the property fails on it."""
    def onalarm(*a):
        f, hit = a[1] if len(a) > 1 else None, False
        while f is not None:
            hit = hit or "/repo/src/" in f.f_code.co_filename
            f = f.f_back
        if hit:
            raise CaseTimeout(f"no result within {comp.timeout} s (such a case normally takes milliseconds)")
        raise RuntimeError("the harness did not finish a case in time")
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(comp.timeout)
    try:
        return comp.run(case)
    except Violation:
        raise
    except Exception as e:
        if _in_repo(e):
            where = [f for f in traceback.extract_tb(e.__traceback__) if "/repo/src/" in f.filename or f.filename.endswith(".pyx")]
            w = where[-1]
            raise Violation(f"the code under test raised {type(e).__name__}: {str(e)[:300]} "
                            f"({w.filename.replace('/repo/', '')}:{w.lineno})") from e
        if _unjudgeable(e):
            raise Violation(f"the result lacks what the property speaks of: {type(e).__name__}: {str(e)[:300]}") from e
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def forked(comp, case):
    """Run the case in a child, so that a crash of native code can be shrunk like any other failure."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                run_case(comp, case)
                os.write(w, b"ok")
            except Violation as e:
                os.write(w, b"V" + str(e).encode()[:3000])
            except Exception as e:
                os.write(w, b"E" + repr(e).encode()[:3000])
        finally:
            os._exit(0)
    os.close(w)
    txt = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        txt += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not txt:
        raise Violation(f"the process running the code under test died (wait status {status})")
    if txt[:1] == b"V":
        raise Violation(txt[1:].decode(errors="replace"))
    return False, []


def worker(args):
    prop, cname, shard, seed, n, out = args
    n, seed = int(n), int(seed)
    boot.import_ready()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 40
    mod = load(prop)
    comp = next(c for c in mod.COMPONENTS if c.name == cname)
    if comp.setup:
        comp.setup()
    stat = {"evaluations": 0, "labels": collections.Counter(), "samples": []}
    hashes, last = set(), {}
    crashfile = out + ".case"

    def body(case):
        data = pickle.dumps(case)
        if comp.crashy:
            with open(crashfile, "wb") as f:
                f.write(data)
        stat["evaluations"] += 1
        try:
            res = (forked if os.environ.get("VERIF_FORK") else run_case)(comp, pickle.loads(data))
        except Violation as e:
            last["case"], last["msg"] = data, str(e)
            raise
        except Exception as e:
            last["error"] = "".join(traceback.format_exception(e))[-6000:]
            last["errcase"] = data
            raise
        nontrivial, labels = res if isinstance(res, tuple) else (bool(res), ())
        for l in labels:
            stat["labels"][str(l)] += 1
        if nontrivial:
            hashes.add(hashlib.blake2b(data, digest_size=8).hexdigest())
            if len(stat["samples"]) < 1 and stat["evaluations"] > 3:
                stat["samples"].append(brief(case))

    test = given(comp.strategy())(body)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
                    phases=(Phase.generate, Phase.shrink), verbosity=hypothesis.Verbosity.quiet)(test)
    result = {"component": cname, "shard": int(shard)}
    try:
        test()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if "case" in last:
            result["violation"] = last["msg"]
            result["case"] = enc(pickle.loads(last["case"]))
        else:
            result["error"] = last.get("error") or "".join(traceback.format_exception(e))[-6000:]
            if "errcase" in last:
                result["error"] += "\ncase: " + str(brief(pickle.loads(last["errcase"])))
    result.update(evaluations=stat["evaluations"], labels=dict(stat["labels"]), samples=stat["samples"],
                  hashes=sorted(hashes))
    with open(out, "w") as f:
        json.dump(result, f)
    try:
        os.unlink(crashfile)
    except OSError:
        pass
    return 0


# ---------------------------------------------------------------- driver
def known_findings(prop):
    p = ROOT / "known_findings.json"
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text())["findings"] if k["property"] == prop]


def _derive(seed, cname, shard):
    return int(hashlib.sha256(f"{seed}:{cname}:{shard}".encode()).hexdigest()[:12], 16)


def shrink_crash(prop, c, s, out, jobs, tmp):
    sd, n = next((j[2], j[3]) for j in jobs if j[0] is c and j[1] == s)
    env = dict(os.environ, VERIF_FORK="1")
    if c.env:
        env.update(c.env() if callable(c.env) else c.env)
    o = out + ".shrunk"
    p = subprocess.Popen([sys.executable, "-P", str(ROOT / "run.py"), "--worker", prop, c.name, str(s), str(sd), str(n), o],
                         env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=ROOT, start_new_session=True)
    try:
        p.wait(timeout=100)
        return json.load(open(o)).get("case")
    except Exception:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return None


def run_check(prop, tier):
    t0 = time.time()
    seed = seed_of()
    boot.build_extensions()
    boot.import_ready()
    mod = load(prop)
    comps = mod.COMPONENTS
    only = os.environ.get("VERIF_ONLY")
    if only:
        comps = [c for c in comps if c.name in only.split(",")]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    jobs = []
    for c in comps:
        total = max(1, int((c.quick if tier == "quick" else c.thorough) * scale))
        shards = max(1, min(c.shards if tier == "quick" else max(c.shards, NPROC), total))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            jobs.append((c, s, _derive(seed, c.name, s), n))
    # long ones first
    jobs.sort(key=lambda j: j[1])
    running, results, stop = [], [], False
    limit = 780 if tier == "quick" else 24 * 3600
    queue = collections.deque(jobs)
    errors = []
    viol_at = None
    while queue or running:
        while queue and len(running) < NPROC and not stop:
            c, s, sd, n = queue.popleft()
            out = os.path.join(tmp, f"{c.name}-{s}.json")
            env = dict(os.environ)
            if c.env:
                env.update(c.env() if callable(c.env) else c.env)
            err = open(out + ".err", "w")
            p = subprocess.Popen([sys.executable, "-P", str(ROOT / "run.py"), "--worker", prop, c.name, str(s), str(sd), str(n), out],
                                 env=env, stdout=err, stderr=subprocess.STDOUT, cwd=ROOT, start_new_session=True)
            running.append((p, c, s, out, err))
        if stop and not running:
            break
        time.sleep(0.05)
        for item in list(running):
            p, c, s, out, err = item
            rc = p.poll()
            if rc is None:
                # native code that never returns cannot be interrupted from inside
                cf = out + ".case"
                try:
                    stuck = c.crashy and time.time() - os.path.getmtime(cf) > c.timeout + 30
                except OSError:
                    stuck = False
                if not stuck:
                    continue
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                running.remove(item)
                err.close()
                results.append({"component": c.name, "shard": s, "evaluations": 0, "labels": {}, "samples": [], "hashes": [],
                                "violation": f"no result within {c.timeout} s (such a case normally takes milliseconds)",
                                "case": enc(pickle.load(open(cf, "rb")))})
                stop, viol_at = True, viol_at or time.time()
                continue
            running.remove(item)
            err.close()
            if rc == 0 and os.path.exists(out):
                r = json.load(open(out))
            else:
                r = {"component": c.name, "shard": s, "evaluations": 0, "labels": {}, "samples": [], "hashes": []}
                tail = open(out + ".err").read()[-4000:]
                crashed = rc < 0 or (c.crashy and rc not in (0, 1, 2))
                if crashed and os.path.exists(out + ".case"):
                    case = pickle.load(open(out + ".case", "rb"))
                    head = next((l for l in tail.splitlines() if "ERROR: " in l or "runtime error" in l), "") + " "
                    r["violation"] = f"the process running the code under test died (status {rc}): {head}{tail[-1200:]}"
                    r["case"] = enc(case)
                    small = None if viol_at else shrink_crash(prop, c, s, out, jobs, tmp)
                    if small is not None and len(json.dumps(small)) <= len(json.dumps(r["case"])):
                        r["case"] = small
                else:
                    r["error"] = f"worker status {rc}: {tail}"
            results.append(r)
            if "violation" in r:
                stop = True
                viol_at = viol_at or time.time()
            if "error" in r:
                errors.append(r)
        if (viol_at and time.time() - viol_at > 5) or (time.time() - t0 > limit):
            for p, *_ in running:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            if not viol_at:
                errors.append({"error": f"time limit of {limit} s reached: inconclusive", "component": "-"})
            for p, c, s, out, err in running:
                p.wait()
            break
    viols = [r for r in results if "violation" in r]
    # findings recorded as known: show that they are still there
    for k in known_findings(prop):
        if k.get("status") != "open":
            continue
        probe = getattr(mod, "PROBES", {}).get(k["id"])
        if probe is not None and probe():
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    evals = sum(r["evaluations"] for r in results)
    hashes = set()
    for r in results:
        hashes.update(r["component"] + ":" + h for h in r["hashes"])
    labels = {}
    for r in results:
        d = labels.setdefault(r["component"], collections.Counter())
        d.update(r["labels"])
        d["cases"] += r["evaluations"]
    samples = []
    seen = collections.Counter()
    for r in results:
        for s in r["samples"]:
            if seen[r["component"]] < 2:
                samples.append({"component": r["component"], "case": s})
                seen[r["component"]] += 1
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes),
                       "rule": getattr(mod, "RULE", "") + " | " + "; ".join(f"{c.name}: {c.rule}" for c in comps if c.rule),
                       "samples": samples, "classes": {k: dict(sorted(v.items())) for k, v in labels.items()}},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    subprocess.run(["rm", "-rf", tmp])
    if viols:
        rep = ROOT / "evidence" / "replay"
        rep.mkdir(exist_ok=True)
        # the smallest reproduction first
        viols.sort(key=lambda r: len(json.dumps(r["case"])))
        r = viols[0]
        body = {"property": prop, "component": r["component"], "message": r["violation"], "case": r["case"]}
        txt = json.dumps(body)
        path = rep / f"{prop}-{r['component']}-{hashlib.sha256(txt.encode()).hexdigest()[:10]}.json"
        path.write_text(txt)
        print(f"{prop} {r['component']}: {r['violation'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for r in errors[:3]:
            print(f"ERROR in {r['component']}: {r['error'][-3000:]}", file=sys.stderr)
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} cases={evals} nontrivial={len(hashes)} wall={time.time()-t0:.1f}s")
    return 0


def replay(path):
    boot.build_extensions()
    boot.import_ready()
    d = json.loads(pathlib.Path(path).read_text())
    mod = load(d["property"])
    comp = next(c for c in mod.COMPONENTS if c.name == d["component"])
    if comp.env and not os.environ.get("VERIF_REPLAY_ENV"):
        e = dict(os.environ, VERIF_REPLAY_ENV="1")
        e.update(comp.env() if callable(comp.env) else comp.env)
        rc = subprocess.run([sys.executable, "-P", str(ROOT / "run.py"), "--replay", path], env=e).returncode
        if rc not in (0, 1):
            print(f"the process died with status {rc}")
            print(f"VIOLATION property={d['property']} replay={path}")
            return 1
        return rc
    if comp.setup:
        comp.setup()
    try:
        run_case(comp, dec(d["case"]))
    except Violation as e:
        print(f"{d['property']} {d['component']}: {e}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the case passes")
    return 0


def main(argv):
    if argv and argv[0] == "--worker":
        return worker(argv[1:])
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--selftest":
        boot.build_extensions()
        boot.import_ready()
        import hypothesis
        print("ready: hypothesis", hypothesis.__version__)
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(prop, tier)
