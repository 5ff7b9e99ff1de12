import numpy as np
from hypothesis import strategies as st
from vlib import resref
from vlib.core import Component, check, close
from .c28 import frozen, unchanged

RULE = ("sets of exposures whose pixels tile output pixels, in exposure groups, with missing, misshaped, zero and non-finite variance maps and every weighting; "
        "non-trivial when some output pixel has a variance from at least two exposures")
NAMES = {"default": ["var_rnoise", "var_flat", "var_poisson"], "sky": ["var_rnoise", "var_poisson", "var_sky"], "norn": ["var_poisson", "var_flat"], "some": ["var_rnoise", "var_flat", "var_poisson"]}
FROM = {"default": None, "sky": None, "norn": None, "some": ["var_rnoise", "var_poisson"]}


@st.composite
def cases(draw):
    c = draw(resref.cases(var=True))
    c["names"] = draw(st.sampled_from(["default", "default", "sky", "norn", "some"]))
    c["keep"] = draw(st.integers(1, len(c["ex"])))
    return c


def variances(case, ref):
    sh = tuple(case["out"])
    out = {}
    names = NAMES[case["names"]]
    good = lambda e, k: e[k] is not None and e[k].shape == e["data"].shape
    def one(e, aw, key):
        v = e[key].astype(float)
        with np.errstate(all="ignore"):
            s = np.sqrt(v)
            t = np.where(aw > 0, aw * np.where(aw > 0, s, 0), 0).sum(axis=(2, 3)) / aw.sum(axis=(2, 3))
        return t * t
    count = np.zeros(sh, int)
    for key in names:
        n = np.zeros(sh, int)
        num, den, any_ = np.zeros(sh), np.zeros(sh), np.zeros(sh, bool)
        for i, aw in ref["per"]:
            e = case["ex"][i]
            if not good(e, key):
                continue
            if case["wt"] == "exptime":
                w = np.full(sh, e["exp"] if e["meas"] is None else e["meas"])
            elif "var_rnoise" in names and good(e, "var_rnoise"):
                rn = one(e, aw, "var_rnoise")
                with np.errstate(all="ignore"):
                    w = np.where((rn > 0) & np.isfinite(rn), 1 / rn, 0)
            else:
                w = np.ones(sh)
            v = one(e, aw, key)
            ok = (v >= 0) & np.isfinite(v) & (w > 0)
            num += np.where(ok, np.where(ok, v, 0) * w * w, 0)
            den += np.where(ok, w, 0)
            any_ |= ok
            n += ok
        count = np.maximum(count, n)
        with np.errstate(all="ignore"):
            out[key] = np.where(any_, num / den ** 2 * case["k"] ** 2, np.nan)
    return out, count


def compare(o, r, case, ref, args, what):
    m = ~ref["open"]
    used = ref["used"].any(axis=0)
    names = NAMES[case["names"]]
    evar = args["enable_var"] or args["compute_err"] == "from_var"
    want, count = variances(case, ref)
    for key in names:
        if evar:
            close(o[key], want[key], f"{key}{what}", rtol=2e-5 * (len(case["ex"]) + 2), mask=m)
        else:
            check(o.get(key) is None, f"{key} exists although variances are disabled{what}")
    if args["compute_err"] == "from_var":
        comp = [want[k] for k in (FROM[case["names"]] or names)]
        e = np.sqrt(np.nansum(comp, axis=0))
        e[np.all(np.isnan(comp), axis=0)] = np.nan
        close(o["err"], e, f"error{what}", rtol=2e-5 * (len(case["ex"]) + 2), mask=m)
    elif args["compute_err"] == "driz_err":
        close(o["err"], np.where(used, ref["err"], 0) * case["k"], f"error{what}", rtol=1e-5 * (len(case["ex"]) + 2), mask=m & used)
    else:
        check(o.get("err") is None, f"an error array exists although none was requested{what}")
    close(o["wht"], ref["wht"], f"weight{what}", rtol=1e-5 * (len(case["ex"]) + 2), mask=m)
    groups = {}
    for j, (i, _) in enumerate(ref["per"]):
        e = case["ex"][i]
        groups.setdefault(e["group"] if e["group"] != "own" else f"g{i}", e)
    g = list(groups.values())
    def eq(name, want):
        got = o[name]
        check((got is None) == (want is None) and (want is None or abs(got - want) <= 1e-9 * max(1, abs(want))), f"{name}{what}: {got}, expected {want}")
    eq("exposure_time", sum(e["exp"] for e in g))
    eq("measurement_time", None if any(e["meas"] is None for e in g) else sum(e["meas"] for e in g))
    eq("duration", sum(e["dur"] or 0 for e in g))
    eq("elapsed_exposure_time", sum(e["dur"] or 0 for e in g))
    eq("start_time", min(e["start"] for e in g))
    eq("end_time", max(e["start"] + e["len"] for e in g))
    eq("pointings", len(g))
    check(sorted(r.group_ids) == sorted(groups), f"groups{what}: {r.group_ids}, expected {sorted(groups)}")
    return count


def run(case):
    args = {"enable_var": case["evar"], "compute_err": case["err"]}
    models = [resref.model(case, e, i) for i, e in enumerate(case["ex"])]
    before = frozen(models)
    r = resref.make(case, NAMES[case["names"]], FROM[case["names"]], **args)
    for m in models:
        r.add_model(m)
    r.finalize()
    ref = resref.reference(case)
    count = compare(r.output_model, r, case, ref, args, "")
    unchanged(models, before)
    keep = case["perm"][:case["keep"]]      # a second mosaic with the same object: some of the exposures in another order
    r.reset_arrays()
    for i in keep:
        r.add_model(models[i])
    r.finalize()
    compare(r.output_model, r, case, resref.reference(case, keep), args, f" of a second mosaic of exposures {keep}")
    unchanged(models, before)
    return bool((count > 1).any()), [case["wt"], str(case["err"]), case["names"], f"scale={case['k']}"]


COMPONENTS = [Component("variances", cases, run, quick=600, thorough=20000, shards=6)]
