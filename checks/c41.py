from hypothesis import strategies as st
from vlib.core import Component, check

RULE = ("random requests (the documented words, whole numbers of any size, other text), numbers of rows from 1 and of cores from 1; against the documented "
        "fraction in exact arithmetic; non-trivial when more than one core and row are at hand and the request is not for one; distinct by content")

WORDS = ["none", "None", "NONE", "one", "quarter", "half", "all"]
OTHER = ["", " ", "two", "7.5", "-5", "3/4", "+2", "1e3", "0x4", "quarters", "half ", "all,half", "5 ", "\u00b2", "\u00bd"]


@st.composite
def requests(draw):
    kind = draw(st.sampled_from(["word", "number", "number", "other"]))
    if kind == "word":
        what = draw(st.sampled_from(WORDS))
    elif kind == "number":
        what = draw(st.one_of(st.integers(0, 70), st.integers(0, 70), st.integers(0, 10**12)))
        what = draw(st.sampled_from(["", "", "0", "000"])) + str(what)
    else:
        what = draw(st.one_of(st.sampled_from(OTHER), st.text("abcdefnoqru.-+ 19", max_size=6)))
    return {"what": what, "rows": draw(st.one_of(st.integers(1, 12), st.integers(1, 5000))), "cores": draw(st.one_of(st.integers(1, 9), st.integers(1, 300)))}


def run(case):
    from stcal.multiprocessing import compute_num_cores
    what, rows, cores = case["what"], case["rows"], case["cores"]
    n = compute_num_cores(what, rows, cores)
    if what in WORDS:
        want = {"quarter": cores // 4, "half": cores // 2, "all": cores}.get(what, 1)
    elif what and all(c in "0123456789" for c in what):
        want = int(what)
    else:
        want = 1
    want = max(1, min(want, rows, cores))
    check(n == want and int(n) == n, f"{n} workers, expected {want}")
    return rows > 1 and cores > 1 and what not in ("one", "1") and what.lower() != "none", ["word" if what in WORDS else "number" if what.isdigit() else "other"]


COMPONENTS = [Component("workers", requests, run, quick=6000, thorough=200000, shards=4)]
