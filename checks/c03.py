import numpy as np
from vlib.core import Component
from vlib.likely import call, likely_cases
from vlib.olscheck import component
from vlib.ramps import DNU, JUMP, SAT
RULE = ("ramp cubes drawn by Hypothesis with dense and chaotic flag histories; a case is non-trivial when at least one compared "
        "pixel has two or more segments, or a rescued first group / zero frame, and distinct by content")


def run_likely(case):
    from checks.c08 import flags
    (image, integ, opt), rd = call(case)
    new = np.asarray(rd.groupdq)
    flags(case, image, integ, new)
    un = ((new & (SAT | DNU)) > 0)
    return bool(un.any() and (new & JUMP).any()), ["whole integrations unusable" if un.all(1).any() else "-"]


COMPONENTS = [component("flags", ("dq",), quick=2000), component("flags-chargeloss", ("dq",), quick=300, chargeloss=True),
              component("flags-early", ("dq",), quick=600, early=True),
              Component("flags-likely", lambda: likely_cases(), run_likely, quick=400, shards=4, rule="likelihood fit: some groups unusable and some jumps")]
