from vlib.olscheck import component
RULE = ("ramp cubes drawn by Hypothesis (fluxes, steps, flag patterns, timings, gains); a case is non-trivial when at "
        "least one compared pixel has two or more segments, or a rescued first group / zero frame, and distinct by content")
COMPONENTS = [component("slopes", ("slope",), quick=2400), component("slopes-chargeloss", ("slope",), quick=300, chargeloss=True)]
