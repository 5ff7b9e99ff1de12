from vlib.olscheck import component
RULE = ("ramp cubes drawn by Hypothesis (fluxes, steps, flag patterns, timings, gains, dark currents, charge loss); a case is "
        "non-trivial when at least one compared pixel has two or more segments, or a rescued first group / zero frame, and distinct by content")
F = ("var_poisson", "var_rnoise", "err")
COMPONENTS = [component("variances", F, quick=2000), component("variances-chargeloss", F, quick=800, chargeloss=True),
              component("variances-early", F, quick=500, early=True)]
