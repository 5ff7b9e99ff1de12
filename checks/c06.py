from vlib.olscheck import component
RULE = ("ramp cubes whose pixels mostly saturate within the first groups, with zero frames, one-group suppression and frame "
        "averaging; non-trivial when a compared pixel is rescued or has two segments; distinct by content")
F = ("slope", "var_poisson", "var_rnoise", "err", "dq")
COMPONENTS = [component("rescue", F, quick=2000, early=True), component("rescue-short", F, quick=1200, early=True, max_groups=3),
              component("rescue-zeroframe", F, quick=800, early=True, zeroframe=True, suppress=False)]
