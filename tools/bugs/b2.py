BUGS = []
def bug(**k): BUGS.append(k)

bug(id="sat-bias-int", prop="C18", tests=["tests/test_saturation.py"],
    edits=[("saturation/saturation.py", "bias_grp2 = bias[ints, 0, :, :]", "bias_grp2 = bias[0, 0, :, :]")],
    needs="several integrations with per-integration (4-D) bias that differs between them, grouped reads, and a pixel whose second-group decision depends on the bias",
    breaks="the check for saturation inside the second group uses the bias of the first integration for every integration",
    demo='''
import numpy as np
from stcal.saturation.saturation import flag_saturated_pixels
F = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "AD_FLOOR": 64, "NO_SAT_CHECK": 2097152}
rng = np.random.default_rng(5)
n, sh = 400, (1, 3, 1, 400)
base = rng.uniform(0, 8000, (2, 1, 1, n))
bias = np.concatenate([base[:1] * 0 + 100, base[1:] + 5000]).astype(np.float32)
data = np.stack([np.stack([bias[i, 0, 0] + rng.uniform(0, 9000, n), rng.uniform(15000, 45000, n), np.full(n, 70000.0)]) for i in range(2)])[:, :, None, :].astype(np.float32)
thr = np.full((2, 3, 1, n), 60000, np.float32)
pat = [[1, 2, 3, 4], [5, 6, 7, 8], [9, 10, 11, 12]]
def go(d, b, t):
    return flag_saturated_pixels(d.copy(), np.zeros(d.shape, np.uint8), np.zeros(d.shape, np.uint32), t.copy(), np.zeros(d.shape, np.uint32), 65535, F, n_pix_grow_sat=0, read_pattern=pat, bias=b.copy())[0]
both = go(data, bias, thr)
for i in range(2):
    one = go(data[i:i + 1], bias[i:i + 1], thr[i:i + 1])
    assert np.array_equal(both[i:i + 1], one), (i, np.argwhere(both[i:i + 1] != one)[:3])
''')

bug(id="jump-propagate", prop="C13", tests=["tests/test_jump.py", "tests/test_jump_twopoint_difference.py"],
    edits=[("jump/twopoint_difference.py", "boolean_flag[igrp[j] : igrp[j] + n_groups_flag + 1, icol[j], irow[j]] = True", "boolean_flag[igrp[j] : igrp[j] + n_groups_flag, icol[j], irow[j]] = True")],
    needs="an after-jump interval longer than 50 groups and jumps in less than one pixel-group out of a thousand",
    breaks="flags after rare jumps with a long decay time end one group early",
    demo='''
import numpy as np
from stcal.jump.twopoint_difference import propagate_flags
a = np.zeros((120, 20, 20), bool)
a[10, 3, 4] = True
propagate_flags(a, 60)
assert np.array_equal(np.flatnonzero(a[:, 3, 4]), np.arange(10, 71)), np.flatnonzero(a[:, 3, 4])
assert a.sum() == 61
''')

bug(id="jump-transient-dt", prop="C13", tests=["tests/test_jump.py", "tests/test_jump_twopoint_difference.py"],
    edits=[("jump/twopoint_difference.py", "        ejump *= twopt_p.dt_group[:, None, None]\n", "        ejump *= np.mean(twopt_p.dt_group)\n")],
    needs="a read pattern with resultants at unequal intervals and a jump whose size lies between the after-jump threshold for its interval and for the mean interval",
    breaks="the size of a jump, which decides whether the groups after it are flagged, is computed with the mean interval instead of the interval it happened in",
    demo='''
import numpy as np
from types import SimpleNamespace
from stcal.jump.twopoint_difference import transient_jumps
p = SimpleNamespace(dt_group=np.array([1.0, 1.0, 6.0, 1.0, 1.0]), fl_jump=4, fl_sat=2, fl_dnu=1, after_jump_flag_e1=500.0, after_jump_flag_e2=1e9, after_jump_flag_n1=2, after_jump_flag_n2=0)
gdq = np.zeros((1, 6, 1, 1), np.uint8)
gdq[0, 3] = 4
d = np.full((1, 5, 1, 1), 10.0)
d[0, 2] = 110.0      # 100 per unit of time more, for 6 units
out = transient_jumps(gdq.copy(), 1, d, np.full((1, 1), 10.0), p)
assert out[0, :, 0, 0].tolist() == [0, 0, 0, 4, 4, 4], out.ravel()
''')

bug(id="tweak-offset", prop="C35", tests=["tests/test_tweakreg.py -k 'not GAIA and not catalogs_match and not gaia_dr2 and not single_source'"],
    edits=[("tweakreg/tweakreg.py", "max(abs(xoffset), abs(yoffset))", "max(xoffset, yoffset)")],
    needs="matching without the 2-D histogram, with a negative initial offset of more than the tolerance",
    breaks="a legitimate correction is rejected as too large when the initial offset is negative",
    demo='''
import numpy as np
from types import SimpleNamespace
from stcal.tweakreg.tweakreg import _is_wcs_correction_small
class W:
    def __init__(self, d): self.d = d
    def footprint(self, axis_type=None): return np.array([[10.0, 5 + self.d], [10.1, 5 + self.d], [10.1, 5.1 + self.d], [10.0, 5.1 + self.d]])
c = SimpleNamespace(wcs=W(-3 / 3600), original_wcs=W(0.0))
assert _is_wcs_correction_small([c], use2dhist=False, tolerance=0.7, xoffset=0.0, yoffset=-3.0)
assert _is_wcs_correction_small([c], use2dhist=False, tolerance=0.7, xoffset=0.0, yoffset=3.0)
assert not _is_wcs_correction_small([c], use2dhist=False, tolerance=0.7, xoffset=0.0, yoffset=-0.1)
''')

bug(id="hats-min-depth", prop="C37", tests=["tests/test_tweakreg.py -k 'not GAIA and not catalogs_match and not gaia_dr2 and not single_source'"],
    edits=[("tweakreg/_s3_catalog.py", "while depth >= min_depth:", "while depth > min_depth:")],
    needs="a catalogue partitioned at several levels and a cone that touches a partition of the coarsest level",
    breaks="sources stored in the coarsest partitions are left out",
    demo='''
import numpy as np
from stcal.tweakreg._s3_catalog import _find_pixels_in_catalog
cat = np.array([[1, 0], [2, 4], [2, 5], [2, 6], [2, 7]])
got = _find_pixels_in_catalog(cat, [2, 5], 2)      # pixel 2 of level 2 lies in pixel 0 of level 1
assert sorted(got) == [(1, 0), (2, 5)], got
''')

bug(id="parallax-dec", prop="C38", tests=["tests/test_tweakreg.py -k 'not GAIA and not catalogs_match and not gaia_dr2 and not single_source'"],
    edits=[("tweakreg/_s3_catalog.py", "dechat * earthcoord.dot(dechat) * plx * radpermas", "dechat * earthcoord[2] * plx * radpermas")],
    needs="a source with a parallax of tens of milliarcseconds away from the celestial equator",
    breaks="the declination part of the parallax uses the Earth's z coordinate instead of its component along the local north",
    demo='''
import numpy as np, erfa
from astropy.table import Table
from astropy.time import Time
from stcal.tweakreg._s3_catalog import _correct_for_proper_motion
c = Table({"ra": [40.0], "dec": [70.0], "pmra": [0.0], "pmdec": [0.0], "parallax": [700.0], "ref_epoch": [2016.0]}, masked=True)
out = _correct_for_proper_motion(c, 2024.3)
t = Time(2024.3, format="decimalyear").tdb
e = np.array(erfa.epv00(t.jd1, t.jd2)[1]["p"])
a, d = np.deg2rad([40.0, 70.0])
u = np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])
w = u - 0.7 / 206264.806 * e
w /= np.linalg.norm(w)
dec = np.rad2deg(np.arcsin(w[2]))
assert abs(float(out["dec"][0]) - dec) * 3600e3 < 1, (float(out["dec"][0]) - dec) * 3600e3
''')

bug(id="align-roll", prop="C32", tests=["tests/test_alignment.py"],
    edits=[("alignment/util.py", "roll_ref = np.deg2rad(rotation) + (vparity * v3yangle)", "roll_ref = np.deg2rad(rotation) + v3yangle")],
    needs="a requested rotation, a negative parity and a non-zero angle between the detector's y axis and V3",
    breaks="the mosaic is rotated by twice the V3 angle for detectors with negative parity",
    demo='''
import numpy as np
from astropy import coordinates as coord, units as u
from astropy.modeling import models as m
from gwcs import WCS, coordinate_frames as cf
from stcal.alignment.util import wcs_from_sregions
t = m.Shift(-10.0) & m.Shift(-10.0) | m.Scale(1e-4) & m.Scale(1e-4) | m.Pix2Sky_TAN() | m.RotateNative2Celestial(30.0, 20.0, 180.0)
w = WCS([(cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix)), t), (cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg)), None)])
w.bounding_box = ((-0.5, 20.5), (-0.5, 20.5))
def up(v3):
    info = {"ra_ref": 30.0, "dec_ref": 20.0, "v3yangle": v3, "vparity": -1, "roll_ref": 0.0, "v2_ref": 0.0, "v3_ref": 0.0}
    o = wcs_from_sregions([w.footprint()], w, info, rotation=20.0)
    x, y = o.world_to_pixel_values(np.array([30.0, 30.0]), np.array([20.0, 20.001]))
    return np.rad2deg(np.arctan2(x[1] - x[0], y[1] - y[0]))
a, b = up(0.0), up(30.0)
assert abs(a - b) < 1e-6, (a, b)
''')

bug(id="resample-zero-var", prop="C29", tests=["tests/resample/test_resample.py"],
    edits=[("resample/resample.py", "mask = (var >= 0) & np.isfinite(var) & (weight > 0)", "mask = (var > 0) & np.isfinite(var) & (weight > 0)")],
    needs="an output pixel to which one exposure contributes zero variance of a component (no flat-field variance, say) and another a positive one",
    breaks="exposures with zero variance are left out of the weights, so the combined variance comes out too large, or undefined",
    demo='''
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from astropy import coordinates as coord, units as u
from astropy.modeling import models as m
from gwcs import WCS, coordinate_frames as cf
from stcal.resample import Resample
def wcs():
    t = m.Scale(1e-4) & m.Scale(1e-4) | m.Shift(10.0) & m.Shift(5.0)
    w = WCS([(cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix)), t), (cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg)), None)])
    w.array_shape = (5, 5)
    return w
def model(i, flat):
    o = np.ones((5, 5), np.float32)
    return {"data": o, "dq": np.zeros((5, 5), np.uint32), "var_rnoise": o, "var_poisson": o, "var_flat": o * flat, "filename": "f", "group_id": i, "wcs": wcs(), "exposure_time": 1.0,
            "start_time": 1.0, "end_time": 2.0, "duration": 1.0, "measurement_time": 1.0, "pixelarea_steradians": np.deg2rad(1e-4) ** 2, "level": None, "subtracted": False}
r = Resample({"wcs": wcs(), "pixel_scale": 0.36}, weight_type="ivm", compute_err="from_var")
r.add_model(model(0, 0.0)); r.add_model(model(1, 4.0))
r.finalize()
v = r.output_model["var_flat"][2, 2]
assert abs(v - 1.0) < 1e-4, v      # (0 + 4) / 2**2
''')
