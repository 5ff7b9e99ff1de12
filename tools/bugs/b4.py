import re
_h = open(__file__.replace("b4.py", "b3.py")).read()
RAMP = _h[_h.index("RAMP = '''") + 10:].split("'''")[0]
BUGS = []
def bug(**k): BUGS.append(k)

WCS = '''
import numpy as np
from astropy import units as u
from astropy import coordinates as coord
from astropy.modeling import models as m
from gwcs import WCS
from gwcs import coordinate_frames as cf
def wcs(n=12, scale=1e-5, ra=30.0, dec=10.0):
    det = cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix))
    sky = cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
    w = WCS([(det, m.Shift(-n / 2) & m.Shift(-n / 2) | m.Scale(scale) & m.Scale(scale) | m.Pix2Sky_TAN() | m.RotateNative2Celestial(ra, dec, 180.0)), (sky, None)])
    w.bounding_box = ((-0.5, n - 0.5), (-0.5, n - 0.5))
    w.array_shape = w.pixel_shape = (n, n)
    return w
'''

bug(id="slice-ogdq", prop="C05", tests=["tests/test_ramp_fitting.py", "tests/test_ramp_fitting_cases.py"],
    edits=[("ramp_fitting/ols_fit.py", "        ogdq = ramp_data.orig_gdq[:, :, start_row : start_row + nrows, :].copy()\n", "        ogdq = groupdq.copy()\n")],
    needs="several worker processes, suppression of one-group ramps, and a ramp so suppressed that has charge-loss flags",
    breaks="read-noise variances of suppressed charge-loss ramps depend on the number of processes",
    demo=RAMP + '''
data = np.cumsum(np.full((2, 8, 4, 3), 25.0), axis=1)
gdq = np.zeros(data.shape, np.uint8)
gdq[0, 1:, 1, 1] = 129
gdq[0, 1:, 3, 2] = 129
def run(cores):
    m = model(data.copy(), gdq.copy())
    sh = m.data.shape[2:]
    return ramp_fit(m, False, np.full(sh, 10, np.float32), np.full(sh, 2, np.float32), "OLS_C", "optimal", cores, dict(DQ), suppress_one_group=True)
if __name__ == "__main__":
    a, b = run("none"), run("2")
    for x, y in zip(a[:2], b[:2]):
        for k in x:
            assert np.array_equal(np.asarray(x[k]), np.asarray(y[k]), equal_nan=True), (k, x[k], y[k])
''')

JUMP = '''
import numpy as np
from types import SimpleNamespace
from stcal.jump import jump as J
'''
bug(id="shower-cascade", prop="C16", tests=["tests/test_jump.py", "tests/test_jump_cas22.py"],
    edits=[("jump/jump.py", "                    all_ellipses.append([intg, grp, ellipses])\n",
            "                    all_ellipses.append([intg, grp, ellipses])\n                    gdq, _ = extend_ellipses(\n                        gdq,\n                        intg,\n                        grp,\n                        ellipses,\n                        jump_data,\n                        expansion=jump_data.extend_ellipse_expand_ratio,\n                        num_grps_masked=jump_data.grps_masked_after_shower,\n                    )\n")],
    needs="two showers overlapping on the detector within the groups that are masked after a shower",
    breaks="the search for the later shower is blind where the earlier one has flagged, so that it is missed or cut",
    demo=JUMP + '''
rng = np.random.default_rng(1)
ng, n = 12, 40
inc = np.full((1, ng - 1, n, n), 10.0) + rng.normal(0, .01, (1, ng - 1, n, n))
y, x = np.mgrid[:n, :n]
blob = (y - 20) ** 2 + (x - 20) ** 2 < 64
inc[0, 4][blob] += 12.0
inc[0, 6][blob] += 12.0
data = np.zeros((1, ng, n, n), np.float32)
data[:, 1:] = np.cumsum(inc, axis=1)
jd = J.JumpData() if hasattr(J, "JumpData") else __import__("stcal.jump.jump_class", fromlist=["JumpData"]).JumpData()
jd.fl_good, jd.fl_dnu, jd.fl_sat, jd.fl_jump, jd.fl_ngv, jd.fl_ref = 0, 1, 2, 4, 8, 128
jd.nframes = 1
jd.extend_snr_threshold, jd.extend_min_area, jd.extend_inner_radius, jd.extend_outer_radius = 1.2, 20, 1.0, 2.6
jd.extend_ellipse_expand_ratio, jd.grps_masked_after_shower, jd.max_shower_amplitude, jd.max_extended_width = 1.1, 4, 1e6, 1000
jd.minimum_sigclip_groups = 100
gdq = np.zeros((1, ng, n, n), np.uint8)
_, num = J.find_faint_extended(data, gdq, np.zeros((n, n), np.uint32), np.full((n, n), 2.0, np.float32), jd, min_diffs_for_shower=3)
assert num == 2, num
''')

bug(id="persist-core", prop="C15", tests=["tests/test_jump.py"],
    edits=[("jump/jump.py", "            ax1, ax2 = (ellipse[1][0], ellipse[1][1])\n", "            ax1, ax2 = (axis1, axis2)\n")],
    needs="large saturated cores grown by a configured width and persistence flags in the next integration",
    breaks="the flags in the next integration cover the grown core, not the core itself",
    demo=JUMP + '''
n = 40
y, x = np.mgrid[:n, :n]
jd = SimpleNamespace(min_sat_radius_extend=1.0, sat_expand=14, max_extended_width=200, fl_sat=2, fl_jump=4)
sat = ((y - 20) ** 2 + (x - 20) ** 2 < 50).astype(np.uint8) * 2
ell = J.find_ellipses(sat, 2, 3)
cube = np.zeros((4, n, n), np.uint8)
cube[1:] = sat
_, per = J.extend_saturation(cube, 1, ell, jd, np.zeros((n, n), np.uint8))
far = (y - 20) ** 2 + (x - 20) ** 2 > 81
assert per.any() and not per[far].any(), int((per[far] > 0).sum())
''')

bug(id="pixmap-bbox", prop="C44", tests=["tests/resample/test_resample_utils.py"],
    edits=[("resample/utils.py", "    finally:\n        if bbox_from is not None:\n", "    except ValueError:\n        raise\n    else:\n        if bbox_from is not None:\n")],
    needs="a pixel map request that is rejected, and another one for the same coordinate systems afterwards",
    breaks="the coordinate systems lose their bounding boxes when a pixel map is rejected",
    demo=WCS + '''
from stcal.resample.utils import calc_pixmap
a, b = wcs(), wcs(ra=30.00002)
want = calc_pixmap(a, b, disable_bbox="both")
try:
    calc_pixmap(a, b, disable_bbox="both", stepsize=3, order=2)
except ValueError:
    pass
assert a.bounding_box is not None and b.bounding_box is not None
''')

bug(id="pixeldq-order", prop="C45", tests=["tests/test_ramp_fitting.py", "tests/test_ramp_fitting_cases.py"],
    edits=[("ramp_fitting/ols_fit.py", "    ramp_data.pixeldq, _ = handle_array_endianness(ramp_data.pixeldq, sys_order)\n", "    if ramp_data.pixeldq.dtype.kind == \"f\":\n        ramp_data.pixeldq, _ = handle_array_endianness(ramp_data.pixeldq, sys_order)\n")],
    needs="a big-endian pixel quality array with flags in it, as read from a file",
    breaks="the bits of the pixel quality flags come out in the wrong byte order",
    demo=RAMP + '''
data = np.cumsum(np.full((1, 6, 2, 2), 25.0), axis=1)
gdq = np.zeros(data.shape, np.uint8)
a, b = model(data, gdq), model(data, gdq)
a.pixeldq[0, 1] = 2**10
b.pixeldq = a.pixeldq.astype(">u4")
x, y = fit(a), fit(b)
assert np.array_equal(np.asarray(x[0]["dq"], np.int64), np.asarray(y[0]["dq"], np.int64)), (x[0]["dq"], y[0]["dq"])
''')

bug(id="likely-guess", prop="C42", tests=["tests/test_ramp_fitting_likely_fit.py"],
    edits=[("ramp_fitting/likely_fit.py", "    count_rate_guess = np.median(loc_diff, axis=0)[np.newaxis, :]\n\n    count_rate_guess *= count_rate_guess > 0\n",
            "    count_rate_guess = np.median(loc_diff, axis=0)[np.newaxis, :]\n\n    count_rate_guess[count_rate_guess <= 0] = max(np.median(count_rate_guess), 0)\n")],
    needs="a ramp that falls, in a row of ramps that rise",
    breaks="the jumps found in a falling ramp depend on the other pixels of its row",
    demo='''
import numpy as np
from stcal.ramp_fitting.likely_fit import mask_jumps
from stcal.ramp_fitting.likely_algo_classes import Covar
rt = list(np.arange(1, 9) * 3.0)
c = Covar(rt)
rng = np.random.default_rng(5)
d = rng.normal(-0.5, 3.0, (7, 6))
d[:, 1:] += 300
d[3, 0] += 45
g, r = np.ones(6), np.full(6, 4.0)
one = mask_jumps(d[:, :1].copy(), c, r[:1], g[:1], threshold_one_omit=20.25, threshold_two_omit=23.8)[0]
all_ = mask_jumps(d.copy(), c, r, g, threshold_one_omit=20.25, threshold_two_omit=23.8)[0]
assert np.array_equal(one[:, 0], all_[:, 0]), (one[:, 0], all_[:, 0])
''')


bug(id="median-leftovers", prop="C46", tests=["tests/outlier_detection"],
    edits=[("outlier_detection/median.py", "            self._median_computer.cleanup()\n", "            if self.buffer_size == 0:\n                self._median_computer.cleanup()\n")],
    needs="a disk-backed median with a given buffer size whose computer is kept after the median was computed",
    breaks="its temporary files stay on disk",
    demo='''
import os
import tempfile
import numpy as np
from stcal.outlier_detection.median import MedianComputer
with tempfile.TemporaryDirectory() as d:
    m = MedianComputer((3, 4, 5), False, buffer_size=200, tempdir=d)
    for k in range(3):
        m.append(np.full((4, 5), k, np.float32))
    m.evaluate()
    left = os.listdir(d)
assert not left, left
''')
