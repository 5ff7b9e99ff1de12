BUGS = []
def bug(**k): BUGS.append(k)

DARK = '''
import numpy as np
from stcal.dark_current.dark_sub import do_correction_data
from stcal.dark_current.dark_class import DarkData, ScienceData
def dark(d, dq=None, nf=1, gap=0):
    k = DarkData(); k.data = d; k.groupdq = np.zeros(d.shape[-2:], np.uint32) if dq is None else dq
    k.exp_nframes, k.exp_ngroups, k.exp_groupgap = nf, d.shape[-3], gap
    return k
def sci(d, nf=1, gap=0, start=None):
    s = ScienceData(); s.data = d; s.groupdq = np.zeros(d.shape, np.uint8); s.pixeldq = np.zeros(d.shape[-2:], np.uint32)
    s.exp_nframes, s.exp_groupgap, s.exp_intstart = nf, gap, start
    return s
'''
bug(id="dark-rate", prop="C21", tests=["tests/test_dark_current.py"],
    edits=[("dark_current/dark_sub.py", "rate_arr = arr[-1, :, :] - arr[-2, :, :]", "rate_arr = (arr[-1, :, :] - arr[0, :, :]) / (arr.shape[0] - 1)")],
    needs="a dark with fewer groups than the science ramp whose signal does not grow at a constant rate",
    breaks="extrapolated dark groups use the mean rate of the whole dark instead of the rate of its last two groups",
    demo=DARK + '''
d = np.array([0.0, 5.0, 7.0, 8.0]).reshape(4, 1, 1)
out, _ = do_correction_data(sci(np.zeros((1, 6, 1, 1), np.float32)), dark(d))
assert np.allclose(-out.data[0, :, 0, 0], [0, 5, 7, 8, 9, 10]), out.data.ravel()
''')
bug(id="dark-flags", prop="C22", tests=["tests/test_dark_current.py"],
    edits=[("dark_current/dark_sub.py", "        for i in range(1, dark_nints):\n            darkdq", "        for i in range(1, min(dark_nints, science_data.data.shape[0])):\n            darkdq")],
    needs="a 4-D dark with more integrations than the science data, and a flag only in the later dark integrations",
    breaks="flags of dark integrations beyond the number of science integrations are not merged into the pixel flags",
    demo=DARK + '''
dq = np.zeros((3, 1, 1, 2), np.uint32); dq[2, 0, 0, 1] = 2048
out, _ = do_correction_data(sci(np.zeros((1, 2, 1, 2), np.float32)), dark(np.zeros((3, 2, 1, 2)), dq))
assert out.pixeldq[0, 1] == 2048, out.pixeldq
''')
bug(id="lin-zero-term", prop="C19", tests=["tests/test_linearity.py"],
    edits=[("linearity/linearity.py", "    wh_zero = np.where(linear_term == 0)\n", "    wh_zero = np.where((linear_term == 0) & (lin_coeffs[-1, :, :] == 0))\n")],
    needs="a pixel whose linear coefficient is zero while its highest-order coefficient is not",
    breaks="pixels with a zero linear term but a non-zero highest coefficient are corrected with the degenerate polynomial and not flagged",
    demo='''
import numpy as np
from stcal.linearity.linearity import linearity_correction
c = np.array([0.0, 0.0, 0.1, 1e-6]).reshape(4, 1, 1)
z = np.zeros((1, 1), np.uint32)
out, pdq, _ = linearity_correction(np.full((1, 2, 1, 1), 100.0, np.float32), np.zeros((1, 2, 1, 1), np.uint8), z, c, z, {"SATURATED": 2, "NO_LIN_CORR": 1048576})
assert np.all(out == 100) and pdq[0, 0] == 1048576, (out, pdq)
''')
bug(id="lin-first-read", prop="C20", tests=["tests/test_linearity.py"],
    edits=[("linearity/linearity.py", "reads_since_first = np.array(read_pattern[i]) - mean_read_resultant[0]", "reads_since_first = np.array(read_pattern[i]) - read_pattern[0][0]")],
    needs="read-level correction with a first resultant that averages several reads, and a noticeable non-linearity",
    breaks="the reads are placed relative to the first read of the first resultant while the rate and the starting value belong to its mean read",
    demo='''
import numpy as np
from stcal.linearity.linearity import linearity_correction
a = 2e-6
inv = lambda x: (-1 + np.sqrt(1 + 4 * a * x)) / (2 * a)
pat = [list(range(1 + 8 * k, 9 + 8 * k)) for k in range(4)]
rate = 1300.0
truth = np.array([np.mean([rate * t for t in p]) for p in pat])
seen = np.array([np.mean([inv(rate * t) for t in p]) for p in pat]).reshape(1, 4, 1, 1)
xs = np.linspace(0, 1, 60)
co = np.polynomial.polynomial.polyfit(xs, inv(xs * 6e4), 8) / 6e4 ** np.arange(9)
z = np.zeros((1, 1), np.uint32)
out, _, _ = linearity_correction(seen.copy(), np.zeros((1, 4, 1, 1), np.uint8), z, np.array([0, 1, a]).reshape(3, 1, 1), z, {"SATURATED": 2, "NO_LIN_CORR": 1048576},
                                 ilin_coeffs=co.reshape(9, 1, 1), read_pattern=pat)
err = np.abs(out[0, :, 0, 0] - truth).max()
plain = np.abs(seen + a * seen ** 2 - truth.reshape(1, 4, 1, 1)).max()
assert err < 0.05 * plain, (err, plain)
''')
bug(id="outlier-neighbour", prop="C24", tests=["tests/outlier_detection"],
    edits=[("outlier_detection/utils.py", "    mask2 = np.greater(diff_noise, threshold2)\n", "    mask2 = np.greater(diff_noise, np.minimum(threshold1, threshold2))\n")],
    needs="a second limit above the first",
    breaks="pixels that exceed only the first limit are flagged when the second one is the stricter",
    demo='''
import numpy as np
from stcal.outlier_detection.utils import flag_resampled_crs
s = np.zeros((5, 5)); s[2, 2] = 5
out = flag_resampled_crs(s, np.ones((5, 5)), np.zeros((5, 5)), 4.0, 6.0, 0.0, 0.0, 0.0)
assert not out.any(), out
''')
bug(id="blot-nan", prop="C25", tests=["tests/outlier_detection"],
    edits=[("outlier_detection/utils.py", "    pixmap[np.isnan(pixmap)] = -1\n", "    pixmap[np.isnan(pixmap)] = 0\n")],
    needs="an exposure whose coordinates are undefined for some pixels (outside its bounding box)",
    breaks="pixels without a sky position get the first sample of the reference instead of the fill value",
    demo='''
import numpy as np
from astropy import coordinates as coord
from astropy.modeling import models as m
from gwcs import WCS, coordinate_frames as cf
from astropy import units as u
from stcal.outlier_detection.utils import gwcs_blot
def wcs(n, bbox):
    t = m.Shift(-n / 2) & m.Shift(-n / 2) | m.Scale(-1e-5) & m.Scale(1e-5) | m.Pix2Sky_TAN() | m.RotateNative2Celestial(10, 20, 180)
    w = WCS([(cf.Frame2D(name="detector", unit=(u.pix, u.pix)), t), (cf.CelestialFrame(name="world", reference_frame=coord.ICRS()), None)])
    w.bounding_box = bbox; w.array_shape = (n, n)
    return w
out = gwcs_blot(np.full((8, 8), 7, np.float32), wcs(8, None), (8, 8), wcs(8, ((1.5, 7.5), (-0.5, 7.5))), fillval=-5.0)
assert np.all(out[:, :2] == -5) and np.all(out[1:7, 3:7] == 7), out
''')
bug(id="median-overwrite", prop="C23", tests=["tests/outlier_detection"],
    edits=[("outlier_detection/median.py", "np.nanmedian(cube[:, i, :], axis=0, overwrite_input=overwrite_input, out=output_arr[i, :])", "np.nanmedian(cube[:, i, :], axis=0, overwrite_input=True, out=output_arr[i, :])")],
    needs="a caller that asks for its cube to be kept and looks at it afterwards",
    breaks="the input cube is scrambled although overwrite_input=False was given, so later use of the stack gives other medians",
    demo='''
import numpy as np
from stcal.outlier_detection.median import nanmedian3D
r = np.random.default_rng(1)
c = r.normal(size=(7, 4, 5)).astype(np.float32); k = c.copy()
nanmedian3D(c, overwrite_input=False)
assert np.array_equal(c, k)
''')
bug(id="pixmap-both", prop="C27", tests=["tests/resample/test_resample_utils.py", "tests/outlier_detection"],
    edits=[("resample/utils.py", '    if disable_bbox in ["to", "both"] and bbox_to is not None:', '    if disable_bbox in ["to"] and bbox_to is not None:')],
    needs="disable_bbox='both' with a bounding box on the output image that does not contain all positions",
    breaks="positions outside the output bounding box become NaN although both bounding boxes were disabled",
    demo='''
import numpy as np
from astropy import coordinates as coord
from astropy.modeling import models as m
from gwcs import WCS, coordinate_frames as cf
from astropy import units as u
from stcal.resample.utils import calc_pixmap
def wcs(n, bbox):
    t = m.Shift(-n / 2) & m.Shift(-n / 2) | m.Scale(-1e-5) & m.Scale(1e-5) | m.Pix2Sky_TAN() | m.RotateNative2Celestial(10, 20, 180)
    w = WCS([(cf.Frame2D(name="detector", unit=(u.pix, u.pix)), t), (cf.CelestialFrame(name="world", reference_frame=coord.ICRS()), None)])
    w.bounding_box = bbox; w.array_shape = (n, n)
    return w
p = calc_pixmap(wcs(8, ((-0.5, 7.5), (-0.5, 7.5))), wcs(8, ((2.5, 7.5), (-0.5, 7.5))), disable_bbox="both")
assert np.isfinite(p).all()
''')
bug(id="weight-nonfinite", prop="C26", tests=["tests/resample/test_resample_utils.py"],
    edits=[("resample/utils.py", "        inv[~np.isfinite(inv)] = 0  # zeros for bad pixels", "        inv[np.isnan(inv)] = 0  # zeros for bad pixels")],
    needs="a read-noise variance of exactly zero",
    breaks="pixels with zero variance get infinite weight instead of none",
    demo='''
import numpy as np
from stcal.resample.utils import build_driz_weight
m = {"data": np.zeros((2, 2), np.float32), "dq": np.zeros((2, 2), np.uint32), "var_rnoise": np.array([[1, 0], [2, np.nan]], np.float32)}
w = build_driz_weight(m, "ivm", 0)
assert np.array_equal(w, [[1, 0], [0.5, 0]]), w
''')
