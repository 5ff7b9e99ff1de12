BUGS = []
def bug(**k): BUGS.append(k)

RAMP = '''
import numpy as np
from stcal.ramp_fitting.ramp_fit import ramp_fit
DQ = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "PERSISTENCE": 32, "CHARGELOSS": 128, "NO_GAIN_VALUE": 2**19, "UNRELIABLE_SLOPE": 2**24}
class NS:
    pass
class Model:
    def hasattr(self, n):
        return getattr(self, n, None) is not None
def model(data, gdq, zf=None, frame_time=2.0, nframes=1, gap=0):
    m = Model()
    m.data, m.groupdq = data.astype(np.float32), gdq.astype(np.uint8)
    m.pixeldq = np.zeros(data.shape[2:], np.uint32)
    m.average_dark_current = np.zeros(data.shape[2:], np.float32)
    if zf is not None:
        m.zeroframe = zf.astype(np.float32)
    m.meta = NS(); m.meta.instrument = NS(); m.meta.instrument.name = "NIRCam"
    e = m.meta.exposure = NS()
    e.frame_time, e.group_time, e.groupgap, e.nframes, e.drop_frames1 = frame_time, (nframes + gap) * frame_time, gap, nframes, 0
    return m
def fit(m, opt=False):
    sh = m.data.shape[2:]
    return ramp_fit(m, opt, np.full(sh, 10, np.float32), np.full(sh, 2, np.float32), "OLS_C", "optimal", "none", dict(DQ))
'''

bug(id="chargeloss-evar", prop="C02", tests=["tests/test_ramp_fitting.py", "tests/test_ramp_fitting_cases.py"],
    edits=[("ramp_fitting/src/slope_fitter.c", "        evar_r += invvar_r; /* Exposure level read noise */\n\n        /*  Clean", "        evar_r = invvar_r; /* Exposure level read noise */\n\n        /*  Clean")],
    needs="several integrations of which a later one has groups flagged for charge loss",
    breaks="the read noise variance of the combined slope only counts the last integration with charge loss and those after it",
    demo=RAMP + '''
rng = np.random.default_rng(3)
data = np.cumsum(rng.uniform(20, 30, (3, 10, 1, 4)), axis=1)
gdq = np.zeros(data.shape, np.uint8)
gdq[1:, 7:] = 129
img, ints, _ = fit(model(data, gdq))
vi, v = np.asarray(ints["var_rnoise"], float), np.asarray(img["var_rnoise"], float)
assert np.allclose(1 / v, (1 / vi).sum(axis=0), rtol=1e-4), (v, vi)
''')

bug(id="likely-recheck", prop="C09", tests=["tests/test_ramp_fitting_likely_fit.py"],
    edits=[("ramp_fitting/likely_fit.py", "recheck[np.sum(diffs2use, axis=0) <= 3] = False", "recheck[np.sum(diffs2use, axis=0) <= 2] = False")],
    needs="a ramp that is down to three differences after some were rejected, of which one more stands out",
    breaks="rejection goes on among the last three differences, where there is no telling which of them is right",
    demo='''
import numpy as np
from stcal.ramp_fitting.likely_algo_classes import Covar
from stcal.ramp_fitting.likely_fit import mask_jumps
covar = Covar([[float(k + 1)] for k in range(6)])
diffs = np.array([[10.0, 10.5, 300.0, 1200.0, 8000.0], [8000.0, 10.0, 1200.0, 10.5, 300.0]]).T
use, _ = mask_jumps(diffs.copy(), covar, np.full(2, 3.0), np.ones(2))
left = np.asarray(use).astype(bool)
# the two largest are rejected; three are left and nothing more may be
assert np.array_equal(left, diffs < 1000), left.T.astype(int)
''')

bug(id="skygroup-break", prop="C31", tests=["tests/skymatch"],
    edits=[("skymatch/skyimage.py", "                    if polyarea1 == 0.0:\n                        continue\n", "                    if polyarea1 == 0.0:\n                        break\n")],
    needs="an image compared with a group of which an earlier member does not overlap it and a later one does",
    breaks="the members of a group after the first one that does not overlap are left out of the common area",
    demo='''
import numpy as np
from astropy import units as u
from astropy import coordinates as coord
from astropy.modeling import models as m
from gwcs import WCS
from gwcs import coordinate_frames as cf
from stcal.skymatch import SkyGroup, SkyImage, SkyStats
def image(x0, val, id):
    det = cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix))
    sky = cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
    w = WCS([(det, m.Shift(x0) & m.Shift(0.0) | m.Scale(1e-4) & m.Scale(1e-4) | m.Pix2Sky_TAN() | m.RotateNative2Celestial(30.0, 10.0, 180.0)), (sky, None)])
    w.bounding_box = ((-0.5, 49.5), (-0.5, 49.5))
    data = np.full((50, 50), val)
    return SkyImage(data, np.ones(data.shape, bool), w.__call__, w.invert, skystat=SkyStats(skystat="mean"), sky_id=id)
a, far, near = image(0.0, 5.0, "a"), image(500.0, 7.0, "far"), image(20.0, 9.0, "near")
n1 = a.calc_sky(overlap=near)
for members in ([far, near], [near, far]):
    n2 = a.calc_sky(overlap=SkyGroup(members, sky_id="g"))
    assert n2[0] == 5.0 and n2[1] == n1[1] > 0, (n1, n2, [x.sky_id for x in members])
''')

bug(id="cas22-bright", prop="C11", tests=["tests/test_ramp_fitting_cas22.py"],
    edits=[("ramp_fitting/ols_cas22/_jump.pyx", "slope = slope if slope < 1e4 else 1e4", "slope = slope if slope < 1e5 else 1e5")],
    needs="a pixel brighter than ten thousand counts per second with a step just below the threshold",
    breaks="the jump threshold goes on falling for the brightest pixels",
    demo='''
import numpy as np
from stcal.ramp_fitting.ols_cas22_fit import fit_ramps_casertano
rng = np.random.default_rng(2)
n, nr = 20000, 12
pattern = [[k + 1] for k in range(nr)]
rate, rt = 80000.0, 3.0
data = np.cumsum(rng.poisson(rate * rt, (nr, n)), axis=0).astype(np.float32)
def count(intercept, constant):
    o = fit_ramps_casertano(data.copy(), np.zeros(data.shape, np.int32), np.full(n, 5, np.float32), rt, pattern, use_jump=True, threshold_intercept=intercept, threshold_constant=constant)
    return (np.asarray(o.dq) != 0).any(axis=0).sum()
# beyond 10000 per second the threshold is 5.5 - 4 c whatever the rate is
assert count(5.5, 0.5) == count(3.5, 0.0) > 0, (count(5.5, 0.5), count(3.5, 0.0))
''')

bug(id="refcat-original", prop="C36", tests=["tests/test_tweakreg.py -k 'not GAIA and not catalogs_match and not gaia_dr2 and not single_source'"],
    edits=[("tweakreg/tweakreg.py", "[corrector.wcs.footprint() for corrector in correctors]", "[corrector.original_wcs.footprint() for corrector in correctors]")],
    needs="exposures moved by an earlier relative alignment before they are aligned to a catalogue from the web",
    breaks="the catalogue is requested for where the exposures were before they were aligned with each other",
    demo='''
import urllib.parse
from unittest import mock
import numpy as np
from astropy import units as u
from astropy import coordinates as coord
from astropy.modeling import models as m
from astropy.modeling.rotations import RotationSequence3D
from astropy.table import Table
from gwcs import WCS
from gwcs import coordinate_frames as cf
from gwcs.geometry import CartesianToSpherical, SphericalToCartesian
from stcal.tweakreg import tweakreg as T
V2, V3 = 10.0, -40.0
def wcs(ra, dec, roll):
    det = cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix))
    v23 = cf.Frame2D(name="v2v3", axes_order=(0, 1), axes_names=("v2", "v3"), unit=(u.arcsec, u.arcsec))
    sky = cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
    first = m.Shift(-50.0) & m.Shift(-50.0) | m.Scale(0.1) & m.Scale(0.1) | m.Shift(V2) & m.Shift(V3)
    last = m.Scale(1 / 3600) & m.Scale(1 / 3600) | SphericalToCartesian(wrap_lon_at=180) | RotationSequence3D([V2 / 3600, -V3 / 3600, roll, dec, -ra], "zyxyz") | CartesianToSpherical(wrap_lon_at=360)
    w = WCS([(det, first), (v23, last), (sky, None)])
    w.bounding_box = ((-0.5, 99.5), (-0.5, 99.5))
    w.array_shape = (100, 100)
    return w
cs = []
for k in range(2):
    c = T.construct_wcs_corrector(wcs(80.0, 20.0 + k * 0.002, 30.0), {"roll_ref": 30.0, "v2_ref": V2, "v3_ref": V3}, Table({"x": [1.0, 5.0], "y": [2.0, 3.0]}), f"g{k}")
    c.set_correction(shift=[4.0, -3.0])
    cs.append(c)
asked = []
def get(url, **kw):
    asked.append(dict(urllib.parse.parse_qsl(urllib.parse.urlparse(url).query)))
    rows = ["objID,ra,dec,mag,epoch"] + [f"{k},{80 + k / 1e4},20.0,12.5,2016.0" for k in range(20)]
    return type("R", (), {"content": ("\\n".join(rows) + "\\n").encode()})()
with mock.patch("requests.get", get), mock.patch.object(T, "align_wcs", lambda *a, **k: None):
    T.absolute_align(cs, "GAIADR3", cs[0].wcs, {"ra_ref": 80.0, "dec_ref": 20.0, "roll_ref": 30.0, "v3yangle": 0.0, "vparity": -1}, None)
q = asked[0]
center = coord.SkyCoord(float(q["RA"]), float(q["DEC"]), unit="deg")
for c in cs:
    f = c.wcs.footprint()
    far = center.separation(coord.SkyCoord(f[:, 0], f[:, 1], unit="deg")).deg.max()
    assert far <= float(q["SR"]) + 0.15 / 3600, (far * 3600, float(q["SR"]) * 3600)
''')

bug(id="resample-reset", prop="C29", tests=["tests/resample"],
    edits=[("resample/resample.py", "            self._output_model = self.create_output_model()\n            self._group_ids = []\n            self._n_res_models = 0\n", "            self._output_model = self.create_output_model()\n            self._group_ids = getattr(self, \"_group_ids\", [])\n            self._n_res_models = 0\n")],
    needs="a resampler reset after it was finished and given images of groups it has seen before",
    breaks="pointings and exposure times of the second product leave out the groups of the first",
    demo='''
import numpy as np
from astropy import units as u
from astropy import coordinates as coord
from astropy.modeling import models as m
from gwcs import WCS
from gwcs import coordinate_frames as cf
from stcal.resample import Resample
def wcs():
    det = cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix))
    sky = cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
    w = WCS([(det, m.Shift(-5) & m.Shift(-5) | m.Scale(1e-5) & m.Scale(1e-5) | m.Pix2Sky_TAN() | m.RotateNative2Celestial(30.0, 10.0, 180.0)), (sky, None)])
    w.bounding_box = ((-0.5, 11.5), (-0.5, 11.5))
    w.array_shape = w.pixel_shape = (12, 12)
    return w
def image(g):
    sh = (12, 12)
    return {"data": np.ones(sh, np.float32), "dq": np.zeros(sh, np.int32), "var_rnoise": np.ones(sh, np.float32), "var_poisson": np.ones(sh, np.float32), "var_flat": np.ones(sh, np.float32),
            "err": np.ones(sh, np.float32), "wcs": wcs(), "filename": f"{g}.fits", "group_id": g, "exposure_time": 10.0, "start_time": 100.0, "end_time": 110.0, "duration": 11.0,
            "measurement_time": 9.0, "effective_exposure_time": 10.0, "pixelarea_steradians": (1e-5 * np.pi / 180) ** 2, "pixelarea_arcsecsq": 0.036 ** 2, "level": 0.0, "subtracted": True,
            "bunit_data": "MJy", "bunit_err": "MJy"}
r = Resample(n_input_models=2, output_wcs={"wcs": wcs(), "pixel_scale": 0.036}, enable_var=False, compute_err=None, weight_type="exptime")
out = []
for _ in range(2):
    for g in ("a", "b"):
        r.add_model(image(g))
    r.finalize()
    o = r.output_model
    out.append((o["pointings"], o["exposure_time"], o["duration"]))
    r.reset_arrays()
assert out[0] == out[1] and out[0][0] == 2, out
''')

bug(id="jump-zero-sigma", prop="C12", tests=["tests/test_jump.py", "tests/test_jump_twopoint_difference.py"],
    edits=[("jump/twopoint_difference.py", "    # reset sigma so pixels with 0 readnoise are not flagged as jumps\n    sigma_iter[sigma_iter == 0.0] = np.nan\n", "    # reset sigma so pixels with 0 readnoise are not flagged as jumps\n    if index is None:\n        sigma_iter[sigma_iter == 0.0] = np.nan\n")],
    needs="a pixel without read noise whose median difference is zero once a first jump is taken out",
    breaks="such a pixel is rid of all its remaining differences in later rounds of the iteration",
    demo='''
import numpy as np
from types import SimpleNamespace
from stcal.jump.twopoint_difference import iterative_jump
p = SimpleNamespace(dt_group=np.ones(7), n_reads_groupdiff=np.ones(7), fl_jump=4, normal_rej_thresh=1.0, three_diff_rej_thresh=1.0, two_diff_rej_thresh=1.0)
d = np.array([1.0, 1.0, 1.0, 50.0, 0.0, 0.0, 0.0]).reshape(1, 7, 1, 1).astype(np.float32)
gdq = np.zeros((1, 8, 1, 1), np.uint8)
out = iterative_jump(gdq, 7, d, np.zeros((1, 1), np.float32), p)
got = np.flatnonzero(out.ravel()).tolist()
assert got == [4], got
''')
