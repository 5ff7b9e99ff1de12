import numpy as np
from hypothesis import strategies as st
from vlib.core import Component, check

RULE = ("random velocities (zero, orbital, and up to 0.99 of the speed of light) and directions (poles, along and against the velocity, anywhere), against the "
        "Lorentz boost of a light-like four-vector in extended precision; non-trivial when the velocity is not zero; distinct by content")
C = 299792.458


def unit(draw):
    kind = draw(st.sampled_from(["any", "any", "axis", "pole"]))
    f = lambda lo, hi: lo + draw(st.integers(0, 1 << 20)) / float(1 << 20) * (hi - lo)
    if kind == "axis":
        return draw(st.sampled_from([(0.0, 0.0), (90.0, 0.0), (180.0, 0.0), (270.0, 0.0), (360.0, 0.0), (-90.0, 0.0)]))
    if kind == "pole":
        return (f(0, 360), draw(st.sampled_from([90.0, -90.0, 89.9999999, -89.99999])))
    return (f(-180, 360), f(-90, 90))


@st.composite
def cases(draw):
    pos = unit(draw)
    f = lambda lo, hi: lo + draw(st.integers(0, 1 << 20)) / float(1 << 20) * (hi - lo)
    size = draw(st.sampled_from(["orbit", "orbit", "fast", "tiny", "zero"]))
    b = {"orbit": f(0.1, 40.0) / C, "fast": f(0.01, 0.99), "tiny": 10.0 ** f(-14, -6), "zero": 0.0}[size]
    toward = draw(st.sampled_from(["any", "any", "along", "against", "across"]))
    d = unit(draw)
    if toward in ("along", "against"):
        d = pos
    v = np.array(vec(*d)) * (-1 if toward == "against" else 1)
    if toward == "across":
        w = np.cross(np.array(vec(*pos)), v)
        n = float(np.linalg.norm(w))
        v = w / n if n > 1e-6 else v
    return {"pos": [float(pos[0]), float(pos[1])], "v": [float(k) for k in v * b * C], "size": size, "toward": toward}


def vec(ra, dec):
    a, d = np.deg2rad(np.longdouble(ra)), np.deg2rad(np.longdouble(dec))
    return np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])


def boost(beta, u):
    """Boost of the light-like four-vector (1, u) with speed beta: energy factor and direction."""
    b2 = beta @ beta
    if b2 == 0:
        return np.longdouble(1), u
    g = 1 / np.sqrt(1 - b2)
    m = np.eye(4, dtype=np.longdouble)
    m[0, 0] = g
    m[0, 1:] = m[1:, 0] = g * beta
    m[1:, 1:] += g * g / (g + 1) * np.outer(beta, beta)
    k = m @ np.concatenate([[np.longdouble(1)], u])
    return k[0], k[1:] / k[0]


def run(case):
    from stcal.velocity_aberration import compute_va_effects, compute_va_effects_vector
    ra, dec = case["pos"]
    v = case["v"]
    beta = np.array(v, dtype=np.longdouble) / np.longdouble(C)
    u = vec(ra, dec)
    want_scale, want = boost(beta, u)
    g2 = float(1 / (1 - beta @ beta))
    tol = 2e-14 * g2
    uf = np.array(u, dtype=float)
    keep = uf.copy()
    scale, got = compute_va_effects_vector(*v, uf)
    check(np.array_equal(uf, keep), "the direction given was modified")
    check(abs(float(scale) - float(want_scale)) <= tol * float(want_scale) * g2, f"scale {scale!r}, expected {float(want_scale)!r}")
    err = float(np.abs(np.asarray(got) - want).max())
    check(err <= tol, f"apparent direction off by {err:.3g}: {np.asarray(got).tolist()}, expected {[float(k) for k in want]}")
    check(abs(float(np.linalg.norm(got)) - 1) <= 2 * tol, f"length {np.linalg.norm(got)}")
    if not any(v):
        check(scale == 1 and np.array_equal(got, keep), "no velocity, and yet a change")
    # angles
    scale2, ra2, dec2 = compute_va_effects(*v, ra, dec)
    check(abs(float(scale2) - float(want_scale)) <= tol * float(want_scale) * g2, f"scale {scale2!r} of the angles")
    err = float(np.abs(vec(ra2, dec2) - want).max())
    # the declination of a direction next to a pole is only known to the square root of the precision when taken from an arcsine
    loose = 1e-13 + tol if np.hypot(float(want[0]), float(want[1])) > 1e-3 else 1e-7 * g2
    check(err <= loose, f"angles ({ra2}, {dec2}) point off by {err:.3g}")
    check(0 <= ra2 <= 360 and -90 <= dec2 <= 90, f"angles ({ra2}, {dec2}) out of range")
    # and back
    back_scale, back = compute_va_effects_vector(-v[0], -v[1], -v[2], np.asarray(got))
    check(float(np.abs(np.asarray(back) - u).max()) <= tol * 4 * g2, "reversing the velocity does not undo it")
    check(abs(float(back_scale) * float(scale) - 1) <= 4 * tol * g2, "scales of opposite velocities are not reciprocal")
    return any(v), [case["size"], case["toward"]]


COMPONENTS = [Component("boost", cases, run, quick=6000, thorough=200000, shards=6)]
