"""Generator helpers: arrays are byte strings drawn by Hypothesis and mapped through tables."""
import numpy as np
from hypothesis import strategies as st


def raw8(draw, n):
    n = int(n)
    return np.frombuffer(draw(st.binary(min_size=n, max_size=n)), dtype=np.uint8)


def raw16(draw, n):
    n = int(n)
    return np.frombuffer(draw(st.binary(min_size=2 * n, max_size=2 * n)), dtype=">u2").astype(np.int64)


def table(draw, shape, values):
    """Array of the given shape, each element values[k] for a byte-sized index (0 -> values[0])."""
    values = np.asarray(values)
    n = int(np.prod(shape))
    idx = raw8(draw, n).astype(int) * len(values) // 256
    return values[idx].reshape(shape)


def uniform(draw, shape, lo, hi, dtype=np.float64):
    n = int(np.prod(shape))
    return (lo + raw16(draw, n) / 65535.0 * (hi - lo)).astype(dtype).reshape(shape)


def gauss_like(draw, shape, sigma):
    """Centred, bounded noise: sum of bytes."""
    n = int(np.prod(shape))
    b = raw8(draw, 2 * n).reshape(2, n).astype(float)
    return ((b.sum(0) - 255.0) / 104.5 * sigma).reshape(shape)


def weighted(*pairs):
    """One-of values with integer weights; the first is the simplest."""
    out = []
    for w, v in pairs:
        out += [v] * w
    return st.sampled_from(out)


def flagcube(draw, shape, choices, density):
    """Flag array: zero, with a share (density/255) of elements taken from choices."""
    n = int(np.prod(shape))
    if n == 0:
        return np.zeros(shape, dtype=np.int64)
    b = raw8(draw, n).astype(int)
    choices = np.asarray(choices)
    hit = b > 255 - density
    k = np.zeros(n, dtype=int)
    k[hit] = (255 - b[hit]) * len(choices) // max(1, density)
    out = np.where(hit, choices[np.minimum(k, len(choices) - 1)], 0)
    return out.reshape(shape)


def own(case):
    """The case with its own copies of all arrays but those it names in "shared"."""
    keep = case.get("shared", ())
    return {k: (v.copy() if isinstance(v, np.ndarray) and k not in keep else v) for k, v in case.items()}


def refs(case):
    """Gain and read noise, as copies unless they are shared."""
    c = own(case)
    return c["gain"], c["rn"]
