"""Case generators: JSON-able descriptions of arrays, and their construction.

A description names a shape, a kind, an amplitude and a seed (or writes the values
out), so arrays are a pure function of the case and hypothesis can shrink them
towards small shapes, the simple kinds and seed 0.
"""
import numpy as np
from hypothesis import strategies as st

KINDS = ('delta', 'ints', 'normal', 'wave', 'uniform', 'lognormal', 'sparse', 'ramp')


def build(d):
    """The array a description stands for (always a fresh float64 array)."""
    if 'values' in d:
        return np.array(d['values'], dtype=float).reshape(d['shape'])
    sh = tuple(d['shape'])
    rng = np.random.default_rng(d['seed'])
    k = d['kind']
    amp = d.get('amp', 1.0)
    if k == 'delta':
        a = np.zeros(sh)
        a[tuple(int(rng.integers(0, n)) for n in sh)] = 1.0
    elif k == 'ints':
        a = rng.integers(-3, 4, sh).astype(float)
    elif k == 'normal':
        a = rng.normal(size=sh)
    elif k == 'uniform':
        a = rng.uniform(0, 1, sh)
    elif k == 'lognormal':
        a = np.exp(rng.normal(size=sh))
    elif k == 'sparse':
        a = np.where(rng.uniform(size=sh) < 0.2, rng.normal(size=sh), 0.0)
    elif k == 'ramp':
        a = np.arange(int(np.prod(sh)), dtype=float).reshape(sh) / max(1, np.prod(sh))
    elif k == 'wave':
        ph = rng.uniform(0, 2 * np.pi)
        a = np.full(sh, ph)
        for ax, n in enumerate(sh):
            m = int(rng.integers(0, max(1, n // 2) + 1))
            x = 2 * np.pi * m * np.arange(n) / n
            a = a + x.reshape([-1 if i == ax else 1 for i in range(len(sh))])
        a = np.cos(a)
    elif k == 'const':
        a = np.ones(sh)
    else:
        raise ValueError(k)
    return a * amp + d.get('offset', 0.0)


def seeds():
    return st.integers(0, 2**31 - 1)


def nice_floats(lo, hi):
    """Floats of a range, no subnormals, biased to round values."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False, width=64).map(
        lambda x: float('%.6g' % x)).filter(lambda x: lo <= x <= hi)


@st.composite
def fields(draw, shapes, kinds=KINDS, amps=(1.0, 1e-3, 37.5, 1e4), offsets=(0.0, 0.0, 1.0, -20.0)):
    sh = list(draw(shapes))
    return dict(shape=sh, kind=draw(st.sampled_from(kinds)), seed=draw(seeds()),
                amp=draw(st.sampled_from(amps)), offset=draw(st.sampled_from(offsets)))


_scale = [1]


@st.composite
def large(draw, strategy, factor):
    """The cases of a strategy with the sides (shape, side) up to `factor` times as long."""
    old, _scale[0] = _scale[0], factor
    try:
        return draw(strategy)
    finally:
        _scale[0] = old


@st.composite
def side(draw, lo, hi, most=None):
    """A number of cells (objects, outputs); longer in large cases."""
    if _scale[0] != 1:
        lo, hi = hi, int(hi * _scale[0])
        if most is not None:
            lo, hi = min(lo, most), min(hi, most)
    return draw(st.integers(lo, hi))


@st.composite
def shape(draw, ndim, lo, hi, cubic=None):
    """Strategy of shapes; cubic None: mostly free, some cubic."""
    if cubic is None:
        cubic = draw(st.booleans())
    if cubic:
        return [draw(side(lo, hi))] * ndim
    return [draw(side(lo, hi)) for _ in range(ndim)]


def shapes(ndims, lo, hi, cubic=None):
    return st.sampled_from(ndims).flatmap(lambda d: shape(d, lo, hi, cubic))


def box_lengths(ndim, lo=1.0, hi=1000.0):
    return st.lists(nice_floats(lo, hi), min_size=ndim, max_size=ndim)
