"""P08 one-point statistics."""
import math
import numpy as np
from fractions import Fraction
from hypothesis import strategies as st
import tools21cm as t2c
from tools21cm import helper_functions as hf
from vlib import gen
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'One-point statistics equal their defining moments for every field'
RULE = ('fields of one to three dimensions, every axis, sample partitions and monotonic tables; '
        'non-trivial: the field has at least three different values (or the table/partition at least two parts)')
ASSUMPTIONS = ['statistics are compared where the spread is at least 1e-3 of the mean, so that rounding does not dominate']
LAWS = []
CAST = st.sampled_from(['f8', 'f8', 'f4', 'int'])


def cast(a, c):
    return a if c == 'f8' else a.astype('f4') if c == 'f4' else np.rint(a).astype(int)


@law(LAWS, st.tuples(gen.fields(gen.shapes([1, 2, 3], 1, 7), amps=(1., 30., 2e3), offsets=(0., 0., 5., -40.)), CAST,
                     gen.nice_floats(0.01, 100), gen.nice_floats(-100, 100)), 1200, 10000, large=(4, 8, 40))
def moments(t, ctx):
    d, c, a, b = t
    x = cast(gen.build(d), c)
    n = x.size
    v = [Fraction(float(q)) for q in x.ravel()]
    m = sum(v) / n
    dv = [q - m for q in v]
    s2 = sum(q * q for q in dv)
    if n < 2 or s2 == 0 or float(s2) < 1e-6 * n * (1 + float(m)**2):
        return False
    v3, v4, var = float(sum(q**3 for q in dv)) / n, float(sum(q**4 for q in dv)) / n, float(s2) / (n - 1)
    rt = 1e-8 if x.dtype != np.float32 else 1e-3
    big = float(sum(abs(q)**3 for q in dv)) / n
    sk = call(t2c.skewness, x)
    close_each(sk, v3 / var**1.5, rtol=rt, atol=rt * big / var**1.5, what='skewness')
    ku = call(t2c.kurtosis, x)
    close_each(ku, v4 / var**2, rtol=rt, what='kurtosis')
    y = x.astype(float) * a + b
    if a * math.sqrt(var) > 1e-3 * (abs(b) + a * abs(float(m))):
        close_each(call(t2c.skewness, y), sk, rtol=1e3 * rt, atol=1e3 * rt * big / var**1.5, what='skewness after shift and scaling')
        close_each(call(t2c.skewness, -y), -np.asarray(sk), rtol=1e3 * rt, atol=1e3 * rt * big / var**1.5, what='skewness of the mirrored field')
        close_each(call(t2c.kurtosis, -y), ku, rtol=1e3 * rt, what='kurtosis after shift, scaling and sign change')
    return len(set(v)) > 2


@law(LAWS, st.tuples(gen.fields(gen.shapes([1, 2, 3], 1, 6), kinds=('uniform', 'lognormal', 'ints')), gen.seeds(), CAST), 500, 5000, large=(4, 6, 40))
def weighted(t, ctx):
    d, s, c = t
    xi = cast(gen.build(d), c)
    rho = cast(np.random.default_rng(s).uniform(0.1, 9, xi.shape), 'f8' if c == 'int' else c)
    if c == 'int':
        rho = np.rint(rho).astype(int) + 1
    w = math.fsum((xi.astype(float) * rho.astype(float)).ravel()) / math.fsum(rho.astype(float).ravel())
    close_each(call(t2c.mass_weighted_mean_xi, xi, rho), w, rtol=1e-9, atol=1e-9 * float(np.max(np.abs(xi))), what='mass-weighted mean')
    return xi.size > 1


FUNCS = {'mean': np.mean, 'var': np.var, 'std': np.std, 'max': np.max, 'skewness': t2c.skewness, 'kurtosis': t2c.kurtosis,
         'first': lambda a: np.ravel(a)[0], 'rank': lambda a: float(np.sum(np.ravel(a) * np.arange(np.size(a)))), 'size': np.size}


def slices(x, ax):
    return [np.array([[x[tuple(np.insert([i, j], ax, k))] for j in range([s for q, s in enumerate(x.shape) if q != ax][1])]
                      for i in range([s for q, s in enumerate(x.shape) if q != ax][0])]) for k in range(x.shape[ax])]


@law(LAWS, st.tuples(gen.fields(gen.shapes([3], 1, 6)), CAST, st.integers(0, 2), st.booleans(), st.sampled_from(sorted(FUNCS))), 1000, 8000, large=(5, 8, 60))
def per_slice(t, ctx):
    d, c, ax, neg, fn = t
    x = cast(gen.build(d), c)
    q = ax - 3 if neg else ax
    sl = slices(x, ax)
    xs = np.abs(x).max() + 1e-30
    rt = 1e-10 if x.dtype != np.float32 else 1e-5
    want = np.stack([s - s.astype(float).mean() for s in sl], axis=ax)
    kw = {} if q == 2 and d['seed'] % 2 else {'los_axis': q}
    close(call(t2c.subtract_mean_signal, x, **kw), want, rtol=0, atol=rt * xs, what='subtract_mean_signal along axis %d' % q)
    mm = np.array([s.astype(float).mean() for s in sl])
    if np.all(np.abs(mm) > 1e-3 * xs):
        want = np.stack([s.astype(float) / s.astype(float).mean() - 1 for s in sl], axis=ax)
        close(call(t2c.signal_overdensity, x, q), want, rtol=0, atol=rt * xs / np.abs(mm).min() * 100, what='signal_overdensity along axis %d' % q)
    f = FUNCS[fn]
    with np.errstate(all='ignore'):
        ref = np.array([float(f(s)) for s in sl])
        got = call(t2c.apply_func_along_los, x, f, ax)
    close_each(got, ref, rtol=1e-6 if x.dtype != np.float32 else 1e-2, atol=1e-9 * xs**2 if fn not in ('skewness', 'kurtosis') else 1e-6,
               what='%s along axis %d' % (fn, ax)) if fn not in ('skewness', 'kurtosis') or np.all(np.isfinite(ref)) and all(
                   s.std() > 1e-3 * xs for s in sl) else None
    return x.shape[ax] > 1 and x.size > x.shape[ax]


@law(LAWS, st.tuples(gen.side(2, 5), gen.side(1, 4), gen.seeds(), st.sampled_from(['list', 'dict', 'array', 'tuple']), st.booleans()), 700, 6000, large=(20, 8, 60))
def pooling(t, ctx):
    k, m, seed, form, onesize = t
    rng = np.random.default_rng(seed)
    n = rng.integers(1, 2 if onesize else 12, k)
    sam = [rng.normal(rng.normal() * 3, rng.uniform(0.1, 3), (ni, m)) for ni in n]
    mean = [s.mean(0) for s in sam]
    var = [s.var(0, ddof=1) if len(s) > 1 else np.zeros(m) for s in sam]
    if m == 1:
        mean, var = [x[0] for x in mean], [x[0] for x in var]
        size = [int(x) for x in n]
    else:
        size = [np.full(m, int(x)) for x in n]

    def as_(v):
        return {'list': list, 'tuple': tuple, 'array': np.array, 'dict': lambda v: {'k%d' % i: w for i, w in enumerate(v)}}[form](v)
    args = (as_(mean), as_(var)) + (() if onesize else (as_(size),))
    gm, gv = call(hf.combined_mean_variance, *args)
    al = np.concatenate(sam)
    close_each(np.ravel(gm), al.mean(0), rtol=1e-10, atol=1e-10, what='pooled mean')
    close_each(np.ravel(gv), al.var(0, ddof=1), rtol=1e-9, atol=1e-10, what='pooled variance')
    return True


@law(LAWS, st.tuples(gen.side(2, 12), gen.seeds(), st.booleans(), gen.side(0, 6), st.sampled_from(['array', 'scalar', 'int', 'list'])), 900, 8000,
     fixed=[(3, 0, False, 2, 'int'), (4, 1, True, 3, 'array')], large=(30, 8, 60))
def lookup(t, ctx):
    n, seed, dec, nv, form = t
    rng = np.random.default_rng(seed)
    ar = np.cumsum(rng.uniform(0.05, 3, n)) - rng.uniform(0, 5)
    if seed % 3 == 0:
        ar = np.cumsum(rng.integers(1, 4, n)).astype(float if seed % 2 else int)
    if dec:
        ar = ar[::-1]
    v = rng.uniform(ar.min() - 2, ar.max() + 2, max(nv, 1))
    if nv > 1:
        v[0], v[1] = ar[rng.integers(0, n)], ar[0]      # exact table entries
    if form == 'int':
        v = np.rint(v).astype(int)
    src = float(v[0]) if form == 'scalar' else list(v) if form == 'list' else v.copy()
    before = np.array(src, copy=True)
    got = call(hf.find_idx, ar, src)
    same(np.array(src), before, 'the looked-up values')
    vc = np.clip(np.atleast_1d(before), ar.min(), ar.max())
    idx = np.interp(vc, np.sort(ar), np.arange(n))
    want = n - 1 - idx if dec else idx
    check(np.all(np.isfinite(got)), 'index is not finite')
    close_each(np.ravel(got), want, rtol=0, atol=1e-9 * n, what='fractional index')
    back = np.interp(np.ravel(got), np.arange(n), ar)
    close_each(back, vc, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(ar))), what='table value at the index')
    if n > 2:
        bad = ar.astype(float).copy()
        bad[1] = bad[0] + (2 * (bad[-1] - bad[0]))
        bad[-1] = bad[0]
        try:
            hf.find_idx(bad, v)
        except ValueError:
            pass
        else:
            fail('a table that is not monotonic was accepted')
    return True


@law(LAWS, st.tuples(gen.side(2, 9), gen.side(1, 30), gen.seeds(), st.sampled_from(['linear', 'nearest'])), 400, 3000, large=(30, 8, 60))
def resampling(t, ctx):
    n, m, seed, kind = t
    a = np.random.default_rng(seed).normal(size=n)
    got = call(hf.get_interpolated_array, a, m, kind)
    x = np.array([i * (n - 1.) / (m - 1) if m > 1 else 0. for i in range(m)])
    check(np.shape(got) == (m,), 'length %s, expected %d', np.shape(got), m)
    if kind == 'linear':
        close(got, np.interp(x, np.arange(n), a), rtol=1e-9, atol=1e-9, what='upscaled array')
    else:
        lo, hi = np.clip(np.ceil(x - 0.5 - 1e-9), 0, n - 1).astype(int), np.clip(np.floor(x + 0.5 + 1e-9), 0, n - 1).astype(int)
        check(np.all((got == a[lo]) | (got == a[hi])), 'upscaled array is not the nearest value')
    return n > 2 and m > 2
