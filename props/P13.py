"""P13 FFT convolution."""
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from tools21cm.fft_functions import fftconvolve
from tools21cm import helper_functions as hf
from vlib import gen
from vlib.engine import law, call
from vlib.ref import close, check, same, fail

TITLE = 'FFT convolution equals direct convolution under every boundary rule'
RULE = ('arrays and kernels of one to three dimensions, sides 1-14 of either parity and either one larger, real, integer, single-precision and complex, '
        'every mode and boundary; non-trivial: the kernel has more than one non-zero cell')
ASSUMPTIONS = ['the numpy backend: torch and jax are not installed here']
LAWS = []
BOUND = ['constant', 'circular', 'reflect', 'nearest', 'mirror', 'wrap']


def index(i, n, rule):
    """Index into an array of n cells for position i under a boundary rule; None: zero."""
    if 0 <= i < n:
        return i
    if rule == 'constant':
        return None
    if rule in ('wrap', 'circular'):
        return i % n
    if rule == 'nearest':
        return 0 if i < 0 else n - 1
    if rule == 'reflect':
        if n == 1:
            return 0
        i %= 2 * (n - 1)
        return i if i < n else 2 * (n - 1) - i
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def matrix(n, k, mode, rule):
    """For one axis: M[o, i, j] = 1 where output o collects in1[i]*in2[j]."""
    if mode == 'valid':
        rule = 'constant'
    if rule == 'circular':
        mode = 'same'
    if mode == 'full':
        outs = range(n + k - 1)
    elif mode == 'same':
        outs = range(k // 2, k // 2 + n)
    else:
        outs = range(k - 1, n)
    M = np.zeros((len(outs), n, k))
    for o, pos in enumerate(outs):
        for j in range(k):
            i = index(pos - j, n, rule)
            if i is not None:
                M[o, i, j] += 1
    return M


def direct(a, b, mode='same', rule='circular'):
    """Every pair of cells collected into the output its positions add up to."""
    Ms = [matrix(n, k, mode, rule) for n, k in zip(a.shape, b.shape)]
    out = a
    # axis by axis: the cells of the array first, then those of the kernel
    for M in Ms:
        # (n0, n1, ..., done) -> (n1, ..., done, o, j)
        out = np.tensordot(out, M, axes=(0, 1))
    nd = a.ndim
    # out has axes o0, j0, o1, j1, ...
    o, j = 'opq'[:nd], 'jln'[:nd]
    return np.einsum('%s,%s->%s' % (''.join(x + y for x, y in zip(o, j)), j, o), out, b)


@st.composite
def pair(draw):
    nd = draw(st.sampled_from([1, 2, 2, 3, 3]))
    hi, most = {1: (14, 90), 2: (9, 28), 3: (6, 14)}[nd]
    sa = [draw(gen.side(1, hi, most)) for _ in range(nd)]
    sb = list(sa) if draw(st.booleans()) else [draw(gen.side(1, hi, most)) for _ in range(nd)]
    return dict(a=draw(gen.fields(st.just(sa))), b=draw(gen.fields(st.just(sb))), type=draw(st.sampled_from(['f8', 'f8', 'f4', 'i4', 'c16', 'c16-kernel', 'list'])),
                mode=draw(st.sampled_from(['same', 'full', 'valid'])), rule=draw(st.sampled_from(BOUND)), seed=draw(gen.seeds()))


def arrays(d):
    a, b = gen.build(d['a']), gen.build(d['b'])
    t = d['type']
    if t == 'i4':
        a, b = np.round(a).astype(np.int32), np.round(b).astype(np.int32)
    elif t == 'f4':
        a, b = a.astype(np.float32), b.astype(np.float32)
    elif t == 'c16':
        a = a + 1j * np.random.default_rng(d['seed']).normal(size=a.shape) * np.abs(a).max()
    elif t == 'c16-kernel':
        b = b + 1j * np.random.default_rng(d['seed']).normal(size=b.shape) * np.abs(b).max()
    return a, b


def tol(a, b, d):
    s = float(np.sum(np.abs(b)) * np.max(np.abs(a), initial=0))
    return dict(rtol=2e-5 if d['type'] == 'f4' else 1e-11, scale=s or 1.0)


def give(x, d):
    return x.tolist() if d['type'] == 'list' else x


@law(LAWS, pair(), 1500, 15000, large=(5, 12, 100))
def equals_the_direct_sum(d, ctx):
    a, b = arrays(d)
    mode, rule = d['mode'], d['rule']
    a0, b0 = a.copy(), b.copy()
    if mode == 'valid' and any(x < y for x, y in zip(a.shape, b.shape)):
        try:
            fftconvolve(a, b, mode=mode, boundary=rule)
        except ValueError:
            return True
        fail('valid convolution of %s with a larger kernel %s', a.shape, b.shape)
    got = call(fftconvolve, give(a, d), give(b, d), mode=mode, boundary=rule)
    want = direct(a.astype(complex if np.iscomplexobj(a) else float), b.astype(complex if np.iscomplexobj(b) else float), mode, rule)
    check(np.iscomplexobj(got) == np.iscomplexobj(want), 'real arguments give a real result and complex ones a complex result')
    close(got, want, what='%s/%s' % (mode, rule), **tol(a, b, d))
    same(a, a0, 'array after the call')
    same(b, b0, 'kernel after the call')
    ctx.label('%s/%s' % (mode, rule), '%dD' % a.ndim, *(['kernel larger'] if any(x < y for x, y in zip(a.shape, b.shape)) else []))
    return np.count_nonzero(b) > 1


@law(LAWS, pair(), 400, 4000, large=(4, 8, 60))
def defaults_and_relations(d, ctx):
    a, b = arrays(d)
    t = tol(a, b, d)
    close(call(fftconvolve, a, b), call(fftconvolve, a, b, 'same', 'circular'), what='default arguments', **t)
    rule = d['rule']
    if rule != 'circular':
        full = call(fftconvolve, a, b, 'full', rule)
        got = call(fftconvolve, a, b, 'same', rule)
        close(got, full[tuple(slice(k // 2, k // 2 + n) for n, k in zip(a.shape, b.shape))], what='same inside full (%s)' % rule, **t)
    if rule == 'wrap':
        close(got, call(fftconvolve, a, b, 'same', 'circular'), what='wrap and circular', **t)
    rng = np.random.default_rng(d['seed'])
    # linearity in both arguments
    a2, b2 = rng.normal(size=a.shape) * np.abs(a).max(), rng.normal(size=b.shape) * np.abs(b).max()
    c = float(rng.integers(-3, 4))
    kw = dict(mode='same', boundary=rule)
    s = dict(t, scale=t['scale'] * 20 + 20 * float(np.abs(a).max() * np.abs(b2).sum() + np.abs(a2).max() * np.abs(b).sum()))
    close(call(fftconvolve, c * a + a2, b, **kw), c * call(fftconvolve, a, b, **kw) + call(fftconvolve, a2, b, **kw), what='linear in the array', **s)
    close(call(fftconvolve, a, c * b + b2, **kw), c * call(fftconvolve, a, b, **kw) + call(fftconvolve, a, b2, **kw), what='linear in the kernel', **s)
    # periodic shifts
    sh = tuple(int(rng.integers(0, n)) for n in a.shape)
    ax = tuple(range(a.ndim))
    close(call(fftconvolve, np.roll(a, sh, ax), b), np.roll(call(fftconvolve, a, b), sh, ax), what='shifted array', **t)
    # keeps constants with a normalised kernel
    if abs(b.sum()) > 1e-3 * np.abs(b).sum() and rule != 'constant':
        close(call(fftconvolve, np.full(a.shape, 3.), b / b.sum(), 'same', rule), np.full(a.shape, 3.),
              what='constant array (%s)' % rule, rtol=1e-9 if d['type'] != 'f4' else 1e-3, scale=3 * np.abs(b).sum() / abs(b.sum()))
    return np.count_nonzero(b) > 1


@law(LAWS, pair(), 100, 600)
def bad_requests_are_refused(d, ctx):
    a, b = arrays(d)
    for kw in (dict(mode='SAME'), dict(mode='all'), dict(boundary='periodic'), dict(boundary='zero')):
        try:
            fftconvolve(a, b, **kw)
        except ValueError:
            continue
        fail('%s accepted', kw)
    return True


@law(LAWS, gen.fields(gen.shapes((1, 2, 3), 1, 9)), 500, 5000, large=(6, 8, 60))
def amplitude_and_phase(d, ctx):
    x = gen.build(d)
    x0 = x.copy()
    R, phi = call(hf.real_to_fourier_amplitude_phase, x)
    same(x, x0, 'array after the call')
    F = np.fft.fftn(x)
    s = np.abs(x).sum() or 1.0
    close(R, np.abs(F), what='amplitude', rtol=1e-10, scale=s)
    check(np.all(np.isfinite(phi)) and np.all(np.abs(phi) <= np.pi + 1e-12), 'phases outside [-pi, pi]')
    close(R * np.exp(1j * phi), F, what='amplitude and phase', rtol=1e-10, scale=s)
    close(np.fft.ifftn(R * np.exp(1j * phi)), x.astype(complex), what='inverse', rtol=1e-10, scale=s)
    return x.size > 2 and np.ptp(x) > 0
