"""P03 Gaussian random fields."""
import itertools
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from vlib import gen, kspace as ks
from vlib.engine import law, call
from vlib.ref import close, check, same

TITLE = 'Gaussian random fields realise the requested power spectrum reproducibly'
RULE = ('2D and 3D grids of 3..14 cells a side (unequal, odd and even), boxes as number or sequence, power-law, '
        'peaked, shell-only and tabulated spectra, any seed; non-trivial: at least 30 modes carry power')
ASSUMPTIONS = ['statistical comparisons use fixed drawn seeds and a limit of 7 standard errors']
LAWS = []


@st.composite
def grf(draw, hi={2: 16, 3: 9}):
    d = draw(st.sampled_from([2, 3]))
    sh = draw(gen.shape(d, 3, hi[d]))
    form = draw(st.sampled_from(['float', 'int', 'list', 'tuple', 'array', 'none']))
    L = draw(gen.box_lengths(d, 5, 900)) if form in ('list', 'tuple', 'array') else [float(draw(st.integers(5, 900)))] * d
    spec = draw(st.sampled_from(['power', 'peak', 'shell', 'rise']))
    return dict(shape=sh, form=form, L=L, spec=spec, slope=draw(st.sampled_from([0, -1, -2, 1, -3])),
                amp=draw(st.sampled_from([1.0, 1e-6, 250.0, 1e8])), frac=[draw(st.integers(0, 999)), draw(st.integers(0, 999))],
                seed=draw(gen.seeds()))


def box(c):
    f, L = c['form'], c['L']
    if f == 'none':
        t2c.conv.LB = L[0]
        return None
    return {'float': lambda: float(L[0]), 'int': lambda: int(L[0]), 'list': lambda: list(L), 'tuple': lambda: tuple(L),
            'array': lambda: np.array(L)}[f]()


def spectrum(c):
    """(function of k, reference P on the mode grid, mask of modes that may carry power, certain modes)"""
    _, k = ks.kgrid(c['shape'], c['L'])
    kp = k[k > 0]
    k0 = np.exp(np.mean(np.log(kp)))
    A, s = c['amp'], c['slope']
    lo, hi = sorted(np.array(c['frac']) / 1000.)
    srt = np.unique(np.round(kp, 12))
    klo, khi = srt[int(lo * (len(srt) - 1))] * (1 - 1e-6), srt[int(hi * (len(srt) - 1))] * (1 + 1e-6)
    if c['spec'] == 'power':
        return lambda q: A * (q / k0)**s
    if c['spec'] == 'peak':
        return lambda q: A * np.exp(-0.5 * (np.log(q / k0) / 0.4)**2)
    if c['spec'] == 'rise':
        return lambda q: A * (q / k0) / (1 + (q / k0)**2)
    return lambda q: np.where((q > klo) & (q < khi), A, 0.0)


def label(ctx, c):
    ctx.label('dim%d' % len(c['shape']))
    ctx.label('odd' if all(n % 2 for n in c['shape']) else ('even' if not any(n % 2 for n in c['shape']) else 'mixed parity'))
    ctx.label('spec:' + c['spec'])
    ctx.label('box:' + c['form'])


def make(c, f, seed):
    return call(t2c.make_gaussian_random_field, tuple(c['shape']), box(c), f, seed)


@law(LAWS, st.tuples(grf(), st.integers(1, 2**31 - 1), st.sampled_from([2.0, 0.01, 1e5])), 1000, 8000, large=(5, 8, 60))
def reproducible(t, ctx):
    c, other, fac = t
    label(ctx, c)
    f = spectrum(c)
    a = make(c, f, c['seed'])
    check(np.isrealobj(a) and a.shape == tuple(c['shape']), 'field of shape %s and type %s', a.shape, a.dtype)
    check(np.all(np.isfinite(a)), 'field is not finite')
    np.random.rand(3)      # the history of the generator does not matter
    same(make(c, f, c['seed']), a, 'field made again with the same seed')
    b = make(c, lambda q: fac * f(q), c['seed'])
    close(b, a * np.sqrt(fac), rtol=1e-10, what='field for a scaled spectrum')
    if other != c['seed']:
        check(not np.array_equal(make(c, f, other), a) or not np.any(a), 'two seeds give the same field')
    # without a seed the global generator continues
    np.random.seed(c['seed'] % 1000)
    u = make(c, f, None)
    v = make(c, f, None)
    check(not np.array_equal(u, v) or not np.any(u), 'fields without a seed repeat')
    return np.any(a)


@law(LAWS, grf(), 1500, 12000, large=(5, 8, 60))
def spectral_support(c, ctx):
    """A spectrum that vanishes outside a shell gives a field with power in that shell only."""
    c = dict(c, spec='shell')
    label(ctx, c)
    f = spectrum(c)
    _, k = ks.kgrid(c['shape'], c['L'])
    a = make(c, f, c['seed'])
    P = ks.ps_nd(a, c['L'])
    kk = np.where(k == 0, k[k > 0].min() / 10, k)
    out = f(kk) == 0
    check(not out.any() or P[out].max() <= 1e-18 * c['amp'] + 1e-12 * P.max(), 'power %.3g outside the requested shell (%.3g inside)',
          P[out].max() if out.any() else 0, P.max())
    return bool((~out).any() and out.any())


@law(LAWS, grf(), 250, 2000, large=(3, 4, 30))
def mean_power(c, ctx):
    label(ctx, c)
    f = spectrum(c)
    _, k = ks.kgrid(c['shape'], c['L'])
    N = 24
    sel = k > 0
    want = f(k[sel])
    on = want > 1e-20 * want.max()      # below that the modes carry rounding only
    r, r2 = [], []
    for i in range(N):
        P = ks.ps_nd(make(c, f, (c['seed'] + 7919 * i) % 2**31), c['L'])[sel]
        q = P[on] / want[on]
        r.append(q)
    r = np.array(r)
    n = r.shape[1]
    if n < 4:
        return False
    # per k region: mean of P/P_wanted is 1; each mode has variance <= 2 and modes come in equal pairs
    order = np.argsort(k[sel][on])
    for part in np.array_split(order, min(4, max(1, n // 6))):
        m = r[:, part].mean()
        se = np.sqrt(2.0 * 2 / (N * len(part)))
        check(abs(m - 1) < 7 * se, 'mean power over the requested one: %.4g, expected 1 +- %.2g (%d modes near k=%.3g, %d fields)', m, se,
              len(part), k[sel][on][part].mean(), N)
    # direction: modes along each axis separately carry the same power
    g, _ = ks.kgrid(c['shape'], c['L'])
    for ax in range(len(c['shape'])):
        m_ax = (np.abs(g[ax][sel][on]) > 0.8 * k[sel][on])
        if m_ax.sum() < 2:
            continue
        m = r[:, m_ax].mean()
        se = np.sqrt(2.0 * 2 / (N * m_ax.sum()))
        check(abs(m - 1) < 7 * se, 'modes along axis %d carry %.4g times the requested power (+- %.2g)', ax, m, se)
    # Gaussian: for a mode that is not its own mirror image the power is exponentially distributed
    cm = np.array([np.roll(x[tuple([slice(None, None, -1)] * x.ndim)], [1 - n % 2 for n in x.shape], tuple(range(x.ndim)))
                   for x in [np.arange(k.size).reshape(k.shape)]])[0]
    own = (cm == np.arange(k.size).reshape(k.shape))[sel][on]
    if (~own).sum() >= 4:
        m2 = (r[:, ~own]**2).mean()
        se = np.sqrt(20.0 * 2 / (N * (~own).sum()))
        check(abs(m2 - 2) < 8 * se + 0.02, 'second moment of the mode power is %.4g, a Gaussian field has 2 (+- %.2g)', m2, se)
    return n >= 30


@law(LAWS, st.tuples(grf(), gen.seeds(), st.integers(2, 8), st.sampled_from(['lognormal', 'normal', 'uniform'])), 500, 4000, large=(4, 6, 40))
def like_field(t, ctx):
    c, sd, kb, kind = t
    label(ctx, c)
    x = gen.build(dict(shape=c['shape'], kind=kind, seed=sd, amp=3.0))
    P, kc, n = call(t2c.power_spectrum_1d, x, kbins=kb, box_dims=box(c), return_n_modes=True)
    if (n > 0).sum() < 2:
        return False
    kc, P = kc[n > 0], P[n > 0]
    got = call(t2c.make_gaussian_random_field_like_field, x, box(c), kb, c['seed'])
    check(np.isrealobj(got) and got.shape == x.shape, 'shape')
    # power only where the binned spectrum of the input field is defined
    _, k = ks.kgrid(c['shape'], c['L'])
    kk = np.where(k == 0, k[k > 0].min() / 10, k)
    Q = ks.ps_nd(got, c['L'])
    out = (kk < kc[0] * (1 - 1e-9)) | (kk > kc[-1] * (1 + 1e-9))
    check(not out.any() or Q[out].max() <= 1e-12 * max(Q.max(), P.max() * 1e-3), 'power outside the range of the binned spectrum')
    ps = lambda q: np.interp(q, kc, P, left=0., right=0.)
    want = make(c, ps, c['seed'])
    edge = (np.abs(kk - kc[0]) < 1e-9 * kc[0]) | (np.abs(kk - kc[-1]) < 1e-9 * kc[-1])
    if not edge.any():
        close(got, want, rtol=1e-8, what='field with the interpolated spectrum of the input field')
    return True


@law(LAWS, st.tuples(gen.shape(3, 1, 5), st.integers(1, 4), st.integers(1, 3), gen.seeds(), st.sampled_from(['f8', 'f4', 'i8'])).map(list), 150, 3000, large=(5,8,40))
def shuffled_phases(d, ctx):
    """Shuffling the phases keeps the Fourier amplitudes and moves whole planes of phases along the first axis; one plane stays as it is."""
    sh, n0, nd, seed, form = d
    sh = tuple([n0] + list(sh[1:nd]))
    rng = np.random.default_rng(seed)
    x = (rng.normal(size=sh) * 30).astype(form)
    got = np.asarray(call(t2c.gaussian_random_field.fourier_phase_shuffled, x))
    check(got.shape == x.shape and np.isrealobj(got), 'shuffled phases: %s field of shape %s', got.dtype, got.shape)
    F = np.fft.fftshift(np.fft.fftn(x.astype(float)))
    A, P = np.abs(F), np.angle(F)
    S = np.abs(x.astype(float)).max() * x.size + 1e-300
    # the phase of an amplitude that vanishes means nothing
    if A.min() < 1e-6 * S:
        return False
    err = [np.abs(got - np.fft.ifftn(np.fft.ifftshift(A * np.exp(1j * P[list(p)]))).real).max() for p in itertools.permutations(range(n0))]
    check(min(err) <= 1e-7 * S, 'shuffled phases: no permutation of the planes of phases gives the field (%g of %g)', min(err), S)
    return n0 > 1
