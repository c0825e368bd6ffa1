"""P25 position-dependent spectra, integrated bispectrum, correlation functions."""
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from tools21cm import conv
from tools21cm import position_dependent_power_spectrum as pd
from tools21cm import corr_function as cf
from vlib import gen
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Position-dependent spectra and correlation functions are the stated averages'
RULE = ('boxes of 1-4 cuts a side with sub-volumes of 1-5 cells along each axis (different per axis), auto and cross, log and linear bins, box lengths scalar or per axis; '
        'spectra with gaps, separations given or counted, point sets of 2-40 points; non-trivial: at least two sub-volumes whose means differ, or at least two usable k bins, or pairs in at least one bin')
ASSUMPTIONS = ['the spectrum of a sub-volume is that of the whole box with the rest set to zero (the convention of the code, not divided by the filled fraction)',
               'the correlation integral is the trapezoid over the returned k bins as documented (4 pi k^2 P sinc), with no factor (2 pi)^-3',
               'power spectra themselves are judged by P01/P02',
               'grids whose modes do not reach beyond the lowest bin edge have no integer bins and are left out']
LAWS = []


def binnable(sh, box):
    """Whether the modes of a box reach beyond the wave number where the bins begin."""
    L = np.broadcast_to(np.atleast_1d(np.asarray(244 / .7 if box is None else box, float)), (len(sh),))
    k = np.sqrt(sum((2 * np.pi * (n // 2) / l)**2 for n, l in zip(sh, L)))
    return k > 2 * np.pi / L.min() * (1 + 1e-6)


def cubes(d, rng):
    sh = tuple(d['Ncuts'] * s for s in d['sub'])
    def one():
        a = rng.normal(size=sh)
        if d['kind'] == 'offset':
            a = a + 3
        elif d['kind'] == 'ints':
            a = rng.integers(0, 3, sh)
        elif d['kind'] == 'f4':
            a = (a * 20).astype('f4')
        elif d['kind'] == 'grad':
            a = a + np.arange(sh[0])[:, None, None] - 2 * np.arange(sh[2])[None, None, :]
        return a
    return one(), one()


CUT = dict(seed=gen.seeds(), Ncuts=gen.side(1, 4, 7), sub=st.one_of(st.lists(st.integers(1, 5), min_size=3, max_size=3), st.lists(st.integers(1, 5), min_size=3, max_size=3), st.lists(st.integers(2, 12), min_size=3, max_size=3)), kind=st.sampled_from(['normal', 'offset', 'ints', 'f4', 'grad']),
           kb=st.integers(1, 8), bins=st.sampled_from(['log', 'linear', 'default']), box=st.one_of(st.none(), st.sampled_from([1., 100., 348.]), st.lists(st.sampled_from([50., 120., 200.]), min_size=3, max_size=3)),
           norm=st.booleans(), verbose=st.booleans())


def smaller(d):
    """Few large sub-volumes or many small ones."""
    return dict(d, Ncuts=min(d['Ncuts'], 2)) if max(d['sub']) > 5 else d


def reference(c1, c2, d, kw):
    """Loop over the partition: spectrum of the masked first cube, mean of the second."""
    K, (sx, sy, sz) = d['Ncuts'], d['sub']
    Ps, ms = [], []
    seen = np.zeros(c1.shape, int)
    for ix in np.ndindex(K, K, K):
        s = tuple(slice(i * n, (i + 1) * n) for i, n in zip(ix, (sx, sy, sz)))
        seen[s] += 1
        m = np.zeros(c1.shape)
        m[s] = c1[s]
        p, k = t2c.power_spectrum_1d(m, kbins=d['kb'], **kw)
        Ps.append(p)
        ms.append(np.asarray(c2[s], float).mean())
    assert (seen == 1).all()
    return np.array(Ps), np.array(ms), k


@law(LAWS, st.fixed_dictionaries(CUT).map(smaller), 100, 700, large=(1.8, 3, 15))
def partition(d, ctx):
    rng = np.random.default_rng(d['seed'])
    c1, c2 = cubes(d, rng)
    a1, a2 = c1.copy(), c2.copy()
    if not binnable(c1.shape, d['box']):
        return False
    box = d['box']
    verbose = d['verbose'] and not isinstance(box, list)
    kw = {} if box is None else dict(box_dims=box)
    if d['bins'] != 'default':
        kw['binning'] = d['bins']
    rkw = dict(kw)
    rkw.setdefault('box_dims', 244 / .7)
    rkw.setdefault('binning', 'log')
    P, m, k = reference(c1, c2, d, rkw)
    B = (P * m[:, None]).mean(axis=0)
    s = np.abs(P * m[:, None]).mean(axis=0)
    arg = dict(Ncuts=d['Ncuts'], kbins=d['kb'], verbose=verbose, **kw)
    got, kk = call(pd.integrated_bispectrum_cross, c1, c2, **arg)
    same(c1, a1, what='first cube'), same(c2, a2, what='second cube')
    close(kk, k, rtol=1e-12, what='wave numbers')

    def cmp(g, w, scale, what):
        check(np.shape(g) == w.shape, what + ' shape', np.shape(g), w.shape)
        check(np.array_equal(np.isfinite(g), np.isfinite(w)), what + ': empty bins differ', g, w)
        ok = np.isfinite(w)
        e = np.abs(np.asarray(g)[ok] - w[ok])
        check((e <= 1e-8 * scale[ok] + 1e-300).all(), what, g, w)
    cmp(got, B, s, 'integrated bispectrum of two fields')
    # the auto version uses one cube for both
    P1, m1, _ = reference(c1, c1, d, rkw)
    B1, s1 = (P1 * m1[:, None]).mean(axis=0), np.abs(P1 * m1[:, None]).mean(axis=0)
    cmp(call(pd.integrated_bispectrum, c1, **arg)[0], B1, s1, 'integrated bispectrum of one field')
    with np.errstate(all='ignore'):
        n = B / P.mean(axis=0) / (m**2).mean()
        n1 = B1 / P1.mean(axis=0) / (m1**2).mean()
        sn, sn1 = s / P.mean(axis=0) / (m**2).mean(), s1 / P1.mean(axis=0) / (m1**2).mean()
    if (m**2).mean() > 1e-20 and (P.mean(axis=0)[np.isfinite(P.mean(axis=0))] > 1e-20 * np.nanmax(P)).all():
        cmp(call(pd.integrated_bispectrum_cross, c1, c2, normalize=True, **arg)[0], n, sn, 'normalised integrated bispectrum')
        cmp(call(t2c.power_spectrum_response, c1, c2, **arg)[0], n, sn, 'response of two fields')
    if (m1**2).mean() > 1e-20 and (P1.mean(axis=0)[np.isfinite(P1.mean(axis=0))] > 1e-20 * np.nanmax(P1)).all():
        cmp(call(pd.integrated_bispectrum, c1, normalize=True, **arg)[0], n1, sn1, 'normalised integrated bispectrum of one field')
        cmp(call(t2c.power_spectrum_response, c1, **arg)[0], n1, sn1, 'response of one field')
    if d['Ncuts'] == 4:
        arg.pop('Ncuts')
        cmp(call(pd.integrated_bispectrum_cross, c1, c2, **arg)[0], B, s, 'default number of cuts')
    return d['Ncuts'] > 1


@law(LAWS, st.fixed_dictionaries(dict(CUT, amp=st.sampled_from([-3., -1., 0.5, 2., 1e3, 1e-4]), mir=st.integers(0, 2))).map(smaller), 80, 500, large=(1.8, 2, 10))
def symmetry(d, ctx):
    """Shifts by whole sub-volumes, cube of the amplitude, sum over fields."""
    rng = np.random.default_rng(d['seed'])
    c1, c2 = cubes(d, rng)
    c1, c2 = np.asarray(c1, float), np.asarray(c2, float)
    if not binnable(c1.shape, d['box'] or 200.):
        return False
    arg = dict(Ncuts=d['Ncuts'], kbins=d['kb'], verbose=False, box_dims=d['box'] or 200.)
    B, k = call(pd.integrated_bispectrum_cross, c1, c2, **arg)
    P, m, _ = reference(c1, c2, d, dict(box_dims=d['box'] or 200., binning='log'))
    s = np.abs(P * m[:, None]).mean(axis=0)
    ok = np.isfinite(B)

    def eq(g, w, f, what):
        check((np.abs(np.asarray(g)[ok] - w[ok]) <= 1e-8 * abs(f) * s[ok] + 1e-300).all(), what, g, w)
    sh = [int(rng.integers(-3, 4)) * n for n in d['sub']]
    r = lambda a: np.roll(a, sh, (0, 1, 2))
    eq(call(pd.integrated_bispectrum_cross, r(c1), r(c2), **arg)[0], B, 1, f'shift by {sh}')
    A = d['amp']
    eq(call(pd.integrated_bispectrum_cross, A * c1, A * c2, **arg)[0], B * A**3, A**3, 'cube of the amplitude')
    eq(call(pd.integrated_bispectrum_cross, A * c1, c2, **arg)[0], B * A**2, A**2, 'square of the first amplitude')
    eq(call(pd.integrated_bispectrum_cross, c1, A * c2, **arg)[0], B * A, A, 'linear in the second amplitude')
    f = lambda a: np.flip(a, d['mir'])
    eq(call(pd.integrated_bispectrum_cross, f(c1), f(c2), **arg)[0], B, 1, 'mirrored box')
    g = rng.normal(size=c1.shape)
    C = call(pd.integrated_bispectrum_cross, c1, g, **arg)[0]
    D = call(pd.integrated_bispectrum_cross, c1, c2 + g, **arg)[0]
    P2, m2, _ = reference(c1, g, d, dict(box_dims=d['box'] or 200., binning='log'))
    s2 = s + np.abs(P2 * m2[:, None]).mean(axis=0)
    check((np.abs(D[ok] - B[ok] - C[ok]) <= 1e-8 * s2[ok]).all(), 'additive in the second field', D, B + C)
    # exchanging whole sub-volumes changes nothing about the second field's means but their pairing
    return d['Ncuts'] > 1


PS = dict(seed=gen.seeds(), n=gen.side(1, 30), gap=st.booleans(), R=gen.side(1, 12), bins=st.sampled_from(['log', 'linear', 'default']), count=st.booleans(),
          ng=st.integers(2, 64), L=st.sampled_from([10., 100., 348.]), listed=st.booleans())


def integral(ps, k, r):
    ok = np.isfinite(ps)
    k, ps = k[ok], ps[ok]
    out = []
    for x in r:
        y = [kk**2 * p * (np.sin(kk * x) / (kk * x) if kk * x != 0 else 1.) for kk, p in zip(k, ps)]
        out.append(4 * np.pi * sum((k[i + 1] - k[i]) * (y[i] + y[i + 1]) / 2 for i in range(len(k) - 1)))
    return np.array(out, float)


def seps(R, L, ng, mode):
    a, b = 2 * L / ng, L / 2
    if R == 1:
        return np.array([a])
    t = np.arange(R) / (R - 1)
    return a * (b / a)**t if mode in ('log', 'default') else a + (b - a) * t


@law(LAWS, st.fixed_dictionaries(PS), 150, 900, large=(5, 4, 40))
def transform(d, ctx):
    rng = np.random.default_rng(d['seed'])
    k = np.sort(rng.uniform(0, 3, d['n']))
    ps = rng.normal(size=d['n']) * 10
    if d['gap']:
        ps[rng.uniform(size=d['n']) < 0.3] = np.nan
    kw = {} if d['bins'] == 'default' else dict(binning=d['bins'])
    if d['count']:
        R = np.int64(d['R']) if d['listed'] else d['R']
        xi, r = call(t2c.ps_to_corr, ps, k, rbins=R, box_dims=d['L'], n_grid=d['ng'], **kw)
        close(r, seps(d['R'], d['L'], d['ng'], d['bins']), rtol=1e-10, what='separations')
    else:
        want = rng.uniform(0, 200, d['R'])
        want[0] = 0
        xi, r = call(t2c.ps_to_corr, ps, k, rbins=list(want) if d['listed'] else want, **kw)
        same(np.asarray(r), want, what='separations given')
    w = integral(ps, k, r)
    close(xi, w, rtol=0, atol=1e-11 * (1 + 4 * np.pi * np.nansum(k**2 * np.abs(ps)) * 3), what='correlation integral')
    return np.isfinite(ps).sum() > 1


CORR = dict(seed=gen.seeds(), dim=st.integers(1, 3), n=st.lists(gen.side(2, 9), min_size=3, max_size=3), kb=st.one_of(st.none(), st.integers(2, 12)), R=st.integers(2, 6), arr=st.booleans(),
            kbin=st.sampled_from(['log', 'linear', 'default']), box=st.sampled_from([None, 50., 'list', 'tuple', 'array']), cross=st.booleans(), kind=st.sampled_from(['normal', 'ints', 'f4']))


@law(LAWS, st.fixed_dictionaries(CORR), 120, 800, large=(3, 4, 40))
def correlation(d, ctx):
    rng = np.random.default_rng(d['seed'])
    sh = tuple(d['n'][:d['dim']])
    mk = lambda: (rng.normal(size=sh) if d['kind'] == 'normal' else rng.integers(0, 2, sh) if d['kind'] == 'ints' else rng.normal(size=sh).astype('f4'))
    a, b = mk(), mk()
    a0, b0 = a.copy(), b.copy()
    dims = [60., 80., 45.][:d['dim']]
    box = {None: None, 50.: 50., 'list': dims, 'tuple': tuple(dims), 'array': np.array(dims)}[d['box']]
    if not binnable(sh, box):
        return False
    R = np.sort(rng.uniform(1, 40, d['R'])) if d['arr'] else d['R']
    kw = {} if d['kbin'] == 'default' else dict(k_binning=d['kbin'])
    if d['kb'] is None and d['arr']:
        d = dict(d, kb=5)
    f, args = (t2c.cross_correlation_function, (a, b)) if d['cross'] else (t2c.correlation_function, (a,))
    xi, r = call(f, *args, rbins=R, kbins=d['kb'], box_dims=box, **kw)
    same(a, a0, what='field'), same(b, b0, what='field')
    kb = d['kb'] or 10 * d['R']
    p = dict(kbins=kb, box_dims=box, binning='log' if d['kbin'] == 'default' else d['kbin'])
    ps, k = t2c.cross_power_spectrum_1d(a, b, **p) if d['cross'] else t2c.power_spectrum_1d(a, **p)
    ps = np.asarray(ps, float) if not np.iscomplexobj(ps) else ps
    L = conv.LB if box is None else np.atleast_1d(box)[0]
    close(r, R if d['arr'] else seps(d['R'], L, sh[0], 'log'), rtol=1e-10, what='separations')
    w = integral(ps, k, r)
    sc = 4 * np.pi * np.nansum(k**2 * np.abs(ps)) * (np.nanmax(k) + 1e-9)
    close(xi, w, rtol=0, atol=1e-9 * sc + 1e-300, what='correlation function')
    xi2 = call(f, *[3 * x for x in args], rbins=R, kbins=d['kb'], box_dims=box, **kw)[0]
    close(xi2, 9 * np.asarray(xi), rtol=0, atol=1e-6 * sc + 1e-300, what='square of the amplitude')
    if not d['arr'] and d['kbin'] == 'default':
        x3, r3 = call(f, *args, rbins=R, kbins=d['kb'], box_dims=box, binning='linear')
        close(r3, seps(d['R'], L, sh[0], 'linear'), rtol=1e-10, what='linear separations')
    if d['cross']:
        close(call(f, b, a, rbins=R, kbins=d['kb'], box_dims=box, **kw)[0], xi, rtol=0, atol=1e-9 * sc + 1e-300, what='exchange of the fields')
        close(call(f, a, a, rbins=R, kbins=d['kb'], box_dims=box, **kw)[0], call(t2c.correlation_function, a, rbins=R, kbins=d['kb'], box_dims=box, **kw)[0],
              rtol=1e-7, atol=1e-9 * sc, what='cross with itself')
    return np.isfinite(ps).sum() > 1


WAVE = dict(seed=gen.seeds(), L=st.sampled_from([40., 100., 348.]), n=st.integers(20, 32), s=st.sampled_from([1.0, 1.5, 2.5]))


@law(LAWS, st.fixed_dictionaries(WAVE), 12, 60)
def peaks(d, ctx):
    """A field with one shell of wave numbers has its correlation shaped like sin(kr)/kr with that k."""
    rng = np.random.default_rng(d['seed'])
    n, L = d['n'], d['L']
    k = np.sqrt(sum(g**2 for g in np.meshgrid(*[np.fft.fftfreq(n, 1. / n)] * 3, indexing='ij')))
    shell = np.abs(k - 4 * d['s']) < 0.5
    F = np.fft.fftn(rng.normal(size=(n,) * 3)) * shell
    a = np.fft.ifftn(F).real
    km = 2 * np.pi / L * (np.abs(F)**2 * k)[shell].sum() / (np.abs(F)**2)[shell].sum()
    r = np.linspace(0.02, 1, 60) * 8 / km
    xi = call(t2c.correlation_function, a, rbins=r, kbins=24, k_binning='linear', box_dims=L)[0]
    w = np.sinc(km * r / np.pi)
    c = np.corrcoef(xi, w)[0, 1]
    check(c > 0.97, 'correlation of a single shell is not shaped like sin(kr)/(kr)', c)
    return True


LS = dict(seed=gen.seeds(), nd=gen.side(2, 40), nr=gen.side(2, 40), form=st.sampled_from(['edges', 'list', 'log', 'linear', 'rmax']), R=gen.side(2, 8),
          kind=st.sampled_from(['points', 'grid', 'cube']), dim=st.integers(1, 3), L=st.sampled_from([1., 30., 'default']))


def pairs(a, b=None):
    if b is None:
        i, j = np.triu_indices(len(a), 1)
        return np.sqrt(((a[i] - a[j])**2).sum(axis=1))
    return np.sqrt(((a[:, None] - b[None])**2).sum(axis=2)).ravel()


@law(LAWS, st.fixed_dictionaries(LS), 150, 1000, large=(8, 4, 40))
def pair_counts(d, ctx):
    rng = np.random.default_rng(d['seed'])
    L = conv.LB if d['L'] == 'default' else d['L']
    dim = d['dim']
    if d['kind'] == 'cube':
        dim = 3
        n = int(rng.integers(2, 5))
        c = (rng.uniform(size=(n, n, n)) < 0.4) * 1.
        if c.sum() < 2:
            c.flat[:2] = 1
        data, pts = c, np.argwhere(c > 0) * L / n
    elif d['kind'] == 'grid':
        data = pts = rng.integers(0, 5, (d['nd'], dim)) * L / 4.
    else:
        data = pts = rng.uniform(0, L, (d['nd'], dim))
    rnd = rng.integers(0, 5, (d['nr'], dim)) * L / 4. if d['kind'] == 'grid' else rng.uniform(0, L, (d['nr'], dim))
    kw = {} if d['L'] == 'default' else dict(box_dims=L)
    if d['form'] in ('edges', 'list'):
        e = np.sort(rng.uniform(0, 1.5 * L, d['R'] + 1))
        if d['kind'] == 'grid' and d['seed'] % 2:
            e = np.arange(d['R'] + 1) * L / 4.
        kw['rbins'] = list(e) if d['form'] == 'list' else e
    elif d['form'] == 'log':
        kw['rbins'] = d['R']
        e = 0.01 * (L / 0.01)**(np.arange(d['R']) / max(1, d['R'] - 1))
    elif d['form'] == 'linear':
        kw.update(rbins=d['R'], binning='linear')
        e = 0.01 + (L - 0.01) * np.arange(d['R']) / max(1, d['R'] - 1)
    else:
        kw.update(rbins=d['R'], binning='linear', rmin=0.1 * L, rmax=0.6 * L)
        e = L * (0.1 + 0.5 * np.arange(d['R']) / max(1, d['R'] - 1))
    out = [None] * 3
    with np.errstate(all='ignore'):
        x0, r0 = data.copy(), rnd.copy()
        xi, r = call(t2c.landy_szalay_estimator, data, rnd, **kw)
        same(data, x0, what='data'), same(rnd, r0, what='randoms')
    close(r, (e[1:] + e[:-1]) / 2, rtol=1e-9, atol=1e-12, what='bin centres')
    xi = np.asarray(xi)
    check(xi.shape == r.shape, 'one value per bin', xi.shape)

    def counts(sep, s):
        c = np.array([np.sum((sep >= lo + s) & ((sep < hi + s) if i < len(e) - 2 else (sep <= hi + abs(s)))) for i, (lo, hi) in enumerate(zip(e[:-1], e[1:]))], float)
        return c
    seps_ = [pairs(pts), pairs(rnd), pairs(pts, rnd)]
    amb = any((np.abs(s[:, None] - e[None]) < 1e-9 * L).any() for s in seps_) and not (d['kind'] == 'grid' and d['seed'] % 2 and dim == 1 and d['form'] in ('edges', 'list'))
    if amb and d['form'] not in ('edges', 'list'):
        return False
    if amb and dim > 1 and d['kind'] != 'points':
        # separations equal to an edge up to rounding: compare the total over merged bins only
        return False
    DD, RR, DR = (counts(s, 0.) / n for s, n in zip(seps_, (len(pts) * (len(pts) - 1) / 2, len(rnd) * (len(rnd) - 1) / 2, len(pts) * len(rnd))))
    with np.errstate(all='ignore'):
        w = (DD - 2 * DR + RR) / RR
    ok = RR > 0
    check(np.array_equal(np.isfinite(xi), np.isfinite(w)), 'bins without random pairs', xi, w)
    close(xi[ok], w[ok], rtol=0, atol=1e-9 * (1 + np.abs(w[ok]).max() if ok.any() else 1), what='pair-count estimator')
    return bool(ok.any())


@law(LAWS, st.fixed_dictionaries(dict(seed=gen.seeds(), n=st.integers(3, 30), L=st.sampled_from([1., 50.]))), 20, 100)
def own_randoms(d, ctx):
    """With no randoms given a catalogue of the same size inside the data's extent is drawn."""
    rng = np.random.default_rng(d['seed'])
    pts = rng.uniform(0, d['L'], (d['n'], 3))
    e = np.linspace(0, 2 * d['L'], 4)
    np.random.seed(d['seed'] % 2**32)
    with np.errstate(all='ignore'):
        xi, r = call(t2c.landy_szalay_estimator, pts, None, rbins=e, box_dims=d['L'])
    np.random.seed(d['seed'] % 2**32)
    rnd = np.random.uniform(pts.min(), pts.max(), pts.shape)
    with np.errstate(all='ignore'):
        w, _ = call(t2c.landy_szalay_estimator, pts, rnd, rbins=e, box_dims=d['L'])
    close(xi, w, rtol=1e-9, atol=1e-12, what='drawn randoms')
    return True
