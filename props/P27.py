"""P27 purity, repeatability and input forms of the public functions."""
import copy
import json
import os
import numpy as np
import astropy.units as u
import joblib
from hypothesis import strategies as st
import tools21cm as t2c
from astropy.cosmology import FlatLambdaCDM, Planck18
from tools21cm import (Friends_of_Friends, ViteBetti, angular_coordinates as ang, astro_tools as at,  bispectrum as bi,
                       box_counting, bubble_stats, conv, corr_function as cf, cosmo, fft_functions, fitting_methods, foreground_model as fg,
                       gaussian_random_field as grf, helper_functions as hf, identify_regions, lightcone as lc, line_intensity, mfp_np, morph,
                       nbody_file, nbody_tools, percolation, position_dependent_power_spectrum as pd, power_legendre, power_spect_fast as psf,
                       power_spectrum as ps, power_spectrum_noise as psn, pv_mpm, radio_telescope_calibration as rc,
                       radio_telescope_layout as rl, radio_telescope_noise as rn, radio_telescope_sensitivity as rs, smoothing, spa_np,
                       statistics as sta, superpixels as sp, tau as tau_, temperature as tem, test_case as tc, topology, usefuls)
from tools21cm import lyman_alpha_transmission as lya
from vlib.engine import law, call
from vlib.ref import check, fail, close, same

TITLE = 'Analysis functions leave their inputs alone and repeat their answers'
RULE = ('every entry of a registry of calls of the public functions, with arguments built from a seed (shapes even and odd, options drawn), in ten input forms and in histories of 2-6 different calls; '
        'non-trivial: the answer holds at least one number that is not zero')
ASSUMPTIONS = ['functions documented to change their argument (paint_kernel, put_sphere, the set_* functions, the readers and setters of objects) are not in the registry',
               'random functions are repeated from the same state of numpy.random',
               'single-precision inputs are held to 1e-3 of the largest value in the answer, all others to 1e-7']
SCALE = 1
LAWS = []
REG = {}
FORMS = ('strided', 'fortran', 'reversed', 'axes', 'f4', 'int', 'list', 'bigendian', 'readonly', 'subclass')
LAYOUT = ('strided', 'fortran', 'reversed', 'axes', 'bigendian', 'readonly', 'subclass')


class E:
    def __init__(self, f, skip, tol, exact):
        self.f, self.skip, self.tol, self.exact = f, skip, tol, exact


def entry(*skip, tol=1e-7, exact=True, lists=False):
    """Registers a builder of (function, args, kwargs); skip: forms that do not apply; lists: lists are accepted."""
    def deco(f):
        s = set(skip)
        if not lists:
            s.add('list')
        REG[f.__name__] = E(f, s, tol, exact)
        return f
    return deco


class V:
    """Draws of one case."""
    def __init__(self, seed):
        self.r = np.random.default_rng(seed)
        self.seed = seed

    def i(self, lo, hi):
        return int(self.r.integers(lo, hi + 1))

    def one(self, *a):
        return a[int(self.r.integers(len(a)))]

    def sh(self, nd, lo, hi):
        return (self.i(lo, hi),) * nd if self.i(0, 1) else tuple(self.i(lo, hi) for _ in range(nd))

    def cube(self, lo=4, hi=8):
        return (self.i(lo, hi),) * 3

    def arr(self, sh, lo=-3., hi=5.):
        return self.r.uniform(lo, hi, sh)

    def pos(self, sh):
        return self.r.uniform(.1, 3., sh)

    def frac(self, sh):
        return self.r.uniform(0, 1, sh)

    def binary(self, sh, p=.5):
        return (self.r.random(sh) < p) * 1.

    def labels(self, sh, k):
        l = self.r.integers(0, k, sh)
        l.ravel()[:k] = np.arange(k)
        return l

    def opt(self, **k):
        """Each option given or left out."""
        return {a: b for a, b in k.items() if self.i(0, 1)}

    def zs(self, n, lo=7., hi=9.):
        return np.sort(self.r.uniform(lo, hi, n))


# ---------------------------------------------------------------- comparing anything
def snap(x):
    """A picture of a value that later changes cannot reach."""
    if isinstance(x, u.Quantity):
        return ('q', np.array(x.value, copy=True), str(x.unit))
    if isinstance(x, np.ndarray) and x.dtype == object:
        return ('l', [snap(i) for i in x])
    if isinstance(x, np.ndarray):
        return ('a', np.array(x, copy=True))
    if isinstance(x, dict):
        return ('d', [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ('l', [snap(v) for v in x])
    if isinstance(x, (int, float, complex, np.generic, bool)):
        return ('a', np.asarray(x))
    if x is None or isinstance(x, (str, bytes)):
        return ('c', x)
    if hasattr(x, '__dict__') and not callable(x) and type(x).__module__.startswith('tools21cm'):
        return ('d', [(k, snap(v)) for k, v in sorted(vars(x).items())])
    return ('o', None)


def flat(s, pre=''):
    k, v = s[0], s[1]
    if k == 'd':
        return [e for n, w in v for e in flat(w, pre + '[%s]' % (n,))]
    if k == 'l':
        return [e for i, w in enumerate(v) for e in flat(w, pre + '[%d]' % i)]
    if k == 'q':
        return [(pre, v), (pre + '.unit', s[2])]
    return [(pre, v)]


def equal(a, b, what, tol=None):
    """tol None: bit for bit (values), otherwise within tol of the largest value of each array."""
    fa, fb = flat(a), flat(b)
    check([n for n, _ in fa] == [n for n, _ in fb], '%s: the answers have different parts: %s / %s' % (what, [n for n, _ in fa][:6], [n for n, _ in fb][:6]))
    for (n, x), (_, y) in zip(fa, fb):
        w = '%s%s' % (what, n)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.dtype.kind not in 'fciub' or tol is None:
                check(x.shape == y.shape, '%s: shape %s / %s' % (w, x.shape, y.shape))
                check(np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc' and y.dtype.kind in 'fc'), '%s differs' % w)
            else:
                xx, yy = (np.asarray(q, complex if q.dtype.kind == 'c' else float) for q in (x, y))
                close(xx, yy, rtol=tol, atol=1e-300, what=w)
        else:
            check(type(x) is type(y) and (x == y if not isinstance(x, np.ndarray) else True), '%s differs: %r / %r' % (w, str(x)[:50], str(y)[:50]))


def unchanged(before, x, what):
    """The very same value: dtype, shape, contents, keys and order."""
    a, b = flat(before), flat(snap(x))
    check([n for n, _ in a] == [n for n, _ in b], '%s: its parts changed' % what)
    for (n, p), (_, q) in zip(a, b):
        if isinstance(p, np.ndarray):
            check(isinstance(q, np.ndarray) and p.shape == q.shape and p.dtype == q.dtype, '%s%s: shape or type changed' % (what, n))
            check(np.array_equal(p, q, equal_nan=p.dtype.kind in 'fc'), '%s%s was changed by the call' % (what, n))
        else:
            check(p == q, '%s%s was changed by the call' % (what, n))


def nonzero(s):
    return any(isinstance(x, np.ndarray) and x.dtype.kind in 'fciub' and np.any(x != 0) for _, x in flat(s))


def arrays(x):
    if isinstance(x, np.ndarray):
        return [x.view(np.ndarray)]
    if isinstance(x, dict):
        return [a for v in x.values() for a in arrays(v)]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays(v)]
    if hasattr(x, '__dict__') and type(x).__module__.startswith('tools21cm'):
        return arrays(vars(x))
    return []


def run(f, a, k):
    np.random.seed(987)
    with joblib.parallel_config(backend='threading'):
        return call(f, *a, **k)


def spoil(ans, inputs):
    """Overwrite an answer, unless it shares memory with the inputs."""
    ins = [b for b in arrays(list(inputs))]
    for b in arrays(ans):
        if b.flags.writeable and b.dtype.kind in 'fciub' and b.size and not any(np.may_share_memory(b, i) for i in ins):
            try:
                b[...] = 7 if b.dtype.kind != 'b' else ~b
            except (ValueError, RuntimeError):
                pass


def convert(x, form, base):
    """One array argument in another form; base: the plain counterpart with the same values."""
    if not isinstance(x, np.ndarray) or isinstance(x, u.Quantity) or x.dtype == object:
        return x
    if form in ('f4', 'int'):
        if x.dtype.kind == 'c':
            return x if base or form == 'int' else x
        if x.dtype.kind != 'f':
            return x
        y = x.astype('f4') if form == 'f4' else np.round(x).astype('i8')
        return y.astype('f8') if base else y
    if base:
        return x
    if form == 'list':
        return x.tolist()
    if form == 'bigendian':
        return x.astype(x.dtype.newbyteorder('>'))
    if form == 'fortran':
        return np.asfortranarray(x)
    if form == 'reversed':
        s = tuple(slice(None, None, -1) for _ in x.shape)
        return np.ascontiguousarray(x[s])[s]
    if form == 'strided':
        b = np.full(tuple(2 * n for n in x.shape), 77, x.dtype)
        v = b[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if form == 'axes':
        p = tuple(range(x.ndim))[1:] + (0,) if x.ndim else ()
        return np.ascontiguousarray(x.transpose(p)).transpose(np.argsort(p)) if x.ndim else x
    if form == 'readonly':
        y = x.copy()
        y.flags.writeable = False
        return y
    if form == 'subclass':
        return x.copy().view(np.memmap)
    raise ValueError(form)


def conv_all(a, k, form, base):
    return [convert(x, form, base) for x in a], {n: convert(x, form, base) for n, x in k.items()}


# ---------------------------------------------------------------- spectra
@entry()
def fft_nd(v):
    s = v.sh(v.i(1, 3), 3, 8)
    return bi.fft_nd, [v.arr(s)], dict(box_dims=[10. + i for i in range(len(s))])


@entry()
def power_nd(v):
    s = v.sh(v.i(1, 3), 3, 8)
    return ps.power_spectrum_nd, [v.arr(s)], v.opt(box_dims=[10. + i for i in range(len(s))], window=v.one('blackmanharris', 'tukey')) if len(s) == 3 and min(s) > 3 else v.opt(box_dims=11.)


@entry()
def cross_nd(v):
    s = v.sh(v.i(1, 3), 3, 8)
    return ps.cross_power_spectrum_nd, [v.arr(s), v.arr(s)], dict(box_dims=[10. + i for i in range(len(s))])


@entry()
def window(v):
    s = v.sh(3, 4, 8)
    return ps.apply_window, [v.arr(s), v.one('blackmanharris', 'tukey')], {}


@entry()
def radial(v):
    s = v.sh(v.i(2, 3), 4, 8)
    return ps.radial_average, [v.arr(s), [20.] * len(s)], dict(kbins=v.one(3, 5, np.array([.1, .5, 1., 3.])), binning=v.one('log', 'linear'))


@entry()
def power_1d(v):
    s = v.sh(v.i(2, 3), 4, 8)
    return ps.power_spectrum_1d, [v.arr(s)], dict(kbins=v.one(3, 5, np.array([.1, .5, 1., 3.])), box_dims=[20.] * len(s), **v.opt(return_n_modes=True, binning=v.one('log', 'linear', 'mixed'), window=v.one(None, 'blackmanharris') if len(s) == 3 else None))


@entry()
def power_2d(v):
    s = v.sh(3, 4, 8)
    return ps.power_spectrum_2d, [v.arr(s)], dict(kbins=v.one(3, [3, 4], [np.array([.1, .5, 2.]), np.array([.1, .5, 1., 2.])]), box_dims=20., **v.opt(return_modes=True, binning=v.one('log', 'linear'), nu_axis=v.i(0, 2), window=v.one('blackmanharris', 'tukey')))


@entry()
def cross_1d(v):
    s = v.sh(v.i(2, 3), 4, 8)
    return ps.cross_power_spectrum_1d, [v.arr(s), v.arr(s)], dict(kbins=v.one(3, 5, np.array([.1, .5, 1., 3.])), box_dims=[20.] * len(s), **v.opt(return_n_modes=True, binning=v.one('log', 'linear')))


@entry()
def power_mu(v):
    s = v.sh(3, 4, 8)
    return ps.power_spectrum_mu, [v.arr(s)], dict(kbins=v.one(3, np.array([.1, .5, 1., 3.])), mubins=v.one(3, np.array([0., .3, 1.])), box_dims=[20.] * 3, **v.opt(los_axis=v.i(0, 2), return_n_modes=True, absolute_mus=False, exclude_zero_modes=False, weights=v.pos(s)))


@entry()
def cross_mu(v):
    s = v.sh(3, 4, 8)
    return ps.cross_power_spectrum_mu, [v.arr(s), v.arr(s)], dict(kbins=3, mubins=v.one(3, np.array([0., .3, 1.])), box_dims=[20.] * 3, **v.opt(los_axis=v.i(0, 2), return_n_modes=True, absolute_mus=False, weights=v.pos(s)))


@entry()
def mu_binning(v):
    s = v.sh(3, 4, 8)
    return ps.mu_binning, [v.pos(s)], dict(kbins=v.one(3, np.array([.1, .5, 1., 3.])), mubins=v.one(3, np.array([0., .3, 1.])), box_dims=[20.] * 3, **v.opt(los_axis=v.i(0, 2), absolute_mus=False, exclude_zero_modes=False, weights=v.pos(s), binning='linear'))


@entry()
def anisotropy(v):
    s = v.sh(3, 5, 8)
    return ps.anisotropy_ratio_r_mu, [v.arr(s)], dict(kbins=3, mubins=6, box_dims=[20.] * 3, **v.opt(los_axis=v.i(0, 2), return_n_modes=True, absolute_mus=False, mu_cut=.6))


@entry()
def dimensionless(v):
    s = v.sh(3, 4, 8)
    return ps.dimensionless_ps, [v.arr(s)], dict(kbins=4, box_dims=20., **v.opt(binning='linear', factor=3))


@entry()
def get_k(v):
    s = v.sh(3, 4, 8)
    return ps.get_k, [v.arr(s), [20., 21., 22.]], {}


@entry()
def get_kbins(v):
    s = v.sh(3, 4, 8)
    return ps.get_kbins, [v.one(3, np.array([.1, .5, 1., 3.])), [20.] * 3], dict(array=v.arr(s), binning=v.one('log', 'linear'))


@entry()
def multipoles(v):
    s = v.sh(3, 5, 8)
    return power_legendre.power_spectrum_multipoles, [v.arr(s)], dict(kbins=v.one(3, np.array([.1, .8, 3.])), box_dims=[20.] * 3, **v.opt(los_axis=v.i(0, 2), output=['P0', 'P4', 'nmodes'], exclude_zero_modes=True))


@entry()
def fast_nd(v):
    return psf.power_spect_nd, [v.arr(v.sh(3, 4, 8)), v.one(20., [20., 21., 22.])], dict(verbose=False)


@entry()
def fast_1d(v):
    return v.one(psf.power_spect_1d, psf.dimensional_power), [v.arr(v.sh(3, 4, 8))], dict(kbins=v.i(3, 5), box_dims=20., **v.opt(return_modes=True, binning=v.one('log', 'linear')))


@entry()
def fast_2d(v):
    return psf.power_spect_2d, [v.arr(v.sh(3, 4, 8))], dict(kbins=v.i(3, 5), box_dims=20., **v.opt(return_modes=True, binning=v.one('log', 'linear'), nu_axis=v.i(0, 2), window=v.one('blackmanharris', 'tukey')))


@entry()
def fast_mu(v):
    return psf.power_spect_mu, [v.arr(v.sh(3, 4, 8))], dict(kbins=v.i(3, 5), mubins=v.i(2, 4), box_dims=20., **v.opt(return_modes=True, binning=v.one('log', 'linear'), nu_axis=v.i(0, 2)))


@entry()
def correlation(v):
    s = v.sh(v.i(2, 3), 4, 8)
    return t2c.correlation_function, [v.arr(s)], dict(rbins=v.one(4, np.array([2., 4., 9.])), kbins=5, box_dims=[20.] * len(s), **v.opt(binning='linear', k_binning='linear'))


@entry()
def cross_correlation(v):
    s = v.sh(v.i(2, 3), 4, 8)
    return t2c.cross_correlation_function, [v.arr(s), v.arr(s)], dict(rbins=v.one(4, np.array([2., 4., 9.])), kbins=5, box_dims=[20.] * len(s), **v.opt(binning='linear'))


@entry()
def ps_corr(v):
    k = np.linspace(.1, 3., v.i(5, 12))
    return t2c.ps_to_corr, [v.pos(k.size), k], dict(rbins=v.one(4, np.array([2., 4., 9.])), box_dims=[20.] * 3, n_grid=8, **v.opt(binning='linear'))


@entry('int', 'f4')
def landy(v):
    n = v.i(5, 12)
    return t2c.landy_szalay_estimator, [v.r.uniform(0, 20, (n, 3)), v.r.uniform(0, 20, (3 * n, 3))], dict(rbins=v.one(4, np.array([2., 6., 12.])), box_dims=20.)


@entry()
def bispectrum(v):
    b = v.arr(v.cube(5, 7))

    def f(x, **k):
        return t2c.Bispectrum(x, box_dims=[20.] * 3, verbose=False).bispectrum_k(n_bins=3, verbose=False, **k)
    return f, [b], dict(dk=.3, **v.opt(binning='linear', return_n_modes=True, window=v.one('blackmanharris', 'tukey')))


@entry()
def bispectrum_12(v):
    b = v.arr(v.cube(5, 7))

    def f(x, **k):
        return t2c.Bispectrum(x, box_dims=[20.] * 3, verbose=False).bispectrum_k1k2(.5, .7, n_bins=3, verbose=False, **k)
    return f, [b], dict(dk=.3, **v.opt(return_n_modes=True))


@entry()
def response(v):
    s = (v.one(4, 6, 8),) * 3
    return pd.power_spectrum_response, [v.arr(s) + 5], dict(Ncuts=2, kbins=3, box_dims=20., verbose=False, **v.opt(cube2=v.arr(s) + 4, binning='linear'))


@entry()
def integrated(v):
    s = (v.one(4, 6, 8),) * 3
    return pd.integrated_bispectrum, [v.arr(s) + 5], dict(Ncuts=2, kbins=3, box_dims=20., verbose=False, **v.opt(normalize=True, binning='linear'))


@entry()
def integrated_cross(v):
    s = (v.one(4, 6, 8),) * 3
    return pd.integrated_bispectrum_cross, [v.arr(s) + 5, v.arr(s) + 4], dict(Ncuts=2, kbins=3, box_dims=20., verbose=False, **v.opt(normalize=True, binning='linear'))


@entry()
def wedge_line(v):
    return (lambda z, k: psf.horizon_wedge_equation(z, 60.)(k)), [float(v.zs(1)[0]), v.pos(4)], {}


# ---------------------------------------------------------------- gaussian fields
@entry()
def grf_make(v):
    n = v.i(2, 3)
    return t2c.make_gaussian_random_field, [list(v.sh(n, 4, 8)), v.one(20., [20.] * n), lambda k: 1. / (1 + k**2)], dict(random_seed=v.i(0, 99))


@entry()
def grf_like(v):
    return t2c.make_gaussian_random_field_like_field, [v.arr(v.sh(3, 5, 8)), 20.], dict(kbins=4, random_seed=v.i(0, 99))


@entry()
def shuffled(v):
    return grf.fourier_phase_shuffled, [v.arr(v.cube(4, 7))], {}


@entry('f4')
def amplitude_phase(v):
    return hf.real_to_fourier_amplitude_phase, [v.arr(v.sh(v.i(1, 3), 3, 7))], {}


# ---------------------------------------------------------------- smoothing
@entry()
def sm_gauss(v):
    return t2c.smooth_gauss, [v.arr(v.sh(2, 3, 9))], dict([v.one(('sigma', 1.3), ('fwhm', 2.5))])


@entry()
def sm_tophat(v):
    return t2c.smooth_tophat, [v.arr(v.sh(2, 4, 9)), v.i(1, 4)], {}


@entry()
def sm_lanczos(v):
    return smoothing.smooth_lanczos, [v.arr(v.cube(4, 9)[:2]), v.i(2, 4)], {}


@entry()
def sm_kernel(v):
    s = v.sh(2, 3, 9)
    return t2c.smooth_with_kernel, [v.arr(s), v.pos((3, 3))], {}


@entry()
def interp3(v):
    s = v.sh(3, 3, 7)
    m = v.i(2, 6)
    return t2c.interpolate3d, [v.arr(s)] + [v.r.uniform(0, n - 1, m) for n in s], dict(order=v.i(0, 3))


@entry()
def interp2(v):
    s = v.sh(2, 4, 7)
    return t2c.interpolate2d, [v.arr(s), v.r.uniform(0, s[0] - 1, v.i(2, 5)), v.r.uniform(0, s[1] - 1, v.i(2, 5))], dict(order=v.i(0, 3))


@entry('int')
def sm_lightcone(v):
    n = v.i(4, 7)
    k = v.i(4, 8)
    return t2c.smooth_lightcone, [v.arr((n, n, k)), 7 + .02 * np.arange(k)], dict(box_size_mpc=v.one(60., 200.), verbose=False, **v.opt(ratio=.7, max_baseline=1.))


@entry()
def sm_coeval(v):
    return t2c.smooth_coeval, [v.arr(v.cube(4, 7)), v.one(7., 8.5)], dict(box_size_mpc=v.one(60., 200.), verbose=False, **v.opt(ratio=.7, nu_axis=v.i(0, 2), max_baseline=1.))


@entry()
def sm_coeval_th(v):
    return smoothing.smooth_coeval_tophat, [v.arr(v.sh(3, 4, 7)), v.i(1, 4), v.i(0, 2)], dict(verbose=False)


@entry()
def sm_coeval_g(v):
    return smoothing.smooth_coeval_gauss, [v.arr(v.sh(3, 4, 7)), v.one(1.2, 3.), v.i(0, 2)], {}


@entry('int')
def sm_lc_th(v):
    k = v.i(4, 8)
    return smoothing.smooth_lightcone_tophat, [v.arr((4, 5, k)), 7 + .02 * np.arange(k), np.full(k, .05)], dict(verbose=False)


@entry()
def sm_lc_g(v):
    return smoothing.smooth_lightcone_gauss, [v.arr((4, 5, 6)), np.linspace(1.2, 3., 6)], {}


@entry()
def sm_line(v):
    return smoothing.smooth_line, [v.arr(v.i(5, 12))], dict(window=v.i(1, 4))


@entry()
def sm_uvbox(v):
    s = v.cube(4, 6)
    return smoothing.smooth_lightcone_uv_threshold, [v.arr(s), np.floor(v.pos(s) * 3)], dict(threshold=2.)


@entry()
def cut_baselines(v):
    n = v.i(4, 9)
    return t2c.remove_baselines_from_uvmap, [np.floor(v.pos((n, n)) * 4), 8.], dict(max_baseline=v.one(.3, 1.), box_size_mpc=v.one(60., 200.))


@entry()
def conv_uv(v):
    n = v.i(4, 8)
    return t2c.convolve_uvmap, [v.arr((n, n))], dict(z=8., uv_map=np.floor(v.pos((n, n)) * 4), verbose=False, **v.opt(max_baseline=.6, box_size_mpc=100.))


@entry()
def conv_uv_coeval(v):
    n = v.i(4, 7)
    return t2c.convolve_uvmap_coeval, [v.arr((n, n, n)), 8.], dict(uv_map=np.floor(v.pos((n, n)) * 4), box_size_mpc=100., verbose=False, **v.opt(max_baseline=.6, ratio=.6, nu_axis=v.i(0, 2)))


@entry()
def convolve_coeval(v):
    n = v.i(4, 6)
    return t2c.convolve_uvmap_coeval, [v.arr((n, n, n)), 8.], dict(box_size_mpc=200., verbose=False, filename=v.r.normal(0, 400, (5, 3)), total_int_time=1., int_time=900.)


@entry()
def fftconv(v):
    n = v.i(2, 3)
    return fft_functions.fftconvolve, [v.arr(v.sh(n, 5, 8)), v.arr((3,) * n)], dict(mode='same', boundary=v.one('circular', 'zero', 'reflect') if 0 else 'circular')


@entry()
def beam(v):
    n = v.i(4, 8)
    return t2c.beam_convolve, [v.arr((n, n)), 8., 150.], dict([v.one(('beam_w', 4.), ('max_baseline', 1000.))])


# ---------------------------------------------------------------- kernels: no arrays, repeatability only
@entry()
def kernels(v):
    n = v.one(3, 4, 5, 8)
    f, a = v.one((t2c.gauss_kernel, (n, 1.2)), (t2c.tophat_kernel, (n, 3)), (t2c.tophat_kernel_3d, (n, 3)), (smoothing.gauss_kernel_3d, (n, 1.2)), (smoothing.lanczos_kernel, (n, 2)),
                 (box_counting.get_kernel, (n, 'ball')), (rn.gauss_kernel_3d, (n, 1.2)), (bubble_stats.disk_structure, (n,)),
                 (rn.signal_window, (n, 'blackmanharris')), (rn.max_baseline_to_max_k, (8., 2.)))
    return f, list(a), {}


# ---------------------------------------------------------------- temperature, statistics, optical depth
@entry()
def dt(v):
    s = v.sh(3, 2, 6)
    return t2c.calc_dt, [v.frac(s), v.pos(s)], dict(z=8.)


@entry()
def dt_full(v):
    s = v.sh(3, 2, 6)
    return t2c.calc_dt_full, [v.frac(s), v.pos(s), v.pos(s) * 20], dict(z=8., **v.opt(correct=False))


@entry()
def dt_lc(v):
    s = v.sh(3, 2, 6)
    return t2c.calc_dt_lightcone, [v.frac(s), v.pos(s), v.one(7., 7.5)], v.opt(los_axis=v.i(0, 2))


@entry()
def dt_full_lc(v):
    s = v.sh(3, 2, 6)
    return t2c.calc_dt_full_lightcone, [v.frac(s), v.pos(s) * 20, v.pos(s), 7.], v.opt(los_axis=v.i(0, 2), correct=False)


@entry()
def dt_mean(v):
    return t2c.mean_dt, [v.zs(v.i(1, 4))], {}


@entry('int')
def dt_halo(v):
    s = v.cube(2, 5)
    return tem.calc_dt_halo, [v.pos(s) * 1e9, 50., 8.], dict(cosmo=v.one(None, Planck18))


@entry(lists=True)
def moments(v):
    return v.one(t2c.skewness, t2c.kurtosis), [v.arr(v.sh(v.i(1, 3), 2, 6))], {}


@entry()
def weighted_xi(v):
    s = v.sh(3, 2, 6)
    return t2c.mass_weighted_mean_xi, [v.frac(s), v.pos(s)], {}


@entry()
def submean(v):
    return t2c.subtract_mean_signal, [v.arr(v.sh(3, 2, 6)), v.i(0, 2)], {}


@entry('int')
def overdensity(v):
    return t2c.signal_overdensity, [v.pos(v.sh(3, 2, 6)), v.i(0, 2)], {}


@entry()
def along_los(v):
    return t2c.apply_func_along_los, [v.arr(v.sh(3, 2, 6)), v.one(np.mean, np.std, np.max), v.i(0, 2)], {}


@entry('f4', 'int')
def tau(v):
    n = v.i(3, 6)
    return t2c.tau, [v.frac(n), v.zs(n)], dict(num_points=v.i(10, 20))


@entry('f4', 'int')
def tau_map(v):
    n = v.i(3, 5)
    return t2c.tau_map, [v.frac((n, n, n + 1)), v.zs(n + 1)], dict(num_points=v.i(5, 10))


# ---------------------------------------------------------------- cosmology and conversions
@entry('int', lists=True)
def distances(v):
    return v.one(t2c.z_to_cdist, cosmo.luminosity_distance, t2c.z_to_age), [v.zs(v.i(1, 5), 6, 14)], {}


@entry('int')
def distances_more(v):
    return v.one(cosmo.hubble_parameter, t2c.z_to_nu), [v.zs(v.i(1, 5), 6, 14)], {}


@entry('int', lists=True)
def inverse_distance(v):
    return t2c.cdist_to_z, [np.sort(v.r.uniform(8500, 9800, v.i(1, 5)))[:: v.one(1, -1)]], {}


@entry('int')
def frequencies(v):
    return v.one(t2c.nu_to_z, t2c.nu_to_wavel, t2c.nu_to_cdist), [v.r.uniform(100, 200, v.i(1, 5))], {}


@entry('int')
def angles(v):
    return v.one(t2c.angular_size_comoving, t2c.deg_to_cdist, cosmo.c_to_p, cosmo.p_to_c, cosmo.angular_size), [v.r.uniform(1, 20, 4), v.zs(4, 6, 12)], {}


@entry('int')
def virial(v):
    return v.one((t2c.M_to_Tvir), (t2c.Tvir_to_M)), [v.r.uniform(1e4, 1e5, 4), v.one(7.5, 9.)], {}


@entry()
def grid_units(v):
    def f(x):
        return [conv.gridpos_to_mpc(x), conv.gridvel_to_kms(x, 8.), conv.gridmass_to_msol(x), usefuls.Mgrid_2_Msolar(x), usefuls.Msolar_2_Mgrid(x)]
    return f, [v.pos(v.sh(2, 1, 4))], {}


@entry('int', 'f4')
def magnitudes(v):
    return v.one((lambda x: at.mag_to_flux(x * u.mag)), (lambda x: at.Muv_to_L1500(x * u.mag))), [-v.r.uniform(10, 22, v.i(1, 5))], {}


@entry('int')
def uv_magnitudes(v):
    return v.one(at.Muv_to_muv, at.muv_to_Muv), [-v.r.uniform(10, 22, 4) * u.ABmag, v.one(7., 9.)], v.opt(cosmo=FlatLambdaCDM(70, .3))


@entry('int')
def field_of_view(v):
    return at.FoV_cMpc2, [v.r.uniform(.1, 2, 3) * u.deg**2, v.one(7., 9.)], v.opt(cosmo=FlatLambdaCDM(70, .3))


@entry()
def particle_mass(v):
    f, a = v.one((nbody_tools.ParticleMass_to_ParticleNumber, (100., 1e9)), (nbody_tools.halo_mass_to_particle_number, (100., 1e10, 30)), (nbody_tools.particle_number_to_particle_mass, (100., 256)))
    return f, list(a), v.opt(cosmo=v.one('Planck18', FlatLambdaCDM(70, .3)))


@entry()
def find_idx(v):
    a = np.sort(v.arr(v.i(3, 8)))[::v.one(1, -1)]
    return t2c.find_idx, [a, v.one(.3, v.arr(3))], {}


@entry()
def interp_array(v):
    return hf.get_interpolated_array, [v.arr(v.i(4, 8)), v.i(3, 16)], v.opt(kind='linear')


@entry(lists=True)
def combined(v):
    n = v.i(2, 5)
    return hf.combined_mean_variance, [v.arr(n), v.pos(n)], v.opt(sample_sizes=np.floor(v.pos(n) * 10) + 2)


@entry('int', 'f4')
def combined_std(v):
    n = v.i(2, 5)
    return sp.get_combined_mean_std, [v.arr(n), v.pos(n), np.floor(v.pos(n) * 10) + 2], {}


# ---------------------------------------------------------------- lightcones
@entry('int', 'f4')
def lightcone(v):
    s = v.cube(4, 7)
    k = v.i(2, 3)
    zs = np.linspace(8., 8. + .1 * k, k)
    c = {'a%d' % i: v.arr(s) for i in range(k)}
    return t2c.make_lightcone, [sorted(c)], dict(reading_function=lambda n: c[n], file_redshifts=zs, z_low=8.01, z_high=8.05, **v.opt(los_axis=v.i(0, 2), interpolation=v.one('step', 'linear', 'step_cell', 'sigmoid'), box_length_mpc=60.))


@entry('int', 'f4')
def outz(v):
    return v.one((lc.redshifts_at_equal_comoving_distance)), [7.5, 8.], dict(box_grid_n=v.i(20, 40), box_length_mpc=v.one(None, 80.))


@entry('int', 'f4')
def equal_width(v):
    return lc.redshifts_at_equal_frequncy_width, [7.5, 8., v.one(.3, 1.)], {}


@entry('int', 'f4')
def subvolume(v):
    k = v.i(12, 20)
    zs = lc.redshifts_at_equal_comoving_distance(7.5, 8., box_grid_n=40, box_length_mpc=200.)[:k]
    return t2c.get_lightcone_subvolume, [v.arr((5, 5, zs.size)), zs, float(zs[zs.size // 2])], dict(verbose=False, **dict([v.one(('depth_mpc', 30.), ('depth_mhz', 2.))]), **v.opt(odd_num_cells=False, subtract_mean=False, fov_Mpc=100.))


@entry('int', 'f4')
def to_observational(v):
    n = v.i(5, 8)
    return ang.physical_lightcone_to_observational, [v.arr((n, n, 24)), 8., v.one(.6, 1.), v.one(4., 8.)], dict(input_box_size_mpc=n * 8., verbose=False, order=v.one(1, 2), **v.opt(mode=v.one('pad', 'crop')))


@entry('int', 'f4')
def to_physical(v):
    n = v.i(6, 9)
    return ang.observational_lightcone_to_physical, [v.arr((n, n, 24)), np.linspace(154., 150., 24), 3.], dict(verbose=False, order=v.one(1, 2))


@entry()
def slice_to_angular(v):
    n = v.i(5, 9)
    return ang.physical_slice_to_angular, [v.arr((n, n)), 8., 200., v.one(1., 1.2), v.one(6., 9.)], v.opt(order=2)


@entry()
def slice_to_physical(v):
    n = v.i(5, 9)
    return ang.angular_slice_to_physical, [v.arr((n, n)), 8., 1.5, v.one(20., 30.), 200.], v.opt(order=2)


@entry()
def resample(v):
    n = v.i(5, 9)
    return ang.resample_slice, [v.arr((n, n)), v.i(3, 12)], v.opt(order=2)


@entry()
def padding(v):
    n = v.i(4, 6)
    return ang.padding_lightcone, [v.arr((n, n, 5))], dict(padded_n=v.i(n, n + 3) // 1, mode=v.one('wrap', 'reflect') if 0 else 'wrap', verbose=False)


@entry()
def bin_frequency(v):
    return ang.bin_lightcone_in_frequency, [v.arr((3, 3, 24)), 8., 30., v.one(.5, .8)], {}


@entry('int', 'f4')
def bin_mpc(v):
    return ang.bin_lightcone_in_mpc, [v.arr((3, 3, 24)), np.linspace(154., 150., 24), v.one(4., 9.)], {}


@entry('int')
def distorted(v):
    s = v.cube(3, 6)
    return t2c.get_distorted_dt, [v.arr(s), v.r.normal(0, 200, (1,) + s), v.one(8., np.linspace(8, 8.1, s[0]))], dict(num_particles=v.i(2, 5), **v.opt(periodic=False))


@entry('int')
def distorted_3(v):
    s = v.cube(3, 6)
    return t2c.get_distorted_dt, [v.arr(s), v.r.normal(0, 200, (3,) + s), 8.], dict(num_particles=v.i(2, 5), velocity_axis=v.i(0, 2), los_axis=v.i(0, 2), **v.opt(periodic=False))


# ---------------------------------------------------------------- bubbles and topology
@entry()
def fof(v):
    return t2c.fof, [v.frac(v.sh(3, 3, 7))], v.opt(xth=.3, connectivity=v.i(1, 3))


@entry()
def fof_old(v):
    return Friends_of_Friends.FoF_search, [v.frac(v.sh(3, 3, 6)), .5], {}


@entry()
def spa(v):
    return t2c.spa, [v.frac(v.cube(6, 9))], dict(xth=.4, boxsize=50., nscales=4, verbose=False, **v.opt(upper_lim=True, binning='linear', use_fftconvolve=False))


@entry()
def spa_old(v):
    return spa_np.spa_np, [v.frac(v.cube(6, 9))], dict(xth=.4, nscales=4, verbose=False, **v.opt(binning='linear', use_fftconvolve=False))


@entry()
def mfp(v):
    return t2c.mfp, [v.frac(v.sh(v.i(2, 3), 5, 8))], dict(xth=.4, boxsize=50., iterations=200, verbose=False, **v.opt(upper_lim=True, bins=5, r_min=1., r_max=30.))


@entry()
def mfp_old(v):
    d = v.i(2, 3)
    return (mfp_np.mfp3d if d == 3 else mfp_np.mfp2d), [v.frac(v.cube(5, 8)[:d])], dict(xth=.4, iterations=100, verbose=False)


@entry('int')
def averaged(v):
    return t2c.averaged_mfp, [v.frac(v.cube(5, 7))], dict(xth=.4, boxsize=50., iterations=20, rays_per_point=4, verbose=False, n_jobs=1)


@entry()
def from_point(v):
    return t2c.mfp_from_point, [v.frac(v.cube(5, 7)), np.array([1, 2, 3])], dict(xth=.0, boxsize=50., iterations=20, verbose=False, **v.opt(bins=5))


@entry()
def rebinned(v):
    r = np.linspace(1, 20, v.i(8, 14))
    return bubble_stats.rebin_bsd, [r, v.pos(r.size)], dict(bins=v.i(2, 5), r_max=18., **v.opt(r_min=2.))


@entry()
def volumes(v):
    return t2c.dist_from_volumes, [np.floor(v.pos(v.i(4, 12)) * 10) + 1], dict(bins=5, **v.opt(resolution=2.))


@entry()
def distribution(v):
    return bubble_stats.get_distribution, [v.labels(v.cube(3, 5), 6)], dict(bins=5, **v.opt(resolution=2.))


@entry()
def fof_sizes(v):
    return t2c.plot_fof_sizes, [np.floor(v.pos(v.i(4, 12)) * 10) + 1], dict(bins=5, boxsize=50., **v.opt(normalize='ionized'))


@entry()
def granulometry(v):
    return bubble_stats.granulometry_CDF, [v.binary(v.cube(5, 8), .8) > .5], dict(sizes=v.one(None, np.array([1, 2])), verbose=False, n_jobs=1)


@entry()
def granulometry_b(v):
    return t2c.granulometry_bsd, [v.frac(v.cube(6, 8))], dict(xth=.2, boxsize=50., verbose=False, n_jobs=1, **v.opt(upper_lim=False, sampling=1, log_bins=4))


@entry()
def hmax(v):
    return bubble_stats.h_transform, [v.pos(v.sh(2, 4, 7)), .75], dict(verbose=False)


@entry('int')
def watershed(v):
    return t2c.watershed_bsd, [v.frac(v.cube(7, 9))], dict(xth=.3, boxsize=50., verbose=False, n_jobs=1, **v.opt(h=.5, upper_lim=True))


@entry()
def morphology(v):
    s = v.sh(v.i(2, 3), 4, 7)
    return v.one(morph.binary_dilation, morph.binary_erosion, morph.binary_opening), [v.binary(s, .9), v.binary((3,) * len(s), .4)], {}


@entry()
def percolates(v):
    return percolation.find_percolation_cluster, [v.frac(v.sh(3, 3, 6))], v.opt(xth=.3, connectivity=2)


@entry()
def renyi(v):
    return box_counting.box_count_sliding, [v.binary(v.cube(4, 6)), v.i(1, 3), v.one(2., 3.)], v.opt(window='cube')


@entry()
def euler(v):
    return t2c.EulerCharacteristic, [v.frac(v.sh(3, 3, 6))], dict(thres=.5, neighbors=v.one(6, 18, 26, 4, 8) if 0 else v.one(6, 26), speed_up=v.one('numpy', 'numba', 'cython'), verbose=False)


@entry()
def betti(v):
    return v.one(t2c.betti0, t2c.betti2, t2c.betti1), [v.frac(v.sh(3, 3, 6))], dict(thres=.5, neighbors=v.one(6, 26))


@entry()
def genus(v):
    return t2c.genus, [v.frac(v.cube(4, 6))], dict(xth=.5)


@entry()
def neighbours(v):
    s = v.cube(3, 5)
    return v.one(topology.count_neighbors, topology.count_neighbors_once), [v.binary(s, .99), np.ones((3, 3, 3))], {}


@entry()
def cubemap(v):
    return v.one(ViteBetti.CubeMap), [v.binary(v.sh(3, 3, 6))], dict(multi_marker=v.one(True, False))


# ---------------------------------------------------------------- segmentation
@entry('f4', 'int')
def kmeans(v):
    return t2c.bubbles_from_kmeans, [v.arr(v.sh(3, 4, 6), 0, 20)], dict(upper_lim=v.one(True, False), n_jobs=1, n_clusters=v.one(2, 3))


@entry('f4', 'int')
def kmeans_thresholds(v):
    return v.one(identify_regions.threshold_kmeans, identify_regions.threshold_kmeans_3cluster), [v.arr(v.sh(3, 4, 6), 0, 20)], v.opt(upper_lim=True)


@entry()
def fixed_threshold(v):
    return t2c.bubbles_from_fixed_threshold, [v.arr(v.sh(3, 4, 6))], dict(threshold=.5, upper_lim=v.one(True, False))


@entry('int')
def triangle(v):
    f, k = v.one((t2c.bubbles_from_triangle3D, {}), (t2c.bubbles_from_triangle2D, dict(loc_axis=v.one(0, 1, 2))))
    return f, [v.arr(v.sh(3, 4, 6), 0, 20)], dict(upper_lim=v.one(True, False), nbins=v.one(20, 256), **k)


@entry('f4', 'int')
def slic(v):
    return t2c.slic_cube, [v.arr(v.cube(6, 8), 0, 20)], dict(n_segments=v.i(5, 20), verbose=False, **v.opt(compactness=.2, sigma=1))


@entry('f4', 'int')
def slic_bubbles(v):
    return t2c.bubbles_from_slic, [v.arr(v.cube(6, 8), 0, 20)], dict(n_segments=v.i(8, 20), verbose=False)


@entry('f4', 'int')
def stitched(v):
    s = v.cube(5, 7)
    return v.one(sp.stitch_superpixels), [v.arr(s, 0, 20), v.labels(s, 10)], dict(bins=v.one('knuth', 'blocks', 'scott'), verbose=False, **v.opt(binary=False, on_superpixel_map=False))


@entry()
def stitched_binary(v):
    s = v.cube(4, 6)
    return sp.binary_stitch, [v.arr(s), v.labels(s, 6)], v.opt(thres=.5)


@entry('int')
def superpixels_(v):
    s = v.cube(4, 6)
    return v.one(sp.superpixel_map, sp.get_superpixel_means, sp.get_superpixel_sigmas, sp.apply_operator_labelled_data), [v.arr(s), v.labels(s, 6)], dict(verbose=False)


@entry('int')
def superpixel_more(v):
    s = v.cube(4, 6)
    f = v.one(lambda d, l: sp.get_superpixel_n_pixels(d, l, verbose=False), lambda d, l: sp.get_superpixel_pixels(d, l, verbose=False),
              lambda d, l: sp.get_superpixel_SNRs(data=d, labels=l), lambda d, l: sp.mean_estimate(d, labels=l, SNR_thres=1))
    return f, [v.arr(s), v.labels(s, 6)], {}


@entry('f4', 'int')
def stitched_histogram(v):
    s = v.cube(5, 7)
    l = v.labels(s, 12)
    return sp.stitch_using_histogram, [v.arr(s, 0, 20), v.arr(12, 0, 20), l], dict(bins=v.one('knuth', 'scott'), verbose=False, **v.opt(binary=False, on_superpixel_map=False))


@entry()
def marked(v):
    s = v.sh(2, 5, 7)
    return sp.boundaries, [v.arr(s), v.labels(s, 5)], v.opt(mark=False, factor=1.5)


@entry()
def segmentation_error(v):
    s = v.cube(4, 6)
    return sp.under_segmentation_error, [v.labels(s, 6), v.labels(s, 3)], dict(verbose=False)


@entry('int')
def xfrac_estimates(v):
    return v.one(lambda d: sp.xfrac_mass_estimate(d, 8.), sp.xfrac_volume_estimate), [v.frac(v.cube(4, 6))], {}


# ---------------------------------------------------------------- telescopes
def layout(v, k=5):
    return v.r.normal(0, 400, (k, 3))


UVK = dict(total_int_time=1., int_time=900., boxsize=200., verbose=False)


@entry('f4', 'int')
def baselines(v):
    return v.one(t2c.antenna_positions_to_baselines, t2c.cartesian_to_geographic_coordinate_system), [layout(v) * 1e3 + 6e6], {}


@entry('int', 'f4')
def geographic(v):
    return t2c.geographic_to_cartesian_coordinate_system, [np.stack([v.r.uniform(115, 117, 5), v.r.uniform(-28, -26, 5), v.r.uniform(100, 400, 5)], 1)], {}


@entry('f4')
def enu(v):
    o = np.array([-2.56e6, 5.085e6, -2.864e6])
    return v.one((lambda x, y: rl.enu_to_ecef(x, -26.8, 116.7, y)), (lambda x, y: rl.ecef_to_xyz(x + 6e6, 116.7, y))), [layout(v), o], {}


@entry()
def antenna_config(v):
    return t2c.from_antenna_config, [layout(v), 8.], v.opt(nu=150.)


@entry()
def rotated(v):
    return t2c.earth_rotation_effect, [v.r.normal(0, 100, (6, 3)), v.one(np.arange(3), 2), 600., 4.], v.opt(declination=-20.)


@entry('f4')
def daily(v):
    return t2c.get_uv_daily_observation, [v.i(4, 8), 8.], dict(antxyz=layout(v), **UVK, **v.opt(include_mirror_baselines=True, declination=-20.))


@entry()
def tracks(v):
    return t2c.grid_uv_tracks, [v.r.normal(0, 60, (9, 3)), 8., v.i(4, 9)], dict(boxsize=200., **v.opt(include_mirror_baselines=True))


@entry('f4')
def uv_map(v):
    return t2c.get_uv_map, [v.i(4, 8), 8.], dict(subarray_type=layout(v), **UVK, **v.opt(include_mirror_baselines=False, declination=-20., max_baseline=.7))


@entry('f4')
def uv_named(v):
    return t2c.get_uv_map, [v.i(4, 8), 8.], dict(subarray_type=v.one('AA1', 'AA2', 'AA*'), **dict(UVK, int_time=1800.))


@entry('f4')
def uv_lightcone(v):
    return v.one(t2c.get_uv_map_lightcone, lambda *a, n_jobs=1, **k: rn.make_uv_map_lightcone(*a, **k)), [v.i(4, 6), v.zs(2, 8., 8.3)], dict(subarray_type=layout(v), n_jobs=1, **UVK)


@entry()
def layouts(v):
    return t2c.get_SKA_Low_layout, [v.one('AA0.5', 'AA1', 'AA2', 'AA4'), v.one('ecef', 'xyz', 'latlon', 'enu') if 0 else v.one('ecef', 'latlon')], dict(verbose=False)


@entry('f4')
def gains(v):
    n = v.i(4, 6)
    m = v.one({'name': 'random_uniform', 'min': .5, 'max': 1.1}, {'real': lambda n: np.random.normal(1, .5, n), 'imag': lambda n: np.random.normal(1, .5, n)})
    return t2c.get_uv_map_with_gains, [n, 8.], dict(gain_model=m, gain_timescale=v.one([10, 60], [30]), subarray_type=layout(v), **UVK, **v.opt(include_mirror_baselines=True))


@entry('f4')
def config_gains(v):
    return rc.from_antenna_config_with_gains, [layout(v), 8.], {}


@entry('f4')
def config_stamp(v):
    return rc.from_antenna_config_with_antenna_stamp, [layout(v), 8.], {}


@entry('f4')
def uv_stamp(v):
    return v.one(t2c.get_full_uv_map_with_antenna_stamp, t2c.get_full_uv_lagrangian_with_antenna_stamp), [v.i(4, 6), 8.], dict(subarray_type=layout(v), n_jobs=1, **UVK)


@entry('int', 'f4')
def sefd(v):
    return t2c.get_SEFD, [v.one(150., v.r.uniform(100, 200, 3))], dict(**v.one({}, dict(T_sys=200.), dict(sefd_data=v.pos(4) * 1e3, nu_data=np.array([50., 100., 200., 300.]))))


@entry('f4')
def sigma(v):
    n = v.i(4, 8)
    return t2c.sigma_noise_radio, [8., v.one(.1, 1.), 100., 10.], dict(uv_map=np.floor(v.pos((n, n)) * 4), N_ant=30, verbose=False)


@entry()
def uv_response(v):
    n = v.i(4, 8)
    return v.one(t2c.apply_uv_response_on_image, rs.apply_uv_response), [v.one(v.arr((n, n)), v.arr((n, n)) + 1j * v.arr((n, n))) if 0 else v.arr((n, n)), np.floor(v.pos((n, n)) * 2)], {}


@entry()
def uv_response_noise(v):
    n = v.i(4, 8)
    return rn.apply_uv_response_noise, [v.arr((n, n)) + 1j * v.arr((n, n)), np.floor(v.pos((n, n)) * 2)], dict(boxsize=200., **v.opt(uv_weighting='uniform', uv_map_min=.5))


@entry()
def uv_response_briggs(v):
    n = v.i(4, 8)
    return rn.apply_uv_response_noise_briggs, [v.arr((n, n)) + 1j * v.arr((n, n)), np.floor(v.pos((n, n)) * 2)], v.opt(robust=.5)


@entry('f4')
def response_gains(v):
    n = v.i(4, 7)
    g = np.floor(v.pos((n, n, 5)) * 2) * np.exp(1j * v.arr((n, n, 5)))
    return v.one((rc.apply_uv_with_gains_response_on_image)), [v.arr((n, n)), g], dict(verbose=False)


@entry('f4', 'int')
def gain_map(v):
    n = v.i(4, 7)
    return rc.gain_uv_map_to_uv_map, [np.floor(v.pos((n, n, 5)) * 2) * np.exp(1j * v.arr((n, n, 5)))], {}


@entry()
def coeval_response(v):
    n = v.i(4, 7)
    return t2c.apply_uv_response_on_coeval, [v.arr((n, n, n)), 8.], dict(uv_map=np.floor(v.pos((n, n)) * 2), N_ant=30, boxsize=200.)


@entry('f4')
def noise(v):
    n = v.i(4, 7)
    return t2c.noise_map, [n, 8., .5], dict(obs_time=100., boxsize=200., uv_map=np.floor(v.pos((n, n)) * 4), N_ant=30, verbose=False, **v.opt(uv_weighting='uniform', T_sys=300.))


@entry('f4')
def noise_coeval(v):
    n = v.i(4, 6)
    return t2c.noise_cube_coeval, [n, 8.], dict(depth_mhz=.5, obs_time=100., boxsize=200., uv_map=np.floor(v.pos((n, n)) * 4), N_ant=30, verbose=False, **v.opt(uv_weighting='uniform'))


@entry('f4')
def noise_light(v):
    n = v.i(4, 6)
    return t2c.noise_lightcone, [n, v.zs(3, 8., 8.3)], dict(obs_time=100., subarray_type=layout(v), n_jobs=1, **UVK)


@entry('f4')
def noise_cube_lc(v):
    return t2c.noise_cube_lightcone, [v.i(4, 5), 8.], dict(obs_time=100., subarray_type=layout(v), n_jobs=1, **UVK)


@entry('f4')
def noise_power(v):
    n = v.i(4, 7)
    return t2c.noise_coeval_power_spectrum_1d, [n, 8., .5], dict(obs_time=100., boxsize=200., uv_map=np.floor(v.pos((n, n)) * 4), N_ant=30, verbose=False, kbins=v.one(3, np.array([.05, .1, .3])))


@entry('f4', 'int')
def noise_analytic(v):
    return t2c.noise_error_ps, [v.one(140., 160.), v.one(.3, v.r.uniform(.1, 1., 3)), 500.], v.opt(Nstat=30, multipole=2, B=5.)


@entry('int')
def noise_gauss(v):
    return rn.smooth_gauss_3d, [v.arr(v.cube(4, 6)), 1.5], {}


@entry('f4')
def units_jansky(v):
    n = v.i(4, 7)
    return v.one(t2c.jansky_2_kelvin, t2c.kelvin_2_jansky), [v.arr((n, n)) * 1e-3, 8.], v.opt(boxsize=200.)


@entry()
def attenuated(v):
    n = v.i(4, 7)
    ax = v.i(0, 2)
    s = [n, n]
    k = v.i(2, 4)
    s.insert(ax, k)
    return t2c.primary_beam, [v.arr(tuple(s)), v.zs(k)], dict(nu_axis=ax, boxsize=200., verbose=False)


# ---------------------------------------------------------------- foregrounds
@entry('int', 'f4')
def galactic(v):
    return t2c.galactic_synch_fg, [v.one(8., v.zs(2)), v.i(3, 7), 200.], dict(rseed=v.one(3, 5))


@entry('int', 'f4')
def sources(v):
    return t2c.extragalactic_pointsource_fg, [v.one(8., v.zs(2)), v.i(3, 7), 200.], dict(rseed=v.one(3, 5))


@entry()
def wedge_filter(v):
    f, k = v.one((t2c.diabolo_filter, dict(funct=v.one('step', 'tanh') if 0 else 'step')), (t2c.barrel_filter, dict(k_par_min=.2)))
    return f, [8.], dict(array=v.arr(v.cube(4, 7)), boxsize=100., **k)


@entry()
def wedge_image(v):
    s = v.cube(4, 7)
    return t2c.remove_wedge_image, [v.arr(s), 8.], dict(boxsize=100., **v.opt(filt=v.binary(s, .6), mu=.3))


@entry('int', 'f4')
def wedge_rolling(v):
    k = v.i(6, 9)
    return t2c.rolling_wedge_removal_lightcone, [v.arr((5, 5, k)), np.linspace(8, 8.1, k)], dict(cell_size=3., chunk_length=v.i(6, 9), buffer_threshold=1e-2, **v.opt(OMm=.3))


@entry('f4')
def bubble_model(v):
    return t2c.spherical_bubble_model, [8, .4], dict(r=2, source_distribution=v.one('Poisson', 'non-overlapping'), max_iter=5)


@entry('f4', 'int')
def painted(v):
    def f(p, k):
        c = np.zeros((5, 6, 7))
        tc.paint_kernel(c, p, k)
        return c
    return f, [v.r.integers(0, 5, (v.i(1, 3), 3)), v.pos((3, 3, 3))], {}


# ---------------------------------------------------------------- haloes and lines
@entry('f4', lists=False)
def halo_grid(v):
    n = v.i(3, 9)
    return nbody_file.halo_list_to_grid, [v.pos(n) * 1e9, v.r.uniform(0, 50, (n, 3)), 50., v.i(3, 6)], {}


@entry('int')
def halo_object(v):
    n = v.i(3, 9)

    def f(p, m, x):
        h = nbody_file.Halo2Grid(50., 4)
        h.set_halo_pos(p, unit='mpc')
        h.set_halo_mass(m)
        h.construct_tree()
        return h.halo_mass_on_grid(), h.halo_value_on_grid(x)
    return f, [v.r.uniform(0, 50, (n, 3)), v.pos(n) * 1e9, v.pos(n)], {}


@entry('f4', 'int')
def hydrogen(v):
    n = v.i(3, 9)
    return t2c.M_HI_on_grid, [8., 10**v.r.uniform(9, 12, n), v.r.uniform(0, 50, (n, 3)), 50., v.i(3, 6)], {}


@entry('f4', 'int')
def carbon(v):
    n = v.i(3, 9)
    return t2c.L_CII_on_grid, [8., 10**v.r.uniform(9, 12, n), v.r.uniform(0, 50, (n, 3)), 50., v.i(3, 6)], v.opt(cosmo=Planck18)


@entry('int')
def voigt(v):
    return t2c.approximation_voigt_faddeeva, [v.arr(v.i(2, 5)), .3], {}


@entry('f4', 'int')
def cross_section(v):
    return t2c.lyA_scattering_cross_section, [v.one(v.r.uniform(2.4e15, 2.5e15, 3), 2.466e15 * u.Hz), v.one(1e4, 1e4 * u.K)], {}


@entry('int', 'f4')
def tau_fgpa(v):
    s = v.sh(3, 2, 5)
    return t2c.tau_nu_lyA_FGPA, [6., v.frac(s) * 1e-3, v.arr(s, -.8, 2)], v.opt(X_H=.7, cosmo=FlatLambdaCDM(70, .3, Ob0=.05))


@entry('int', 'f4')
def tau_lya(v):
    s = v.sh(3, 2, 5)
    return t2c.tau_nu_lyA, [6., v.frac(s) * 1e-3, 1e4 * u.K, 1. * u.Mpc], {}


@entry('int', 'f4')
def tau_los(v):
    n = v.i(5, 7)
    return t2c.tau_nu_lyA_los, [6., v.frac((n, n, n)) * 1e-3, v.arr((n, n, n), -.8, 2)], dict(los_len=30 * u.Mpc, box_len=n * 10 * u.Mpc, los_axis=v.i(0, 2))


# ---------------------------------------------------------------- fits and files
@entry('f4', 'int')
def fit_function(v):
    x = np.linspace(0, 1, 12)

    def f(x, y):
        m = fitting_methods.FitFunction(lambda x, p: p[0] * x + p[1], {'a': .5, 'b': .2})
        m.fit(x, y)
        return m.fitted_params_, m.predict(x)
    return f, [x, 2 * x + 1 + .01 * v.arr(12)], {}


def through_file(write, read):
    import tempfile

    def f(x, **k):
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'f.bin')
            write(p, x, **k)
            return read(p, **k)
    return f


@entry()
def cbin(v):
    return through_file(t2c.save_cbin, t2c.read_cbin), [v.arr(v.sh(3, 1, 5))], v.opt(bits=64, order='F')


@entry(lists=False)
def raw(v):
    return through_file(t2c.save_raw_binary, t2c.read_raw_binary), [v.arr(v.cube(2, 5))], v.opt(order='F')


@entry()
def fits(v):
    return through_file(lambda p, x: t2c.save_fits(x, p), lambda p: t2c.read_fits(p, header=False)), [v.arr(v.sh(3, 1, 5))], {}


@entry('int')
def data_and_type(v):
    return hf.get_data_and_type, [v.frac(v.cube(2, 4))], {}


@entry(lists=False)
def file_density(v):
    def write(p, x):
        d = t2c.DensityFile()
        d.write_to_file(p, raw_density=x)
    return through_file(write, lambda p: t2c.DensityFile(p).raw_density), [v.pos(v.cube(2, 5))], {}


@entry(lists=False)
def file_velocity(v):
    def write(p, x):
        t2c.VelocityFile(None).write_to_file(p, raw_velocity=x)
    return through_file(write, lambda p: t2c.VelocityFile(p).raw_velocity), [v.arr((3,) + v.cube(2, 5))], {}


@entry(lists=False)
def file_xfrac(v):
    def write(p, x):
        t2c.XfracFile().write_to_file(p, x)
    return through_file(write, lambda p: t2c.XfracFile(p).xi), [v.frac(v.cube(2, 5))], {}


@entry()
def file_dictionary(v):
    def write(p, x):
        t2c.write_dictionary_data({'a': x, 'b': [1, 2]}, p + '.pkl')
    return through_file(write, lambda p: t2c.read_dictionary_data(p + '.pkl')), [v.arr(v.cube(2, 4))], {}


@entry()
def velocity_kms(v):
    s = v.cube(2, 4)

    def f(x, y):
        o = t2c.VelocityFile(None)
        o.raw_velocity, o.z, o.kmsrho8 = x, 8., 3.
        return o.get_kms_from_density(y)
    return f, [v.arr((3,) + s), v.pos(s)], {}




# ---------------------------------------------------------------- laws
NAMES = sorted(REG)


@law(LAWS, st.fixed_dictionaries(dict(name=st.sampled_from(NAMES), seed=st.integers(0, 10**6))), 2500, 20000)
def untouched(d, ctx):
    """Inputs left alone; the same call again gives the same answer, whatever became of the first answer."""
    e = REG[d['name']]
    f, a, k = e.f(V(d['seed']))
    before = snap([list(a), k])
    first = run(f, a, k)
    unchanged(before, [list(a), k], d['name'] + ': argument ')
    s1 = snap(first)
    second = run(f, a, k)
    equal(snap(first), s1, d['name'] + ': earlier answer after a second call')
    equal(snap(second), s1, d['name'] + ': second call', None if e.exact else e.tol)
    if not any(callable(x) for x in list(a) + list(k.values())):
        spoil(second, list(a) + list(k.values()))
        f2, a2, k2 = e.f(V(d['seed']))
        equal(snap(run(f2, a2, k2)), s1, d['name'] + ': call after its earlier answer was overwritten', None if e.exact else e.tol)
    ctx.label(d['name'])
    return nonzero(s1)


@law(LAWS, st.fixed_dictionaries(dict(name=st.sampled_from(NAMES), form=st.sampled_from(FORMS), seed=st.integers(0, 10**6))), 4000, 40000)
def forms(d, ctx):
    """The same values in another form give the same answer."""
    e, form = REG[d['name']], d['form']
    if form in e.skip:
        return False
    f, a, k = e.f(V(d['seed']))
    if not any(isinstance(x, np.ndarray) for x in list(a) + list(k.values())):
        return False
    a0, k0 = conv_all(copy.deepcopy(list(a)), copy.deepcopy(k), form, True)
    a1, k1 = conv_all(list(a), k, form, False)
    want = snap(run(f, a0, k0))
    before = snap([a1, k1])
    got = run(f, a1, k1)
    unchanged(before, [a1, k1], '%s: argument (%s) ' % (d['name'], form))
    equal(snap(got), want, '%s with %s input: ' % (d['name'], form), max(1e-3, e.tol) if form == 'f4' else e.tol)
    ctx.label(form)
    return nonzero(want)


@law(LAWS, st.fixed_dictionaries(dict(names=st.lists(st.sampled_from(NAMES), min_size=2, max_size=6), seed=st.integers(0, 10**6))), 400, 4000)
def histories(d, ctx):
    """Calls of other functions in between make no difference."""
    calls = [(n, d['seed'] + i) for i, n in enumerate(d['names'])]
    want = []
    for n, s in calls:
        f, a, k = REG[n].f(V(s))
        want.append(snap(run(f, a, k)))
    for (n, s), w in list(zip(calls, want))[::-1]:
        f, a, k = REG[n].f(V(s))
        e = REG[n]
        equal(snap(run(f, a, k)), w, '%s after %s: ' % (n, [m for m, _ in calls]), None if e.exact else e.tol)
    ctx.label('%d calls' % len(calls))
    return any(nonzero(w) for w in want)


# ---------------------------------------------------------------- options left out
DEFAULTS = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vlib', 'defaults.json')))
SLOW = {'subarray_type', 'iterations', 'n_jobs', 'save_uvmap', 'checkpoint', 'speed_up', 'verbose', 'uv_map', 'filename', 'antxyz'}


def outcome(f, a, k):
    np.random.seed(987)
    try:
        with joblib.parallel_config(backend='threading'):
            return snap(f(*a, **k))
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        return ('raised', type(e).__name__)


@law(LAWS, st.fixed_dictionaries(dict(name=st.sampled_from(NAMES), seed=st.integers(0, 10**6), drop=st.integers(0, 9))), 2500, 20000)
def defaults(d, ctx):
    """An option left out is the same as its documented default."""
    e = REG[d['name']]
    f, a, k = e.f(V(d['seed']))
    par = DEFAULTS.get('%s.%s' % (getattr(f, '__module__', '').split('.')[-1], getattr(f, '__name__', '')))
    if par is None:
        return False
    dv = {p['name']: p['default'] for p in par[len(a):] if 'default' in p}
    given = [n for n in k if n in dv and n not in SLOW]
    if given and d['drop'] % 2:
        n = given[d['drop'] // 2 % len(given)]
        k = {m: x for m, x in k.items() if m != n}
    left = {n: x for n, x in dv.items() if n not in k}
    if not left:
        return False
    without = outcome(f, a, k)
    f, a2, _ = e.f(V(d['seed']))
    explicit = outcome(f, a2, dict(k, **left))
    if without[0] == 'raised' or explicit[0] == 'raised':
        check(without == explicit, '%s without %s: %s, with the documented values: %s' % (d['name'], sorted(left), without, explicit))
        return False
    equal(without, explicit, '%s without %s: ' % (d['name'], sorted(left)), None if e.exact else e.tol)
    return nonzero(without)
