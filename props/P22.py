"""P22 thermal noise of radio interferometers."""
import contextlib
import joblib
import numpy as np
import astropy.units as u
from hypothesis import strategies as st
from scipy import stats
from scipy.signal import windows
import tools21cm as t2c
from tools21cm import radio_telescope_noise as RN, radio_telescope_sensitivity as RS
from vlib import gen, cosmology as co
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Thermal noise obeys the radiometer equation and its scaling laws'
RULE = ('random system temperatures, efficiencies, tables, bandwidths and times; coverage maps of 3-12 cells a side with unsampled cells, Hermitian or '
        'not, odd and even; small real layouts for cubes; non-trivial: sampled and unsampled cells present, or more than one frequency')
ASSUMPTIONS = ['coverage below 0.01 counts as unsampled (the documented threshold)',
               'the variance is judged on 40-120 realisations of a seeded generator, at a chance of 1e-10 per cell',
               'fft_wrap, smoothing of the coverage and Briggs weights are not judged']
LAWS = []
K, CL, JY = 1.380649e-23, 2.99792458e8, 1e-26
H0, OM0 = 0.7, 0.27


@contextlib.contextmanager
def nosleep():
    old = getattr(RN, 'sleep', None)
    if old is not None:
        RN.sleep = lambda s: None
    try:
        yield
    finally:
        if old is not None:
            RN.sleep = old


def nu_of(z):
    return 1420.0 / (1.0 + z)


def sefd(nu, T=None, ep=None, D=40.):
    T = 60. * (300. / nu)**2.55 + 100. if T is None else (T(nu) if callable(T) else T)
    ep = min(1.0, (110. / nu)**2) if ep is None else (ep(nu) if callable(ep) else ep)
    return 2 * K * T / (ep * np.pi * D**2 / 4) / JY


RADIO = dict(T=st.one_of(st.none(), gen.nice_floats(10, 5000), st.just('f')), ep=st.one_of(st.none(), gen.nice_floats(0.05, 1), st.just('f')),
             D=gen.nice_floats(2, 100))


def radio(d):
    T = (lambda nu: 30. + 2e4 / nu) if d['T'] == 'f' else d['T']
    ep = (lambda nu: 50. / (50. + nu)) if d['ep'] == 'f' else d['ep']
    return T, ep, dict(T_sys=T, ep_aperture=ep, D_station=d['D'])


@law(LAWS, st.fixed_dictionaries(dict(RADIO, seed=gen.seeds(), n=gen.side(1, 6))), 800, 5000, large=(6, 6, 40))
def flux_density(d, ctx):
    T, ep, kw = radio(d)
    rng = np.random.default_rng(d['seed'])
    nu = rng.uniform(40, 350, d['n'])
    want = np.array([sefd(v, T, ep, d['D']) for v in nu])
    for v, w in zip(nu, want):
        g = call(t2c.get_SEFD, v, **kw)
        check(np.ndim(g) == 0, 'SEFD of one frequency has shape %s', np.shape(g))
        close_each(g, w, rtol=1e-9, what='SEFD at %g MHz' % v)
    if d['n'] > 1:
        keep = nu.copy()
        close_each(call(t2c.get_SEFD, nu, **kw), want, rtol=1e-9, what='SEFD of an array')
        same(nu, keep, 'frequencies passed in')
    # tables
    m = int(rng.integers(2, 9))
    tn = np.sort(rng.uniform(50, 300, m))
    ts = 10**rng.uniform(2, 5, m)
    close_each(call(t2c.get_SEFD, tn, sefd_data=ts, nu_data=tn), ts, rtol=1e-7, what='SEFD at the table frequencies')
    q = tn[0] + (tn[-1] - tn[0]) * rng.uniform(0, 1, 4)
    close_each(call(t2c.get_SEFD, q, sefd_data=ts, nu_data=tn), 10**np.interp(q, tn, np.log10(ts)), rtol=1e-7, what='SEFD between the table frequencies')
    f = float(q[0])
    close_each(call(t2c.get_SEFD, f, sefd_data=ts, nu_data=tn, **kw), 10**np.interp(f, tn, np.log10(ts)), rtol=1e-7, what='a table has precedence')
    try:
        t2c.get_SEFD(f, sefd_data=ts)
    except ValueError:
        pass
    else:
        fail('a table without frequencies was accepted')
    z = 1420. / f - 1
    s, r = call(t2c.sigma_noise_radio, z, 1., 10., 10., N_ant=10, verbose=False, sefd_data=ts, nu_data=tn)
    close_each(r, 1e6 * 10**np.interp(f, tn, np.log10(ts)) / np.sqrt(2e7), rtol=1e-6, what='visibility noise from a table')
    g = call(t2c.get_SEFD, 150., sefd_data=['SKA1-LOW', 'ska1', 'SKAO-TEL-0000818'][d['seed'] % 3])
    check(1e3 < g < 5e3, 'SEFD of the SKA1 table at 150 MHz: %s', g)
    return d['n'] > 1


OBS = dict(RADIO, z=gen.nice_floats(4, 30), depth=gen.nice_floats(1e-3, 50), obs=gen.nice_floats(0.1, 5000), int_time=gen.nice_floats(0.5, 1000),
           nant=st.integers(2, 600))


@law(LAWS, st.fixed_dictionaries(dict(OBS, k=gen.nice_floats(0.1, 10))), 1500, 8000)
def radiometer(d, ctx):
    T, ep, kw = radio(d)
    z = d['z']
    uv = np.ones((3, 3)) if d['nant'] % 2 else None

    def f(z=z, depth=d['depth'], obs=d['obs'], it=d['int_time'], n=d['nant'], **k):
        return call(t2c.sigma_noise_radio, z, depth, obs, it, uv_map=uv, N_ant=n, verbose=bool(d['nant'] % 5 == 0), **dict(kw, **k))
    s, r = f()
    vis = 1e6 * sefd(nu_of(z), T, ep, d['D']) / np.sqrt(2 * d['depth'] * 1e6 * d['int_time'])
    close_each(r, vis, rtol=1e-9, what='noise per visibility (uJy)')
    close_each(s, vis / np.sqrt(d['nant'] * (d['nant'] - 1) / 2. * d['obs'] * 3600. / d['int_time']), rtol=1e-9, what='image noise (uJy)')
    k = d['k']
    for what, (s2, r2), fs, fr in [('bandwidth', f(depth=k * d['depth']), k**-0.5, k**-0.5), ('observing time', f(obs=k * d['obs']), k**-0.5, 1),
                                   ('integration time', f(it=k * d['int_time']), 1, k**-0.5), ('station diameter', f(D_station=k * d['D']), k**-2, k**-2)]:
        close_each(s2, s * fs, rtol=1e-9, what='image noise against ' + what)
        close_each(r2, r * fr, rtol=1e-9, what='visibility noise against ' + what)
    t = 100. if T is None or callable(T) else T
    (s2, r2), (s1, r1) = f(T_sys=t * k), f(T_sys=t)
    close_each([s2, r2], [s1 * k, r1 * k], rtol=1e-9, what='noise against system temperature')
    return True


@law(LAWS, st.fixed_dictionaries(dict(z=gen.nice_floats(3, 30), box=gen.nice_floats(10, 2000), 
                                      seed=gen.seeds(), nc=st.one_of(st.none(), st.integers(1, 500)), glob=st.booleans(),
                                      cosmo=st.sampled_from([None, [0.6, 0.4]]))), 800, 4000)
def units(d, ctx):
    if d['cosmo']:
        co.set_flat(*d['cosmo'], how=d['seed'])
    h, om = d['cosmo'] or (H0, OM0)
    rng = np.random.default_rng(d['seed'])
    sh = tuple(int(v) for v in rng.integers(1, 6, int(rng.integers(1, 4))))
    x = rng.normal(size=sh) * 100
    keep = x.copy()
    n = d['nc'] or sh[0]
    th = d['box'] / float(co.cdist(d['z'], h, om))
    want = 2 * K * (nu_of(d['z']) * 1e6)**2 / CL**2 / JY * 1e3 * th**2 / n**2        # mK -> uJy per cell
    kw = {}
    if d['glob']:
        t2c.conv.LB = d['box']
    else:
        kw = dict(boxsize=d['box'])
    close_each(call(t2c.kelvin_jansky_conversion, n, d['z'], **kw), want, rtol=1e-6, what='uJy per mK and cell')
    if d['nc']:
        kw['ncells'] = n
    j = call(t2c.kelvin_2_jansky, x, d['z'], **kw)
    close(j, x * want, rtol=1e-6, what='mK to uJy')
    close(call(t2c.jansky_2_kelvin, j, d['z'], **kw), x, rtol=1e-12, what='mK to uJy and back')
    close(call(t2c.jansky_2_kelvin, x, d['z'], **kw), x / want, rtol=1e-6, what='uJy to mK')
    same(x, keep, 'the array passed in')
    return len(sh) > 1


def coverage(rng, n, kind):
    uv = rng.integers(0, 5, (n, n)) * rng.uniform(0.02, 3)
    uv = np.where(rng.uniform(size=uv.shape) < 0.3, 0, uv)
    if kind == 'hermitian':
        i = -np.arange(n) % n
        uv = (uv + uv[np.ix_(i, i)]) / 2
    elif kind == 'tiny':
        uv = np.where(rng.uniform(size=uv.shape) < 0.3, rng.uniform(0, 0.02, uv.shape), uv)
    elif kind == 'full':
        uv = uv + 0.5
    elif kind == 'float32':
        uv = uv.astype('f4')
    elif kind == 'ints':
        uv = rng.integers(0, 4, (n, n))
    return uv


MAP = dict(OBS, seed=gen.seeds(), n=gen.side(3, 12), kind=st.sampled_from(['any', 'hermitian', 'tiny', 'full', 'float32', 'ints']),
           w=st.sampled_from(['natural', 'nat', 'uniform', 'Uniform', 'uni']))


def window2(n):
    w = windows.blackmanharris(n)
    w = w[:, None] * w[None]
    return np.roll(w, (-(n // 2), -(n // 2)), (0, 1))      # centre to the corner


def variance(uv, rms, w, win):
    """Expected |F|^2 of one visibility cell before the real part is taken."""
    on = uv >= 0.01
    with np.errstate(all='ignore'):
        v = 2 * rms**2 * (np.where(on, 1. / uv, 0) if w.lower().startswith('nat') else 1.0)
    return np.where(on, v, 0) * win**2


@law(LAWS, st.fixed_dictionaries(MAP), 1000, 8000, large=(6, 10, 80))
def noise_maps(d, ctx):
    T, ep, kw = radio(d)
    rng = np.random.default_rng(d['seed'])
    n = d['n']
    uv = coverage(rng, n, d['kind'])
    ants = rng.normal(size=(3, 3)) * 100 * u.m
    na = d['nant'] if d['seed'] % 2 else None
    keep = uv.copy()

    def f(seed, uv=uv, depth=d['depth'], obs=d['obs'], **k):
        np.random.seed(seed)
        with np.errstate(all='ignore'):
            return call(t2c.noise_map, n, d['z'], depth, obs_time=obs, subarray_type=ants, int_time=d['int_time'], uv_map=uv, N_ant=na,
                        uv_weighting=d['w'], boxsize=100., verbose=False, **dict(kw, **k))
    R = 40 if n > 7 else 120
    maps = np.array([f(d['seed'] + i) for i in range(R)])
    check(maps.shape == (R, n, n) and maps.dtype == float, 'noise map of shape %s and type %s', maps.shape[1:], maps.dtype)
    check(np.all(np.isfinite(maps)), 'noise map is not finite')
    same(f(d['seed']), maps[0], 'noise map for the same random state')
    same(uv, keep, 'the coverage passed in')
    rms = 1e6 * sefd(nu_of(d['z']), T, ep, d['D']) / np.sqrt(2 * d['depth'] * 1e6 * d['int_time']) * np.sqrt(d['int_time'] / 3600. / d['obs'])
    win = window2(n)
    v = variance(uv.astype(float), rms, d['w'], win)
    i = -np.arange(n) % n
    vi = v[np.ix_(i, i)]
    want = (v + vi) / 4                                    # real part of the map = Hermitian part of the transform
    F = np.fft.fft2(maps)
    P = (np.abs(F)**2).sum(0)
    scale = want.max()
    if scale == 0:
        check(np.all(maps == 0), 'noise without any sampled cell')
        return False
    off = want == 0
    check(np.all(P[off] < 1e-20 * R * scale), 'noise power at cells without coverage')
    selfc = (np.arange(n)[:, None] == i[:, None]) & (np.arange(n)[None] == i[None])
    # a cell paired with itself holds the real part only
    want = np.where(selfc, v / 2, want)
    ok = want > 1e-9 * scale
    shape = np.where(selfc, R / 2., R)
    with np.errstate(all='ignore'):
        x = np.where(ok, P / np.where(ok, want, 1) / np.where(selfc, R, R) * shape, shape)
    lo, hi = stats.gamma.cdf(x, shape), stats.gamma.sf(x, shape)
    bad = ok & ((lo < 1e-10) | (hi < 1e-10))
    if bad.any():
        j = tuple(np.argwhere(bad)[0])
        fail('variance of cell %s: %.6g, expected %.6g (%d realisations, coverage %s and %s)', j, P[j] / R, want[j], R, uv[j], uv[i[j[0]], i[j[1]]])
    # all cells together (each pair counted once)
    half = ok & (selfc | (np.arange(n)[:, None] * n + np.arange(n)[None] < (i[:, None] * n + i[None])))
    tot, dof = x[half].sum(), shape[half].sum()
    check(min(stats.gamma.cdf(tot, dof), stats.gamma.sf(tot, dof)) > 1e-10, 'total variance is %.5g of the expected', tot / dof)
    check(np.all(np.abs(np.mean(F, 0))[ok] < 8 * np.sqrt(want[ok] / R)), 'the noise has a mean')
    # exact scalings for the same random state
    for what, g, s in [('observing time', f(d['seed'], obs=4 * d['obs']), 0.5), ('bandwidth', f(d['seed'], depth=9 * d['depth']), 1 / 3.),
                       ('station diameter', f(d['seed'], D_station=2 * d['D']), 0.25)]:
        close(g, maps[0] * s, rtol=1e-9, what='noise map against ' + what)
    if d['kind'] in ('any', 'hermitian', 'full'):
        g = f(d['seed'], uv=uv * 16)
        close(g, maps[0] * (0.25 if d['w'].lower().startswith('nat') else 1), rtol=1e-9, what='noise map against the number of samples')
    # the older routine for visibilities
    a = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    with np.errstate(all='ignore'):
        close(call(RS.apply_uv_response, a.copy(), uv), np.where(uv == 0, 0, a / np.sqrt(np.where(uv == 0, 1, uv))), rtol=1e-6, what='weighted visibilities')
    return bool((uv < 0.01).any() and (uv >= 0.01).any())


CUBE = dict(seed=gen.seeds(), n=gen.side(2, 6), z=gen.nice_floats(5, 20), obs=gen.nice_floats(1, 2000), box=gen.nice_floats(30, 400),
            T=st.one_of(st.none(), gen.nice_floats(10, 5000), st.just('f')), ep=st.one_of(st.none(), gen.nice_floats(0.05, 1), st.just('f')),
            D=gen.nice_floats(2, 100), w=st.sampled_from(['natural', 'uniform']), given=st.booleans(), it=st.sampled_from([600., 1800., 900.]),
            tot=st.sampled_from([1., 2., 4.]), dec=st.sampled_from([-30., 10.]), glob=st.booleans(), nz=gen.side(2, 7))


@law(LAWS, st.fixed_dictionaries(CUBE), 300, 2500, large=(3, 5, 40))
def noise_cubes(d, ctx):
    T, ep, kw = radio(d)
    rng = np.random.default_rng(d['seed'])
    n, z = d['n'], d['z']
    ants = rng.normal(size=(4, 3)) * 300 * u.m
    box = d['box']
    kb = {}
    if d['glob']:
        t2c.conv.LB = box
    else:
        kb = dict(boxsize=box)
    tel = dict(total_int_time=d['tot'], int_time=d['it'], declination=d['dec'])
    common = dict(obs_time=d['obs'], subarray_type=ants, uv_weighting=d['w'], verbose=False, **dict(kw, **tel))

    def conv_(a, zz):
        th = box / float(co.cdist(zz, H0, OM0))
        return a / (2 * K * (nu_of(zz) * 1e6)**2 / CL**2 / JY * 1e3 * th**2 / n**2)

    def slices(zs, depth, uvs):
        np.random.seed(d['seed'] % 2**31)
        out = [conv_(t2c.noise_map(n, zz, dd, obs_time=d['obs'], subarray_type=ants, boxsize=box, uv_map=m, uv_weighting=d['w'], verbose=False,
                                   **dict(kw, **tel)), zz) for zz, dd, m in zip(zs, depth, uvs)]
        return np.stack(out, -1)
    dist = lambda zz: float(co.cdist(zz, H0, OM0))
    with np.errstate(all='ignore'), nosleep(), joblib.parallel_config(backend='threading'):
        uv = t2c.get_uv_map(n, z, ants, boxsize=box, verbose=False, **tel)[0]
        # coeval
        ed = co.zinv(np.array([dist(z) - box / 2, dist(z) + box / 2]), H0, OM0)
        depth = (nu_of(ed[0]) - nu_of(ed[1])) / n
        a = dict(common, **kb)
        if d['given']:
            a.update(uv_map=uv, N_ant=4)
        if d['seed'] % 3 == 0:
            depth = 0.3
            a.update(depth_mhz=depth)
        np.random.seed(d['seed'] % 2**31)
        cube = call(t2c.noise_cube_coeval, n, z, **a)
        close(cube, slices([z] * n, [depth] * n, [uv] * n), rtol=1e-5, what='coeval noise cube')
        # lightcone of given redshifts
        zs = np.round(np.sort(z + np.cumsum(rng.uniform(0.01, 0.4, d['nz']))), 3)
        zs = np.array(list(dict.fromkeys(zs)))
        if len(zs) < 2:
            return False
        if d['seed'] % 4 == 1:
            zs = zs[::-1]
        uvs = [t2c.get_uv_map(n, zz, ants, boxsize=box, verbose=False, **tel)[0] for zz in zs]
        nus = nu_of(zs)
        dd = np.abs(np.diff(nus))
        dd = np.append(dd, dd[-1])
        np.random.seed(d['seed'] % 2**31)
        lc = call(t2c.noise_lightcone, n, list(zs) if d['seed'] % 2 else zs, n_jobs=1 + d['seed'] % 2, **dict(common, **kb))
        want = slices(zs, dd, uvs)
        close(lc, want, rtol=1e-5, what='noise lightcone')
        for k in range(len(zs)):
            close(lc[:, :, k], want[:, :, k], rtol=1e-5, what='noise slice %d' % k)
        # lightcone about a redshift: its redshifts are those of the box
        np.random.seed(d['seed'] % 2**31)
        lc = call(t2c.noise_cube_lightcone, n, z, n_jobs=1, **dict(common, **kb))
        check(lc.shape == (n, n, n), 'lightcone about a redshift has shape %s', lc.shape)
        zs = co.zinv(np.linspace(dist(z) - box / 2, dist(z) + box / 2, n), H0, OM0)
        dd = np.abs(np.diff(nu_of(zs)))
        dd = np.append(dd, dd[-1])
        # maps are shared by redshifts equal to three decimals, the first one counts
        seen = {}
        uvs = []
        for zz in zs:
            uvs.append(seen.setdefault('%.3f' % zz, t2c.get_uv_map(n, zz, ants, boxsize=box, verbose=False, **tel)[0]))
        want = slices(zs, dd, uvs)
        if all(abs(v * 1e3 - np.floor(v * 1e3) - 0.5) > 1e-2 for v in zs):
            close(lc, want, rtol=1e-4, what='noise lightcone about a redshift')
    check(np.all(np.isfinite(lc)), 'noise lightcone is not finite')
    return bool((uv > 0).any())


@law(LAWS, st.fixed_dictionaries(dict(MAP, box=gen.nice_floats(20, 1000), edges=st.integers(2, 6))), 800, 6000, large=(5, 8, 60))
def noise_power(d, ctx):
    T, ep, kw = radio(d)
    rng = np.random.default_rng(d['seed'])
    n, box = d['n'], d['box']
    uv = coverage(rng, n, d['kind'])
    ants = rng.normal(size=(3, 3)) * 100 * u.m
    q = np.fft.fftfreq(n, 1. / n) * 2 * np.pi / box
    kk = np.sqrt(q[:, None]**2 + q[None]**2)
    edges = np.sort(rng.uniform(0.2, n * 0.75, d['edges'])) * 2 * np.pi / box
    if np.min(np.abs(kk.ravel()[:, None] / edges - 1)) < 1e-6 or np.min(np.diff(edges)) <= 0:
        return False
    with np.errstate(all='ignore'):
        pn, kn, nm = call(t2c.noise_coeval_power_spectrum_1d, n, d['z'], d['depth'], obs_time=d['obs'], subarray_type=ants, kbins=edges, boxsize=box,
                          int_time=d['int_time'], uv_map=uv, uv_weighting=d['w'], return_n_modes=True, verbose=False, **kw)
        rms = 1e6 * sefd(nu_of(d['z']), T, ep, d['D']) / np.sqrt(2 * d['depth'] * 1e6 * d['int_time']) * np.sqrt(d['int_time'] / 3600. / d['obs'])
        p = variance(uv.astype(float), rms, d['w'], 1.0) / 2 * (box / n)**4 / box**2
        cnt = np.histogram(kk, edges)[0]
        want = np.histogram(kk, edges, weights=p)[0] / cnt
    close(nm, cnt.astype(float), rtol=0, what='modes per bin')
    close(kn, (edges[1:] + edges[:-1]) / 2, rtol=1e-9, what='bin centres')
    close_each(pn, want, rtol=1e-6, atol=1e-12 * p.max(), what='noise power per bin')
    two = call(t2c.noise_coeval_power_spectrum_1d, n, d['z'], d['depth'], obs_time=d['obs'], subarray_type=ants, kbins=edges, boxsize=box,
               int_time=d['int_time'], uv_map=uv, uv_weighting=d['w'], verbose=False, **kw) if cnt.all() else (pn, kn)
    check(len(two) == 2, 'number of modes returned without being asked for')
    return bool((uv < 0.01).any() and (uv >= 0.01).any())


@law(LAWS, st.fixed_dictionaries(dict(nu=gen.nice_floats(60, 250), t=gen.nice_floats(1, 5000), k=gen.nice_floats(0.01, 5), R=gen.nice_floats(100, 5000),
                                      A=gen.nice_floats(10, 5000), N=st.integers(2, 600), B=gen.nice_floats(0.1, 20), e=gen.nice_floats(0.01, 2),
                                      l=st.integers(0, 4), form=st.integers(0, 3), T=gen.nice_floats(1e4, 1e7))), 800, 4000)
def analytic_error(d, ctx):
    A = (lambda nu: d['A'] * 1e4 / nu**2) if d['form'] % 2 else d['A']
    T = (lambda nu: d['T'] * nu / 100.) if d['form'] // 2 else d['T']
    kw = dict(Rmax=d['R'], Aeff=A, Nstat=d['N'], Tsys=T, B=d['B'], epsilon=d['e'], multipole=d['l'])
    nu = d['nu']
    a, t = (A(nu) if callable(A) else A), (T(nu) if callable(T) else T)

    def ref(k, a, t, R, N, B, e, l):
        lam = 3e5 / nu * 1e-3
        dist = lambda f: float(co.cdist(1420. / f - 1, H0, OM0))
        dc = dist(nu)
        dd = abs(dc - dist(nu + B))
        return (2 / np.pi) * k**1.5 * np.sqrt(dc**2 * dd * lam**2 / a / e) * t**2 / (B * 1e6 * d['t'] * 3600.) * (np.pi * R**2 * a / (N * a)**2) * np.sqrt(2 * l + 1)
    ks = d['k'] * np.array([1., 2., 0.1])
    got = call(t2c.noise_error_ps, nu, ks, d['t'], **kw)
    close_each(got, ref(ks, a, t, d['R'], d['N'], d['B'], d['e'], d['l']), rtol=1e-5, what='analytic noise error')
    close_each(call(t2c.noise_error_ps, nu, float(ks[0]), d['t'], **kw), got[0], rtol=1e-9, what='analytic noise error of one k')
    dflt = call(t2c.noise_error_ps, nu, ks, d['t'])
    close_each(dflt, ref(ks, 526. * (nu / 150.)**-2, (140. + 60. * (nu / 300.)**-2.55) * 1e3, 1500., 48, 10., 1., 0), rtol=1e-5, what='default noise error')
    return True


WINS = {'blackmanharris': 'blackmanharris', 'Blackman-Harris': 'blackmanharris', 'blackman': 'blackman', 'barthann': 'barthann', 'bartlett': 'bartlett',
        'hamming': 'hamming', 'hann': 'hann', 'HANN': 'hann'}


@law(LAWS, st.fixed_dictionaries(dict(n=gen.side(1, 9), m=st.sampled_from(sorted(WINS) + ['gaussian', 'kaiser', 'square']), nd=st.integers(1, 4),
                                      p=gen.nice_floats(0.5, 40))), 300, 1000, large=(4, 6, 40))
def windows_(d, ctx):
    m = d['m']
    got = call(RN.signal_window, d['n'], m, ndim=d['nd'], extra_param=d['p'])
    if m == 'square' or d['nd'] == 4:
        check(got is None, 'an unknown window was made')
        return False
    w = getattr(windows, m)(d['n'], d['p']) if m in ('gaussian', 'kaiser') else getattr(windows, WINS[m])(d['n'])
    want = w
    for _ in range(d['nd'] - 1):
        want = want[..., None] * w
    close(got, want, rtol=1e-12, what='%s window in %d dimensions' % (m, d['nd']))
    return d['nd'] > 1
