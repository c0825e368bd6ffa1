"""P26 Lyman-alpha transmission and line-intensity maps."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.cosmology import FlatLambdaCDM, Planck18
import tools21cm as t2c
from vlib import gen
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Lyman-alpha and line-intensity maps follow their recipes cell by cell'
RULE = ('cubes of 1-6 cells a side (different per axis), any neutral fraction and density, temperatures as numbers, arrays or quantities in any unit, all windows (including longer than the box), all axes, '
        'halo lists of 0-30 haloes in any unit; non-trivial: fields that vary from cell to cell, or at least two haloes')
ASSUMPTIONS = ['physical constants to 1e-3 (own values)', 'effective depths are compared as transmitted flux, so that opaque windows (depth > 700) may be infinite',
               'the halo recipes are those written in the code (the published constants could not be consulted offline)', 'tau_nu_lyA has no density and no (1+z) factors, as coded']
LAWS = []
KB, MP, ME, CL, PC, MPC = 1.380649e-16, 1.67262192e-24, 9.1093837e-28, 2.99792458e10, 3.0856776e18, 3.0856776e24
GRAV = 6.6743e-8


def profile(x, a):
    """(a/pi) int exp(-y^2)/((y-x)^2+a^2) dy with the pole taken out: exact sampling with step << a."""
    h = min(0.02, a / 12)
    y = np.arange(-7, 7 + h, h)
    return a / np.pi * np.sum(np.exp(-y**2) / ((y - x)**2 + a**2)) * h


VO = dict(seed=gen.seeds(), a=st.sampled_from([0.03, 0.05, 0.1, 0.37, 1., 2.5, 6.]), form=st.sampled_from(['array', 'scalar', 'cube', 'list2']), big=st.booleans())


@law(LAWS, st.fixed_dictionaries(VO), 60, 300)
def voigt(d, ctx):
    rng = np.random.default_rng(d['seed'])
    x = rng.uniform(-4, 4, (2, 3)) * (20 if d['big'] else 1)
    if d['form'] == 'scalar':
        x = float(x[0, 0])
    a = d['a']
    x0 = np.copy(x)
    H = call(t2c.approximation_voigt_faddeeva, x, a)
    same(np.asarray(x), x0, what='offsets')
    w = np.vectorize(lambda q: profile(q, a))(x)
    check(np.shape(H) == np.shape(x), 'shape of the profile', np.shape(H))
    close_each(np.asarray(H), w, rtol=2e-6, what='Voigt profile')
    close_each(np.asarray(call(t2c.approximation_voigt_faddeeva, -x, a)), np.asarray(H), rtol=1e-9, what='even in the offset')
    if not d['big']:
        D = call(t2c.direct_voigt_profile, x, a)
        check(np.shape(D) == np.shape(x), 'shape of the direct profile', np.shape(D))
        close_each(np.asarray(D), w, rtol=1e-5, what='directly integrated profile')
    # vanishing width: a Gaussian
    g = call(t2c.approximation_voigt_faddeeva, np.asarray(x) % 2, 1e-7)
    close_each(np.asarray(g), np.exp(-(np.asarray(x) % 2)**2), rtol=1e-4, what='Gaussian limit')
    return True


def sigma(nu, T):
    t4 = np.asarray(T, float) / 1e4
    dD = 2.46e15 * np.sqrt(2 * KB * np.asarray(T, float) / MP) / CL
    x = (nu - 2.46e15) / dD
    return 5.9e-14 / np.sqrt(t4) * np.vectorize(profile)(x, 4.7e-4 / np.sqrt(t4)) if False else (x, 4.7e-4 / np.sqrt(t4), 5.9e-14 / np.sqrt(t4), dD)


def voigt_ref(x, a):
    """Small a: Gaussian core plus first order in a, plus the damping wing (accurate to ~1e-3 for a < 0.01)."""
    from scipy.special import dawsn
    x, a = np.broadcast_arrays(np.asarray(x, float), np.asarray(a, float))
    return np.exp(-x**2) * (1 + a**2 * (1 - 2 * x**2)) - 2 * a / np.sqrt(np.pi) * (1 - 2 * x * dawsn(x))


def temp(rng, form, sh):
    T = 10**rng.uniform(2.5, 5, sh)
    if form in ('float', 'K', 'mK'):
        T = float(T.flat[0])
    if form == 'int':
        T = int(T.flat[0])
    arg = {'float': T, 'int': T, 'array': np.copy(T), 'K': None, 'mK': None, 'arrayK': None}[form]
    if form in ('K', 'arrayK'):
        arg = np.copy(T) * u.K if form == 'arrayK' else T * u.K
    if form == 'mK':
        arg = T * 1e3 * u.mK
    return T, arg


TF = ['float', 'int', 'array', 'K', 'mK', 'arrayK']


@law(LAWS, st.fixed_dictionaries(dict(seed=gen.seeds(), T=st.sampled_from(TF), nu=st.sampled_from(['Hz', 'q', 'THz', 'array']))), 80, 400)
def cross_section(d, ctx):
    rng = np.random.default_rng(d['seed'])
    sh = (2, 3)
    T, arg = temp(rng, d['T'], sh)
    dD1 = 2.46e15 * np.sqrt(2 * KB * 1e4 / MP) / CL
    nu = 2.46e15 + dD1 * rng.uniform(-3, 3, sh if d['nu'] == 'array' else ())
    nin = {'Hz': float(nu) if np.ndim(nu) == 0 else nu, 'q': nu * u.Hz, 'THz': nu / 1e12 * u.THz, 'array': np.copy(nu)}[d['nu']]
    keep = np.copy(arg.value) if hasattr(arg, 'unit') else np.copy(arg)
    s = call(t2c.lyA_scattering_cross_section, nin, arg)
    same(arg.value if hasattr(arg, 'unit') else np.asarray(arg), keep, what='temperature given')
    check(s.unit.is_equivalent(u.cm**2), 'unit of the cross-section', s.unit)
    x, a, s0, _ = sigma(nu, T)
    w = s0 * voigt_ref(x, a)
    got = s.to('cm2').value
    check(np.shape(got) == np.broadcast_shapes(np.shape(T), np.shape(nu)), 'shape', np.shape(got))
    # frequencies given in THz lose the last digits of the offset: tolerance from the slope
    slope = np.abs(s0 * 2 * np.abs(x) * np.exp(-x**2)) * 4e-4 * np.maximum(1, np.abs(x)) * 2
    check((np.abs(got - w) <= 5e-3 * np.abs(w) + slope + 1e-24).all(), 'cross-section', got, w)
    # its integral over frequency is the strength of the line, pi e^2/(m_e c) f
    Ts = float(np.ravel(T)[0])
    dD = 2.46e15 * np.sqrt(2 * KB * Ts / MP) / CL
    ns = 2.46e15 + dD * np.linspace(-8, 8, 801)
    tot = call(t2c.lyA_scattering_cross_section, ns, Ts).to('cm2').value.sum() * (ns[1] - ns[0])
    close(tot, 0.026540 * 0.4162, rtol=0.01, what='line strength')
    return np.size(got) > 1 or d['T'] in ('mK', 'K')


def H_of(z, c):
    h = c.H0.to('1/s').value
    om = c.Om0
    return np.array([float(c.H(z).to('1/s').value)])[0], h, om


def cosmology_of(d):
    return None if d['cosmo'] is None else FlatLambdaCDM(H0=d['cosmo'][0], Om0=d['cosmo'][1], Ob0=d['cosmo'][2])


def rho_b(c):
    h0 = c.H0.value * 1e5 / MPC
    return c.Ob0 * 3 * h0**2 / (8 * np.pi * GRAV)


def hubble(c, z):
    return float(c.H0.value * 1e5 / MPC * np.sqrt(c.Om0 * (1 + z)**3 + c.Ogamma0 * (1 + z)**4 + (1 - c.Om0 - c.Ogamma0))) if c is not Planck18 else float(c.H(z).value * 1e5 / MPC)


COS = st.one_of(st.none(), st.tuples(st.sampled_from([60., 67.4, 75.]), st.sampled_from([0.25, 0.31, 0.4]), st.sampled_from([0.04, 0.049])))
GP = dict(seed=gen.seeds(), sh=gen.shape(3, 1, 6), z=st.sampled_from([0., 3., 5.5, 6.3, 8.]), cosmo=COS, dens=st.sampled_from(['over', 'rho', 'over', 'big']),
          f=st.sampled_from([None, 0.416, 0.3]), lam=st.sampled_from([None, 1216., 'nm', 'A']), k=st.sampled_from([None, 0.5, 2.]), X=st.sampled_from([None, 0.7]), dt=st.sampled_from(['f8', 'f4']))


def fields(rng, d):
    sh = tuple(d['sh'])
    x = rng.uniform(size=sh)
    x[rng.uniform(size=sh) < 0.2] = 0
    x = x * 10**rng.uniform(-6, 0)
    dn = rng.uniform(-1, 3, sh)
    rho = None
    if d['dens'] == 'rho':
        rho = rng.uniform(1.5, 9, sh)
    elif d['dens'] == 'big':
        dn = dn * 10
        dn = np.maximum(dn, -1)
    elif dn.min() > 1:
        dn.flat[0] = 0.5
    x, dn = x.astype(d['dt']), (dn if rho is None else rho).astype(d['dt'])
    delta = dn.astype(float)
    if dn.min() > 1:
        delta = delta / delta.mean() - 1
    return x, dn, delta


def gp(x, delta, z, c, f, lam, k, X):
    nH = (1 + delta) * X * rho_b(c) / (MP + ME)
    return 1.344e-7 * k * (f / 0.416) * (lam / 1216.) / hubble(c, z) * (1 + z)**3 * nH * np.asarray(x, float)


@law(LAWS, st.fixed_dictionaries(GP), 120, 700, large=(6, 5, 40))
def gunn_peterson(d, ctx):
    rng = np.random.default_rng(d['seed'])
    x, dn, delta = fields(rng, d)
    c = cosmology_of(d)
    kw = {}
    if d['f'] is not None:
        kw['f_alpha'] = d['f']
    lam = 1216.
    if d['lam'] is not None:
        lam = 1300.
        kw['lambda_alpha'] = {1216.: 1300., 'nm': 130. * u.nm, 'A': 1300. * u.Angstrom}[d['lam']]
    if d['k'] is not None:
        kw['k_res'] = d['k']
    if d['X'] is not None:
        kw['X_H'] = d['X']
    if c is not None:
        kw['cosmo'] = c
    x0, d0 = x.copy(), dn.copy()
    t = call(t2c.tau_nu_lyA_FGPA, d['z'], x, dn, **kw)
    same(x, x0, what='neutral fraction'), same(dn, d0, what='density')
    w = gp(x, delta, d['z'], c or Planck18, d['f'] or 0.416, lam, d['k'] or 1., d['X'] or 0.76)
    check(np.shape(t) == x.shape, 'shape', np.shape(t))
    check((np.abs(t - w) <= 2e-3 * np.abs(w) + 1e-6 * np.abs(w).max()).all(), 'optical depth of a cell', np.ravel(t)[:4], np.ravel(w)[:4])
    # exactly proportional to the neutral fraction and to the density of the same cell
    A = call(t2c.tau_nu_lyA_FGPA, d['z'], x.astype(float) / 2, dn, **kw)
    close(2 * A, np.asarray(t, float), rtol=1e-5, what='proportional to the neutral fraction')
    i = tuple(int(rng.integers(0, n)) for n in x.shape)
    y = x.copy()
    y[i] = 0
    B = call(t2c.tau_nu_lyA_FGPA, d['z'], y, dn, **kw)
    t2 = np.array(t)
    t2[i] = 0
    same(B, t2, what='other cells unaffected')
    return x.size > 1 and np.ptp(x) > 0


SM = dict(seed=gen.seeds(), sh=gen.shape(3, 1, 5), z=st.sampled_from([0., 5.5, 8.]), cosmo=COS, T=st.sampled_from(['float', 'K', 'mK', 'array', 'arrayK']),
          dr=st.sampled_from(['float', 'Mpc', 'kpc', 'cells']), nu=st.sampled_from([None, 'Hz', 'q']), X=st.sampled_from([None, 0.7]))


def smith(x, T, drpc, nu, c, X):
    xx, a, s0, _ = sigma(nu, T)
    return 1.820e5 * voigt_ref(xx, a) / np.sqrt(np.asarray(T) / 1e4) * np.asarray(x, float) * X * rho_b(c) / MP * drpc


@law(LAWS, st.fixed_dictionaries(SM), 80, 400, large=(4, 4, 30))
def path(d, ctx):
    rng = np.random.default_rng(d['seed'])
    sh = tuple(d['sh'])
    x = rng.uniform(size=sh)
    T, arg = temp(rng, d['T'], sh)
    c = cosmology_of(d)
    dr = rng.uniform(0.1, 3, sh if d['dr'] == 'cells' else ())
    drin = {'float': float(dr) if np.ndim(dr) == 0 else dr, 'Mpc': dr * u.Mpc, 'kpc': dr * 1e3 * u.kpc, 'cells': dr * u.Mpc}[d['dr']]
    kw = {} if c is None else dict(cosmo=c)
    if d['X'] is not None:
        kw['X_H'] = d['X']
    nu = 2.46e15
    if d['nu'] is not None:
        nu = 2.46e15 + float(rng.uniform(-1, 1)) * 1e11
        kw['nu'] = nu if d['nu'] == 'Hz' else nu * u.Hz
    t = call(t2c.tau_nu_lyA, d['z'], x, arg, drin, **kw)
    w = smith(x, T, dr * 1e6, nu, c or Planck18, d['X'] or 0.76)
    check(np.shape(t) == sh, 'shape', np.shape(t))
    xx = np.abs(sigma(nu, T)[0])
    check((np.abs(np.asarray(t) - w) <= (4e-3 + 2e-3 * xx**2) * np.abs(w) + 1e-12 * np.abs(w).max()).all(), 'optical depth of a path through a cell', np.ravel(t)[:4], np.ravel(w)[:4])
    return x.size > 1


LOS = dict(seed=gen.seeds(), sh=gen.shape(3, 1, 6), cube=st.booleans(), axis=st.sampled_from([None, 0, 1, 2]), z=st.sampled_from([4., 6., 7.]), cosmo=COS, dens=st.sampled_from(['over', 'rho']),
           L=gen.side(1, 15), form=st.sampled_from(['int', 'int', 'Mpc', 'kpc', 'default', 'npint']), method=st.sampled_from(['FGPA', 'fgpa', 'default', 'smith2015']), T=st.sampled_from(['K', 'arrayK', 'float']),
          extra=st.booleans(), dt=st.sampled_from(['f8', 'f4']), box=st.booleans())


@law(LAWS, st.fixed_dictionaries(LOS), 150, 900, large=(5, 5, 40))
def window(d, ctx):
    rng = np.random.default_rng(d['seed'])
    sh = tuple(d['sh'])
    if d['cube'] or d['form'] in ('Mpc', 'kpc', 'default'):
        sh = (sh[0],) * 3
    x, dn, delta = fields(rng, dict(d, sh=sh))
    ax = 2 if d['axis'] is None else d['axis']
    c = cosmology_of(d)
    C = c or Planck18
    kw = {} if c is None else dict(cosmo=c)
    if d['axis'] is not None:
        kw['los_axis'] = ax
    if d['extra']:
        kw['X_H'] = 0.7
    X = 0.7 if d['extra'] else 0.76
    n = sh[ax]
    box = 200 / C.h
    if d['box']:
        box = 120.
        kw['box_len'] = box * u.Mpc
    L = d['L']
    if d['form'] == 'default':
        L = int(np.round(30. / box * n))
        if abs(30. / box * n % 1 - 0.5) < 1e-6 or L < 1:
            return False
    elif d['form'] in ('Mpc', 'kpc'):
        len_ = (L + float(rng.uniform(-0.45, 0.45))) * box / n
        kw['los_len'] = len_ * u.Mpc if d['form'] == 'Mpc' else len_ * 1e3 * u.kpc
    else:
        kw['los_len'] = L if d['form'] == 'int' else np.int64(L)
    if d['method'] == 'smith2015':
        T, arg = temp(rng, d['T'], sh)
        kw.update(method='smith2015', Tk=arg, dr=0.2 * u.Mpc)
        tau = smith(x, T, 0.2e6, 2.46e15, C, X)
        tol = 5e-3
    else:
        if d['method'] != 'default':
            kw['method'] = d['method']
        f, lam, k = 0.416, 1216., 1.
        if d['extra']:
            f, lam, k = 0.3, 1300., 0.5
            kw.update(f_alpha=f, lambda_alpha=lam * u.Angstrom, k_res=k)
        tau = gp(x, delta, d['z'], C, f, lam, k, X)
        tol = 3e-3
    x0, d0 = x.copy(), dn.copy()
    t = np.asarray(call(t2c.tau_nu_lyA_los, d['z'], x, dn, **kw))
    same(x, x0, what='neutral fraction'), same(dn, d0, what='density')
    check(t.shape == sh, 'orientation of the output: shape', t.shape, sh)
    F = np.moveaxis(np.exp(-tau), ax, 2)
    lo = np.moveaxis(np.exp(-tau * (1 + tol)), ax, 2)
    hi = np.moveaxis(np.exp(-tau * (1 - tol)), ax, 2)
    idx = (np.arange(n)[:, None] + np.arange(-(L // 2), L - L // 2)[None, :]) % n
    lo, hi = (np.moveaxis(q[:, :, idx].mean(axis=3), 2, ax) for q in (lo, hi))
    got = np.exp(-t)
    check(not np.isnan(t).any(), 'undefined depth')
    check(((got >= lo * (1 - 1e-5) - 1e-9) & (got <= hi * (1 + 1e-5) + 1e-9)).all(), f'mean flux of the window of {L} cells along axis {ax}', np.ravel(got)[:4], np.ravel(lo)[:4])
    ctx.label('long' if L > 2 * n else 'short')
    return n > 1 and np.ptp(F) > 1e-3


HAL = dict(seed=gen.seeds(), n=gen.side(0, 30), g=gen.side(1, 6, 20), B=st.sampled_from([10., 64.3, 100.]), z=st.sampled_from([0., 3., 7., 9.5]), cosmo=COS,
           mform=st.sampled_from(['float', 'Msun', 'kg', '1e9']), pform=st.sampled_from(['float', 'Mpc', 'kpc']), bform=st.sampled_from(['float', 'Mpc', 'kpc']))


def haloes(rng, d):
    M = 10**rng.uniform(8.5, 12.5, d['n'])
    P = rng.uniform(0, d['B'], (d['n'], 3))
    m = {'float': M, 'Msun': M * u.Msun, 'kg': (M * u.Msun).to('kg'), '1e9': (M / 1e9) * (1e9 * u.Msun)}[d['mform']]
    p = {'float': P, 'Mpc': P * u.Mpc, 'kpc': P * 1e3 * u.kpc}[d['pform']]
    b = {'float': d['B'], 'Mpc': d['B'] * u.Mpc, 'kpc': d['B'] * 1e3 * u.kpc}[d['bform']]
    return M, P, m, p, b


def on_grid(v, P, B, g):
    out = np.zeros((g, g, g))
    np.add.at(out, tuple(np.minimum((P / B * g).astype(int), g - 1).T), v)
    return out


def compare(got, w, unit, P, d, what):
    check(got.unit.is_equivalent(unit), what + ' unit', got.unit)
    val = got.to(unit).value
    check(val.shape == (d['g'],) * 3, what + ' shape', val.shape)
    close(val.sum(), w.sum(), rtol=1e-6, what=what + ' total over the grid')
    q = P / d['B'] * d['g']
    if (np.abs(q - np.round(q)) > 1e-6).all():
        close(val, w, rtol=1e-6, what=what + ' per cell')


@law(LAWS, st.fixed_dictionaries(dict(HAL, par=st.booleans())), 80, 400, large=(10, 4, 30))
def hydrogen(d, ctx):
    rng = np.random.default_rng(d['seed'])
    if d['n'] == 0:
        return False
    M, P, m, p, b = haloes(rng, d)
    c = cosmology_of(d)
    C = c or Planck18
    kw = {} if c is None else dict(cosmo=c)
    Y, al, v0, be = 0.249, 0.9, 10**1.56, -0.58
    if d['par']:
        Y, al, v0, be = 0.24, 0.5, 50., -0.3
        kw.update(Y_p=Y, alpha=al, v_c0=v0 * u.km / u.s, beta=be)
    keep = np.copy(getattr(m, 'value', m)), np.copy(getattr(p, 'value', p))
    got = call(t2c.M_HI_on_grid, d['z'], m, p, b, d['g'], **kw)
    same(np.asarray(getattr(m, 'value', m)), keep[0], what='masses'), same(np.asarray(getattr(p, 'value', p)), keep[1], what='positions')
    vc = 96.6 * (178 * C.Om0 / 54.4)**(1 / 6) * ((1 + d['z']) / 3.3)**0.5 * (M / 1e11)**(1 / 3)
    v = al * (1 - Y) * C.Ob0 / C.Om0 * M * (M / C.h / 1e11)**be * np.exp(-(v0 / vc)**3)
    compare(got, on_grid(v, P, d['B'], d['g']), u.Msun, P, d, 'neutral gas mass')
    return d['n'] > 1


CII = {'Silva2015m1': (0.8475, 7.2203), 'silva2015m2': (1., 6.9647), 'Silva2015M3': (0.8727, 6.7250), 'Silva2015m4': (0.9231, 6.5234)}


@law(LAWS, st.fixed_dictionaries(dict(HAL, rec=st.sampled_from([None] + sorted(CII)), par=st.booleans(), sfr=st.sampled_from([None, 'silva2013', 'Silva2015', 'function', 'dict', 'kw']))), 100, 500, large=(10, 4, 30))
def carbon(d, ctx):
    rng = np.random.default_rng(d['seed'])
    if d['n'] == 0:
        return False
    M, P, m, p, b = haloes(rng, d)
    c = cosmology_of(d)
    kw = {} if c is None else dict(cosmo=c)
    if d['rec']:
        kw['recipe'] = d['rec']
    aL, bL = CII[d['rec'] or 'Silva2015m1']
    if d['par']:
        aL, bL = 0.7, 7.5
        kw.update(a_LCII=aL, b_LCII=bL)
    q = dict(SFR0=2.25e-26, a_SFR=2.59, b_SFR=-0.62, d_SFR=0.40, e_SFR=-2.25, c1_SFR=8e8, c2_SFR=7e9, c3_SFR=1e11)
    if d['sfr'] in ('dict', 'kw'):
        q.update(SFR0=1e-25, a_SFR=2.4, b_SFR=-0.5, d_SFR=0.3, e_SFR=-2., c1_SFR=5e8, c2_SFR=1e10, c3_SFR=3e11)
        un = {k: v * (u.Msun / u.yr if k == 'SFR0' else u.Msun if k[0] == 'c' else 1) for k, v in q.items()}
        keep = dict(un)
        kw.update(dict(SFR=un) if d['sfr'] == 'dict' else un)
    elif d['sfr'] == 'function':
        kw['SFR'] = lambda M, z: M.to('Msun').value / 1e10 * (1 + z) * u.Msun / u.yr
    elif d['sfr']:
        kw['SFR'] = d['sfr']
    got = call(t2c.L_CII_on_grid, d['z'], m, p, b, d['g'], **kw)
    if d['sfr'] in ('dict', 'kw'):
        check(un == keep, 'dictionary of parameters changed')
    sfr = q['SFR0'] * (1 + (d['z'] - 7) * 7.5e-2) * M**q['a_SFR'] * (1 + M / q['c1_SFR'])**q['b_SFR'] * (1 + M / q['c2_SFR'])**q['d_SFR'] * (1 + M / q['c3_SFR'])**q['e_SFR']
    if d['sfr'] == 'function':
        sfr = M / 1e10 * (1 + d['z'])
    v = 10**(aL * np.log10(sfr) + bL)
    compare(got, on_grid(v, P, d['B'], d['g']), u.Lsun, P, d, 'CII luminosity')
    return d['n'] > 1


@law(LAWS, st.fixed_dictionaries(dict(HAL, k=st.integers(1, 29))), 40, 200, large=(5, 3, 20))
def halo_by_halo(d, ctx):
    """Maps of two lists add up to the map of the joined list, in any order."""
    rng = np.random.default_rng(d['seed'])
    if d['n'] < 2:
        return False
    M, P, m, p, b = haloes(rng, d)
    k = 1 + d['k'] % (d['n'] - 1)
    o = rng.permutation(d['n'])
    for f in (t2c.M_HI_on_grid, t2c.L_CII_on_grid):
        A = call(f, d['z'], m, p, b, d['g'])
        B = call(f, d['z'], m[:k], p[:k], b, d['g']) + call(f, d['z'], m[k:], p[k:], b, d['g'])
        close(B.value, A.value, rtol=1e-9, what='sum of the parts')
        close(call(f, d['z'], m[o], p[o], b, d['g']).value, A.value, rtol=1e-9, what='order of the haloes')
    return True
