"""P07 differential brightness temperature, cell by cell."""
import os
import numpy as np
from astropy import units as U, cosmology as ac
from hypothesis import strategies as st
import tools21cm as t2c
from vlib import gen, cosmology as co, files
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'The brightness temperature cube follows the 21-cm equation cell by cell'
RULE = ('cubes of ionised fraction (zeros, ones and partial cells), density and spin temperature, as arrays, objects and files; '
        'non-trivial: the cube contains neutral, partial and fully ionised cells or more than one redshift')
ASSUMPTIONS = ['densities are non-negative (negative densities mean an overdensity field, a separate convention)',
               'spin temperatures are positive']
LAWS = []
H, OM, OB, Y = 0.7, 0.27, 0.044, 0.2486
TCMB = 2.725
RHO = co.rho_crit(H) * OB


def cdt(z):
    return co.mean_dt(z, H, OM, 1 - OM, OB, Y)


@st.composite
def cubes(draw, lo=1, hi=6):
    return dict(shape=draw(gen.shape(3, lo, hi)), seed=draw(gen.seeds()), ends=draw(st.sampled_from([0.0, 0.3, 1.0])),
                z=draw(gen.nice_floats(3, 40)), dtype=draw(st.sampled_from(['float64', 'float64', 'float32', 'int'])),
                tk=draw(st.sampled_from(['cold', 'hot', 'wide', 'cmb'])), correct=draw(st.booleans()))


def make(d):
    rng = np.random.default_rng(d['seed'])
    sh = d['shape']
    xi = rng.uniform(0, 1, sh)
    e = rng.uniform(size=sh) < d['ends']
    xi = np.where(e, rng.integers(0, 2, sh), xi)
    rho = np.exp(rng.normal(size=sh)) * RHO
    rho[rng.uniform(size=sh) < 0.1] = 0.0
    tk = {'cold': lambda: rng.uniform(1, 20, sh), 'hot': lambda: 10**rng.uniform(3, 5, sh), 'wide': lambda: 10**rng.uniform(0, 5, sh),
          'cmb': lambda: TCMB * (1 + d['z']) * rng.uniform(0.9, 1.1, sh)}[d['tk']]()
    if d['dtype'] == 'float32':
        xi, tk = xi.astype('f4'), tk.astype('f4')
    if d['dtype'] == 'int':
        xi, tk = np.rint(xi).astype(int), np.ceil(tk).astype(int)
    return xi, rho, tk


def expect(xi, rho, z, tk=None, correct=False, zz=None):
    xi, rho = np.asarray(xi, float), np.asarray(rho, float)
    dt = cdt(z) * (1 - xi) * rho / RHO
    if tk is None:
        return dt
    tk = np.asarray(tk, float)
    ts = tk.copy()
    if correct:
        tmin = TCMB * 201. * ((1 + z) / 201.)**2
        with np.errstate(all='ignore'):
            ts = np.where(xi < 1, (tk - xi * 2e4) / (1 - xi), 1.0)
        ts = np.maximum(ts, tmin)
    return dt * (1 - TCMB * (1 + z) / ts)


def scale_of(xi, rho, z):
    return np.max(np.asarray(cdt(z) * (1 + 0 * xi) * rho / RHO))


@law(LAWS, cubes(), 1500, 10000, fixed=[dict(shape=[2, 2, 2], seed=1, ends=1.0, z=8.0, dtype='float64', tk='hot', correct=True)], large=(6, 8, 60))
def coeval(d, ctx):
    xi, rho, tk = make(d)
    z = d['z']
    got = call(t2c.calc_dt, xi, rho, z)
    close_each(got, expect(xi, rho, z), rtol=1e-10, what='calc_dt')
    full = call(t2c.calc_dt_full, xi, rho, tk, z, d['correct'])
    want = expect(xi, rho, z, tk, d['correct'])
    close(full, want, rtol=1e-9, atol=1e-9 * float(cdt(z)), what='calc_dt_full(correct=%s)' % d['correct'])
    x = np.asarray(xi, float)
    check(np.all(full[x == 1] == 0) and np.all(got[x == 1] == 0), 'fully ionised cells have a signal')
    if not d['correct']:
        on = (x < 1) & (rho > 0)
        t = np.asarray(tk, float)
        cmb = TCMB * (1 + z)
        clear = on & (np.abs(t - cmb) > 1e-9 * cmb)
        check(np.array_equal(full[clear] < 0, t[clear] < cmb), 'sign of the signal does not follow the spin temperature')
    if np.all((x > 0) & (x < 1)):
        return False
    return x.size > 1


@law(LAWS, cubes(hi=4), 800, 5000, large=(8, 6, 40))
def relations(d, ctx):
    """Saturation, proportionality, uniform density, one cell at a time."""
    xi, rho, tk = make(dict(d, dtype='float64'))
    z = d['z']
    base = call(t2c.calc_dt_full, xi, rho, tk, z, d['correct'])
    hot = call(t2c.calc_dt_full, xi, rho, np.full(xi.shape, 1e13), z, d['correct'])
    close_each(hot, call(t2c.calc_dt, xi, rho, z), rtol=1e-8, what='signal for very hot gas')
    close_each(call(t2c.calc_dt_full, xi, 3 * rho, tk, z, d['correct']), 3 * base, rtol=1e-9, what='signal of the tripled density')
    s = call(t2c.calc_dt, xi, np.full(xi.shape, t2c.const.rho_crit_0 * t2c.const.OmegaB), z)
    close_each(np.mean(s), float(t2c.mean_dt(z)) * np.mean(1 - xi), rtol=1e-9, atol=1e-12, what='mean signal at uniform density')
    rng = np.random.default_rng(d['seed'] + 1)
    i = tuple(int(rng.integers(0, n)) for n in xi.shape)
    x2, r2, t2 = xi.copy(), rho.copy(), tk.copy()
    x2[i], r2[i], t2[i] = rng.uniform(0, 1), RHO * 5, 7.0
    new = call(t2c.calc_dt_full, x2, r2, t2, z, d['correct'])
    m = np.ones(xi.shape, bool)
    m[i] = False
    same(new[m], base[m], 'cells other than the one changed')
    close_each(call(t2c.mean_dt, np.array([z, z + 1, 3.])), cdt(np.array([z, z + 1, 3.])), rtol=1e-9, what='mean_dt')
    return xi.size > 1


FORMS = ['array', 'object', 'name']


@law(LAWS, st.tuples(cubes(lo=3, hi=6), st.lists(st.sampled_from(FORMS), min_size=3, max_size=3), st.booleans()), 700, 5000, large=(6, 6, 40))
def sources(t, ctx):
    """Arrays, file objects and file names give the same cube, with the redshift given or found."""
    d, forms, give_z = t
    xi, rho, tk = make(dict(d, dtype='float64'))
    z = round(d['z'], 3)
    tmp = ctx.tmpdir()
    t2c.set_sim_constants(37.)      # a coarse particle mesh: densities of such small cubes stay above the single-precision underflow
    raw = (rho / RHO * (2048. / xi.shape[0])**3).astype('f4')
    fx = files.xfrac(os.path.join(tmp, 'xfrac3d_%.3f.bin' % z), xi)
    fd = files.density(os.path.join(tmp, '%.3fn_all.dat' % z), raw)
    ft = files.temper(os.path.join(tmp, 'Temper3D_%.3f.bin' % z), tk)
    conv = RHO * (xi.shape[0] / 2048.)**3
    arrs = [xi, raw.astype(float) * conv, tk.astype('f4')]
    objs = [t2c.XfracFile, t2c.DensityFile, t2c.TemperFile]
    names = [fx, fd, ft]
    src = [a if f == 'array' else call(o, n) if f == 'object' else n for f, a, o, n in zip(forms, arrs, objs, names)]
    zk = {'z': z} if give_z or all(f == 'array' for f in forms) else {}
    close_each(call(t2c.calc_dt_full, *src, correct=d['correct'], **zk), call(t2c.calc_dt_full, *arrs, z, d['correct']), rtol=1e-5,
               atol=1e-6, what='calc_dt_full from %s' % forms)
    zk = {'z': z} if give_z or forms[:2] == ['array', 'array'] else {}
    close_each(call(t2c.calc_dt, *src[:2], **zk), expect(xi, arrs[1], z), rtol=1e-5, what='calc_dt from %s' % forms[:2])
    ctx.label('/'.join(sorted(set(forms))))
    return not give_z and forms != ['array'] * 3


@law(LAWS, st.tuples(cubes(hi=5), st.integers(0, 2), st.booleans(), st.sampled_from([None, (0.6, 0.3), (0.67, 0.32)])), 700, 5000,
     fixed=[(dict(shape=[2, 2, 4], seed=1, ends=0.3, z=8.0, dtype='float64', tk='cold', correct=True), 2, False, None),
            (dict(shape=[4, 2, 3], seed=1, ends=0.3, z=8.0, dtype='float64', tk='cold', correct=True), 0, False, None)], large=(8, 8, 60))
def lightcones(t, ctx):
    d, ax, as_file, cosmo = t
    cb = [d['shape'][0]] * 3
    cb[ax] = d['shape'][2]
    d = dict(d, shape=cb)
    xi, rho, tk = make(dict(d, dtype='float32' if as_file else d['dtype']))
    rho = rho.astype('f4').astype(float)
    h, om, L, rr = H, OM, 244. / H, RHO
    if cosmo:
        h, om = cosmo
        co.set_flat(h, om, how=d['seed'])
        L = t2c.conv.LB
    # box length follows the conversion constants
    check(abs(L - t2c.conv.LB) < 1e-9 * L, 'box length %g, expected %g', t2c.conv.LB, L)
    n = cb[ax]
    zl = d['z']
    D0 = co.cdist(zl, h, om)
    zs = co.zinv(D0 + np.arange(n) * L / cb[(ax + 1) % 3], h, om)
    if zs[-1] > 60:
        return False
    zr = zs.reshape([n if i == ax else 1 for i in range(3)])
    C = co.mean_dt(zr, h, om, 1 - om, OB, Y)
    rho = rho / RHO * co.rho_crit(h) * OB
    if as_file:
        rho = rho.astype('f4').astype(float)
    args = [xi, tk, rho]
    if as_file:
        tmp = ctx.tmpdir()
        args = [files.cbin(os.path.join(tmp, nm + '.cbin'), a) for nm, a in zip(('xfrac', 'temper', 'dens'), (xi, tk, rho))]
    x = np.asarray(xi, float)
    delta = rho / (co.rho_crit(h) * OB)
    want = C * (1 - x) * delta
    kw = {'los_axis': ax} if ax != 2 or d['seed'] % 2 else {}
    got = call(t2c.calc_dt_lightcone, args[0], args[2], zl, **kw)
    close_each(got, want, rtol=2e-5, what='calc_dt_lightcone along axis %d' % ax)
    ts = np.asarray(tk, float)
    sens = TCMB * (1 + zr) / ts
    if d['correct']:
        tmin = TCMB * 201 * ((1 + zr) / 201.)**2
        with np.errstate(all='ignore'):
            # single-precision cubes: what the cancellation in the neutral temperature loses
            lost = np.where(x < 1, 1e-6 * (ts + x * 2e4) / (1 - x)**2, 0.0)
            ts = np.where(x < 1, (ts - x * 2e4) / (1 - x), 1.0)
        low = np.maximum(ts - lost, tmin)
        ts = np.maximum(ts, tmin)
    else:
        low = ts
    full = call(t2c.calc_dt_full_lightcone, args[0], args[1], args[2], zl, correct=d['correct'], **kw)
    wf = want * (1 - TCMB * (1 + zr) / ts)
    err = np.abs(full - wf)
    tol = 4e-5 * want * (1 + TCMB * (1 + zr) / ts) + want * TCMB * (1 + zr) * (1 / low - 1 / ts) + 1e-12
    check(np.all(np.isfinite(full)), 'calc_dt_full_lightcone has undefined cells')
    check(np.shape(full) == wf.shape and np.all(err <= tol), 'calc_dt_full_lightcone along axis %d: largest error %.3g of %.3g', ax,
          np.max(err), np.max(np.abs(wf)))
    return n > 1


@law(LAWS, st.tuples(st.integers(1, 6), gen.seeds(), gen.nice_floats(4, 30), gen.nice_floats(1, 500), st.sampled_from(['float', 'kg', 'Msun']),
                     st.sampled_from(['float', 'Mpc', 'kpc']), st.sampled_from([None, 'Planck15']), st.sampled_from([0.249, 0.2, 0.0])), 500, 3000)
def halos(t, ctx):
    n, seed, z, L, mu, lu, cosmo, yp = t
    m = 10**np.random.default_rng(seed).uniform(8, 13, (n, n, n))
    mm = m if mu == 'float' else (m * U.Msun).to(mu)
    LL = L if lu == 'float' else (L * U.Mpc).to(lu)
    kw = {'cosmo': getattr(ac, cosmo)} if cosmo else {}
    got = call(t2c.temperature.calc_dt_halo, mm, LL, z, Y_p=yp, **kw)
    got = got.to('').value if hasattr(got, 'unit') else got
    c = getattr(ac, cosmo or 'Planck18')
    rho = (m * U.Msun / (L * U.Mpc / n)**3 / (c.Ob0 * c.critical_density0)).to('').value
    close_each(got, cdt(z) * rho, rtol=1e-8, what='calc_dt_halo')
    return n > 1


@law(LAWS, st.fixed_dictionaries(dict(cube=cubes(hi=3), h=gen.nice_floats(0.4, 1.2), Om=gen.nice_floats(0.05, 1.2), Ob=gen.nice_floats(0.005, 0.1), lam=st.none() | gen.nice_floats(0, 1.2),
                                      Y=st.sampled_from([None, 0.0, 0.3]), zint=st.booleans(), order=st.permutations(['h', 'Ob', 'Y', 'Om']))), 500, 4000,
     fixed=[dict(cube=dict(shape=[2, 1, 2], seed=3, ends=0.3, z=0.0, dtype='float64', tk='hot', correct=True), h=0.7, Om=0.3, Ob=0.05, lam=0.5, Y=None, zint=True, order=['h', 'Ob', 'Y', 'Om'])], large=(8, 6, 40))
def cosmologies(d, ctx):
    """Any density parameters, curved or flat, set in any order."""
    for k in d['order']:
        if k == 'h':
            t2c.set_hubble_h(d['h'])
        if k == 'Ob':
            t2c.set_omega_baryon(d['Ob'])
        if k == 'Om':
            t2c.set_omega_matter(d['Om'])
            if d['lam'] is not None:
                t2c.set_omega_lambda(d['lam'])
        if k == 'Y' and d['Y'] is not None:
            t2c.const.set_abundance_helium(d['Y'])
    lam = 1 - d['Om'] if d['lam'] is None else d['lam']
    y = Y if d['Y'] is None else d['Y']
    z = int(d['cube']['z']) if d['zint'] else d['cube']['z']
    zz = np.array([z, z + 2.5, 30.])
    Ok = 1 - d['Om'] - lam
    if np.any(d['Om'] * (1 + zz)**3 + Ok * (1 + zz)**2 + lam <= 0.01):
        return False
    ctx.label('flat' if abs(Ok) < 1e-9 else 'open' if Ok > 0 else 'closed')
    C = co.mean_dt(zz, d['h'], d['Om'], lam, d['Ob'], y)
    close_each(call(t2c.mean_dt, zz), C, rtol=1e-9, what='mean signal')
    close_each(call(t2c.mean_dt, z), C[0], rtol=1e-9, what='mean signal at one redshift')
    xi, rho, tk = make(d['cube'])
    rb = co.rho_crit(d['h']) * d['Ob']
    rho = rho / RHO * rb
    want = C[0] * (1 - np.asarray(xi, float)) * rho / rb
    close_each(call(t2c.calc_dt, xi, rho, z), want, rtol=1e-9, what='calc_dt')
    ts = np.asarray(tk, float)
    close(call(t2c.calc_dt_full, xi, rho, tk, z, False), want * (1 - TCMB * (1 + z) / ts), rtol=1e-9, atol=1e-10 * C[0], what='calc_dt_full')
    if d['cube']['correct']:
        close(call(t2c.calc_dt_full, xi, rho, tk, z), call(t2c.calc_dt_full, xi, rho, tk, z, True), rtol=0, atol=0, what='correction by default')
    return True
