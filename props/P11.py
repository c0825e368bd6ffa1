"""P11 Thomson optical depth."""
import contextlib, time
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from vlib import gen, cosmology as co
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'The Thomson optical depth integrates the electron column along the line of sight'
RULE = ('ionisation histories with 1-25 outputs in any order, several cosmologies and numbers of initial points, cubes and coeval boxes; '
        'non-trivial: at least two outputs with a non-constant ionisation')
ASSUMPTIONS = ['flat cosmologies, as the analytic fully ionised value presumes',
               'the integral between outputs is the trapezium rule in redshift']
LAWS = []
Y = 0.2486


def K(h, om, ob):
    return 2 * 3e10 * 6.65e-25 * ob / om * co.rho_crit(h) * 1.074 * (1 - Y) / 1.672661e-24 / (3 * 100 * h * 1e5 / co.MPC_CM)


@st.composite
def hist(draw, nmax=25):
    n = draw(gen.side(1, nmax))
    return dict(n=n, seed=draw(gen.seeds()), cosmo=draw(st.sampled_from([None, [0.67, 0.32, 0.049], [1.0, 0.9, 0.03]])),
                points=draw(st.sampled_from([50, 50, 1, 2, 7, 33])), kind=draw(st.sampled_from(['random', 'full', 'neutral', 'step', 'int'])),
                order=draw(st.sampled_from(['up', 'down', 'mixed'])), form=draw(st.sampled_from(['array', 'list'])),
                top=draw(st.sampled_from([2., 7., 30.])))


def params(d):
    if d['cosmo']:
        h, om, ob = d['cosmo']
        co.set_flat(h, om, ob, how=d['seed'])
        return h, om, ob
    return 0.7, 0.27, 0.044


def history(d, shape=()):
    rng = np.random.default_rng(d['seed'])
    z = np.sort(rng.uniform(0.1, d['top'], d['n'])) + np.arange(d['n']) * 1e-3
    x = {'random': lambda: rng.uniform(0, 1.2, shape + (d['n'],)), 'full': lambda: np.ones(shape + (d['n'],)),
         'neutral': lambda: np.zeros(shape + (d['n'],)),
         'step': lambda: (rng.uniform(0, 1, shape + (1,)) > np.arange(d['n']) / d['n']).astype(float),
         'int': lambda: rng.integers(0, 2, shape + (d['n'],))}[d['kind']]()
    p = np.arange(d['n'])[::-1] if d['order'] == 'down' else rng.permutation(d['n']) if d['order'] == 'mixed' else np.arange(d['n'])
    return z, x, p


def expect(x, z, h, om, ob, npts):
    k = K(h, om, ob)
    z0 = np.array([(i + 1) * z[0] / npts for i in range(npts)])
    out = [k * (co.E(q, om, 1 - om) - 1) + np.zeros(x.shape[:-1]) for q in z0]
    f = x * (1 + z)**2 / co.E(z, om, 1 - om)
    t = out[-1]
    out.append(t)
    for i in range(1, len(z)):
        t = t + 1.5 * k * om * (f[..., i] + f[..., i - 1]) / 2 * (z[i] - z[i - 1])
        out.append(t)
    return np.stack(out, axis=-1), np.concatenate([z0, z])


@law(LAWS, hist(), 1200, 10000, large=(8, 8, 60))
def one_dimension(d, ctx):
    h, om, ob = params(d)
    z, x, p = history(d)
    a, b = (x[p], z[p]) if d['form'] == 'array' else (list(x[p]), list(z[p]))
    kw = {} if d['points'] == 50 else {'num_points': d['points']}
    keep = np.array(a), np.array(b)
    t, zz = call(t2c.tau, a, b, **kw)
    want, wz = expect(x.astype(float), z, h, om, ob, d['points'])
    close_each(zz, wz, rtol=1e-10, what='redshifts')
    close_each(t, want, rtol=1e-8, what='optical depth')
    same(np.array(a), keep[0], 'the ionisation history')
    same(np.array(b), keep[1], 'the redshifts')
    check(np.all(np.diff(t) >= -1e-15), 'optical depth decreases with redshift')
    y = 0.3 * x + 0.1
    t2_, _ = call(t2c.tau, y[p], z[p], **kw)
    one, _ = call(t2c.tau, np.ones(len(z)), z, **kw)
    n = d['points']
    close(t2_[n:] - t2_[n], 0.3 * (np.asarray(t)[n:] - t[n]) + 0.1 * (one[n:] - one[n]), rtol=1e-8, atol=1e-14, what='optical depth of a combined history')
    return d['n'] > 2 and d['kind'] in ('random', 'step', 'int')


@law(LAWS, st.tuples(hist(3), gen.nice_floats(3, 30)), 200, 1500, large=(8,6,40))
def fully_ionised(t, ctx):
    """A finely sampled fully ionised history gives the closed form everywhere."""
    d, top = t
    h, om, ob = params(d)
    z = np.linspace(0.5, top, 1500)
    tt, zz = call(t2c.tau, np.ones(1500), z)
    close_each(tt, K(h, om, ob) * (co.E(zz, om, 1 - om) - 1), rtol=2e-5, what='fully ionised optical depth')
    mid = int(d['seed'] % 1400) + 5
    x = np.where(np.arange(1500) < mid, 1., 0.)
    tn, _ = call(t2c.tau, x, z)
    check(np.ptp(tn[50 + mid:]) == 0, 'neutral gas adds to the optical depth')
    return True


@law(LAWS, st.tuples(hist(10), gen.side(1, 4), gen.side(1, 4)), 700, 5000, large=(6, 8, 60))
def maps(t, ctx):
    d, nx, ny = t
    h, om, ob = params(d)
    z, x, p = history(d, (nx, ny))
    kw = {} if d['points'] == 50 else {'num_points': d['points']}
    zz = z[p] if d['form'] == 'array' else list(z[p])
    tm, mz = call(t2c.tau_map, x[:, :, p].copy(), zz, **kw)
    want, wz = expect(x.astype(float), z, h, om, ob, d['points'])
    close_each(mz, wz, rtol=1e-10, what='redshifts of the map')
    close_each(tm, want, rtol=1e-8, what='optical depth map')
    i, j = d['seed'] % nx, d['seed'] % ny
    close_each(tm[i, j], call(t2c.tau, x[i, j], z, **kw)[0], rtol=1e-8, what='one pixel of the map and its one-dimensional value')
    return nx * ny > 1 and d['n'] > 1 and d['kind'] in ('random', 'step', 'int')


@contextlib.contextmanager
def nosleep():
    s = time.sleep
    time.sleep = lambda *a: None
    try:
        yield
    finally:
        time.sleep = s


@law(LAWS, st.tuples(hist(5), st.integers(2, 4), st.sampled_from(['dict', 'dict+z', 'dict reader', 'list reader'])), 300, 2000)
def coeval(t, ctx):
    """From coeval boxes: the map of the lightcone made of them."""
    d, n, form = t
    rng = np.random.default_rng(d['seed'])
    k = max(2, d['n'])
    zs = np.round(6 + np.cumsum(rng.uniform(0.3, 1.5, k)), 3)
    bx = [rng.uniform(0, 1, (n, n, n)) for _ in zs]
    p = rng.permutation(k)
    kw = {} if d['points'] == 50 else {'num_points': d['points']}
    with nosleep():
        if form.startswith('dict'):
            if form == 'dict reader':
                src = {float(zs[i]): 'b%d' % i for i in p}
                tab = {'b%d' % i: b for i, b in enumerate(bx)}
                got, gz = call(t2c.tau_map, src, reading_function=lambda q: tab[q], **kw)
            else:
                src = {float(zs[i]): bx[i] for i in p}
                got, gz = call(t2c.tau_map, src, redshifts=np.sort(zs) if form == 'dict+z' else None, **kw)
        else:
            tab = {'b%d' % i: b for i, b in enumerate(bx)}
            got, gz = call(t2c.tau_map, ['b%d' % i for i in p], zs[p], reading_function=lambda q: tab[q], **kw)
        lcone, out = t2c.make_lightcone({float(z): b for z, b in zip(zs, bx)})
    want, wz = expect(lcone.astype(float), out, 0.7, 0.27, 0.044, d['points'])
    close_each(gz, wz, rtol=1e-10, what='redshifts')
    close_each(got, want, rtol=1e-5, what='optical depth of coeval boxes')
    return True
