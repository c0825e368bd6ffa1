"""P28 toy models, foregrounds, percolation, box counting, unit helpers, fits."""
import time
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.cosmology import FlatLambdaCDM, Planck18
import tools21cm as t2c
from tools21cm import test_case as tc, foreground_model as fg, astro_tools as at, percolation as pc, box_counting as bc, fitting_methods as fm
from tools21cm import cosmo as cm, const, conv
from tools21cm.radio_telescope_sensitivity import kelvin_jansky_conversion
from vlib import gen, cosmology as co
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Toy models, foregrounds and unit helpers satisfy their closed forms'
RULE = ('cubes of 1-14 cells a side, kernels of any size and position (also wider than the box), bubbles of radius 1-4, foreground maps of 1-24 cells (odd and even) at 1-4 redshifts in any form, '
        'filters for square, thin and odd cubes, binary fields in two and three dimensions, windows of 1-8 cells, magnitudes as numbers or quantities; non-trivial: more than one cell, kernel, channel or cluster')
ASSUMPTIONS = ['a percolating cluster is one that reaches both opposite faces of the box along some axis (clusters are not joined across the boundary)',
               'the unit conversion of the foreground maps is judged by P22; formulas and constants of the foreground recipes are those in the code',
               'Renyi dimensions themselves are not judged, only the window sums they are built from']
LAWS = []


# ---------------------------------------------------------------- toy models
KER = dict(seed=gen.seeds(), sh=gen.shape(3, 1, 9), ks=gen.shape(3, 1, 9), n=st.integers(0, 5), kind=st.sampled_from(['ones', 'normal', 'ball', 'positive']), neg=st.booleans())


@law(LAWS, st.fixed_dictionaries(KER), 120, 800, large=(3, 4, 30))
def kernel(d, ctx):
    """One position of an empty cube: the kernel itself, centred there (periodic).  Several positions: the cells
    covered.  full (known findings only): sums over positions, starting cubes and kernels wider than the cube."""
    rng = np.random.default_rng(d['seed'])
    sh, full = tuple(d['sh']), d.get('full')
    cube = rng.integers(0, 4, sh) * 1. if full else np.zeros(sh)
    ks = tuple(d['ks']) if full else tuple(1 + (a - 1) % b for a, b in zip(d['ks'], sh))
    k = np.ones(ks) if d['kind'] == 'ones' else rng.normal(size=ks) if d['kind'] == 'normal' else rng.random(ks) + .5
    if d['kind'] == 'ball' and (full or min(sh) >= 3):
        k = (np.add.outer(np.add.outer([1, 0, 1], [1, 0, 1]), [1, 0, 1]) <= 1) * 1.
    n = d['n'] if full or d['kind'] != 'normal' else min(d['n'], 1)
    pos = rng.integers(-2 if d['neg'] else 0, np.array(sh), (n, 3))
    want = cube.copy()
    for p in pos:
        for i in np.ndindex(*k.shape):
            want[tuple((p[a] - k.shape[a] // 2 + i[a]) % sh[a] for a in range(3))] += k[i]
    k0, p0 = k.copy(), pos.copy()
    r = call(tc.paint_kernel, cube, pos, k)
    same(k, k0, what='kernel'), same(pos, p0, what='positions')
    got = cube if r is None else r
    if full or n < 2:
        close(got, want, rtol=1e-12, atol=1e-12, what='painted cube')
    else:
        same(got > 0, want > 0, what='painted cells')
        check((got >= want - 1e-9).all(), 'painted values below the sum of the kernels')
        ctx.label('several')
    return n > 0


BUB = dict(seed=gen.seeds(), n=gen.side(4, 14), r=st.integers(1, 4), x=st.sampled_from([0.05, 0.2, 0.5, 0.9, 0.99]), dist=st.sampled_from(['Poisson', 'uniform-random', 'anticlustered', 'Non-Overlapping']),
           batch=st.sampled_from([1, 1, 1, 2, 3]), it=st.sampled_from([None, 1, 3, 20]), start=st.sampled_from(['none', 'zeros', 'ball', 'f4']))


def ball_offsets(r):
    g = np.arange(-r, r + 1)
    o = np.array(np.meshgrid(g, g, g, indexing='ij')).reshape(3, -1).T
    return o[(o**2).sum(axis=1) <= r * r]


@law(LAWS, st.fixed_dictionaries(BUB), 80, 500, large=(2, 3, 20))
def bubbles(d, ctx):
    """full (known findings only): the given cube is left alone, any dtype, non-overlapping across the boundary too."""
    rng = np.random.default_rng(d['seed'])
    full = d.get('full')
    n, r = d['n'], d['r']
    if not full:
        r = min(r, (n - 1) // 2)
    o = ball_offsets(r)
    start = np.zeros((n,) * 3)
    if d['start'] in ('ball', 'ints', 'f4'):
        p = rng.integers(0, n, 3)
        start[tuple(((p + o) % n).T)] = 1
        if d['start'] == 'ints':
            start = start.astype(int)
        if d['start'] == 'f4':
            start = start.astype('f4')
    s0 = start.copy()
    seed = d['seed'] % 2**32

    def model(it):
        kw = {} if d['start'] == 'none' else dict(cube=start if full else s0.copy())
        if it:
            kw['max_iter'] = it
        if d['batch'] > 1:
            kw['batch_size'] = d['batch']
        np.random.seed(seed)
        return np.asarray(call(t2c.spherical_bubble_model, n, d['x'], r, d['dist'], **kw))

    out = model(d['it'])
    if full:
        same(start, s0, what='cube given to start from')
    check(out.shape == (n,) * 3, 'shape', out.shape)
    check(np.isin(out, (0, 1)).all(), 'not a binary field', np.unique(out))
    check((out >= s0).all(), 'ionised cells of the starting cube were lost')
    todo = d['x'] - s0.mean()
    one = 4 * np.pi / 3 * r**3
    if one * d['batch'] >= todo * n**3:
        same(out, s0.astype(out.dtype), what='bubble larger than the target: cube unchanged')
        return False
    it = d['it'] or 1000
    # every ionised cell belongs to the start or to a whole periodic ball inside the field
    inside = np.ones(out.shape, bool)
    for q in o:
        inside &= np.roll(out, -q, (0, 1, 2)) > 0
    cover = np.zeros(out.shape, bool)
    for q in o:
        cover |= np.roll(inside, q, (0, 1, 2))
    check(((out > 0) <= (cover | (s0 > 0))).all(), 'ionised cells that are in no whole bubble')
    distinct = len({tuple(x % n) for x in o})
    grown = out.sum() - s0.sum()
    check(grown <= it * d['batch'] * distinct, 'more bubbles than iterations', grown)
    non = d['dist'].lower() in ('anticlustered', 'non-overlapping')
    if non:
        if full and d['batch'] == 1 and 2 * r + 1 <= n:
            check(grown % distinct == 0, 'overlapping bubbles in a non-overlapping model: cells', grown, 'per bubble', distinct)
        # room left, seen without the boundary: no ionised cell within r
        pad = np.pad(out, r)
        far = np.ones(out.shape, bool)
        for q in o:
            far &= pad[tuple(slice(r + a, r + a + n) for a in q)] == 0
        if d['it'] is None and out.mean() < d['x']:
            check(not far.any(), 'stopped although another bubble fits')
        if d['batch'] == 1 and out.mean() < d['x'] and d['it'] and grown:
            # the next bubble fills none of the cells already ionised (apart from those across the boundary)
            nxt = model(d['it'] + 1)
            check((nxt >= out).all(), 'an iteration removed ionised cells')
            new = (nxt > out).sum()
            if not far.any():
                check(new == 0, 'a bubble was painted where none fits')
            elif s0.any() or (out > 0).any():
                fits = False
                for c in np.argwhere(far):
                    cells = tuple(((c + o) % n).T)
                    b = out.copy()
                    b[cells] = 1
                    if np.array_equal(b, nxt):
                        fits = True
                        break
                check(fits, 'the next bubble is not a ball centred where there was room for it')
                ctx.label('next bubble')
    elif it == 1000:
        check(out.mean() >= d['x'], 'target fraction not reached', out.mean(), d['x'])
    if it == 1000 and not non or (non and d['batch'] == 1):
        check(grown - d['batch'] * distinct < todo * n**3 + 1e-6, 'went on after the target was reached', grown, todo * n**3)
    if it < 1000 and not non and out.mean() < d['x']:
        check(grown > 0, 'no bubble painted')
    if not full:
        same(model(d['it']), out, what='same random state')
    ctx.label(d['dist'].lower())
    return True


# ---------------------------------------------------------------- foregrounds
FG = dict(seed=st.integers(0, 10**6), n=gen.side(1, 24), box=st.sampled_from([50., 244 / 0.7, 800.]), zs=st.lists(st.sampled_from([6., 6.5, 7.3, 8., 9.5, 12.]), min_size=1, max_size=4), form=st.sampled_from(['array', 'list', 'float', 'int', '0d', 'npf']),
          seeding=st.sampled_from(['arg', 'arg', 'global', 'zero']))


def zform(d):
    z = d['zs']
    if d['form'] in ('float', 'int', '0d', 'npf'):
        z = [float(int(z[0])) if d['form'] == 'int' else z[0]]
    arg = {'array': np.array(z), 'list': list(z), 'float': z[0], 'int': int(z[0]), '0d': np.array(z[0]), 'npf': np.float64(z[0])}[d['form']]
    return np.array(z), arg


def seeded(f, d, *a, **k):
    if d['seeding'] == 'arg' and d['seed']:
        np.random.seed(4321)
        return call(f, *a, rseed=d['seed'], **k), d['seed']
    if d['seeding'] == 'global':
        np.random.seed(d['seed'])
        return call(f, *a, **k), d['seed']
    np.random.seed(999)
    return call(f, *a, rseed=0, **k), 0


@law(LAWS, st.fixed_dictionaries(FG), 80, 500, large=(4, 4, 30))
def galactic(d, ctx):
    z, arg = zform(d)
    n, B = d['n'], d['box']
    g, seed = seeded(t2c.galactic_synch_fg, d, arg, n, B)
    np.random.seed(seed)
    X, Y = np.random.normal(size=(n, n)), np.random.normal(size=(n, n))
    want = np.zeros((n, n, len(z)))
    for i, q in enumerate(z):
        D, nu = float(cm.z_to_cdist(q)), 1420. / (1 + q)
        a = np.arange(n) - n / 2 + 0.5
        l = 2 * np.pi * np.sqrt(a[:, None]**2 + a[None]**2) * D / B
        C = np.zeros((n, n))
        ok = l > 0
        C[ok] = 513 * (1000 / l[ok])**2.34 * (nu / 150)**(-2 * 2.8 - 2 * 0.1 * np.log(nu / 150))
        T = np.abs(np.fft.ifft2(np.sqrt(B**2 / D**2 * C / 2) * (X + 1j * Y)))
        want[:, :, i] = T * 1e6 / kelvin_jansky_conversion(n, q, boxsize=B)
    want = want.squeeze()
    check(np.shape(g) == want.shape, 'shape of the map', np.shape(g), want.shape)
    close(g, want, rtol=1e-6, what='galactic foreground')
    g2, _ = seeded(t2c.galactic_synch_fg, d, arg, n, B)
    same(g2, g, what='same seed')
    return n > 1


@law(LAWS, st.fixed_dictionaries(dict(FG, smax=st.sampled_from([None, 1., 20.]))), 60, 300, large=(3, 3, 20))
def sources(d, ctx):
    """The same power-law sources in every channel, their number set by the field, fluxes from the allowed range."""
    z, arg = zform(d)
    n, B = d['n'] + 4, min(d['box'], 400.)
    if d['form'] in ('array', 'list'):
        z = np.random.default_rng(d['n']).permutation(sorted(set(z)))
        arg = z.copy() if d['form'] == 'array' else list(z)
    kw = {} if d['smax'] is None else dict(S_max=d['smax'])
    smax = d['smax'] or 100
    g, _ = seeded(t2c.extragalactic_pointsource_fg, d, arg, n, B, **kw)
    g2, _ = seeded(t2c.extragalactic_pointsource_fg, d, arg, n, B, **kw)
    same(g2, g, what='same seed')
    if len(z) > 1:
        g2, _ = seeded(t2c.extragalactic_pointsource_fg, d, z[::-1].copy(), n, B, **kw)
        same(np.asarray(g2)[..., ::-1], g, what='channels in the opposite order')
    g = np.asarray(g)
    check(g.shape == ((n, n) if len(z) == 1 else (n, n, len(z))), 'shape of the map', g.shape)
    g = g.reshape(n, n, len(z))
    S = np.stack([g[:, :, i] * kelvin_jansky_conversion(n, q, boxsize=B) for i, q in enumerate(z)], axis=2)
    nu = 1420. / (1 + z)
    s = np.arange(0.1, smax, 0.01)
    N = int(10**3.75 * np.sum((s[1:]**-1.6 + s[:-1]**-1.6) / 2 * np.diff(s)) * B**2 / float(cm.z_to_cdist(z.min()))**2)
    on = S > 0
    check((S >= 0).all(), 'negative sources')
    check((on == on[:, :, :1]).all(), 'sources at other places in other channels')
    check(on[:, :, 0].sum() <= N, 'more sources than the counts give', on[:, :, 0].sum(), N)
    if N:
        check(on[:, :, 0].sum() >= 1, 'no source', N)
        # expected number of empty cells with N sources thrown at random
        e = n * n * (1 - 1. / (n * n))**N
        k = (~on[:, :, 0]).sum()
        check(abs(k - e) <= 8 * np.sqrt(e) + 8, 'number of empty cells', k, e)
        # total flux: N sources with mean flux of the range
        tot = (S[:, :, 0] * (nu[0] / 150)**0.75).sum()
        check(tot <= N * smax * 1.2 and tot >= N * 0.1 * 0.8, 'total flux', tot, N)
        if N > 25:
            check(abs(tot / N - s.mean()) < 6 * s.std() / np.sqrt(N) + 0.1 * s.mean(), 'mean flux of a source', tot / N, s.mean())
    if len(z) > 1 and N:
        p = S[on[:, :, 0]]
        al = -np.diff(np.log(p), axis=1) / np.diff(np.log(nu))
        check(((al > 0.699) & (al < 0.801)).all(), 'spectral index outside 0.7-0.8', al.min(), al.max())
        if len(z) > 2:
            check(np.ptp(al, axis=1).max() < 0.02, 'spectra are not power laws', np.ptp(al, axis=1).max())
    elif N:
        lo, hi = sorted([(nu[0] / 150)**-0.7, (nu[0] / 150)**-0.8])
        check(S[on].min() >= 0.1 * lo * 0.999, 'source fainter than the range')
        if on.sum() == N:
            check(S[on].max() <= smax * hi * 1.001, 'source brighter than the range')
    return N > 1


FIL = dict(seed=gen.seeds(), n=gen.side(1, 12, 30), nz=gen.side(1, 14), z=st.sampled_from([6.5, 8., 10.]), box=st.sampled_from([None, 50., 500.]), mu=st.sampled_from([None, 0.2, 0.5, 0.9]), funct=st.sampled_from([None, 'step', 'sigmoid', 'gaussian']),
           how=st.sampled_from(['array', 'ncells', 'thin']), base=st.sampled_from([None, 10, 400]))


@law(LAWS, st.fixed_dictionaries(FIL), 100, 600, large=(3, 4, 30))
def wedge(d, ctx):
    rng = np.random.default_rng(d['seed'])
    n = d['n']
    B = conv.LB if d['box'] is None else d['box']
    kw = {} if d['box'] is None else dict(boxsize=B)
    sh = (n, n, n)
    if d['how'] == 'thin':
        sh = (n, n, min(n, d['nz']))
    dt = rng.normal(size=sh) + 3
    if d['how'] == 'ncells':
        kw['ncells'] = n
    else:
        kw['array'] = dt
    kb = {} if d['base'] is None else dict(small_base=d['base'])
    k0 = np.linspace(-n * np.pi / B, n * np.pi / B, n)
    kk = np.sqrt(k0[:, None]**2 + k0[None]**2)
    mu = 0.5 if d['mu'] is None else d['mu']
    kmin = np.pi / (float(cm.z_to_cdist(d['z'])) * 21. / (d['base'] or 40) / 100)
    kf = {}
    if d['mu'] is not None:
        kf['mu'] = mu
    if d['funct'] is not None:
        kf['funct'] = d['funct']
    F = call(t2c.diabolo_filter, d['z'], **kw, **kb, **kf)
    G = call(t2c.barrel_filter, d['z'], **kw, **kb)
    s = n // 2 - sh[2] // 2
    want = np.zeros((n, n, n))
    for i in range(n):
        kp = abs(k0[i]) * (1 - mu**2) / mu
        w = 1 - 1 / (1 + np.exp(10 * (kk - kp))) if d['funct'] == 'sigmoid' else 1. * (kk > kp)
        w[kk <= kmin] = 0
        want[:, :, i] = w
    near = lambda a, b: np.abs(a - b) <= 1e-9 * (np.abs(a) + np.abs(b))
    amb = near(kk[:, :, None], np.abs(k0)[None, None] * (1 - mu**2) / mu) | near(kk, kmin)[:, :, None] if d['funct'] != 'sigmoid' else np.broadcast_to(near(kk, kmin)[:, :, None], want.shape)
    want, amb = want[:, :, s:s + sh[2]], amb[:, :, s:s + sh[2]]
    check(F.shape == sh and G.shape == sh, 'shape of the filters', F.shape, G.shape, sh)
    close(np.where(amb, 0, F), np.where(amb, 0, want), rtol=1e-9, atol=1e-12, what='diabolo filter')
    gw = np.broadcast_to((kk > kmin)[:, :, None] * 1., sh)
    ab = np.broadcast_to(near(kk, kmin)[:, :, None], sh)
    same(np.where(ab, 0, G), np.where(ab, 0, gw), what='barrel filter')
    if d['base'] is None:
        kc = float(rng.uniform(0, n * np.pi / B))
        same(call(t2c.barrel_filter, d['z'], **kw, k_par_min=kc), np.broadcast_to((kk > kc)[:, :, None] * 1., sh), what='barrel filter with a given radius')
    # image: product in Fourier space with the filter centred on the zero mode
    d0 = dt.copy()
    R = rng.uniform(size=sh)
    out = call(t2c.remove_wedge_image, dt, d['z'], filt=R)
    same(dt, d0, what='image')
    f = np.fft.fftn(dt)
    c = [((np.fft.fftfreq(m) * m).round().astype(int) + m // 2) for m in sh]
    close(out, np.fft.ifftn(f * R[np.ix_(*c)]).real, rtol=1e-9, atol=1e-9, what='filtered image')
    close(call(t2c.remove_wedge_image, dt, d['z'], filt=np.ones(sh)), dt, rtol=1e-9, what='filter that keeps everything')
    if d['base'] is None and d['how'] != 'ncells':
        kb2 = {} if d['box'] is None else dict(boxsize=B)
        close(call(t2c.remove_wedge_image, dt, d['z'], **kf, **kb2), call(t2c.remove_wedge_image, dt, d['z'], filt=F), rtol=1e-9, atol=1e-9, what='default filter')
    return n > 1


LINE = dict(seed=gen.seeds(), z=gen.nice_floats(5., 15.), fov=st.one_of(st.none(), gen.nice_floats(0.5, 90.)), h=gen.nice_floats(0.6, 0.8), Om=gen.nice_floats(0.2, 0.4))


@law(LAWS, st.fixed_dictionaries(LINE), 60, 600)
def wedge_line(d, ctx):
    from tools21cm import power_spect_fast as pf
    t2c.set_hubble_h(d['h'])
    t2c.set_omega_matter(d['Om'])
    k = np.random.default_rng(d['seed']).uniform(0.01, 3, 5)
    fk = {} if d['fov'] is None else dict(fov_deg=d['fov'])
    fov = np.deg2rad(90. if d['fov'] is None else d['fov'])
    h, Om, lam = float(t2c.const.h), float(t2c.const.Omega0), float(t2c.const.lam)
    H = 100 * h * np.sqrt(Om * (1 + d['z'])**3 + lam)
    want = k * np.sin(fov) * H / float(t2c.const.c) / (1 + d['z']) * float(co.cdist(d['z'], h, Om, lam))
    close(call(pf.horizon_wedge_equation, d['z'], **fk)(k), want, rtol=1e-6, what='horizon wedge')
    return True


ROLL = dict(seed=gen.seeds(), n=gen.side(2, 8), nz=gen.side(2, 14), chunk=st.one_of(st.none(), st.integers(6, 14)), cell=st.sampled_from([None, 1., 5.]), OM=st.sampled_from([None, 0.2, 0.31]), z0=st.sampled_from([0.7, 6., 8.]), glob=st.sampled_from([None, None, 0.6]), thr=st.sampled_from([1e-3, 1e-2]))


def rolling_ref(lc, zs, cell, chunk, Om, thr):
    n, nz = lc.shape[0], lc.shape[2]
    from scipy.integrate import quad
    E = lambda z: np.sqrt(Om * (1 + z)**3 + 1 - Om)
    MF = [E(z) / (1 + z) * quad(lambda x: 1 / E(x), 0, z)[0] for z in zs]
    k = np.fft.fftfreq(n, d=cell)
    kp = np.fft.fftfreq(chunk, d=cell)
    bl = np.blackman(chunk)
    p = np.abs(np.fft.fft(bl))**2
    buf = (kp[1] - kp[0]) * (np.flatnonzero(p <= thr * p.max())[0] - 1)
    kperp = np.sqrt(k[:, None]**2 + k[None]**2)[:, :, None]
    pad = np.concatenate([np.zeros((n, n, chunk)), lc, np.zeros((n, n, chunk))], axis=2)
    out, both = np.zeros(lc.shape), np.zeros(lc.shape)
    margin = np.inf
    for j in range(nz):
        a = j + chunk - chunk // 2
        f = np.fft.fftn(pad[:, :, a:a + chunk] * bl)
        den = kperp * MF[min(j + chunk - chunk // 2 - 1, nz - 1)] + buf
        with np.errstate(all='ignore'):
            W = kp[None, None] / den
        near = np.abs(np.abs(W) - 1) < 1e-5
        edge = near & (kperp == 0)      # straight up, the edge of the buffer is a mode itself: it may go either way
        margin = min(margin, np.nanmin(np.where(edge, np.inf, np.abs(np.abs(W) - 1))))
        out[:, :, j] = np.fft.ifftn(f * ((np.abs(W) > 1) & ~edge))[:, :, chunk // 2].real
        both[:, :, j] = np.fft.ifftn(f * ((np.abs(W) > 1) | edge))[:, :, chunk // 2].real
    return out, both, margin


@law(LAWS, st.fixed_dictionaries(ROLL), 60, 300, large=(3, 3, 20))
def rolling(d, ctx):
    rng = np.random.default_rng(d['seed'])
    n, nz = d['n'], d['nz']
    lc = rng.normal(size=(n, n, nz)) * 10
    zs = np.linspace(d['z0'], d['z0'] + 1.5, nz)
    chunk = d['chunk'] or min(n, nz)
    if chunk < 6:
        return False
    p = np.abs(np.fft.fft(np.blackman(chunk)))**2
    low = np.flatnonzero(p <= d['thr'] * p.max())
    if len(low) == 0 or (np.abs(p / p.max() - d['thr']) < 1e-6).any():
        return False
    kw = dict(buffer_threshold=d['thr'])
    if d['chunk']:
        kw['chunk_length'] = chunk
    if d['cell']:
        kw['cell_size'] = d['cell']
    if d['OM']:
        kw['OMm'] = d['OM']
    if d['glob']:
        const.Omega0 = d['glob']      # as a user sets it
    l0, z0 = lc.copy(), zs.copy()
    out = call(t2c.rolling_wedge_removal_lightcone, lc, zs, **kw)
    same(lc, l0, what='lightcone'), same(zs, z0, what='redshifts')
    w, w2, margin = rolling_ref(lc, zs, d['cell'] or min(n, nz), chunk, d['OM'] or const.Omega0, d['thr'])
    check(out.shape == lc.shape, 'shape', out.shape)
    if margin > 1e-4:
        close(out, w2 if np.abs(out - w2).max() < np.abs(out - w).max() else w, rtol=1e-4, atol=1e-4, what='cleaned lightcone')
    r = call(t2c.rolling_wedge_removal_lightcone, np.roll(lc, (1, 2), (0, 1)), zs, **kw)
    close(r, np.roll(out, (1, 2), (0, 1)), rtol=1e-4, atol=1e-4, what='shift on the sky')
    r = call(t2c.rolling_wedge_removal_lightcone, 3 * lc, zs, **kw)
    close(r, 3 * out, rtol=1e-4, atol=1e-3, what='linear in the signal')
    return margin > 1e-4


# ---------------------------------------------------------------- percolation and box counting
def flood(b, conn):
    """Clusters by explicit flood fill (not periodic)."""
    lab = np.zeros(b.shape, int)
    steps = [s for s in np.ndindex(*(3,) * b.ndim)]
    steps = [np.array(s) - 1 for s in steps]
    steps = [s for s in steps if 0 < np.abs(s).sum() <= conn]
    k = 0
    for i in zip(*np.nonzero(b)):
        if lab[i]:
            continue
        k += 1
        lab[i] = k
        todo = [i]
        while todo:
            q = np.array(todo.pop())
            for s in steps:
                t = tuple(q + s)
                if all(0 <= x < m for x, m in zip(t, b.shape)) and b[t] and not lab[t]:
                    lab[t] = k
                    todo.append(t)
    return lab, k


PER = dict(seed=gen.seeds(), sh=st.one_of(gen.shape(3, 1, 6), gen.shape(2, 1, 8)), p=st.sampled_from([0., 0.1, 0.25, 0.35, 0.5, 0.7, 1.]), conn=st.sampled_from([None, 1, 2, 3]), xth=st.sampled_from([None, 0.3, 0.9]), kind=st.sampled_from(['random', 'rod', 'two', 'bool']))


@law(LAWS, st.fixed_dictionaries(PER), 150, 1000, large=(3, 4, 40))
def percolation(d, ctx):
    rng = np.random.default_rng(d['seed'])
    sh = tuple(d['sh'])
    th = 0.5 if d['xth'] is None else d['xth']
    b = rng.uniform(size=sh) < d['p']
    if d['kind'] == 'rod':
        b = np.zeros(sh, bool)
        ax = int(rng.integers(0, len(sh)))
        i = [int(rng.integers(0, n)) for n in sh]
        i[ax] = slice(0, max(1, sh[ax] - int(rng.integers(0, 2))))
        b[tuple(i)] = True
    data = b if d['kind'] == 'bool' else np.where(b, rng.uniform(th, 1, sh), rng.uniform(0, th * 0.999, sh))
    conn = 1 if d['conn'] is None else min(d['conn'], len(sh))
    kw = {} if d['conn'] is None else dict(connectivity=conn)
    if d['xth'] is not None and d['kind'] != 'bool':
        kw['xth'] = th
    d0 = data.copy()
    got = call(t2c.find_percolation_cluster, data, **kw)
    same(data, d0, what='field')
    lab, k = flood(b, conn)
    best = 0
    for j in range(1, k + 1):
        c = lab == j
        if any(c.take(0, a).any() and c.take(-1, a).any() for a in range(len(sh))):
            best = max(best, int(c.sum()))
    if best:
        check(got == best, 'size of the percolating cluster', got, best)
    else:
        check(got <= 0, 'percolating cluster reported where there is none', got)
    ctx.label('percolates' if best else 'none')
    return k > 1


BOX = dict(seed=gen.seeds(), sh=gen.shape(3, 1, 9), size=st.integers(1, 8), q=st.sampled_from([0.5, 1, 1.5, 2, 3]), window=st.sampled_from([None, 'ball', 'cube']), kind=st.sampled_from(['binary', 'uniform', 'sparse']))


@law(LAWS, st.fixed_dictionaries(BOX), 120, 700, large=(3, 4, 30))
def box_counts(d, ctx):
    rng = np.random.default_rng(d['seed'])
    sh, n = tuple(d['sh']), d['size']
    a = {'binary': lambda: (rng.uniform(size=sh) < 0.4) * 1., 'uniform': lambda: rng.uniform(size=sh), 'sparse': lambda: (rng.uniform(size=sh) < 0.05) * 1.}[d['kind']]()
    a0 = a.copy()
    h = n // 2
    g = np.arange(-h, -h + n)
    if d['window'] == 'cube':
        ker = np.ones((n, n, n))
    else:
        ker = (g[:, None, None]**2 + g[None, :, None]**2 + g[None, None, :]**2 <= h * h) * 1.
    ker /= ker.sum()
    close(call(bc.get_kernel, n, d['window'] or 'ball'), ker, rtol=1e-12, what='window')
    kw = {} if d['window'] is None else dict(window=d['window'])
    if any(m < n for m in sh):
        return False
    got = call(t2c.box_count_sliding, a, n, d['q'], **kw)
    same(a, a0, what='field')
    P = np.pad(a, [((n - 1) - (n - 1) // 2, n)] * 3)
    sm = np.zeros(sh)
    # window of weight ker[i] reaches back from the cell by i-(n-1)//2
    pad = np.pad(a, n)
    for i in np.ndindex(n, n, n):
        s = [(n - 1) // 2 - x for x in i]
        sm += ker[i] * pad[tuple(slice(n + t, n + t + m) for t, m in zip(s, sh))]
    sm = np.clip(sm, 0, None)
    sm[sm < 1e-13] = 0
    w = np.sum(sm**d['q'])
    tol = 1e-9 * max(w, 1e-3) + (a.size * 3e-8 if d['q'] < 1 else 1e-12)
    check(abs(got - w) <= tol, 'window sum', got, w)
    return a.size > 1


# ---------------------------------------------------------------- unit helpers
UN = dict(seed=gen.seeds(), form=st.sampled_from(['float', 'int', 'mag', 'array']), cosmo=st.one_of(st.none(), st.tuples(st.sampled_from([60., 70.]), st.sampled_from([0.25, 0.35]))), z=st.sampled_from([0.1, 1., 6., 9.3]), fov=st.sampled_from(['float', 'int', 'deg2', 'rad2', 'arcmin2', 'sr']))


@law(LAWS, st.fixed_dictionaries(UN), 80, 400)
def magnitudes(d, ctx):
    rng = np.random.default_rng(d['seed'])
    v = rng.uniform(-24, -14, 3)
    if d['form'] != 'array':
        v = float(np.round(v[0])) if d['form'] == 'int' else float(v[0])
    arg = lambda x: x if d['form'] == 'float' else int(x) if d['form'] == 'int' else x * u.mag
    c = None if d['cosmo'] is None else FlatLambdaCDM(H0=d['cosmo'][0], Om0=d['cosmo'][1])
    C = c or Planck18
    kw = {} if c is None else dict(cosmo=c)
    z = d['z']
    from scipy.integrate import quad
    hub = lambda x: float(C.efunc(x))
    DC = 299792.458 / C.H0.value * quad(lambda x: 1 / hub(x), 0, z)[0]
    DL = DC * (1 + z)
    K = 2.5 * np.log10(1 + z)
    m = call(t2c.Muv_to_muv, arg(v), z, **kw)
    close(m.to('mag').value, v + 5 * np.log10(DL * 1e5) - K, rtol=1e-6, what='apparent magnitude')
    M = call(t2c.muv_to_Muv, m, z, **kw)
    close(M.to('mag').value, v, rtol=1e-9, what='absolute magnitude back')
    x = v + 45 if d['form'] != 'int' else v + 45
    close(call(t2c.muv_to_Muv, arg(x), z, **kw).to('mag').value, x - 5 * np.log10(DL * 1e5) + K, rtol=1e-6, what='absolute magnitude')
    f = call(t2c.mag_to_flux, arg(x))
    close(f.to('erg/(s cm2 Hz)').value, 10**(-0.4 * (x + 48.6)), rtol=1e-9, what='flux of a magnitude')
    close((f.to('Jy').value), 3631 * 10**(-0.4 * np.asarray(x)), rtol=2e-3, what='AB zero point')
    L = call(t2c.Muv_to_L1500, arg(v))
    close(L.to('W/Hz').value, 10**(0.4 * (34.1 - np.asarray(v))), rtol=1e-9, what='UV luminosity')
    # the three relations agree: L = 4 pi DL^2 f/(1+z) with the K correction used
    close(L.to('erg/(s Hz)').value, 4 * np.pi * (DL * 3.0856776e24)**2 / (1 + z) * call(t2c.mag_to_flux, m).to('erg/(s cm2 Hz)').value, rtol=0.01, what='luminosity from the flux')
    A = rng.uniform(0.5, 100)
    A = int(A) + 1 if d['fov'] == 'int' else float(A)
    q = {'float': A, 'int': A, 'deg2': A * u.deg**2, 'rad2': (A * u.deg**2).to('rad2'), 'arcmin2': A * 3600 * u.arcmin**2, 'sr': (A * u.deg**2).to('sr')}[d['fov']]
    g = call(t2c.FoV_cMpc2, q, z, **kw)
    close(g.to('Mpc2').value, A * (np.pi / 180)**2 * DC**2, rtol=1e-6, what='field of view')
    return True


FIT = dict(seed=gen.seeds(), n=st.integers(6, 40), deg=st.integers(0, 2), cv=st.sampled_from([None, None, 3]), how=st.sampled_from(['fit', 'fit_predict', 'late']), method=st.sampled_from([None, 'BFGS']))


@law(LAWS, st.fixed_dictionaries(FIT), 25, 120)
def fits(d, ctx):
    """A fit of noiseless data recovers the parameters, in the order of the dictionary given."""
    rng = np.random.default_rng(d['seed'])
    k = d['deg'] + 1
    th = rng.uniform(-3, 3, k)
    if abs(th[-1]) < 0.3:
        th[-1] = 1.
    x = rng.uniform(-2, 2, d['n'])
    x[:3] = [-2, 0, 2]
    F = lambda x, t: sum(c * x**i for i, c in enumerate(t)) + 0 * x
    y = F(x, th)
    if d['cv'] and (k == 1 or d['n'] < 20):
        return False   # the score of a fold needs at least two points that differ
    names = list('zayx')[:k]
    start = {q: float(rng.choice([-1, 1]) * rng.uniform(0.3, 1)) for q in names}   # the simplex scipy builds needs a start off zero
    s0 = dict(start)
    real, rt = getattr(fm, 'sleep', None), time.sleep
    time.sleep = lambda *a: None
    if real is not None:
        fm.sleep = time.sleep
    np.random.seed(d['seed'] % 2**32)
    try:
        kw = {} if d['method'] is None else dict(method=d['method'])
        if d['cv'] and d['how'] != 'late':
            kw['cv'] = d['cv']
        o = call(fm.FitFunction, F, start, **kw)
        x0, y0 = x.copy(), y.copy()
        if d['how'] == 'fit_predict':
            p = call(o.fit_predict, x, y)
        else:
            call(o.fit, x, y, **(dict(cv=d['cv']) if d['how'] == 'late' and d['cv'] else {}))
            p = call(o.predict, x)
    finally:
        time.sleep = rt
        if real is not None:
            fm.sleep = real
    same(x, x0, what='abscissae'), same(y, y0, what='data')
    check(start == s0, 'starting parameters changed', start)
    check(list(o.fitted_params_) == names, 'names of the parameters', list(o.fitted_params_))
    close(np.array([o.fitted_params_[q] for q in names]), th, rtol=0, atol=5e-3, what='fitted parameters')
    close(p, F(x, np.array([o.fitted_params_[q] for q in names])), rtol=1e-9, atol=1e-12, what='prediction')
    if k > 1:
        close(call(o.score, x, y), 1., rtol=1e-4, what='score of a perfect fit')
        yy = y + rng.normal(size=len(y))
        close(call(o.score, x, yy), 1 - ((yy - p)**2).sum() / ((yy - yy.mean())**2).sum(), rtol=1e-9, atol=1e-9, what='score')
    return k > 1
