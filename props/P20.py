"""P20 uv coverage of radio interferometers."""
import itertools
import os
import joblib
import numpy as np
import astropy.units as u
from hypothesis import strategies as st
import tools21cm as t2c
from tools21cm import radio_telescope_layout as RL, radio_telescope_noise as RN, radio_telescope_calibration as RC
from vlib import gen, cosmology as co
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'UV coverage counts every baseline sample once and is Hermitian when mirrored'
RULE = ('layouts of 2-9 antennas (random, clustered, collinear, coincident, real SKA-Low subarrays), any declination, redshift, box, grid size '
        '(odd and even) and time step, flat cosmologies; non-trivial: at least one baseline sample on and one off the grid, or more than one time step')
ASSUMPTIONS = ['a sample within 1e-6 of a cell edge may be counted in either cell (such cases are not judged)',
               'coverage is float32, so values are compared to 1e-6', 'several jobs run as threads here',
               'on even grids the outermost (Nyquist) row and column are excluded from the inversion symmetry, since +n/2 is off the grid']
LAWS = []
CL = 2.99792458e8
NU0 = 1420.0
H0, OM0 = 0.7, 0.27


@st.composite
def obs(draw, nmax=9, tmax=12):
    """An observation set-up, scaled so that baselines fall on and off the grid."""
    return dict(seed=draw(gen.seeds()), nant=draw(gen.side(2, nmax)),
                kind=draw(st.sampled_from(['random', 'random', 'core', 'line', 'same', 'AA0.5'])),
                z=draw(gen.nice_floats(3, 30)), ncells=draw(gen.side(2, 17, 400)), boxsize=draw(gen.nice_floats(20, 2000)),
                dec=draw(st.sampled_from([-30., 0., 90., -90., 45., -26.8, 12.5])), steps=draw(gen.side(1, tmax)),
                int_time=draw(st.sampled_from([10., 60., 600., 1800., 3600., 137.])), form=draw(st.sampled_from(['m', 'm', 'km', 'cm', 'array'])),
                cosmo=draw(st.sampled_from([None, None, [0.67, 0.31], [0.5, 0.9]])), box=draw(st.booleans()))


def setup(d):
    """(antenna argument, positions in m, redshift, ncells, boxsize, keyword for boxsize, cosmology)."""
    rng = np.random.default_rng(d['seed'])
    if d['cosmo']:
        co.set_flat(*d['cosmo'], how=d['seed'])
    h, om = d['cosmo'] or (H0, OM0)
    th = d['boxsize'] / float(co.cdist(d['z'], h, om))
    lam = CL / (NU0 / (1 + d['z']) * 1e6)
    L = d['ncells'] / 2. / th * lam          # baseline length that reaches the edge of the grid
    n = d['nant']
    k = d['kind']
    if k == 'AA0.5':
        x = np.asarray(t2c.get_SKA_Low_layout('AA0.5', 'xyz', verbose=False).value)
        x = x[:max(2, min(n, len(x)))]
        x = (x - x.mean(0)) / np.abs(x - x.mean(0)).max() * L
    else:
        x = rng.normal(size=(n, 3)) * L * rng.uniform(0.3, 1.2)
        if k == 'core':
            x = x * rng.uniform(0, 1, n)[:, None]**2
        elif k == 'line':
            x = x[:1] + rng.uniform(-1, 1, n)[:, None] * x[-1:]
        elif k == 'same':
            x[1:1 + n // 2] = x[0]
    f = d['form']
    arg = {'m': lambda: x * u.m, 'km': lambda: x / 1e3 * u.km, 'cm': lambda: x * 1e2 * u.cm, 'array': lambda: x.copy()}[f]()
    B = d['boxsize']
    if d['box']:
        t2c.conv.LB = B
        kw = {}
    else:
        kw = dict(boxsize=B)
    return arg, x, th, lam, kw, (h, om)


def baselines(x, lam):
    return np.array([(x[i] - x[j]) / lam for i, j in itertools.combinations(range(len(x)), 2)]).reshape(-1, 3)


def rotate(b, H, dec):
    """Project baselines (XYZ, X to the meridian, Z to the pole) on u, v, w of a source at hour angle H."""
    # unit vectors of the source frame expressed in XYZ
    s = np.array([np.cos(dec) * np.cos(H), -np.cos(dec) * np.sin(H), np.sin(dec)])
    e = np.array([np.sin(H), np.cos(H), 0.0])
    n = np.cross(s, e)
    return np.stack([b @ e, b @ n, b @ s], -1)


def hour(step, d, total):
    return np.deg2rad(15.) * (-total / 2. + step * d['int_time'] / 3600.)


def total_of(d):
    """Total time in hours giving d['steps'] snapshots; not always a whole number of them."""
    extra = (d['seed'] % 7) / 10.
    return d['int_time'] * (d['steps'] + extra + 1e-9) / 3600.


def cells(b, th, n):
    """Rounded cells of samples on the grid (array), mask, and whether any sample is near a cell edge."""
    q = b[:, :2] * th
    r = np.round(q)
    amb = np.any(np.abs(np.abs(q - np.floor(q)) - 0.5) < 1e-6)
    on = np.all((r < n / 2.) & (r >= -n / 2.), axis=1)
    return r.astype(int), on, bool(amb)


def cover(b, th, n, mirror):
    """Reference coverage of one snapshot: zero spacing at [0, 0]."""
    out = np.zeros((n, n))
    r, on, amb = cells(b, th, n)
    for p in r[on]:
        out[p[0] % n, p[1] % n] += 0.5 if mirror else 1.0
    if mirror:
        r2 = -r
        on2 = np.all((r2 < n / 2.) & (r2 >= -n / 2.), axis=1)
        for p in r2[on2]:
            out[p[0] % n, p[1] % n] += 0.5
    return out, amb, int(on.sum()), len(on)


def invert(m):
    i = -np.arange(m.shape[0]) % m.shape[0]
    return m[np.ix_(i, i)]


@law(LAWS, obs(), 1500, 8000, large=(6, 6, 50))
def baselines_and_rotation(d, ctx):
    arg, x, th, lam, kw, c = setup(d)
    keep = np.array(x)
    nu = None if d['seed'] % 3 else 50. + d['seed'] % 200
    lam = CL / (nu * 1e6) if nu else lam
    want = baselines(x, lam)
    got, n = call(t2c.from_antenna_config, arg, d['z'], nu)
    scale = max(np.abs(x).max() / lam, 1e-300)
    close(got, want, rtol=1e-9, what='baselines in wavelengths', scale=scale)
    check(n == len(x), 'antennas: got %s, expected %s', n, len(x))
    st_, n2 = call(RC.from_antenna_config_with_antenna_stamp, arg, d['z'], nu)
    close(st_[:, :3], want, rtol=1e-9, what='stamped baselines', scale=scale)
    same(st_[:, 3:].astype(int), np.array(list(itertools.combinations(range(1, len(x) + 1), 2))), 'antenna tags')
    check(n2 == len(x), 'antennas of the stamped baselines: %s', n2)
    rng = np.random.default_rng(d['seed'] + 1)
    g = rng.normal(size=(len(x), 2))
    gb, n3 = call(RC.from_antenna_config_with_gains, arg, d['z'], nu, g)
    close(gb[:, :3], want, rtol=1e-9, what='baselines with gains', scale=scale)
    p = np.array([[g[i, 0] * g[j, 0], g[i, 1] * g[j, 1], g[i, 0] * g[j, 1], g[i, 1] * g[j, 0]]
                  for i, j in itertools.combinations(range(len(x)), 2)])
    close_each(gb[:, 3:], p, rtol=1e-12, atol=1e-14, what='gain products')
    check(n3 == len(x), 'antennas of the baselines with gains: %s', n3)
    v = arg.to('m').value if isinstance(arg, u.Quantity) else arg
    close(v, keep, rtol=1e-12, what='the antenna positions passed in')
    # rotation
    T = total_of(d)
    k = d['steps']
    for steps in (k, np.arange(1, k + 1), [1, k]):
        r = call(t2c.earth_rotation_effect, want, steps, d['int_time'], T, d['dec'])
        ss = np.atleast_1d(steps)
        ref = np.array([rotate(want, hour(s, d, T), np.deg2rad(d['dec'])) for s in ss])
        if len(ss) == 1:
            ref = ref[0]
        close(r, ref, rtol=1e-9, what='rotated baselines (steps %s)' % (steps,), scale=scale)
        close(np.sqrt((np.asarray(r)**2).sum(-1)), np.sqrt((ref**2).sum(-1)), rtol=1e-9, what='baseline lengths', scale=scale)
    r = call(t2c.earth_rotation_effect, want, k, d['int_time'], T)
    close(np.asarray(r).reshape(-1, 3), rotate(want, hour(k, d, T), np.deg2rad(-30.)), rtol=1e-9, what='default declination', scale=scale)
    return len(x) > 2


@law(LAWS, obs(), 1500, 8000, large=(24, 8, 60))
def snapshot(d, ctx):
    """One snapshot is gridded cell by cell."""
    arg, x, th, lam, kw, c = setup(d)
    n = d['ncells']
    b = baselines(x, lam)
    if d['seed'] % 4 == 0:
        # exact cell centres, including both edges of the grid
        rng = np.random.default_rng(d['seed'] + 9)
        b = np.concatenate([b, np.concatenate([rng.integers(-n // 2 - 1, n // 2 + 2, (6, 2)), np.zeros((6, 1))], 1) / th])
    for m in (False, True):
        want, amb, on, tot = cover(b, th, n, m)
        if amb:
            ctx.label('sample on a cell edge')
            return False
        got = call(t2c.grid_uv_tracks, b.copy(), d['z'], n, include_mirror_baselines=m, **kw)
        close(got, want, rtol=1e-12, what='gridded snapshot (mirror=%s)' % m)
        if m:
            inner = np.ones(n, bool)
            if n % 2 == 0:
                inner[n // 2] = False
            w = np.outer(inner, inner)
            same(np.where(w, got, 0), np.where(w, invert(np.asarray(got)), 0), 'inversion of the mirrored coverage')
        else:
            check(np.sum(got) == on, 'samples counted: %s, on the grid: %s', np.sum(got), on)
    same(call(t2c.grid_uv_tracks, b.copy(), d['z'], n, **kw), cover(b, th, n, False)[0].astype(int), 'default is unmirrored')
    return 0 < on < tot


@law(LAWS, obs(), 700, 3000, large=(4, 4, 40))
def daily(d, ctx):
    """The coverage of an observation is the mean over its snapshots."""
    arg, x, th, lam, kw, c = setup(d)
    n, T, k = d['ncells'], total_of(d), d['steps']
    b = baselines(x, lam)
    refs = {}
    for m in (False, True):
        acc = np.zeros((n, n))
        for s in range(1, k + 1):
            w, amb, on, tot = cover(rotate(b, hour(s, d, T), np.deg2rad(d['dec'])), th, n, m)
            if amb:
                ctx.label('sample on a cell edge')
                return False
            acc += w
        refs[m] = acc / k
    # from_antenna_config rejects nothing; a single baseline works too
    if len(b) == 1:
        ctx.label('single baseline')
    a = dict(total_int_time=T, int_time=d['int_time'], declination=d['dec'], verbose=False, **kw)
    for m in (False, True):
        got, na = call(t2c.get_uv_daily_observation, n, d['z'], arg, include_mirror_baselines=m, **a)
        close(got, refs[m], rtol=1e-6, what='daily coverage (mirror=%s)' % m)
        check(na == len(x), 'antennas: %s', na)
        got, na = call(t2c.get_uv_map, n, d['z'], subarray_type=arg, include_mirror_baselines=m, **a)
        close(got, refs[m], rtol=1e-6, what='coverage map (mirror=%s)' % m)
        check(na == len(x), 'antennas: %s', na)
    got, na = call(t2c.get_uv_map, n, d['z'], arg, **a)
    close(got, refs[True], rtol=1e-6, what='coverage maps are mirrored by default')
    got, na = call(t2c.get_uv_daily_observation, n, d['z'], arg, **a)
    close(got, refs[False], rtol=1e-6, what='daily coverage is unmirrored by default')
    # baselines beyond a maximum length are cut
    D = (d['seed'] % 1000 + 1) / 1000. * 1.2 * n / 2. / th * lam      # m
    cut = D / lam * th                                                # in cells
    q = np.fft.fftfreq(n, 1. / n)
    rr = np.sqrt(q[:, None]**2 + q[None]**2)
    sure = np.abs(rr / cut - 1) > 0.012            # 21 cm is used for the wavelength
    D = {0: D / 1e3, 1: D * u.m, 2: D / 1e3 * u.km}[d['seed'] % 3]
    got, na = call(t2c.get_uv_map, n, d['z'], arg, max_baseline=D, **a)
    want = np.where(rr > cut, 0, refs[True])
    close(np.where(sure, got, 0), np.where(sure, want, 0), rtol=1e-6, what='coverage within a maximum baseline')
    check(np.all((got == 0) | (np.abs(got - refs[True]) < 1e-5 * max(1, refs[True].max()))), 'the cut changed a coverage value')
    kmax = float(call(RN.max_baseline_to_max_k, d['z'], D))
    close_each(kmax, np.pi * cut / d['boxsize'], rtol=0.012, what='wavenumber of the maximum baseline')
    return k > 1 and 0 < on < tot


@law(LAWS, obs(tmax=5), 150, 700, large=(4, 3, 20))
def many_redshifts(d, ctx):
    arg, x, th, lam, kw, c = setup(d)
    n, T, k = d['ncells'], total_of(d), d['steps']
    rng = np.random.default_rng(d['seed'] + 3)
    zs = np.round(d['z'] * (1 + rng.uniform(0, 0.5, int(rng.integers(1, 7)))), 3)
    zs = np.array(list(dict.fromkeys(zs)))
    rng.shuffle(zs)
    a = dict(total_int_time=T, int_time=d['int_time'], declination=d['dec'], verbose=False, **kw)
    single = {'%.3f' % z: call(t2c.get_uv_map, n, z, arg, **a)[0] for z in zs}
    lst = list(zs) if d['seed'] % 2 else zs
    for nj, ck in ((1, 2), (1, None), (2, 2), (3, 16), (2, None), (2, 0)):
        with joblib.parallel_config(backend='threading'):
            got = call(t2c.get_uv_map_lightcone, n, lst, arg, n_jobs=nj, checkpoint=ck, **a)
        for key in single:
            check(key in got, 'no coverage for z=%s (jobs=%s, checkpoint=%s)', key, nj, ck)
            same(got[key], single[key], 'coverage at z=%s (jobs=%s, checkpoint=%s)' % (key, nj, ck))
        meta = dict(ncells=n, boxsize=d['boxsize'], total_int_time=T, int_time=d['int_time'], declination=d['dec'], N_ant=len(x))
        for key in meta:
            check(got[key] == meta[key], 'set-up entry %s: got %s, expected %s', key, got[key], meta[key])
    cube, na = call(t2c.make_uv_map_lightcone, n, zs, arg, **a)
    check(cube.shape == (n, n, len(zs)) and na == len(x), 'coverage cube: shape %s, antennas %s', cube.shape, na)
    for i, z in enumerate(zs):
        close(cube[:, :, i], single['%.3f' % z], rtol=1e-7, what='slice %d of the coverage cube' % i)
    return len(zs) > 1


@law(LAWS, obs(nmax=6, tmax=7), 300, 1500)
def stamped(d, ctx):
    """Coverage with gains and antenna stamps has the hits of the plain coverage."""
    arg, x, th, lam, kw, c = setup(d)
    n, T, k = d['ncells'], total_of(d), d['steps']
    b = baselines(x, lam)
    pairs = list(itertools.combinations(range(len(x)), 2))
    rng = np.random.default_rng(d['seed'] + 3)
    recs = []
    for s in range(1, k + 1):
        r, on, amb = cells(rotate(b, hour(s, d, T), np.deg2rad(d['dec'])), th, n)
        if amb:
            ctx.label('sample on a cell edge')
            return False
        recs.append((r, on))
    a = dict(total_int_time=T, int_time=d['int_time'], declination=d['dec'], verbose=False, **kw)
    # gains, drawn again at every multiple of the time scales
    drawn = []
    mode = d['seed'] % 4

    def draw(m):
        drawn.append(rng.normal(1, 0.5, m))
        return drawn[-1]
    g0 = rng.normal(size=(len(x), 2))
    model = {0: {'real': draw, 'imag': draw}, 1: {'amplitude': draw, 'phase': draw}, 2: g0, 3: {'name': 'random_uniform', 'min': 0.8, 'max': 0.8}}[mode]
    scales = [[10, 60], [int(d['int_time'])], [7200]][d['seed'] % 3]
    for mirror in (False, True):
        del drawn[:]
        gm, na = call(t2c.get_uv_map_with_gains, n, d['z'], gain_model=model, gain_timescale=scales, subarray_type=arg,
                      include_mirror_baselines=mirror, **a)
        want = np.zeros((n, n, 5))
        it = iter(list(drawn))
        for s, (r, on) in enumerate(recs):
            if any((s * d['int_time']) % t == 0 for t in scales):
                if mode < 2:
                    gr, gi = next(it), next(it)
                elif mode == 2:
                    gr, gi = g0.T
                else:
                    gr = gi = np.full(len(x), 0.8)
            for q in np.flatnonzero(on):
                i, j = pairs[q]
                v = [1, gr[i] * gr[j], gi[i] * gi[j], gr[i] * gi[j], gi[i] * gr[j]]
                want[r[q, 0] % n, r[q, 1] % n] += v
                if mirror:
                    want[-r[q, 0] % n, -r[q, 1] % n] += v
        close(gm, want, rtol=1e-9, what='gain coverage (mirror=%s)' % mirror)
        check(next(it, None) is None, 'gains were drawn more often than the time scales say')
        check(na == len(x), 'antennas: %s', na)
        same(call(RC.gain_uv_map_to_uv_map, gm), want[:, :, 0].astype(int), 'hits of the gain coverage')
    hits = np.zeros((n, n), int)
    for r, on in recs:
        np.add.at(hits, (r[on, 0] % n, r[on, 1] % n), 1)
    plain, _ = call(t2c.get_uv_map, n, d['z'], arg, include_mirror_baselines=False, **a)
    close(hits / float(k), plain, rtol=1e-6, what='hits per snapshot against the plain coverage')
    for nj in (1, 1 + d['seed'] % 3, k + 2):
        with joblib.parallel_config(backend='threading'):
            full, na = call(t2c.get_full_uv_map_with_antenna_stamp, n, d['z'], arg, n_jobs=nj, **a)
            lag, tags = call(t2c.get_full_uv_lagrangian_with_antenna_stamp, n, d['z'], arg, n_jobs=nj, **a)
        check(full.shape == (k, n, n) and na == len(x), 'antenna-stamped coverage: shape %s, antennas %s', full.shape, na)
        check(lag.shape == (k, len(pairs), 2), 'gridded coordinates: shape %s', lag.shape)
        same(np.asarray(tags).astype(int), np.array(pairs) + 1, 'antenna pairs')
        for s, (r, on) in enumerate(recs):
            want = np.where(on[:, None], r, np.nan)
            same(lag[s], want, 'gridded coordinates of step %d (%d jobs)' % (s, nj))
            cell = {}
            for q in np.flatnonzero(on):
                cell.setdefault((r[q, 0] % n, r[q, 1] % n), []).append(tuple(v + 1 for v in pairs[q]))
            got = {(i, j): sorted(tuple(v) for v in full[s, i, j]) for i in range(n) for j in range(n) if len(full[s, i, j])}
            check(got == cell, 'antenna pairs per cell at step %d (%d jobs): got %s, expected %s', s, nj, got, cell)
    same(call(RC.full_uv_map_with_antenna_stamp_to_uv_map, full, verbose=False), hits, 'hits of the antenna-stamped coverage')
    return k > 1 and hits.sum() > 0


NAMES = {'AA4': 512, 'AAstar': 307, 'AA*': 307, 'AA2': 64, 'AA1': 16, 'AA0.5': 4, 'aa1': 16, 'aa*': 307, 'SKA1': 512}


@st.composite
def lay(draw):
    return dict(name=draw(st.sampled_from(sorted(NAMES))), seed=draw(gen.seeds()), n=draw(st.integers(2, 6)),
                form=draw(st.sampled_from(['quantity', 'array', 'km'])))


def dist(x):
    x = np.asarray(x)[:60]
    return np.sqrt(((x[:, None] - x[None])**2).sum(-1))


@law(LAWS, lay(), 200, 800)
def layouts(d, ctx):
    name = d['name']
    F = {}
    for unit in ('enu', 'ecef', 'xyz', 'ECEF'):
        F[unit] = call(t2c.get_SKA_Low_layout, name, unit, verbose=False)
        check(F[unit].unit == u.m, '%s layout in %s', unit, F[unit].unit)
        F[unit] = F[unit].value
        check(F[unit].shape == (NAMES[name], 3), '%s in %s: shape %s', name, unit, F[unit].shape)
    same(F['ecef'], F['ECEF'], 'unit in capitals')
    D = dist(F['enu'])
    for unit in ('ecef', 'xyz'):
        close(dist(F[unit]), D, rtol=1e-7, atol=1e-5, what='antenna separations in %s' % unit)
    # the local frame: E, N, up turned into meridian/east/pole axes
    la, lo = np.deg2rad(-26.824722), np.deg2rad(116.764448)
    e = F['enu'] - F['enu'][0]
    xyz = np.stack([-np.sin(la) * e[:, 1] + np.cos(la) * e[:, 2], e[:, 0], np.cos(la) * e[:, 1] + np.sin(la) * e[:, 2]], -1)
    close(F['xyz'] - F['xyz'][0], xyz, rtol=1e-7, atol=1e-5, what='meridian, east and pole axes of the layout')
    R = np.array([[np.cos(lo), -np.sin(lo), 0], [np.sin(lo), np.cos(lo), 0], [0, 0, 1]])
    close(F['ecef'] - F['ecef'][0], xyz @ R.T, rtol=1e-7, atol=1e-5, what='earth-centred positions')
    # geodetic
    from astropy.coordinates import EarthLocation
    lat, lon, hh = call(t2c.get_SKA_Low_layout, name, 'latlon', verbose=False)
    back = EarthLocation.from_geodetic(lon * u.deg, lat * u.deg, hh * u.m)
    close(np.stack([back.x.to_value('m'), back.y.to_value('m'), back.z.to_value('m')], -1), F['ecef'], rtol=0, atol=1e-3, what='geodetic positions')
    try:
        t2c.get_SKA_Low_layout(name, 'parsec', verbose=False)
    except ValueError:
        pass
    else:
        fail('an unknown coordinate frame was accepted')
    # as a layout argument
    a, n = call(RL.subarray_type_to_antxyz, name, verbose=False)
    same(a.to('m').value, F['xyz'], 'layout chosen by name')
    check(n == NAMES[name], 'antennas of %s: %s', name, n)
    # geographic <-> Cartesian on the sphere
    rng = np.random.default_rng(d['seed'])
    ll = np.stack([rng.uniform(-179, 179, d['n']), rng.uniform(-89, 89, d['n'])], 1)
    arg = {'quantity': ll * u.deg, 'array': ll.copy(), 'km': np.deg2rad(ll) * u.rad}[d['form']]
    keep = np.array(arg)
    c = call(t2c.geographic_to_cartesian_coordinate_system, arg)
    same(np.array(arg), keep, 'the coordinates passed in')
    a, b = np.deg2rad(ll).T
    close(c, 6371e3 * np.stack([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)], 1), rtol=1e-9, what='Cartesian positions')
    hgt = rng.uniform(-5e3, 5e3, d['n'])
    c2 = c * (1 + hgt / 6371e3)[:, None]
    arg = {'quantity': c2 * u.m, 'array': c2.copy(), 'km': c2 / 1e3 * u.km}[d['form']]
    keep = np.array(arg)
    g = call(RL.cartesian_to_geographic_coordinate_system, arg)
    close(g[:, :2], ll, rtol=1e-9, what='longitude and latitude recovered', scale=360)
    close(g[:, 2], hgt, rtol=0, atol=1e-5, what='height recovered')
    same(np.array(arg), keep, 'the positions passed in')
    # all ordered pairs
    p = {'quantity': c2 * u.m, 'array': c2, 'km': c2 / 1e3 * u.km}[d['form']]
    got = call(RL.antenna_positions_to_baselines, p)
    v = np.array(p)
    want = np.array([v[i] - v[j] for i in range(d['n']) for j in range(d['n']) if i != j])
    gv = got.value if isinstance(got, u.Quantity) else got
    check(isinstance(p, u.Quantity) == isinstance(got, u.Quantity) and (not isinstance(got, u.Quantity) or got.unit == p.unit), 'unit of the baselines')
    close(np.array(sorted(map(tuple, gv))), np.array(sorted(map(tuple, want))), rtol=1e-9, what='ordered baselines')
    return True


@law(LAWS, st.fixed_dictionaries(dict(z=gen.nice_floats(5, 20))), 2, 6, shards=1)
def default_layout(d, ctx):
    """Without a layout, the 2016 configuration is used."""
    ll = t2c.SKA1_LowConfig_Sept2016()
    check(ll.shape[1] == 2 and np.all(np.abs(ll[:, 0] - 116.8) < 1) and np.all(np.abs(ll[:, 1] + 26.8) < 1), 'default layout coordinates')
    n = len(ll)
    a, na = call(RL.subarray_type_to_antxyz, None)
    check(na == n and a.shape == (n, 3), 'default layout: %s antennas', na)
    x = call(t2c.geographic_to_cartesian_coordinate_system, ll)
    close(a.to('m').value, x, rtol=1e-12, what='default layout')
    b, nb = call(t2c.from_antenna_config, None, d['z'])
    check(nb == n and len(b) == n * (n - 1) // 2, 'default baselines: %s of %s antennas', len(b), nb)
    lam = CL / (NU0 / (1 + d['z']) * 1e6)
    i = np.random.default_rng(int(d['z'] * 100)).integers(0, n - 1)
    k = i * n - i * (i + 1) // 2
    close(b[k], (x[i] - x[i + 1]) / lam, rtol=1e-6, what='baseline of neighbours in the list')
    return True
