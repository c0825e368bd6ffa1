"""P09 lightcones from coeval boxes."""
import contextlib, os, time
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from tools21cm import lightcone as lc
from vlib import gen, cosmology as co, files
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Lightcones interpolate exactly between the bracketing coeval boxes'
RULE = ('2-6 coeval boxes with distinct random contents at drawn redshifts, all input forms, axes and interpolations; '
        'non-trivial: the lightcone has at least two slices in different brackets or more slices than the box has cells')
ASSUMPTIONS = ['boxes are cubes (the slice positions cycle with the number of cells of the box)',
               'equal comoving spacing holds to second order in the cell size, as the documented frequency steps imply']
LAWS = []
H, OM, OB = 0.7, 0.27, 0.044


@contextlib.contextmanager
def nosleep():
    s = time.sleep
    time.sleep = lambda *a: None
    try:
        yield
    finally:
        time.sleep = s


def cone(*a, **k):
    with nosleep():
        return call(t2c.make_lightcone, *a, **k)


@st.composite
def setups(draw, nmax=6):
    n = draw(gen.side(2, nmax, 40))
    k = draw(gen.side(2, 6))
    z0 = draw(gen.nice_floats(5, 15))
    gaps = draw(st.lists(st.sampled_from([0.013, 0.05, 0.2, 1.1]), min_size=k - 1, max_size=k - 1))
    zs = [round(z0, 3)]
    for g in gaps:
        zs.append(round(zs[-1] + g, 3))
    span = draw(st.sampled_from(['all', 'inside', 'low', 'outside', 'files', 'below']))
    return dict(n=n, zs=zs, seed=draw(gen.seeds()), los=draw(st.integers(0, 2)), slices=draw(gen.side(1, 25, 150)),
                interp=draw(st.sampled_from(['linear', 'linear', 'step', 'sigmoid'])), span=span, u=draw(gen.nice_floats(0, 1)),
                v=draw(gen.nice_floats(0, 1)), order=draw(gen.seeds()), freq=draw(st.sampled_from([False, False, True])))


def boxes(d, positive=False):
    rng = np.random.default_rng(d['seed'])
    return [(rng.uniform(0, 1, (d['n'],) * 3) if positive else rng.normal(size=(d['n'],) * 3)) for _ in d['zs']]


def limits(d):
    zs = d['zs']
    a, b = zs[0], zs[-1]
    u, v = sorted([d['u'], d['v']])
    if d['span'] == 'all':
        return None, None
    if d['span'] == 'low':
        return round(a + (b - a) * u, 4), None
    if d['span'] == 'inside':
        return round(a + (b - a) * u, 4), round(a + (b - a) * max(v, u + 0.05), 4)
    if d['span'] == 'below':
        return round(a - 0.05 - 0.3 * u, 4), b if v < 0.6 else None
    if d['span'] == 'outside':
        return round(a - 0.3 * u, 4), round(b + 0.2 * v, 4)
    return zs[int(u * (len(zs) - 1))], zs[-1] if v < 0.5 else None


def lims(d):
    lo, hi = limits(d)
    return (d['zs'][0] if lo is None else lo), (d['zs'][-1] if hi is None else hi)


def weights(z, zs, interp):
    """(low box, high box, weight of the high one)"""
    hi = min(int(np.searchsorted(zs, z, side='right')), len(zs) - 1)
    lo = hi - 1
    t = (z - zs[lo]) / (zs[hi] - zs[lo])
    if interp == 'step':
        t = 0. if z < 0.5 * (zs[lo] + zs[hi]) else 1.
    elif interp == 'sigmoid':
        t = 1 / (1 + np.exp(-2. * (-10 + 20 * t)))
    return lo, hi, t


def slab(a, i, ax):
    return [a[i], a[:, i], a[:, :, i]][ax]


def expect(bx, zs, out, interp, los):
    n = bx[0].shape[0]
    r = []
    for i, z in enumerate(out):
        lo, hi, t = weights(z, zs, interp)
        r.append((1 - t) * slab(bx[lo], i % n, los) + t * slab(bx[hi], i % n, los))
    return np.stack(r, axis=2)


def amb(out, zs):
    """Slices whose step or bracket is decided by rounding."""
    mids = [(a + b) / 2 for a, b in zip(zs[:-1], zs[1:])]
    return any(abs(z - m) < 1e-9 for z in out for m in mids)


def check_z(out, d, cell, dnu=None, cosmo=(H, OM)):
    lo, hi = lims(d)
    zs = d['zs']
    out = np.asarray(out, float)
    check(np.all(np.diff(out) > 0), 'output redshifts are not increasing')
    check(out.min() >= zs[0] and out.max() <= zs[-1], 'output redshifts %s..%s leave the range of the boxes', out.min(), out.max())
    if dnu:
        nu = 1420. / (1 + out)
        close_each(-np.diff(nu), np.full(len(out) - 1, dnu), rtol=1e-7, atol=1e-10, what='frequency spacing')
        if hi <= zs[-1]:
            check(abs(out[-1] - hi) < 1e-9, 'the highest redshift is %g, asked for %g', out[-1], hi)
        first = max(lo, zs[0])
        check(out[0] > first - 1e-9 and nu[0] + dnu > 1420. / (1 + first) - 1e-7, 'the redshifts start at %g instead of %g', out[0], first)
        return
    h, om = cosmo
    D = co.cdist(out, h, om)
    dz = cell * 100 * h * co.E(out, om, 1 - om) / co.C
    if len(out) > 1:
        close_each(np.diff(D) / cell, np.ones(len(out) - 1), rtol=float(np.max(dz / (1 + out))) * 1.1 + 1e-6, what='comoving spacing / cell size')
    if lo >= zs[0]:
        check(abs(out[0] - lo) < 1e-12, 'the lowest redshift is %g, asked for %g', out[0], lo)
    last = min(hi, zs[-1])
    check(out[-1] <= last, 'slices beyond the highest redshift')
    Dl = co.cdist(last, h, om)
    check(Dl - D[-1] < cell * (1 + 2 * dz[-1] / (1 + out[-1])) + 1e-6, 'the lightcone ends %g Mpc below the highest redshift, cell %g', Dl - D[-1], cell)


def geometry(d):
    lo, hi = lims(d)
    cell = (co.cdist(hi, H, OM) - co.cdist(lo, H, OM)) / d['slices']
    # the frequency step of a slice must stay well below the frequency itself
    cell = min(cell, 0.2 * (1 + lo) * co.C / (100 * H * co.E(hi, OM, 1 - OM)))
    dnu = (1420. / (1 + lo) - 1420. / (1 + hi)) / d['slices'] if d['freq'] else None
    return lo, hi, float(cell), dnu


def empty(d, cell):
    """No range, or one too short to be sure of a slice inside the boxes."""
    lo, hi = lims(d)
    if hi < lo + 1e-3:
        return True
    a, b = max(lo, d['zs'][0]), min(hi, d['zs'][-1])
    if d['freq'] and d['slices'] * (b - a) < 3 * (hi - lo):
        return True
    return b <= a or (lo < d['zs'][0] and co.cdist(b, H, OM) - co.cdist(a, H, OM) < 1.5 * cell)


def kwargs(d):
    lo, hi, cell, dnu = geometry(d)
    kw = dict(los_axis=d['los'], interpolation=d['interp'], box_length_mpc=cell * d['n'])
    a, b = limits(d)
    if a is not None:
        kw['z_low'] = a
    if b is not None:
        kw['z_high'] = b
    if dnu:
        kw['depth_mhz'] = dnu * 1.0001
    return kw, cell, (dnu * 1.0001 if dnu else None)


def verify(d, bx, got, out, cell, dnu, what, rtol=3e-6):
    check_z(out, d, cell, dnu)
    if d['interp'] == 'step' and amb(out, d['zs']):
        return False
    want = expect(bx, d['zs'], out, d['interp'], d['los'])
    close(got, want, rtol=rtol, what=what)
    br = {weights(z, d['zs'], 'linear')[0] for z in out}
    return len(br) > 1 or len(out) > d['n']


@law(LAWS, setups(), 900, 8000, fixed=[
    dict(n=2, zs=[7., 7.013, 7.026, 8.126], seed=1, los=0, slices=3, interp='linear', span='all', u=0., v=1., order=1, freq=False),
    dict(n=3, zs=[7., 8.1], seed=1, los=1, slices=5, interp='step', span='all', u=0., v=1., order=1, freq=True)], large=(6, 10, 80))
def slices(d, ctx):
    """A dictionary of boxes, in any order of insertion."""
    if empty(d, geometry(d)[2]):
        return False
    bx = boxes(d)
    kw, cell, dnu = kwargs(d)
    perm = np.random.default_rng(d['order']).permutation(len(bx))
    src = {d['zs'][i]: bx[i].copy() for i in perm}
    got, out = cone(src, **kw)
    nt = verify(d, bx, got, out, cell, dnu, '%s lightcone along axis %d' % (d['interp'], d['los']))
    for i in perm:
        same(src[d['zs'][i]], bx[i], 'the box given at redshift %g' % d['zs'][i])
    ctx.label('skips a box' if len(out) > 1 and np.max(np.diff([weights(z, d['zs'], 'linear')[0] for z in out])) > 1 else 'no skip')
    return nt


@law(LAWS, st.tuples(setups(nmax=4), st.lists(st.floats(0, 1), min_size=1, max_size=4, unique=True)), 400, 4000, large=(5, 6, 40))
def boxes_at_slices(t, ctx):
    """Boxes whose redshifts are exactly those of interior slices: they are reproduced there, and the slices after them still interpolate."""
    d, us = t
    d = dict(d, zs=[d['zs'][0], d['zs'][-1]], interp='linear' if d['interp'] == 'step' else d['interp'])
    if empty(d, geometry(d)[2]):
        return False
    kw, cell, dnu = kwargs(d)
    _, out = cone({z: np.zeros((d['n'],) * 3) for z in d['zs']}, **kw)
    mids = sorted({float(out[int(u * (len(out) - 1))]) for u in us} - set(d['zs']))
    mids = [z for i, z in enumerate(mids) if d['zs'][0] < z < d['zs'][-1]]
    if not mids:
        return False
    d['zs'] = [d['zs'][0]] + mids + [d['zs'][-1]]
    if np.min(np.diff(d['zs'])) < 1e-6:
        return False
    bx = boxes(d)
    got, out2 = cone({z: b.copy() for z, b in zip(d['zs'], bx)}, **kw)
    same(out2, out, 'output redshifts after adding boxes inside the range')
    close(got, expect(bx, d['zs'], out2, d['interp'], d['los']), rtol=3e-6, what='lightcone with boxes exactly at slice redshifts')
    if d['interp'] == 'linear':
        for z, b in zip(d['zs'], bx):
            for i in np.flatnonzero(out2 == z):
                close(got[:, :, i], slab(b, i % d['n'], d['los']), rtol=3e-6, what='slice at the redshift of a box')
    return True


FORMS = ['dict names', 'list', 'array', 'directory', 'textfile', 'list+z', 'list+zlist', 'list+zfile', 'reader', 'dict reader', 'reader zlist']


@law(LAWS, st.tuples(setups(nmax=4), st.sampled_from(FORMS), st.sampled_from(['cbin', 'xfrac', 'density', 'raw', 'cbin64f'])), 500, 4000, large=(5, 6, 40))
def inputs(t, ctx):
    d, form, ft = t
    d = dict(d, zs=[round(z, 3) for z in d['zs']])
    if empty(d, geometry(d)[2]):
        return False
    bx = boxes(d, positive=True)
    kw, cell, dnu = kwargs(d)
    if ft in ('density', 'raw'):
        t2c.set_sim_constants(37.)
        bx = [(b * (2048. / d['n'])**3).astype('f4') for b in bx]
    elif ft == 'cbin':
        bx = [b.astype('f4') for b in bx]
    dr = os.path.join(ctx.tmpdir(), 'data_1')
    os.makedirs(dr)
    named = form in ('list', 'array', 'directory', 'textfile')
    names = []
    rng = np.random.default_rng(d['order'])
    for i, (z, b) in enumerate(zip(d['zs'], bx)):
        tag = '%.3f' % z if named else 'box%s' % 'abcdefgh'[rng.permutation(8)[0]] + 'xyzuvw'[i % 6] + 'rstopqe'[i // 6]
        if ft.startswith('cbin'):
            nm = files.cbin(os.path.join(dr, 'dt_%s.cbin' % tag), b, 64 if ft == 'cbin64f' else 32, 'F' if ft == 'cbin64f' else 'C')
        elif ft == 'xfrac':
            nm = files.xfrac(os.path.join(dr, 'xfrac3d_%s.bin' % tag), b)
        else:
            nm = files.density(os.path.join(dr, '%sn_all.dat' % tag), b)
        names.append(nm)
    if ft == 'cbin64f':
        kw.update(cbin_bits=64, cbin_order='F')
    if ft == 'raw':
        kw.update(raw_density=True)
    rtol = 3e-6
    if ft == 'density':
        f = co.rho_crit(H) * OB * (d['n'] / 2048.)**3
        bx = [b.astype(float) * f for b in bx]
        rtol = 2e-4
    perm = list(rng.permutation(len(names)))
    pn, pz = [names[i] for i in perm], np.array([d['zs'][i] for i in perm])
    if form == 'dict names':
        src = dict(zip([float(z) for z in pz], pn))
    elif form == 'list':
        src = pn
    elif form == 'array':
        src = np.array(pn)
    elif form == 'directory':
        src = dr
    elif form == 'textfile':
        src = os.path.join(os.path.dirname(dr), 'list.txt')
        with open(src, 'w') as f:
            f.write('\n'.join(pn) + '\n')
    elif form in ('list+z', 'list+zlist', 'list+zfile'):
        src = pn
        kw['file_redshifts'] = pz if form == 'list+z' else list(map(float, pz))
        if form == 'list+zfile':
            kw['file_redshifts'] = os.path.join(os.path.dirname(dr), 'z.txt')
            np.savetxt(kw['file_redshifts'], pz)
    else:
        tab = {'tok%d' % i: b for i, b in enumerate(bx)}
        kw['reading_function'] = lambda x: tab[x]
        toks = ['tok%d' % i for i in perm]
        for q in ('cbin_bits', 'cbin_order', 'raw_density'):
            kw.pop(q, None)
        if form == 'dict reader':
            src = dict(zip([float(z) for z in pz], toks))
        else:
            src = toks
            kw['file_redshifts'] = pz if form == 'reader' else list(map(float, pz))
    got, out = cone(src, **kw)
    ctx.label(form)
    scale = np.max(np.abs(bx[0]))
    if scale < 1e-20:     # single-precision output of tiny cgs densities
        got, bx = np.asarray(got, float) / scale, [b / scale for b in bx]
    return verify(d, bx, got, out, cell, dnu, 'lightcone from %s of %s' % (form, ft), rtol)


@law(LAWS, st.tuples(setups(nmax=6), st.booleans()), 200, 1500, large=(3, 4, 30))
def velocities(t, ctx):
    d, as_files = t
    rng = np.random.default_rng(d['seed'])
    n, k = d['n'], len(d['zs'])
    t2c.set_sim_constants(425. if d['slices'] % 2 else 37.)
    nb, L = (10976., 425. / H) if d['slices'] % 2 else (2048., 37. / H)
    zs = d['zs'] if not d['slices'] % 2 else [round(d['zs'][0] + i * 0.8, 3) for i in range(k)]
    if zs[-1] - zs[0] > 1.5 and L < 100:
        zs = [round(zs[0] + i * 0.03, 3) for i in range(k)]
    d = dict(d, zs=zs, interp='linear', freq=False)
    perm = list(rng.permutation(k))
    kw = dict(los_axis=d['los'])
    a, b = limits(d)
    kw.update({q: v for q, v in (('z_low', a), ('z_high', b)) if v is not None})
    raw = [rng.normal(size=(3, n, n, n)).astype('f4') for _ in zs]
    rho = [rng.uniform(1, 20, (n, n, n)).astype('f4') for _ in zs]
    if as_files:
        tmp = ctx.tmpdir()
        vn = [files._w(os.path.join(tmp, '%.3fv_all.dat' % z), files.i4(n, n, n), r.tobytes(order='F')) for z, r in zip(zs, raw)]
        dn = [files.density(os.path.join(tmp, '%.3fn_all.dat' % z), r) for z, r in zip(zs, rho)]
        lsc = L / nb * co.MPC_CM
        tsc = 2. / (3 * np.sqrt(OM) * 100 * H / co.MPC_CM * 1e5)
        vel = [r.astype(float) * lsc / tsc * (1 + z) / 1e5 * 8. / q for r, z, q in zip(raw, zs, rho)]
        args = ([vn[i] for i in perm], [dn[i] for i in perm])
        if d['slices'] % 3 == 0:
            args = ({zs[i]: vn[i] for i in perm}, {zs[i]: dn[i] for i in sorted(perm)})
        elif d['slices'] % 3 == 1:
            kw['file_redshifts'] = np.array([zs[i] for i in perm])
    else:
        vel = [r.astype(float) for r in raw]
        args = ({zs[i]: vel[i] for i in perm}, {zs[i]: rho[i] for i in perm[::-1]})
    if empty(d, L / n):
        return False
    with nosleep():
        got, out = call(t2c.make_velocity_lightcone, *args, **kw)
    check_z(out, d, L / n)
    for c in range(3):
        close(got[c], expect([v[c] for v in vel], zs, out, 'linear', d['los']), rtol=1e-5, what='velocity component %d' % c)
    return len(out) > 1


@law(LAWS, st.tuples(gen.side(1, 6), gen.side(3, 60, 200), gen.seeds(), gen.nice_floats(5, 12), st.sampled_from(['mpc', 'mhz']), gen.nice_floats(0, 1),
                     gen.nice_floats(0, 1), st.booleans(), st.booleans(), st.sampled_from([None, 50., 123.]), st.booleans()), 700, 5000, large=(4, 8, 60))
def subvolumes(t, ctx):
    n, m, seed, z0, unit, u, w, odd, sub, fov, verb = t
    cell = min(15. + seed % 40, 3300. / m)
    zs = co.zinv(co.cdist(z0, H, OM) + cell * np.arange(m), H, OM)
    box = np.random.default_rng(seed).normal(size=(n, n + 1, m)) + 3
    Dlo, Dhi = co.cdist(zs[0], H, OM), co.cdist(zs[-1], H, OM)
    Dc = Dlo + u * (Dhi - Dlo)
    zc = float(co.zinv(Dc, H, OM)[0])
    depth = w * 2.4 * min(Dc - Dlo, Dhi - Dc) + 1e-3
    if unit == 'mhz':
        nu = 1420. / (1 + zc)
        depth = w * 2.4 * min(1420. / (1 + zs[0]) - nu, nu - 1420. / (1 + zs[-1])) + 1e-4
        zl, zh = 1420. / (nu + depth / 2) - 1, 1420. / (nu - depth / 2) - 1
        dims = co.cdist(zh, H, OM) - co.cdist(zl, H, OM)
    else:
        zl, zh = co.zinv([Dc - depth / 2, Dc + depth / 2], H, OM)
        dims = depth
    kw = {'depth_' + unit: depth}
    if not odd:
        kw['odd_num_cells'] = False
    if not sub:
        kw['subtract_mean'] = False
    if fov:
        kw['fov_Mpc'] = fov
    if not verb:
        kw['verbose'] = False
    if min(abs(zl - zs[0]), abs(zh - zs[-1])) < 1e-4:
        return False
    if zl < zs[0] or zh > zs[-1]:
        try:
            t2c.get_lightcone_subvolume(box, zs, zc, **kw)
        except Exception:
            return False
        fail('a subvolume from %g to %g was cut from a lightcone from %g to %g', zl, zh, zs[0], zs[-1])
    for q in (zl, zh):
        dd = np.sort(np.abs(zs - q))
        if dd[1] - dd[0] < 1e-4:
            return False
    lo, hi = int(np.argmin(np.abs(zs - zl))), int(np.argmin(np.abs(zs - zh)))
    if odd and (hi - lo) % 2 == 0:
        hi += 1
    if hi == lo:
        return False
    before = box.copy()
    got, dm, zz = call(t2c.get_lightcone_subvolume, box, zs, zc, **kw)
    same(box, before, 'the lightcone')
    want = box[:, :, lo:hi].copy()
    if sub:
        want -= want.mean(axis=(0, 1), keepdims=True)
    close(got, want, rtol=1e-12, atol=1e-12, what='subvolume of slices %d to %d' % (lo, hi))
    same(zz, zs[lo:hi], 'redshifts of the subvolume')
    close_each(dm, [fov or 244. / H] * 2 + [float(dims)], rtol=1e-5, atol=0.02, what='size of the subvolume')
    check(not odd or got.shape[2] % 2 == 1, 'even number of cells')
    return hi - lo > 1


@law(LAWS, st.tuples(st.integers(2, 4), st.lists(st.sampled_from([0.02, 0.3, 1.5]), min_size=1, max_size=5), gen.nice_floats(6, 11), gen.seeds(),
                     gen.nice_floats(0, 1), st.sampled_from(['between', 'exact'])), 250, 2000)
def coeval_from_directory(t, ctx):
    """Cubes at any redshift from directories of outputs."""
    n, gaps, z0, seed, u, mode = t
    rng = np.random.default_rng(seed)
    zs = [round(z0, 3)]
    for g in gaps:
        zs.append(round(zs[-1] + g, 3))
    t2c.set_sim_constants(37.)
    tmp = ctx.tmpdir()
    xi = [rng.uniform(0, 1, (n, n, n)) for _ in zs]
    rho = [(rng.uniform(0.1, 3, (n, n, n)) * (2048. / n)**3).astype('f4') for _ in zs]
    raw = [rng.normal(size=(3, n, n, n)).astype('f4') for _ in zs]
    dx, dd, dv = [os.path.join(tmp, q) for q in ('xf', 'dens', 'vel')]
    for q in (dx, dd, dv):
        os.makedirs(q)
    for i in rng.permutation(len(zs)):
        files.xfrac(os.path.join(dx, 'xfrac3d_%.3f.bin' % zs[i]), xi[i])
        files.density(os.path.join(dd, '%.3fn_all.dat' % zs[i]), rho[i])
        files._w(os.path.join(dv, '%.3fv_all.dat' % zs[i]), files.i4(n, n, n), raw[i].tobytes(order='F'))
    f = co.rho_crit(H) * OB * (n / 2048.)**3
    if mode == 'exact':
        i = min(int(u * len(zs)), len(zs) - 1)
        z, lo, hi, w = zs[i], i, i, 0.
    else:
        z = zs[0] + (zs[-1] - zs[0]) * (0.01 + 0.98 * u)
        if min(abs(z - q) for q in zs) < 1e-6:
            return False
        hi = int(np.searchsorted(zs, z))
        lo = hi - 1
        w = (z - zs[lo]) / (zs[hi] - zs[lo])
    mix = lambda a: (1 - w) * np.asarray(a[lo], float) + w * np.asarray(a[hi], float)
    X, R = mix(xi), mix(rho)
    close(call(t2c.get_zs_list, dx), np.array(zs), rtol=1e-12, what='redshifts of the directory')
    close(call(t2c.coeval_xfrac, dx, z), X, rtol=1e-9, what='coeval_xfrac')
    close(call(t2c.coeval_xfrac_c2ray, dx, z), X, rtol=1e-9, what='coeval_xfrac_c2ray')
    s = 1. / (co.rho_crit(H) * OB)
    close(call(t2c.coeval_dens, dd, z) * s, R * f * s, rtol=1e-4, what='coeval_dens')
    if mode == 'exact':
        close(call(t2c.coeval_dens_c2ray, dd, z) * s, R * f * s, rtol=1e-4, what='coeval_dens_c2ray')
    close(call(t2c.coeval_overdens, dd, z), R / R.mean() - 1, rtol=1e-4, atol=1e-4, what='coeval_overdens')
    C = co.mean_dt(z, H, OM, 1 - OM, OB, 0.2486)
    dt = C * (1 - X) * R * f * s
    close(call(t2c.coeval_21cm, dx, dd, z), dt, rtol=1e-4, what='coeval_21cm')
    close(call(t2c.coeval_21cm, dx, dd, z, mean_subtract=True), dt - dt.mean(), rtol=1e-4, atol=1e-4 * np.max(dt), what='coeval_21cm minus its mean')
    k = (37. / H / 2048 * co.MPC_CM) / (2. / (3 * np.sqrt(OM) * 100 * H / co.MPC_CM * 1e5)) / 1e5
    vel = [r.astype(float) * k * (1 + q) / (rr / 8.) for r, q, rr in zip(raw, zs, rho)]
    close(call(t2c.coeval_vel, dd, dv, z), mix(vel), rtol=1e-6, what='coeval_vel')
    if zs[-1] - zs[0] < 1.2 and co.cdist(zs[-1], H, OM) - co.cdist(zs[0], H, OM) > 1.5 * 37. / H / n:
        got = call(t2c.freq_box, dx, dd, zs[0], zs[-1])
        out = got[3]
        for nm, g, bx, tol in (('xfrac', got[0], xi, 1e-9), ('density', got[1] * s, [r.astype(float) * f * s for r in rho], 1e-4),
                               ('dT', got[2], [co.mean_dt(q, H, OM, 1 - OM, OB, 0.2486) * (1 - a) * r.astype(float) * f * s
                                               for q, a, r in zip(zs, xi, rho)], 1e-4)):
            close(g, expect(bx, zs, out, 'linear', 0), rtol=tol, what='freq_box ' + nm)
    return len(zs) > 2


@law(LAWS, setups(nmax=5), 150, 1000, large=(4, 6, 40))
def cellwise_steps(d, ctx):
    """step_cell: every cell is the one of the box below or the box above, those of low smoothed value switching first."""
    d = dict(d, interp='linear', n=max(d['n'], 3))
    if empty(d, geometry(d)[2]):
        return False
    bx = [b.astype('f4') for b in boxes(d, positive=True)]
    # cells the boxes share: none, some, or all of most slices
    rng = np.random.default_rng(d['order'])
    share = [0, 0, 0.3, 0.8, 1][int(rng.integers(0, 5))]
    same_ = rng.uniform(size=bx[0].shape) < share
    bx = [np.where(same_, bx[0], b) for b in bx]
    if rng.integers(0, 4) == 0:
        bx = [np.where(b > 0.5, np.float32(1), np.float32(0)) for b in bx]
    ctx.label('shared %g' % share)
    kw, cell, dnu = kwargs(d)
    kw['interpolation'] = 'step_cell'
    got, out = cone(dict(zip(d['zs'], bx)), **kw)
    check_z(out, d, cell, dnu)
    for i, z in enumerate(out):
        lo, hi, t = weights(z, d['zs'], 'linear')
        a, b = slab(bx[lo], i % d['n'], d['los']), slab(bx[hi], i % d['n'], d['los'])
        g = got[:, :, i]
        check(np.all((g == a) | (g == b)), 'slice %d has cells of neither box', i)
        # cells of the lowest smoothed value in the higher box switch to it first
        sm = np.asarray(call(t2c.smooth_gauss, b, sigma=4.), float)
        dif = np.abs(a - b) > 1e-3 * (1 + 1e-4)
        sure = dif | (a == b)
        low = dif & (g == a)
        high = dif & (g == b)
        if dif.sum() < 2 or not sure.all():
            continue
        if low.any() and high.any():
            check(sm[low].min() >= sm[high].max() - 1e-8, 'slice %d: a cell of smoothed value %.9g is from the lower box, one of %.9g from the higher', i, sm[low].min(), sm[high].max())
        gap = np.diff(np.sort(sm[dif]))
        if gap.min() > 1e-7:
            ctx.label('counted')
            r = np.arange(dif.sum()) / (dif.sum() - 1.)
            u = (z - d['zs'][lo]) / (d['zs'][hi] - d['zs'][lo])
            n0, n1 = np.sum(r > u + 1e-3), np.sum(r > u - 1e-3)
            check(n0 - 1 <= low.sum() <= n1 + 1, 'slice %d: %d of %d cells are from the lower box %.3f of the way to the higher, expected %d', i, low.sum(), dif.sum(), u, n0)
    return len(out) > 1
