"""P24 physical <-> observational coordinates of lightcones."""
import numpy as np
import scipy.ndimage
from hypothesis import strategies as st
import tools21cm as t2c
from tools21cm import angular_coordinates as ac, cosmo as cm, conv
from vlib import gen, cosmology as co
from vlib.engine import law, call
from vlib.ref import close, check, same, fail

TITLE = 'Mapping to observed coordinates and back keeps positions, axes and averages'
RULE = ('lightcones of 2-14 cells a side and 2-40 slices (odd and even), redshifts 0.3-20, boxes 5-800 Mpc, channels of 0.2-8 cells, pixels of 0.4-3 cells, '
        'spline orders 0-5, pad and crop, scalar or array redshift; non-trivial: more than one channel and a slice that is not constant')
ASSUMPTIONS = ['slices are square and periodic', 'the box spans at least two pixels at every redshift',
               'distances and frequencies come from the package cosmology, which P05 judges; axes are also compared with an independent integration']
LAWS = []
H0, OM0 = 0.7, 0.27
EPS = 1e-7

CONE = dict(seed=gen.seeds(), n=gen.side(2, 14), m=gen.side(2, 40), z=st.sampled_from([0.3, 2., 6.5, 7.2, 9., 14., 20.]),
            box=st.sampled_from([5., 40., 100., 244 / 0.7, 500., 800.]), w=st.sampled_from([0.2, 0.5, 0.9, 1., 1.4, 2.2, 3., 4.6, 8.]),
            pix=st.sampled_from([0.4, 0.5, 0.75, 1., 1.3, 2., 2.6, 3.]), order=st.integers(0, 5),
            kind=st.sampled_from(['normal', 'ints', 'const', 'ramp', 'delta']))


def field(rng, sh, kind):
    if kind == 'normal':
        return rng.normal(size=sh) * 30
    if kind == 'ints':
        return rng.integers(0, 2, sh) * 1.
    if kind == 'const':
        return np.full(sh, rng.choice([-3.5, 1., 27.3]))
    if kind == 'ramp':
        return np.broadcast_to(np.arange(sh[-1], dtype=float), sh) + 0 * np.zeros(sh)
    a = np.zeros(sh)
    a[tuple(int(rng.integers(0, k)) for k in sh)] = 100.
    return a


def reaches(d):
    return float(cm.z_to_cdist(d['z'])) + d['box'] / d['n'] * d['m'] < 12000.


def setup(d):
    """Derived sizes of a case: cell, channel width of d.w cells at the near end, pixel of d.pix cells."""
    cell = d['box'] / d['n']
    z2 = float(cm.cdist_to_z(cm.z_to_cdist(d['z']) + cell))
    dnu = d['w'] * float(cm.z_to_nu(d['z']) - cm.z_to_nu(z2))
    dth = float(cm.angular_size_comoving(d['box'], d['z'])) * 60 / d['n'] * d['pix']
    return cell, dnu, dth


def ints(x, near=EPS):
    """Possible integer parts of a number known up to rounding."""
    return sorted({int(np.floor(x - near * max(1, abs(x)))), int(np.floor(x + near * max(1, abs(x))))})


def rounds(x):
    return sorted({int(np.round(x - EPS * max(1, abs(x)))), int(np.round(x)), int(np.round(x + EPS * max(1, abs(x))))})


def window(a, i, w):
    """Mean of the slices of a w-wide window centred on slice i (those that exist)."""
    lo, hi = max(0, i - w // 2), min(a.shape[2], i + (w - 1) // 2 + 1)
    return a[:, :, lo:hi].mean(axis=2)


def one_of(got, wants, tol, what):
    e = [np.abs(got - w).max() if got.shape == w.shape else np.inf for w in wants]
    if not min(e) <= tol:
        fail(what, got.shape, [w.shape for w in wants], 'off by', min(e), 'allowed', tol)


def ref_freq(a, z, box, dnu, f, what):
    """Candidates for each channel."""
    cell = box / a.shape[0]
    dist = cm.z_to_cdist(z) + np.arange(a.shape[2]) * cell
    fin = cm.z_to_nu(np.atleast_1d(cm.cdist_to_z(dist)))
    width = float(cm.nu_to_cdist(f[-1]) - cm.nu_to_cdist(f[-1] + dnu))
    ws = [max(1, w) for w in rounds(width / cell)]
    out = []
    for nu in f:
        near = 1e-6 * dnu
        idx = {int(np.sum(fin >= nu + s)) - 1 for s in (-near, near)}
        idx = {min(max(i, 0), a.shape[2] - 1) for i in idx}
        out.append([window(a, i, w) for i in idx for w in ws])
    return out


def axis_of(a, z, box, dnu, f, what):
    """Channels go down in steps of dnu from the near end, as far as the lightcone reaches."""
    cell = box / a.shape[0]
    D0 = float(co.cdist(z, H0, OM0))
    nu0 = co.NU0 / (1 + z)
    nu1 = co.NU0 / (1 + float(co.zinv(D0 + (a.shape[2] - 1) * cell, H0, OM0)[0]))
    f = np.asarray(f)
    slack = 2e-3 * (nu0 - nu1) + 1e-4 * nu0 * 1e-2
    check(f.ndim == 1 and len(f) >= 1, what, 'no frequency axis')
    close(f, nu0 - dnu * np.arange(len(f)), rtol=1e-9, atol=2e-7 * nu0, what=what + ' frequency axis')
    check(f[-1] > nu1 - slack, what, 'a channel beyond the lightcone', f[-1], nu1)
    check(f[-1] - dnu <= nu1 + slack, what, 'channels missing at the far end', f[-1], nu1)


@law(LAWS, st.fixed_dictionaries(CONE), 150, 900, large=(2.5, 5, 40))
def frequency(d, ctx):
    rng = np.random.default_rng(d['seed'])
    if not reaches(d):
        return False
    cell, dnu, dth = setup(d)
    a = field(rng, (d['n'], d['n'], d['m']), d['kind'])
    a0 = a.copy()
    out, f = call(ac.bin_lightcone_in_frequency, a, d['z'], d['box'], dnu)
    same(a, a0, what='input of frequency binning')
    axis_of(a, d['z'], d['box'], dnu, f, 'channels')
    check(out.shape == (d['n'], d['n'], len(f)), 'binned shape', out.shape)
    for i, cand in enumerate(ref_freq(a, d['z'], d['box'], dnu, f, 'channels')):
        one_of(out[:, :, i], cand, 1e-9 * max(1, np.abs(a).max()), f'channel {i} is not the average of the slices in its window:')
    # a lightcone that is not square in the sky behaves the same
    b = field(rng, (d['n'], 3, d['m']), d['kind'])
    o2, f2 = call(ac.bin_lightcone_in_frequency, b, d['z'], d['box'], dnu)
    same(f2, f, what='axis of an oblong lightcone')
    for i, cand in enumerate(ref_freq(b, d['z'], d['box'], dnu, f, 'channels')):
        one_of(o2[:, :, i], cand, 1e-9 * max(1, np.abs(b).max()), f'channel {i} of an oblong lightcone')
    ctx.label('wide' if d['w'] > 1.5 else 'narrow')
    return len(f) > 1 and d['kind'] != 'const'


MPC = dict(seed=gen.seeds(), n=gen.side(1, 6), m=gen.side(2, 40), z=st.sampled_from([0.5, 6.5, 9., 14.]), dnu=st.sampled_from([0.05, 0.2, 1.]),
           w=st.sampled_from([0.3, 0.7, 1., 1.5, 2., 3.3, 6.]), kind=st.sampled_from(['normal', 'ints', 'const', 'ramp']), even=st.booleans())


@law(LAWS, st.fixed_dictionaries(MPC), 150, 900, large=(4, 5, 40))
def distance(d, ctx):
    rng = np.random.default_rng(d['seed'])
    f = float(cm.z_to_nu(d['z'])) - d['dnu'] * np.arange(d['m'])
    if not d['even']:
        f = f - d['dnu'] * 0.4 * rng.uniform(size=d['m'])
    if f[-1] < 25.:
        return False
    D = np.asarray(cm.nu_to_cdist(f))
    cs = d['w'] * float(D[-1] - D[-2])
    if cs <= 0 or (D[-1] - D[0]) / cs < 1 or (D[-1] - D[0]) / cs > 4000:
        return False
    a = field(rng, (d['n'], d['n'] + 1, d['m']), d['kind'])
    out, z = call(ac.bin_lightcone_in_mpc, a, f, cs)
    nn = (D[-1] - D[0]) / cs
    z = np.asarray(z)
    check(out.shape[:2] == a.shape[:2] and out.shape[2] in ints(nn), 'depth of the distance-binned cone', out.shape, nn)
    check(z.shape == (out.shape[2],), 'one redshift per output slice', z.shape, out.shape)
    pos = D[0] + cs * np.arange(out.shape[2])
    close(np.atleast_1d(cm.z_to_cdist(z)), pos, rtol=2e-5, what='redshift axis')
    close(np.asarray(co.cdist(z, H0, OM0)), float(co.cdist(d['z'] if d['even'] else co.NU0 / f[0] - 1, H0, OM0)) + cs * np.arange(out.shape[2]), rtol=2e-4, what='redshift axis against integration')
    ws = [max(1, w) for w in rounds(d['m'] / nn)]
    for i in range(out.shape[2]):
        idx = {min(max(int(np.sum(D <= pos[i] + s)) - 1, 0), d['m'] - 1) for s in (-1e-7 * cs, 1e-7 * cs)}
        one_of(out[:, :, i], [window(a, j, w) for j in idx for w in ws], 1e-9 * max(1, np.abs(a).max()), f'slice {i} is not the average of the channels in its window:')
    return out.shape[2] > 1 and d['kind'] != 'const'


def tophat(a, w):
    if w <= 1:
        return a
    o = range(-((w - 1) // 2), w // 2 + 1)
    return np.mean([np.roll(a, (-i, -j), (0, 1)) for i in o for j in o], axis=0)


def ref_resample(a, n, order, prefilter=True):
    """Spline through the (smoothed) slice, at n points from its first to its last cell."""
    N = a.shape[0]
    outs = []
    for w in sorted({max(1, w) for w in rounds(N / n)}) if prefilter else [1]:
        s = tophat(a, min(w, N))
        x = np.linspace(0, N - 1, n)
        if order == 0:
            for e in (-1e-9, 1e-9):
                i = np.clip(np.floor(x + 0.5 + e).astype(int), 0, N - 1)
                for e2 in (-1e-9, 1e-9):
                    j = np.clip(np.floor(x + 0.5 + e2).astype(int), 0, N - 1)
                    outs.append(s[np.ix_(i, j)])
        elif order == 1:
            i = np.minimum(np.floor(x + 1e-9).astype(int), N - 2 if N > 1 else 0)
            t = x - i
            k = np.minimum(i + 1, N - 1)
            r = s[i] * (1 - t)[:, None] + s[k] * t[:, None]
            outs.append(r[:, i] * (1 - t) + r[:, k] * t)
        else:
            g = np.meshgrid(x, x, indexing='ij')
            outs.append(scipy.ndimage.map_coordinates(s, g, order=order, mode='wrap'))
    return outs


def ref_order0(got, a, n, prefilter, tol, what):
    """Nearest-cell sampling: positions exactly half way may go either way, cell by cell."""
    N = a.shape[0]
    x = np.linspace(0, N - 1, n)
    best = np.full(got.shape, np.inf)
    errs = []
    for w in sorted({max(1, w) for w in rounds(N / n)}) if prefilter else [1]:
        s = tophat(a, min(w, N))
        best = np.full(got.shape, np.inf)
        lo, hi = np.floor(x + 0.5 - 1e-9).astype(int), np.floor(x + 0.5 + 1e-9).astype(int)
        for i in (lo, hi):
            for j in (lo, hi):
                best = np.minimum(best, np.abs(got - s[np.ix_(np.clip(i, 0, N - 1), np.clip(j, 0, N - 1))]))
        errs.append(best.max())
    if not min(errs) <= tol:
        fail(what, 'nearest-cell sampling off by', min(errs))


def resampled(got, a, n, order, prefilter, what):
    tol = 1e-9 * max(1, np.abs(a).max()) * (1 + 10 * order)
    check(got.shape == (n, n), what, 'shape', got.shape, n)
    if order == 0:
        ref_order0(got, a, n, prefilter, tol, what)
    else:
        one_of(got, ref_resample(a, n, order, prefilter), tol, what)


RES = dict(seed=gen.seeds(), n=gen.side(2, 16), out=gen.side(1, 40), order=st.integers(0, 5), pre=st.booleans(), kind=st.sampled_from(['normal', 'ints', 'const', 'ramp', 'delta']))


@law(LAWS, st.fixed_dictionaries(RES), 200, 1500, large=(3, 5, 40))
def resample(d, ctx):
    rng = np.random.default_rng(d['seed'])
    a = field(rng, (d['n'], d['n']), d['kind'])
    a0 = a.copy()
    got = call(ac.resample_slice, a, d['out'], d['order'], d['pre'])
    same(a, a0, what='input of resampling')
    resampled(got, a, d['out'], d['order'], d['pre'], f"resampling {d['n']} to {d['out']}")
    if d['pre']:
        same(call(ac.resample_slice, a, d['out'], d['order']), got, what='default prefilter')
    if d['order'] == 0:
        same(call(ac.resample_slice, a, d['out'], prefilter=d['pre']), got, what='default order')
    if d['kind'] == 'const':
        close(got, np.full(got.shape, a[0, 0]), rtol=1e-9, what='constant slice')
    b = rng.normal(size=a.shape)
    close(call(ac.resample_slice, 2 * a - 3 * b, d['out'], d['order'], d['pre']), 2 * got - 3 * call(ac.resample_slice, b, d['out'], d['order'], d['pre']),
          rtol=1e-9, atol=1e-8 * (1 + np.abs(a).max()), what='linearity')
    close(call(ac.resample_slice, a.T, d['out'], d['order'], d['pre']), got.T, rtol=1e-9, atol=1e-9 * (1 + np.abs(a).max()), what='both sky axes alike')
    return d['kind'] != 'const' and d['out'] > 1


def odd_less(n):
    return n - 1 if n % 2 == 0 else n


def odd_more(n):
    return n + 1 if n % 2 == 0 else n


SL = dict(CONE, f=st.sampled_from([1., 1., 1.05, 1.3, 1.7, 2.4, 3.2]))


@law(LAWS, st.fixed_dictionaries(SL), 200, 1200, large=(2.5, 5, 40))
def sky(d, ctx):
    """A slice at redshift z seen in a field of view that is f times its own size."""
    rng = np.random.default_rng(d['seed'])
    a = field(rng, (d['n'], d['n']), d['kind'])
    cell, dnu, dth = setup(d)
    own = float(cm.angular_size_comoving(d['box'], d['z']))
    fov = own * d['f']
    want = [odd_less(k) for k in ints(own * 60 / dth)]
    if min(want) < 1:
        return False
    total = ints(fov * 60 / dth)
    got = call(ac.physical_slice_to_angular, a, d['z'], d['box'], fov, dth, d['order'])
    check(got.ndim == 2 and got.shape[0] == got.shape[1], 'angular slice is not square', got.shape)
    N = got.shape[0]
    check(N in total or (N in want and N > min(total)), 'cells over the field of view', N, total)
    for k in sorted(set(want)):
        if k > N:
            continue
        try:
            resampled(got[:k, :k], a, k, d['order'], True, f'slice over {k} pixels')
            i = np.arange(N) % k
            same(got, got[:k, :k][np.ix_(i, i)], what='repetition outside the box')
            break
        except Exception as e:
            err = e
    else:
        raise err
    if d['order'] == 0:
        same(call(ac.physical_slice_to_angular, a, d['z'], d['box'], fov, dth), got, what='default order')
    return d['kind'] != 'const' and N > 1


@law(LAWS, st.fixed_dictionaries(SL), 200, 1200, large=(2.5, 5, 40))
def plane(d, ctx):
    """A slice of angular size f*fov, cut to the size of the field of view at a lower redshift."""
    rng = np.random.default_rng(d['seed'])
    a = field(rng, (d['n'], d['n']), d['kind'])
    deg = float(cm.angular_size_comoving(d['box'], d['z']))
    cs = d['box'] / d['n'] * d['pix']
    size = d['box'] / d['f']
    pre = bool(d['seed'] % 2)
    got = call(ac.angular_slice_to_physical, a, d['z'], deg, cs, size, d['order'], pre)
    cut = [min(k, d['n']) for k in ints(size / cs)]
    ks = sorted({odd_more(k) for k in ints(d['box'] / cs)})
    full = None
    for k in ks:
        r = np.asarray(call(ac.resample_slice, a, k, d['order'], pre))
        for c in cut:
            w = r[:c, :c]
            if w.shape == got.shape and (w.size == 0 or np.abs(w - got).max() <= 1e-12 * max(1, np.abs(a).max())):
                full = r
    check(full is not None, 'cut of the resampled slice', got.shape, cut, ks)
    resampled(full, a, full.shape[0], d['order'], pre, 'physical slice')
    if pre:
        same(call(ac.angular_slice_to_physical, a, d['z'], deg, cs, size, d['order']), got, what='default prefilter')
    return d['kind'] != 'const' and got.size > 1


FULL = dict(CONE, m=gen.side(3, 30), n=gen.side(2, 12), mode=st.sampled_from(['pad', 'full', 'extend', 'crop', 'valid', 'PAD', 'Crop', 'default']),
            zform=st.sampled_from(['float', 'int', 'npint', '0d', 'array', 'list', 'shuffled']), lb=st.booleans())


@law(LAWS, st.fixed_dictionaries(FULL), 120, 700, large=(2.5, 4, 30))
def observe(d, ctx):
    rng = np.random.default_rng(d['seed'])
    if d['zform'] in ('int', 'npint'):
        d = dict(d, z=float(round(d['z']) or 1))
    if not reaches(d):
        return False
    n, m = d['n'], d['m']
    a = field(rng, (n, n, m), d['kind'])
    a0 = a.copy()
    cell, dnu, dth = setup(d)
    D0 = float(cm.z_to_cdist(d['z']))
    zs = np.atleast_1d(cm.cdist_to_z(D0 + np.arange(m) * cell)).copy()
    zs[0] = d['z']
    zhi = float(zs.max())
    lo, hi = (float(cm.angular_size_comoving(d['box'], q)) for q in (d['z'], zhi))
    if hi * 60 / dth < 2.001:
        return False
    zin = dict(float=d['z'], int=int(d['z']), npint=np.int64(d['z']), array=zs, list=list(zs), shuffled=rng.permutation(zs))
    zin['0d'] = np.array(d['z'])
    zin = zin[d['zform']]
    kw = {} if d['mode'] == 'default' else dict(mode=d['mode'])
    crop = d['mode'].lower() in ('crop', 'valid')
    args = dict(verbose=False, order=d['order'])
    if d['lb']:
        t2c.set_sim_constants(37.)
        old = conv.LB
        conv.LB = d['box']
        try:
            out, f = call(t2c.physical_lightcone_to_observational, a, zin, dnu, dth, **args, **kw)
        finally:
            conv.LB = old
    else:
        out, f = call(t2c.physical_lightcone_to_observational, a, zin, dnu, dth, d['box'], **args, **kw)
    same(a, a0, what='input lightcone')
    axis_of(a, d['z'], d['box'], dnu, f, 'observed')
    nth = ints(lo * 60 / dth)
    ncr = ints(hi * 60 / dth, 1e-6) if crop else nth
    check(out.ndim == 3 and out.shape[0] == out.shape[1] and out.shape[0] in ncr and out.shape[2] == len(f), 'shape of the observed cone', out.shape, ncr)
    full = out
    if crop:
        full, f2 = call(t2c.physical_lightcone_to_observational, a, zin, dnu, dth, d['box'], **args, mode='pad')
        same(f2, f, what='channels with and without crop')
        b, c = full.shape[0], out.shape[0]
        s = (b - c) // 2
        same(out, full[s:s + c, s:s + c], what='crop is the centre of the padded cone')
    binned, fb = call(ac.bin_lightcone_in_frequency, a, d['z'], d['box'], dnu)
    same(fb, f, what='channels')
    for i in range(len(f)):
        w = call(ac.physical_slice_to_angular, binned[:, :, i], co.NU0 / f[i] - 1, d['box'], lo, dth, d['order'])
        if w.shape[0] < full.shape[0]:
            fail('slice smaller than the cone', w.shape, full.shape)
        close(full[:, :, i], w[:full.shape[0], :full.shape[0]], rtol=1e-9, atol=1e-9 * max(1, np.abs(a).max()), what=f'channel {i} on its own')
    if d['kind'] == 'const':
        close(out, np.full(out.shape, a.flat[0]), rtol=1e-8, what='constant lightcone')
    if d['order'] == 2 and not crop:
        args.pop('order')
        same(call(t2c.physical_lightcone_to_observational, a, zin, dnu, dth, d['box'], **args)[0], out, what='default order')
    ctx.label(d['zform'])
    return len(f) > 1 and d['kind'] != 'const'


BACK = dict(seed=gen.seeds(), n=gen.side(2, 14), m=gen.side(2, 30), z=st.sampled_from([0.5, 6.5, 7.2, 9., 14.]), dnu=st.sampled_from([0.02, 0.1, 0.3, 1.]),
            asp=st.sampled_from([0.3, 0.8, 1., 1.2, 1.9, 2., 4.]), order=st.integers(0, 3), kind=st.sampled_from(['normal', 'ints', 'const', 'delta']))


@law(LAWS, st.fixed_dictionaries(BACK), 150, 800, large=(2.5, 5, 30))
def recover(d, ctx):
    rng = np.random.default_rng(d['seed'])
    n, m = d['n'], d['m']
    a = field(rng, (n, n, m), d['kind'])
    a0 = a.copy()
    f = float(cm.z_to_nu(d['z'])) - d['dnu'] * np.arange(m)
    D = np.asarray(cm.nu_to_cdist(f))
    par = float(D[-1] - D[-2])
    perp = d['asp'] * par
    dth = float(cm.angular_size_comoving(perp, co.NU0 / f[0] - 1)) * 60
    cs = max(par, perp)
    if n * perp / cs < 1.01 or (D[-1] - D[0]) / cs < 1.01:
        return False
    out, z, size = call(t2c.observational_lightcone_to_physical, a, f, dth, verbose=False, order=d['order'])
    same(a, a0, what='input lightcone')
    close(size, cs, rtol=1e-8, what='cell size: the coarser of the two')
    fov = n * perp
    z = np.asarray(z)
    check(out.shape[0] == out.shape[1] and out.shape[0] in ints(fov / cs, 1e-6), 'cells across', out.shape, fov / cs)
    check(out.shape[2] in ints((D[-1] - D[0]) / cs) and z.shape == (out.shape[2],), 'slices along the line of sight', out.shape, z.shape, (D[-1] - D[0]) / cs)
    close(np.asarray(co.cdist(z, H0, OM0)), float(co.cdist(co.NU0 / f[0] - 1, H0, OM0)) + cs * np.arange(len(z)), rtol=2e-4, what='redshift axis')
    k = out.shape[0]
    par_out = np.zeros((k, k, m))
    for i in range(m):
        w = call(ac.angular_slice_to_physical, a[:, :, i], co.NU0 / f[i] - 1, n * dth / 60, size, k * size * (1 + 1e-9), d['order'])
        par_out[:, :, i] = w
    want, zz = call(ac.bin_lightcone_in_mpc, par_out, f, size)
    close(out, want, rtol=1e-9, atol=1e-9 * max(1, np.abs(a).max()), what='recovered cone')
    if d['kind'] == 'const':
        close(out, np.full(out.shape, a.flat[0]), rtol=1e-8, what='constant lightcone')
    if d['order'] == 2:
        same(call(t2c.observational_lightcone_to_physical, a, f, dth, verbose=False)[0], out, what='default order')
    return out.shape[2] > 1 and d['kind'] != 'const'


WAVE = dict(seed=gen.seeds(), n=st.integers(36, 64), m=st.integers(36, 90), z=st.sampled_from([6.5, 7.2, 9., 14.]), box=st.sampled_from([100., 244 / 0.7, 600.]),
            w=st.sampled_from([0.7, 1., 1.6]), pix=st.sampled_from([0.6, 1., 1.4]), order=st.integers(0, 3), axis=st.integers(0, 2))


@law(LAWS, st.fixed_dictionaries(WAVE), 40, 250)
def position(d, ctx):
    """A long wave along any axis is seen at the angles and frequencies of its comoving positions, there and back."""
    rng = np.random.default_rng(d['seed'])
    n, m, ax = d['n'], d['m'], d['axis']
    cell, dnu, dth = setup(d)
    per = [n, n, m * 1.3][ax]
    ph = rng.uniform(0, 2 * np.pi)
    g = np.indices((n, n, m))[ax]
    a = np.sin(2 * np.pi * g / per + ph)
    slope = 2 * np.pi / per
    out, f = call(t2c.physical_lightcone_to_observational, a, d['z'], dnu, dth, d['box'], verbose=False, order=d['order'])
    D0 = float(co.cdist(d['z'], H0, OM0))
    Df = np.asarray(co.cdist(co.NU0 / f - 1, H0, OM0))
    if ax == 2:
        pos = np.broadcast_to(((Df - D0) / cell)[None, None, :], out.shape)
        tol = slope * 2.2
    else:
        th = np.arange(out.shape[0]) * dth / 60 * np.pi / 180
        p = th[:, None] * Df[None, :] / cell
        pos = np.broadcast_to(p[:, None, :] if ax == 0 else p[None, :, :], out.shape)
        # mapping first to last cell and the odd number of pixels move the last pixel by up to three cells or pixels
        tol = slope * (2.5 + 3 * max(1, d['pix']))
    e = np.abs(out - np.sin(slope * pos + ph)).max()
    check(e <= tol, f'a wave along axis {ax} appears displaced: error', e, 'allowed', tol)
    if len(f) < 3:
        return True
    back, z, cs = call(t2c.observational_lightcone_to_physical, out, f, dth, verbose=False, order=d['order'])
    if ax == 2:
        pos = np.broadcast_to(((np.asarray(co.cdist(z, H0, OM0)) - D0) / cell)[None, None, :], back.shape)
        tol += slope * (1.5 + 1.2 * cs / cell)
    else:
        p = np.arange(back.shape[0]) * cs / cell
        pos = np.broadcast_to(p[:, None, None] if ax == 0 else p[None, :, None], back.shape)
        tol += slope * (2.5 + 3 * cs / cell)
    e = np.abs(back - np.sin(slope * pos + ph)).max()
    check(e <= tol, f'a wave along axis {ax} comes back displaced: error', e, 'allowed', tol)
    ctx.label('sensitive' if tol < 1.6 else 'coarse')
    return tol < 1.9


@law(LAWS, st.fixed_dictionaries(dict(CONE, c=st.sampled_from([-2., 0.5, 7.]), crop=st.booleans())), 80, 500, large=(2, 3, 20))
def linear(d, ctx):
    """Superposition, and slices that stay apart across frequency when channels are one slice wide."""
    rng = np.random.default_rng(d['seed'])
    n, m = d['n'], max(3, d['m'])
    if not reaches(dict(d, m=m)):
        return False
    cell, dnu, dth = setup(d)
    D0 = float(cm.z_to_cdist(d['z']))
    zhi = float(cm.cdist_to_z(D0 + (m - 1) * cell))
    if float(cm.angular_size_comoving(d['box'], zhi)) * 60 / dth < 2.001:
        return False
    a, b = field(rng, (n, n, m), d['kind']), rng.normal(size=(n, n, m))
    k = dict(verbose=False, order=d['order'], mode='crop' if d['crop'] else 'pad')
    A, f = call(t2c.physical_lightcone_to_observational, a, d['z'], dnu, dth, d['box'], **k)
    B, _ = call(t2c.physical_lightcone_to_observational, b, d['z'], dnu, dth, d['box'], **k)
    C, _ = call(t2c.physical_lightcone_to_observational, d['c'] * a + b, d['z'], dnu, dth, d['box'], **k)
    close(C, d['c'] * A + B, rtol=1e-8, atol=1e-8 * (1 + np.abs(a).max()), what='superposition, forward')
    T, _ = call(t2c.physical_lightcone_to_observational, a.swapaxes(0, 1), d['z'], dnu, dth, d['box'], **k)
    close(T, A.swapaxes(0, 1), rtol=1e-8, atol=1e-8 * (1 + np.abs(a).max()), what='both sky axes alike')
    if len(f) > 1:
        try:
            P = [call(t2c.observational_lightcone_to_physical, q, f, dth, verbose=False, order=d['order'])[0] for q in (A, B, d['c'] * A + B)]
        except AssertionError:
            raise
        except Exception:
            P = None  # narrower than one output cell
            if A.shape[0] * dth / 60 >= 1.01 * float(cm.angular_size_comoving(float(cm.nu_to_cdist(f[-1]) - cm.nu_to_cdist(f[-2])), co.NU0 / f[0] - 1)):
                raise
        if P is not None:
            close(P[2], d['c'] * P[0] + P[1], rtol=1e-8, atol=1e-8 * (1 + np.abs(A).max()), what='superposition, backward')
    # change one input slice: only channels whose window holds it may change
    i = int(rng.integers(0, m))
    b2 = b.copy()
    b2[:, :, i] += 50
    B2, _ = call(t2c.physical_lightcone_to_observational, b2, d['z'], dnu, dth, d['box'], **k)
    width = max(1, int(np.ceil(float(cm.nu_to_cdist(f[-1]) - cm.nu_to_cdist(f[-1] + dnu)) / cell)))
    pos = (np.atleast_1d(cm.nu_to_cdist(f)) - D0) / cell
    ch = np.abs(B2 - B).max(axis=(0, 1)) > 1e-6
    far = np.abs(pos - i) > width / 2 + 1.6
    check(not (ch & far).any(), 'a slice changed a channel that does not hold it', i, pos[ch & far], width)
    check((d['pix'] > 1) or ch[np.abs(pos - i - 0.5) < 0.3].all(), 'a slice does not reach its own channel', i)
    return len(f) > 1


PAD = dict(seed=gen.seeds(), nx=gen.side(1, 9), ny=gen.side(1, 9), nz=gen.side(1, 5), pad=gen.side(0, 6), dflt=st.booleans(),
           mode=st.sampled_from(['wrap', 'edge', 'constant', 'reflect', 'symmetric', 'default']))


@law(LAWS, st.fixed_dictionaries(PAD), 120, 800, large=(5, 5, 40))
def padding(d, ctx):
    rng = np.random.default_rng(d['seed'])
    nx, ny = d['nx'], d['ny']
    a = rng.normal(size=(nx, ny, d['nz']))
    p = ny // 2 if d['dflt'] else d['pad']
    mode = d['mode']
    kw = {} if mode == 'default' else dict(mode=mode)
    mode = 'wrap' if mode == 'default' else mode
    out = call(t2c.padding_lightcone, a, **({} if d['dflt'] else dict(padded_n=p)), verbose=False, **kw)

    def idx(n):
        i = np.arange(-p, n + p)
        if mode == 'wrap':
            return i % n
        if mode in ('edge', 'constant'):
            return np.clip(i, 0, n - 1)
        if mode == 'reflect':
            per = max(1, 2 * n - 2)
            j = i % per
            return np.where(j < n, j, per - j)
        j = i % (2 * n)
        return np.where(j < n, j, 2 * n - 1 - j)
    want = a[np.ix_(idx(nx), idx(ny), np.arange(d['nz']))]
    if mode == 'constant':
        ins = lambda n: (np.arange(-p, n + p) >= 0) & (np.arange(-p, n + p) < n)
        want = want * (ins(nx)[:, None] & ins(ny))[:, :, None]
    same(out, want, what=f'{mode} padding by {p}')
    return p > 0
