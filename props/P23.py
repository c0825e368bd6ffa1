"""P23 instrument response, gains and primary beam."""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st
from scipy.special import j1
import tools21cm as t2c
import importlib
PB = importlib.import_module('tools21cm.primary_beam')
from vlib import gen, cosmology as co
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Instrument response keeps sampled modes and removes the others'
RULE = ('images and cubes of 1-9 cells a side (odd and even, other depth than width), any coverage (counts, fractions, float32, empty, full, symmetric or not), '
        'random gains, all beam shapes, sizes, redshifts, frequency axes; non-trivial: both sampled and unsampled cells, or a beam that varies over the image')
ASSUMPTIONS = ['slices are square', 'idempotence is claimed for coverage that is symmetric under inversion (as made with mirrored baselines)']
LAWS = []
H0, OM0 = 0.7, 0.27


def inv(a):
    i = -np.arange(a.shape[0]) % a.shape[0]
    return a[np.ix_(i, i)]


def cover(rng, n, kind):
    uv = rng.integers(0, 4, (n, n)) * 0.5
    uv = np.where(rng.uniform(size=(n, n)) < 0.4, 0, uv)
    if kind == 'sym':
        uv = (uv + inv(uv)) / 2
    elif kind == 'f4':
        uv = uv.astype('f4') * np.float32(1e-4)
    elif kind == 'int':
        uv = rng.integers(0, 3, (n, n))
    elif kind == 'full':
        uv = uv + 1
    elif kind == 'none':
        uv = uv * 0
    elif kind == 'one':
        uv = np.zeros((n, n))
        uv[tuple(rng.integers(0, n, 2))] = 1e-6
    return uv


IMG = dict(seed=gen.seeds(), n=gen.side(1, 9), uv=st.sampled_from(['any', 'sym', 'f4', 'int', 'full', 'none', 'one']),
           kind=st.sampled_from(['normal', 'delta', 'const', 'wave', 'ints']), dt=st.sampled_from(['f8', 'f8', 'f4', 'i4']), nz=gen.side(1, 6))


def image(rng, sh, d):
    a = gen.build(dict(shape=list(sh), kind=d['kind'], seed=int(rng.integers(0, 2**31)), amp=50.))
    return a.astype(d['dt'])


def response(a, m):
    """Real part of the transform restricted to a set of modes, by explicit sums over symmetric pairs."""
    F = np.fft.fft2(np.asarray(a, float))
    m = np.asarray(m, float)
    return np.fft.ifft2(F * (m + inv(m)) / 2).real


@law(LAWS, st.fixed_dictionaries(IMG), 5000, 40000, large=(8, 15, 100))
def images(d, ctx):
    rng = np.random.default_rng(d['seed'])
    n = d['n']
    uv = cover(rng, n, d['uv'])
    a, b = image(rng, (n, n), d), image(rng, (n, n), d)
    ka, ku = a.copy(), uv.copy()
    f = lambda x, m=uv: call(t2c.apply_uv_response_on_image, x, m)
    r = f(a)
    same(a, ka, 'the image passed in')
    same(uv, ku, 'the coverage passed in')
    check(r.dtype.kind == 'f' and r.shape == a.shape, 'response of type %s and shape %s', r.dtype, r.shape)
    t = dict(rtol=1e-5 if d['dt'] == 'f4' else 1e-10, scale=max(np.abs(a).max(), np.abs(b).max(), 1e-300) * 10)
    m = (uv != 0)
    close(r, response(a, m), what='response', **t)
    F, R = np.fft.fft2(a.astype(float)), np.fft.fft2(r)
    both, none = m & inv(m), ~m & ~inv(m)
    t2 = dict(t, scale=t['scale'] * n * n)
    close(np.where(both, R, 0), np.where(both, F, 0), what='sampled modes', **t2)
    close(np.where(none, R, 0), 0 * R, what='unsampled modes', **t2)
    close(f(2.0 * a + 3.0 * b), 2.0 * r + 3.0 * f(b), what='linearity', **t)
    check(np.sum(r**2) <= np.sum(a.astype(float)**2) * (1 + 1e-5) + 1e-20, 'the response has more power than the image')
    if np.array_equal(m, inv(m)):
        close(f(r), r, what='idempotence', **t)
    same(f(a, m.astype(float)), r, 'response against the size of the coverage')
    if d['uv'] == 'full':
        close(r, a.astype(float), what='response of a full coverage', **t)
    if n > 1:
        try:
            t2c.apply_uv_response_on_image(a, uv[:-1])
        except Exception:
            pass
        else:
            fail('a coverage of another shape was accepted')
    # cube, slice by slice
    c = np.stack([image(rng, (n, n), d) for _ in range(d['nz'])], -1)
    out = call(t2c.apply_uv_response_on_coeval, c, 8.0, uv_map=uv)
    check(out.shape == c.shape, 'response of a cube has shape %s', out.shape)
    for k in range(d['nz']):
        close(out[:, :, k], f(c[:, :, k]), rtol=1e-6, what='slice %d' % k, scale=t['scale'])
    return bool(m.any() and not m.all())


@law(LAWS, st.fixed_dictionaries(dict(IMG, z=gen.nice_floats(5, 20), box=gen.nice_floats(30, 500), nant=st.integers(2, 6), dec=st.sampled_from([-30., 20.]),
                                      it=st.sampled_from([600., 1200.]), tot=st.sampled_from([0.5, 1., 2.]), g=gen.nice_floats(0.3, 3))), 1000, 8000, large=(6, 8, 60))
def observed(d, ctx):
    """Response for a layout; unit gains; gains."""
    rng = np.random.default_rng(d['seed'])
    n, z, box = max(2, d['n']), d['z'], d['box']
    lam = 2.99792458e8 / (1420e6 / (1 + z))
    L = n / 2. * float(co.cdist(z, H0, OM0)) / box * lam
    ants = rng.normal(size=(d['nant'], 3)) * L * 0.7 * u.m
    kw = dict(total_int_time=d['tot'], int_time=d['it'], declination=d['dec'])
    uv, na = t2c.get_uv_map(n, z, ants, boxsize=box, verbose=False, **kw)
    c = np.stack([image(rng, (n, n), d) for _ in range(d['nz'])], -1)
    if d['seed'] % 2:
        t2c.conv.LB = box
        kb = {}
    else:
        kb = dict(boxsize=box)
    out = call(t2c.apply_uv_response_on_coeval, c, z, subarray_type=ants, **dict(kw, **kb))
    sc = max(np.abs(c).max(), 1e-300) * 10
    for k in range(d['nz']):
        close(out[:, :, k], response(c[:, :, k], uv != 0), rtol=1e-5, what='observed slice %d' % k, scale=sc)
    # gains
    a = c[:, :, 0]
    g = d['g']
    for model, fac in ((np.stack([np.ones(d['nant']), np.zeros(d['nant'])], 1), 1.0),
                       ({'real': lambda m: np.full(m, g), 'imag': lambda m: np.zeros(m)}, g)):
        gm, _ = t2c.get_uv_map_with_gains(n, z, gain_model=model, subarray_type=ants, include_mirror_baselines=True, verbose=False, boxsize=box, **kw)
        with np.errstate(all='ignore'):
            r = call(t2c.apply_uv_with_gains_response_on_image, a, gm)
        m = gm[:, :, 0] > 0
        close(r, fac * response(a, m), rtol=1e-5, what='response with gain %g' % fac, scale=sc * max(1, fac))
        inner = np.ones(n, bool)
        if n % 2 == 0:
            inner[n // 2] = False
        w = np.outer(inner, inner)
        same(np.where(w, m, 0), np.where(w, uv != 0, 0), 'cells sampled with and without gains')
    gm = np.zeros((n, n, 5))
    gm[:, :, 0] = cover(rng, n, 'int')
    gm[:, :, 1:] = rng.normal(size=(n, n, 4)) * gm[:, :, :1]
    kg = gm.copy()
    with np.errstate(all='ignore'):
        r = call(t2c.apply_uv_with_gains_response_on_image, a, gm, False)
        eff = np.where(gm[:, :, 0] > 0, np.sqrt((gm[:, :, 1] + 1j * gm[:, :, 2]) / gm[:, :, 0]), 0)
    close(r, np.fft.ifft2(np.fft.fft2(a.astype(float)) * eff).real, rtol=1e-5, what='response with gains', scale=sc * np.abs(eff).max() if eff.any() else 1)
    same(gm, kg, 'the gain map passed in')
    return bool((uv != 0).any() and (uv == 0).any())


BEAM = dict(seed=gen.seeds(), n=gen.side(1, 12), z=gen.nice_floats(5, 25), box=gen.nice_floats(20, 3000), D=gen.nice_floats(3, 150),
            f=st.sampled_from(['gaussian', 'Gaussian', 'bessel', 'Bessel', 'step', 'STEP', 'sigmoid']), null=st.one_of(st.none(), gen.nice_floats(1, 2000)),
            du=st.sampled_from([None, 'm', 'km']), glob=st.booleans(), nz=gen.side(1, 5), axis=st.integers(0, 2), zs=st.sampled_from(['one', 'array', 'list']),
            cosmo=st.sampled_from([None, None, [0.6, 0.4]]))


def ref_beam(n, z, D, f, box, null, h, om):
    L = null if null is not None else 1.22 * 3e5 * 1e3 / (1420e6 / (1 + z)) / D * float(co.cdist(z, h, om))
    q = (np.arange(n) - n // 2) * box / n
    r = np.sqrt(q[:, None]**2 + q[None]**2)
    f = f.lower()
    if f == 'step':
        b = (r <= L / 2).astype(float)
    elif f == 'gaussian':
        b = 2.0**(-(r / (L / 1.186 / 2))**2)
    elif f == 'bessel':
        x = np.where(r == 0, 1, 3.8317059702 * r / L)
        b = np.where(r == 0, 1, (2 * j1(x) / x)**2)
    else:
        b = 1 / (1 + np.exp(np.clip(0.5 * (r - L / 2), -700, 700)))
    return b / b.max(), r, L


@law(LAWS, st.fixed_dictionaries(BEAM), 4000, 30000, large=(6, 15, 100))
def beams(d, ctx):
    if d['cosmo']:
        co.set_flat(*d['cosmo'], how=d['seed'])
    h, om = d['cosmo'] or (H0, OM0)
    rng = np.random.default_rng(d['seed'])
    n, z, f, box = d['n'], d['z'], d['f'], d['box']
    D = {None: d['D'], 'm': d['D'] * u.m, 'km': d['D'] / 1e3 * u.km}[d['du']]
    kb = {}
    if d['glob']:
        t2c.conv.LB = box
    else:
        kb = dict(boxsize=box)
    null = d['null']
    want, r, L = ref_beam(n, z, d['D'], f, box, null, h, om)
    edge = np.abs(r - L / 2).min() < 1e-4 * L and f.lower() == 'step'
    if edge:
        return False
    close_each(call(PB.primary_beam_null, z, D), L if null is None else ref_beam(n, z, d['D'], f, box, None, h, om)[2], rtol=1e-6, what='first null')
    with np.errstate(over='ignore'):
        b = call(PB.circular_beam, n, z, D_station=D, beam_func=f, l_null=null, **kb)
    tol = dict(rtol=1e-3, scale=1.0)
    close(b, want, what='%s beam' % f, **tol)
    check(b.shape == (n, n), 'beam of shape %s', b.shape)
    check(b[n // 2, n // 2] == 1 and b.max() == 1 and b.min() >= 0, 'the beam is %s at the centre, between %s and %s', b[n // 2, n // 2], b.min(), b.max())
    close(b, b.T, rtol=1e-12, what='symmetry of the axes')
    c = n // 2
    s = slice(c - (n - 1 - c), n)
    close(b[s, s], b[s, s][::-1, ::-1], rtol=1e-9, what='symmetry about the centre', scale=1)
    o = np.argsort(r.ravel(), kind='stable')
    main = r.ravel()[o] < L
    v = b.ravel()[o][main]
    check(np.all(np.diff(v) <= 1e-9), 'the beam increases with distance within the main lobe')
    if f.lower() == 'bessel':
        k = np.abs(r - L) < 0.02 * L
        check(np.all(b[k] < 2e-3), 'the beam is not small near its null')
    try:
        PB.circular_beam(n, z, beam_func='airy?', boxsize=box)
    except ValueError:
        pass
    else:
        fail('an unknown beam was made')
    # on data
    kw = dict(D_station=D, beam_func=f, l_null=null, verbose=False, **kb)
    with np.errstate(over='ignore'):
        a = rng.normal(size=(n, n))
        k = a.copy()
        close(call(t2c.primary_beam, a, z, **kw), a * want, rtol=1e-3, what='beam on a slice', scale=np.abs(a).max())
        same(a, k, 'the slice passed in')
        nz = d['nz']
        zs = z * (1 + rng.uniform(0, 0.5, nz))
        if d['zs'] == 'one':
            zs = np.full(nz, z)
        bm = np.stack([ref_beam(n, zz, d['D'], f, box, null, h, om)[0] for zz in zs], -1)
        if f.lower() == 'step' and any(np.abs(r - ref_beam(n, zz, d['D'], f, box, null, h, om)[2] / 2).min() < 1e-4 * L for zz in zs):
            return False
        x = rng.normal(size=(n, n, nz))
        ax = d['axis']
        data = np.swapaxes(x, ax, 2).copy()
        k = data.copy()
        arg = {'one': z, 'array': zs, 'list': list(zs)}[d['zs']]
        if nz == 1 and d['zs'] != 'one':
            arg = float(zs[0])
        got = call(t2c.primary_beam, data, arg, nu_axis=ax, **kw)
        close(got, np.swapaxes(x * bm, ax, 2), rtol=1e-3, what='beam on a cube (frequency axis %d)' % ax, scale=np.abs(x).max())
        same(data, k, 'the cube passed in')
    return bool(want.min() < 0.9)
