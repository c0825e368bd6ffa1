"""P12 smoothing."""
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
import tools21cm as t2c
from tools21cm import smoothing as sm
from tools21cm import radio_telescope_noise as rn
from tools21cm.beam_convolve import beam_convolve
from vlib import gen, cosmology as co
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Smoothing kernels are normalised and smoothing equals explicit convolution'
RULE = ('arrays of both parities, square and not, kernels from a fraction of a cell to wider than the array, three frequency axes, several cosmologies, '
        'baselines and ratios; non-trivial: the array is not constant and the kernel covers more than one cell')
ASSUMPTIONS = ['the periodic convolution itself is decided by P13 against direct sums; here it is written out again with shifted copies',
               'interpolation positions lie inside the array']
LAWS = []


def circ(a, k):
    """Direct periodic convolution with the kernel centre at n//2, by shifted copies."""
    out = np.zeros(np.shape(a))
    for idx in np.argwhere(k != 0):
        out += k[tuple(idx)] * np.roll(a, tuple(int(i) - n // 2 for i, n in zip(idx, k.shape)), tuple(range(a.ndim)))
    return out


def gauss1(n, sigma):
    x = np.arange(n) - n // 2
    return np.exp(-x**2 / (2. * sigma**2))


def gaussk(n, sigma, nd):
    g = gauss1(n, sigma)
    k = g
    for _ in range(nd - 1):
        k = np.multiply.outer(k, g)
    return k / k.sum()


def top1(n, w):
    """Cells of a top hat of w cells about n//2 (even widths reach one further down)."""
    x = np.arange(n) - n // 2
    if n % 2:     # the centre is half a cell lower for odd sizes, and the edge truncates upwards
        lo = int(n / 2. - np.floor(w / 2.))
        hi = int(n / 2. + np.ceil(w / 2.))
        lo = max(lo, 0)
        return ((np.arange(n) >= lo) & (np.arange(n) < hi)).astype(float)
    return ((x >= -np.floor(w / 2.)) & (x < np.ceil(w / 2.))).astype(float)


def sharp(n, w, nd):
    t = top1(n, w)
    k = t
    for _ in range(nd - 1):
        k = np.multiply.outer(k, t)
    return k / k.sum()


def sphere(n, w):
    x = np.arange(n) - n // 2
    r2 = x[:, None, None]**2 + x[None, :, None]**2 + x[None, None, :]**2
    k = (r2 <= 0.25 * w * w).astype(float)
    return k / k.sum()


def lanczos(n, a):
    x = np.array([-n * 0.5 + i * n / (n - 1.) for i in range(n)])
    l = np.where(np.abs(x) > a, 0, np.sinc(x) * np.sinc(x / a))
    k = np.outer(l, l)
    return k / k.sum()


FW = 2 * np.sqrt(2 * np.log(2))


@law(LAWS, st.tuples(gen.side(1, 24), st.one_of(gen.nice_floats(0.2, 40.), st.integers(1, 12).map(float)), st.booleans()), 700, 7000, large=(5, 8, 60))
def kernels(t, ctx):
    n, w, fwhm = t
    small = n <= 12
    kw = dict(fwhm=w) if fwhm else dict(sigma=w)
    sig = w / FW if fwhm else w
    ks = [('gauss 2D', call(sm.gauss_kernel, n, **kw), gaussk(n, sig, 2))]
    if fwhm:
        close(call(sm.gauss_kernel, n, sigma=3 * w, fwhm=w), ks[0][1], rtol=1e-12, what='fwhm wins over sigma')
    if small:
        ks.append(('gauss 3D', call(sm.gauss_kernel_3d, n, **kw), gaussk(n, sig, 3)))
        ks.append(('gauss 3D of the noise module', call(rn.gauss_kernel_3d, n, **kw), gaussk(n, sig, 3)))
    if w >= 1:
        ks.append(('tophat 2D', call(sm.tophat_kernel, n, w), sharp(n, w, 2)))
        if small:
            ks.append(('tophat cube', call(sm.tophat_kernel_3d, n, w), sharp(n, w, 3)))
    if small:
        ks.append(('tophat sphere', call(sm.tophat_kernel_3d, n, w, shape='sphere'), sphere(n, w)))
    if n > 2 and w >= 1:
        ks.append(('lanczos', call(sm.lanczos_kernel, n, w), lanczos(n, w)))
    for name, got, want in ks:
        check(np.shape(got) == want.shape, '%s: shape %s for size %d', name, np.shape(got), n)
        check(abs(np.sum(got) - 1) < 1e-9, '%s: sums to %s', name, np.sum(got))
        if name != 'lanczos':
            check(np.min(got) >= 0, '%s: negative weight', name)
        close(got, want, rtol=1e-9, what=name)
        close(got, np.swapaxes(got, 0, 1), rtol=1e-9, what='%s: exchanged axes' % name)
        odd = name.startswith('tophat') and name != 'tophat sphere' and int(np.floor(w / 2.) + np.ceil(w / 2.)) % 2 == 0
        if (n % 2 or name == 'lanczos') and not (odd):
            close(got[::-1], got, rtol=1e-9, what='%s: reflection about the centre' % name)
        elif not odd and n > 1 and w <= n - 1:
            close(got[1:][::-1], got[1:], rtol=1e-9, what='%s: reflection about the centre' % name)
    if small and w >= 1:
        ks_ = call(sm.tophat_kernel_3d, n, w, 'cube')
        same(ks_, ks[[k[0] for k in ks].index('tophat cube')][1], 'the cube shape is the default')
    return n > 2


@st.composite
def plane(draw, nd=2, hi=11):
    n = draw(gen.side(2, hi))
    sh = [n] * nd if draw(st.booleans()) else [draw(gen.side(2, hi)) for _ in range(nd)]
    return dict(f=draw(gen.fields(st.just(sh))), w=draw(st.one_of(gen.nice_floats(1., 15.), st.integers(1, 9).map(float))),
                kind=draw(st.sampled_from(['gauss', 'gauss-fwhm', 'tophat', 'lanczos', 'free'])), seed=draw(gen.seeds()),
                dtype=draw(st.sampled_from(['f8', 'f8', 'f4', 'int'])))


@law(LAWS, plane(), 700, 7000, large=(5, 8, 60))
def planes(d, ctx):
    a = gen.build(d['f'])
    if d['dtype'] == 'f4':
        a = a.astype(np.float32)
    elif d['dtype'] == 'int':
        a = np.round(a).astype(int)
    n, w, kind = a.shape[0], d['w'], d['kind']
    rng = np.random.default_rng(d['seed'])
    if kind == 'free':
        k = rng.normal(size=a.shape)
        f = lambda x: call(sm.smooth_with_kernel, x, k)
    elif kind == 'gauss':
        k = gaussk(n, w, 2)
        f = lambda x: call(sm.smooth_gauss, x, sigma=w)
    elif kind == 'gauss-fwhm':
        k = gaussk(n, w / FW, 2)
        f = lambda x: call(sm.smooth_gauss, x, fwhm=w)
    elif kind == 'tophat':
        k = sharp(n, w, 2)
        f = lambda x: call(sm.smooth_tophat, x, w)
    else:
        if n < 3:
            return False
        k = lanczos(n, w)
        if not np.abs(k).sum() < 100:
            return False
        f = lambda x: call(sm.smooth_lanczos, x, w)
    a0 = a.copy()
    got = f(a)
    same(a, a0, 'array after the call')
    s = float(np.abs(a).max() * np.abs(k).sum()) or 1.0
    rt = 3e-6 if d['dtype'] == 'f4' else 1e-10
    close(got, circ(a.astype(float), k), rtol=rt, scale=s, what='%s smoothing' % kind)
    b = rng.normal(size=a.shape) * (np.abs(a).max() or 1)
    if d['dtype'] == 'f8':
        close(f(2 * a - b), 2 * got - f(b), rtol=rt, scale=20 * s + 20 * np.abs(b).max() * np.abs(k).sum(), what='linearity of %s' % kind)
    if kind != 'free':
        close(f(np.full(a.shape, 2.5)), np.full(a.shape, 2.5), rtol=1e-9, scale=2.5 * np.abs(k).sum(), what='constant under %s' % kind)
        check(abs(np.mean(got, dtype=float) - np.mean(a, dtype=float)) <= 10 * rt * s, '%s changed the mean', kind)
    ctx.label(kind, 'square' if len(set(a.shape)) == 1 else 'oblong')
    return np.ptp(a) > 0 and np.count_nonzero(k) > 1


@law(LAWS, plane(nd=3, hi=6), 150, 1500, large=(4, 6, 40))
def volumes(d, ctx):
    a = gen.build(d['f'])
    n, w = a.shape[0], d['w']
    out = []
    for name, k, ref in (('gauss', call(sm.gauss_kernel_3d, n, sigma=w), gaussk(n, w, 3)), ('fwhm', call(sm.gauss_kernel_3d, n, fwhm=w), gaussk(n, w / FW, 3)),
                         ('cube', call(sm.tophat_kernel_3d, n, w), sharp(n, w, 3)), ('sphere', call(sm.tophat_kernel_3d, n, w, 'sphere'), sphere(n, w))):
        close(call(sm.smooth_with_kernel, a, k), circ(a, ref), rtol=1e-10, scale=np.abs(a).max() or 1.0, what='3D %s' % name)
    try:
        sm.smooth_with_kernel(a, gaussk(n, w, 2))
    except (AssertionError, ValueError):
        pass
    else:
        fail('a kernel of another dimension was accepted')
    return np.ptp(a) > 0


# ---------------------------------------------------------------- coeval boxes and lightcones

COSMO = [None, [0.67, 0.32], [1.0, 0.9]]


def setup(d):
    h, om = d['cosmo'] or (0.7, 0.27)
    if d['cosmo']:
        co.set_flat(h, om, how=d['seed'])
    return h, om


@st.composite
def box(draw):
    n = draw(gen.side(3, 8))
    # the frequency axis may have another length than the angular ones
    return dict(n=n, nf=draw(st.one_of(st.just(n), gen.side(3, 9))), kind=draw(st.sampled_from(gen.KINDS)), seed=draw(gen.seeds()),
                amp=draw(st.sampled_from([1., 30.])), axis=draw(st.sampled_from([0, 1, 2, 2, -1])), z=draw(gen.nice_floats(5., 20.)),
                cosmo=draw(st.sampled_from(COSMO)), box=draw(gen.nice_floats(20., 400.)), boxset=draw(st.sampled_from(['arg', 'arg', 'sim'])),
                cells=draw(gen.nice_floats(0.8, 6.)), ratio=draw(st.sampled_from([1., 1., 0.7, 2.5])), unit=draw(st.sampled_from(['none', 'km', 'm'])),
                base=draw(st.booleans()))


def cube(d):
    ax = d['axis'] % 3
    sh = [d['n']] * 3
    sh[ax] = d['nf']
    return gen.build(dict(shape=sh, kind=d['kind'], seed=d['seed'], amp=d['amp'], offset=0.5))


def scale_cells(d, h, om, z):
    """Baseline in km giving the requested resolution (in cells) at redshift z, and the keywords naming it."""
    D = co.cdist(z, h, om)
    L = d['box']
    if d['boxset'] == 'sim':
        t2c.set_sim_constants(37.)
        L = 37. / h
    b = 2. if d['base'] else float('%.6g' % ((1 + z) * 21e-5 * D * d['n'] / L / d['cells']))
    kw = {} if d['base'] else dict(max_baseline={'none': b, 'km': b * u.km, 'm': b * 1000 * u.m}[d['unit']])
    if d['boxset'] == 'arg':
        kw['box_size_mpc'] = L
    if d['ratio'] != 1:
        kw['ratio'] = d['ratio']
    return kw, L, b


def gauss_slices(a, ax, fwhm):
    out = np.zeros(a.shape)
    a_, o_ = np.moveaxis(a, ax, 2), np.moveaxis(out, ax, 2)
    for i in range(a_.shape[2]):
        o_[:, :, i] = circ(a_[:, :, i], gaussk(a_.shape[0], fwhm[i] / FW, 2))
    return out


def tophat_axis(a, ax, w):
    n = a.shape[ax]
    k = top1(n, w)
    k = k / k.sum()
    return sum(k[j] * np.roll(a, j - n // 2, ax) for j in range(n))


def safe(w):
    """Away from widths where the number of cells jumps."""
    return abs(w / 2. - round(w / 2.)) > 1e-5


@law(LAWS, box(), 250, 2500, large=(4, 6, 40))
def coeval_boxes(d, ctx):
    h, om = setup(d)
    a = cube(d)
    a0 = a.copy()
    ax = d['axis'] % 3
    kw, L, b = scale_cells(d, h, om, d['z'])
    res = (1 + d['z']) * 21e-5 / b * co.cdist(d['z'], h, om) * a.shape[0] / L
    if res < 1e-3 or res * d['ratio'] < 1.001:
        return False
    w = res * d['ratio']
    # pieces
    close(call(sm.smooth_coeval_tophat, a, w, d['axis'], verbose=False), tophat_axis(a, ax, w), rtol=1e-9, what='top hat along axis %d' % d['axis'], scale=np.abs(a).max())
    close(call(sm.smooth_coeval_gauss, a, res, d['axis']), gauss_slices(a, ax, [res] * a.shape[ax]), rtol=1e-9, what='Gaussian of the slices of axis %d' % d['axis'], scale=np.abs(a).max())
    if not safe(w):
        return False
    if d['axis'] != 2:
        kw['nu_axis'] = d['axis']
    got = call(sm.smooth_coeval, a, d['z'], verbose=False, **kw)
    same(a, a0, 'cube after the call')
    want = gauss_slices(tophat_axis(a, ax, w), ax, [res] * a.shape[ax])
    close(got, want, rtol=2e-5, what='smoothed box (axis %d)' % d['axis'], scale=np.ptp(a) + 1e-4 * np.abs(a).max())
    check(abs(got.mean() - a.mean()) <= 1e-9 * np.abs(a).max(), 'smoothing changed the mean')
    ctx.label('axis %d' % d['axis'], 'set_sim' if d['boxset'] == 'sim' else 'box argument', 'oblong' if d['n'] != d['nf'] else 'cubic')
    return np.ptp(a) > 0 and res > 0.5


@st.composite
def cone(draw):
    d = draw(box())
    d.update(axis=2, order=draw(st.sampled_from(['up', 'down'])), dz=draw(gen.nice_floats(0.002, 0.1)), zform=draw(st.sampled_from(['array', 'lowest', 'lowest-np', 'list'])),
             nf=draw(gen.side(2, 14)))
    return d


@law(LAWS, cone(), 250, 2500, large=(4, 6, 40))
def lightcones(d, ctx):
    h, om = setup(d)
    n, nf = d['n'], d['nf']
    lc = gen.build(dict(shape=[n, n, nf], kind=d['kind'], seed=d['seed'], amp=d['amp'], offset=0.5))
    lc0 = lc.copy()
    kw, L, b = scale_cells(d, h, om, d['z'])
    rng = np.random.default_rng(d['seed'] + 1)
    if d['zform'].startswith('lowest'):
        zs = co.zinv(co.cdist(d['z'], h, om) + np.arange(nf) * L / n, h, om)
        arg = np.float64(d['z']) if d['zform'] == 'lowest-np' else d['z']
        tol = 2e-3
        if zs.max() > 40:
            return False
    else:
        zs = d['z'] + np.concatenate([[0], np.cumsum(d['dz'] * rng.uniform(0.7, 1.3, nf - 1))])
        if d['order'] == 'down':
            zs = zs[::-1].copy()
        arg = list(zs) if d['zform'] == 'list' else zs.copy()
        tol = 2e-5
    got, zo = call(sm.smooth_lightcone, lc, arg, verbose=False, **kw)
    same(lc, lc0, 'lightcone after the call')
    close(zo, zs, rtol=1e-3 if tol > 1e-3 else 1e-12, what='redshifts')
    D = co.cdist(zs, h, om)
    res = (1 + zs) * 21e-5 / b * D
    dz = d['ratio'] * res / co.C * 100 * h * co.E(zs, om, 1 - om)
    if (res * n / L).min() < 1e-2:
        return False
    # stay away from windows that end on a slice
    gap = np.abs(np.abs(zs[:, None] - zs[None, :]) - dz[:, None] / 2).min()
    if gap < (2e-4 if tol > 1e-3 else 1e-7) * (1 + d['z']):
        return False
    t = np.stack([lc[:, :, np.abs(zs - zs[i]) <= dz[i] / 2].mean(axis=2) for i in range(nf)], axis=2)
    want = gauss_slices(t, 2, res * n / L)
    close(got, want, rtol=tol, what='smoothed lightcone', scale=np.ptp(lc) + 1e-4 * np.abs(lc).max())
    close(call(sm.smooth_lightcone_tophat, lc, zs, dz, verbose=False), t, rtol=1e-10, what='top hat of the lightcone')
    ax = [0, 1, 2][d['seed'] % 3]
    f = rng.uniform(0.5, 5, nf)
    close(call(sm.smooth_lightcone_gauss, np.moveaxis(lc, 2, ax), f, nu_axis=ax), gauss_slices(np.moveaxis(lc, 2, ax), ax, f), rtol=1e-9, scale=np.abs(lc).max(), what='Gaussian per slice')
    ctx.label(d['zform'], d['order'], 'window>1' if (t != lc).any() else 'window 1')
    return np.ptp(lc) > 0


# ---------------------------------------------------------------- uv maps and thresholds

@st.composite
def uvcase(draw):
    d = draw(box())
    d.update(n=draw(gen.side(3, 12)), empty=draw(st.booleans()), base=False, cells=draw(gen.nice_floats(1.1, 4.)))
    return d


def uvmap(n, seed, empty):
    rng = np.random.default_rng(seed)
    m = rng.integers(0, 50, (n, n)).astype(float)
    m[rng.uniform(size=(n, n)) < 0.3] = 0
    m = m + np.roll(m[::-1, ::-1], (1, 1), (0, 1))       # as for a real image
    m[0, 0] = 0
    m[1 % n, 0] += 3
    return m


def cut(m, z, b, L, h, om):
    """Keep uv cells shorter than the longest baseline; the zero spacing goes."""
    n = m.shape[0]
    reach = L / ((1 + z) * 21e-5 / b * co.cdist(z, h, om))
    i = np.arange(n)
    near = [(i[:, None] - p)**2 + (i[None, :] - q)**2 for p in (0, n) for q in (0, n)]
    r = np.sqrt(np.min(near, axis=0))
    out = np.where(r <= reach, m, 0.)
    out[0, 0] = 0
    return out, np.abs(r - reach).min() > 1e-5 * reach


def through(a, m):
    return np.real(np.fft.ifft2(np.fft.fft2(a) * (m / m.max())))


@law(LAWS, uvcase(), 250, 2500, large=(4, 6, 40))
def uv_filters(d, ctx):
    h, om = setup(d)
    n = d['n']
    m = uvmap(n, d['seed'], d['empty'])
    m0 = m.copy()
    a = gen.build(dict(shape=[n, n], kind=d['kind'], seed=d['seed'], amp=d['amp'], offset=0.5))
    kw, L, b = scale_cells(d, h, om, d['z'])
    kw.pop('ratio', None)
    bk = dict(box_size_mpc=kw['box_size_mpc']) if 'box_size_mpc' in kw else {}
    want, safe_ = cut(m, d['z'], b, L, h, om)
    if safe_:
        close(call(sm.remove_baselines_from_uvmap, m, d['z'], **kw), want, rtol=1e-12, what='uv map within the longest baseline')
        same(m, m0, 'uv map after the call')
    a0 = a.copy()
    close(call(sm.convolve_uvmap, a, uv_map=m, verbose=False, **bk), through(a, m), rtol=1e-10, scale=np.abs(a).max() * n, what='map seen through the uv coverage')
    same(a, a0, 'map after the call')
    same(m, m0, 'uv map after the call')
    mk = dict(kw)
    mk.setdefault('max_baseline', 2.)
    if safe_ and want.max() > 0:
        close(call(sm.convolve_uvmap, a, z=d['z'], uv_map=m, verbose=False, **mk), through(a, want), rtol=1e-10, scale=np.abs(a).max() * n, what='map seen through the short baselines')
    # threshold denoising
    nf = min(d['nf'], 5)
    lc = gen.build(dict(shape=[n, n, nf], kind=d['kind'], seed=d['seed'] + 1, amp=d['amp'], offset=0.5))
    uv = np.random.default_rng(d['seed']).integers(0, 9, (n, n, nf)).astype(float)
    th = float(d['seed'] % 9)
    lc0 = lc.copy()
    got = call(sm.smooth_lightcone_uv_threshold, lc, uv, threshold=th)
    same(lc, lc0, 'lightcone after the call')
    F = np.fft.fft2(lc, axes=(0, 1))
    close(got, np.fft.ifft2(np.where(uv >= th, F, 0), axes=(0, 1)).real, rtol=1e-10, scale=np.abs(lc).max() * n, what='lightcone without the cells below the threshold')
    close(call(sm.smooth_lightcone_uv_threshold, lc, uv), lc, rtol=1e-10, scale=np.abs(lc).max() * n, what='no threshold')
    for bad in (-0.5, '1'):
        try:
            r = sm.smooth_lightcone_uv_threshold(lc, uv, threshold=bad)
        except Exception:
            continue
        fail('threshold %r accepted', bad)
    return np.ptp(a) > 0


@law(LAWS, uvcase(), 120, 1200, large=(3, 4, 30))
def uv_coeval(d, ctx):
    h, om = setup(d)
    n, ax = d['n'], d['axis'] % 3
    m = uvmap(n, d['seed'], False)
    a = cube(d)
    a0, m0 = a.copy(), m.copy()
    kw, L, b = scale_cells(d, h, om, d['z'])
    want, safe_ = cut(m, d['z'], b, L, h, om)
    w = (1 + d['z']) * 21e-5 / b * co.cdist(d['z'], h, om) * a.shape[0] / L * d['ratio']
    if not safe_ or want.max() == 0 or w < 1.001 or not safe(w):
        return False
    if d['axis'] != 2:
        kw['nu_axis'] = d['axis']
    t = np.moveaxis(tophat_axis(a, ax, w), ax, 2)
    ref = np.stack([through(t[:, :, i], want) for i in range(t.shape[2])], axis=2)
    got = call(sm.convolve_uvmap_coeval, a, d['z'], uv_map=m, verbose=False, **kw)
    same(a, a0, 'cube after the call')
    same(m, m0, 'uv map after the call')
    # the code exchanges the frequency axis with the last one, which transposes the uv plane for the first axis
    ref = np.moveaxis(ref, 2, ax)
    if ax == 0:
        tt = np.swapaxes(tophat_axis(a, ax, w), 0, 2)
        ref = np.swapaxes(np.stack([through(tt[:, :, i], want) for i in range(tt.shape[2])], axis=2), 0, 2)
    close(got, ref, rtol=1e-9, scale=np.abs(a).max() * n, what='box seen through the uv coverage (axis %d)' % d['axis'])
    ctx.label('axis %d' % d['axis'])
    return np.ptp(a) > 0


@st.composite
def beamcase(draw):
    return dict(n=draw(gen.side(3, 14)), kind=draw(st.sampled_from(gen.KINDS)), seed=draw(gen.seeds()), z=draw(gen.nice_floats(5., 20.)), cosmo=draw(st.sampled_from(COSMO)),
                fov=draw(gen.nice_floats(50., 500.)), cells=draw(gen.nice_floats(0.6, 6.)), by=draw(st.sampled_from(['width', 'baseline', 'both'])))


@law(LAWS, beamcase(), 250, 2500, large=(4, 6, 40))
def beams(d, ctx):
    h, om = setup(d)
    n, z = d['n'], d['z']
    a = gen.build(dict(shape=[n, n], kind=d['kind'], seed=d['seed'], amp=3., offset=0.5))
    D = co.cdist(z, h, om)
    arcmin = d['fov'] / D * 180 / np.pi * 60
    width = float('%.6g' % (arcmin * d['cells'] / n))
    base = 21 * (1 + z) / 100 / (width / 60 * np.pi / 180)
    lam = co.C / (co.NU0 / (1 + z)) / 1000
    close(call(sm.get_beam_w, base, z), lam / base * 180 / np.pi * 60, rtol=2e-3, what='beam width of a baseline')
    close(call(sm.get_beam_w, 2 * base, z), call(sm.get_beam_w, base, z) / 2, rtol=1e-12, what='beam width of twice the baseline')
    kw = dict(beam_w=width) if d['by'] == 'width' else dict(max_baseline=base) if d['by'] == 'baseline' else dict(beam_w=width, max_baseline=7 * base)
    eff = width if 'beam_w' in kw else lam / base * 180 / np.pi * 60
    a0 = a.copy()
    got = call(beam_convolve, a, z, d['fov'], **kw)
    same(a, a0, 'map after the call')
    k = gaussk(n, eff / arcmin / FW * n, 2)
    want = np.zeros((n, n))
    for i, j in np.argwhere(k != 0):
        si, sj = int(i) - n // 2, int(j) - n // 2
        want[max(0, si):n + min(0, si), max(0, sj):n + min(0, sj)] += k[i, j] * a[max(0, -si):n - max(0, si), max(0, -sj):n - max(0, sj)]
    close(got, want, rtol=5e-3, scale=np.abs(a).max(), what='map convolved with the beam')
    for bad in (dict(), dict(beam_w=width, beamshape='square')):
        try:
            beam_convolve(a, z, d['fov'], **bad)
        except Exception:
            continue
        fail('beam_convolve accepted %s', bad)
    ctx.label(d['by'])
    return np.ptp(a) > 0


# ---------------------------------------------------------------- interpolation and lines

@law(LAWS, st.tuples(gen.fields(gen.shapes((2, 3), 1, 7)), gen.seeds(), st.sampled_from([0, 1, None]), st.booleans()), 400, 4000, large=(6, 6, 40))
def interpolation(t, ctx):
    f, seed, order, nodes = t
    a = gen.build(f)
    rng = np.random.default_rng(seed)
    xs = []
    for n in a.shape:
        m = int(rng.integers(1, 9))
        x = rng.integers(0, n, m).astype(float) if nodes else rng.uniform(0, n - 1, m)
        if not nodes and order != 1:
            x = np.where(np.abs(x - np.floor(x) - 0.5) < 1e-6, np.floor(x), x)
        xs.append(x)
    kw = {} if order is None else dict(order=order)
    got = call(sm.interpolate2d if a.ndim == 2 else sm.interpolate3d, a, *xs, **kw)
    want = a
    for ax, x in enumerate(xs):
        n = want.shape[ax]
        if order == 1:
            lo = np.clip(np.floor(x).astype(int), 0, max(n - 2, 0))
            hi = np.minimum(lo + 1, n - 1)
            fr = (x - lo).reshape([-1 if i == ax else 1 for i in range(a.ndim)])
            want = np.take(want, lo, ax) * (1 - fr) + np.take(want, hi, ax) * fr
        else:
            want = np.take(want, np.floor(x + 0.5).astype(int), ax)
    close(got, want, rtol=1e-10, scale=np.abs(a).max() or 1.0, what='interpolated array (order %s)' % order)
    ctx.label('%dD' % a.ndim, 'order %s' % order)
    return np.ptp(a) > 0


@st.composite
def line(draw):
    kind = draw(st.sampled_from(['tophat', 'boxcar', 'gaussian', 'normal', 'triangular', 'hamming', 'hanning', 'custom', 'custom-list', 'custom-int', 'Gaussian', 'default']))
    w = draw(st.integers(1, 9))
    if kind == 'hanning' and w == 2:
        w = 3
    return dict(kind=kind, w=w, n=draw(gen.side(1, 40)), form=draw(st.sampled_from(['array', 'list', 'int'])), seed=draw(gen.seeds()))


@law(LAWS, line(), 500, 5000, large=(8, 8, 60))
def lines(d, ctx):
    rng = np.random.default_rng(d['seed'])
    y = rng.normal(size=d['n']) * 10
    if d['form'] == 'int':
        y = np.round(y).astype(int)
    y0 = y.copy()
    w, k = d['w'], d['kind']
    arg = w
    kw = dict(kind=k)
    if k.startswith('custom'):
        win = rng.integers(1, 9, w).astype(float) if k == 'custom-int' else rng.uniform(0.1, 2, w)
        arg = list(win) if k == 'custom-list' else win.astype(int) if k == 'custom-int' else win.copy()
        kw = {}
    elif k == 'default':
        kw = {}
        win = np.ones(w)
    elif k in ('tophat', 'boxcar'):
        win = np.ones(w)
    elif k.lower() in ('gaussian', 'normal'):
        win = np.exp(-np.arange(-3 * w, 3 * w + 1)**2 / (2. * w * w))
    elif k == 'triangular':
        win = np.array([w - abs(i) for i in range(-(w - 1), w)], float)
    elif w == 1:
        win = np.ones(1)
    else:
        al, be = (0.54, 0.46) if k == 'hamming' else (0.5, 0.5)
        win = al - be * np.cos(2 * np.pi * np.arange(w) / (w - 1.))
    win = win / win.sum()
    before = np.array(arg, copy=True)
    got = call(sm.smooth_line, list(y) if d['form'] == 'list' else y, arg, **kw)
    same(np.array(arg), before, 'window after the call')
    same(y, y0, 'line after the call')
    m = len(win)
    want = np.zeros(d['n'])
    for i in range(d['n']):
        for j in range(m):
            q = i + (m - 1) // 2 - j
            if 0 <= q < d['n']:
                want[i] += y[q] * win[j]
    close(got, want, rtol=1e-10, scale=np.abs(y).max() or 1.0, what='smoothed line (%s)' % k)
    for bad in (dict(kind='wavelet'), dict(window=2.5), dict(window='wide')):
        try:
            sm.smooth_line(y, **bad)
        except ValueError:
            continue
        fail('smooth_line accepted %s', bad)
    ctx.label(k, 'window longer' if m > d['n'] else 'window shorter')
    return d['n'] > 3 and m > 1


# ---------------------------------------------------------------- uv coverage made by the functions themselves

@st.composite
def ownmap(draw):
    return dict(seed=draw(gen.seeds()), h=draw(gen.nice_floats(0.6, 0.8)), Om=draw(gen.nice_floats(0.2, 0.4)), n=draw(st.integers(4, 14)), nant=draw(st.integers(2, 9)), spread=draw(st.sampled_from([100., 400., 1500.])),
                z=draw(gen.nice_floats(6.1, 13.)), L=draw(st.sampled_from([15., 40., 200.])), how=draw(st.sampled_from(['default', 'given'])), dec=draw(st.sampled_from([None, -30., -10., 35.])), total=draw(st.sampled_from([1., 2.5])),
                step=draw(st.sampled_from([600., 900.])), b=draw(st.sampled_from([None, 2., 0.5, 0.2])), axis=draw(st.sampled_from([0, 1, 2, -1])))


@law(LAWS, ownmap(), 60, 500)
def uv_own_map(d, ctx):
    t2c.set_hubble_h(d['h'])
    t2c.set_omega_matter(d['Om'])
    n = d['n']
    rng = np.random.default_rng(d['seed'])
    ant = rng.normal(size=(d['nant'], 3)) * d['spread']
    t2c.set_sim_constants(244 if d['L'] == 200. else 500) if d['how'] == 'default' else None
    L = t2c.conv.LB if d['how'] == 'default' else d['L']
    bk = {} if d['how'] == 'default' else dict(box_size_mpc=L)
    h, Om = float(t2c.const.h), float(t2c.const.Omega0)
    ok = dict(total_int_time=d['total'], int_time=d['step'])
    dk = {} if d['dec'] is None else dict(declination=d['dec'])
    m, _ = call(t2c.get_uv_map, n, d['z'], subarray_type=ant.copy(), boxsize=L, declination=-30. if d['dec'] is None else d['dec'], verbose=False, **ok)
    want, safe_ = cut(m, d['z'], 2. if d['b'] is None else d['b'], L, h, Om)
    if not safe_ or m.max() <= 0:
        return False
    a = rng.normal(size=(n, n))
    ck = dict(filename=ant.copy(), verbose=False, **bk, **ok, **dk)
    close(call(sm.convolve_uvmap, a, z=d['z'], **ck), through(a, m), rtol=1e-9, scale=np.abs(a).max() * n, what='map seen by the array')
    if want.max() > 0:
        close(call(sm.convolve_uvmap, a, z=d['z'], max_baseline=2. if d['b'] is None else d['b'], **ck), through(a, want), rtol=1e-9, scale=np.abs(a).max() * n, what='map seen by the short baselines of the array')
        c = rng.normal(size=(n, n, n))
        mk = {} if d['b'] is None else dict(max_baseline=d['b'])
        w = (1 + d['z']) * 21e-5 / (d['b'] or 2.) * co.cdist(d['z'], h, Om) * n / L
        if w > 1.001 and safe(w):
            close(call(sm.convolve_uvmap_coeval, c, d['z'], nu_axis=d['axis'], **mk, **ck), call(sm.convolve_uvmap_coeval, c, d['z'], nu_axis=d['axis'], uv_map=m, verbose=False, **mk, **bk), rtol=1e-9, what='box seen by the array')
            ctx.label('box')
    return True
