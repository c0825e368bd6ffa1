"""P17 mean free path, spherical average and granulometry size statistics."""
import numpy as np
from hypothesis import strategies as st
from scipy import ndimage
from scipy.interpolate import interp1d
import tools21cm as t2c
from tools21cm import morph, mfp_np
from vlib import gen
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Ray and sphere bubble-size statistics follow their definitions'
RULE = ('2D and 3D boxes of 3-14 cells a side with bubbles, slabs, noise, filled and empty; non-trivial: the selected phase is neither empty nor the whole box')
ASSUMPTIONS = ['ray counts are compared with the expected ones at six standard deviations plus 1.5 percent (directions on a grid of degrees are accepted)',
               'cells whose spherical average is within 1e-9 of the threshold may fall on either side']
LAWS = []
if hasattr(mfp_np, 'sleep'):
    mfp_np.sleep = lambda *a: None   # the ray tracer pauses for its progress bar


def region(d):
    rng = np.random.default_rng(d['seed'])
    sh = tuple(d['shape'])
    k = d['kind']
    if k == 'full':
        m = np.ones(sh, bool)
    elif k == 'slab':
        ax = d['axis'] % len(sh)
        i = np.arange(sh[ax]).reshape([-1 if a == ax else 1 for a in range(len(sh))])
        a = int(rng.integers(0, sh[ax]))
        m = np.broadcast_to((i >= a) & (i < a + int(rng.integers(1, sh[ax] + 1))), sh).copy()
    elif k == 'noise':
        m = rng.uniform(size=sh) < d['fill']
    elif k == 'cells':
        m = np.zeros(sh, bool)
        m[tuple(int(rng.integers(0, n)) for n in sh)] = True
    elif k == 'discs':
        # digital balls: the balls of smaller radius do not always open them to themselves
        m = np.zeros(sh, bool)
        g = np.indices(sh)
        for _ in range(int(rng.integers(1, 3))):
            r = int(rng.integers(0, max(1, (min(sh) - 1) // 2) + 1))
            c = [int(rng.integers(min(r, n // 2), max(n - r, n // 2 + 1))) for n in sh]
            m |= sum((g[a] - c[a])**2 for a in range(len(sh))) <= r * r
    else:
        m = np.zeros(sh, bool)
        g = np.indices(sh)
        for _ in range(int(rng.integers(1, 4))):
            c = [rng.uniform(0, n) for n in sh]
            m |= sum((g[a] - c[a])**2 for a in range(len(sh))) <= rng.uniform(1, max(sh) / 2.)**2
    if not m.any():
        m[tuple(n // 2 for n in sh)] = True
    return m


def values(m, d):
    """A field whose cells at or above (upper: at or below) the threshold are exactly the region."""
    rng = np.random.default_rng(d['seed'] + 1)
    th = d['th']
    u = rng.uniform(0.01, 1, m.shape)
    if d['tie']:
        u[rng.uniform(size=m.shape) < 0.5] = 0
        x = np.where(m, th + u, th - u - 0.01)
    else:
        x = np.where(m, th + u, th - u)
    return 2 * th - x if d['upper'] else x


KINDS = ('balls', 'balls', 'slab', 'noise', 'full', 'cells')


@st.composite
def cases(draw, nds=(2, 3), lo=3, hi2=12, hi3=8, kinds=KINDS):
    nd = draw(st.sampled_from(nds))
    return dict(shape=draw(gen.shape(nd, lo, hi2 if nd == 2 else hi3)), kind=draw(st.sampled_from(kinds)), seed=draw(gen.seeds()), axis=draw(st.integers(0, 2)),
                fill=draw(st.sampled_from([0.3, 0.6, 0.9])), th=draw(st.sampled_from([0.5, 0.0, 0.25, -2.0, 40.0])), tie=draw(st.booleans()), upper=draw(st.booleans()),
                box=draw(gen.nice_floats(1, 700)), rs=draw(st.integers(0, 2**31 - 1)), n=draw(st.sampled_from([2000, 8000])), pick=draw(gen.seeds()))


def ray_lengths(m, start, dirs):
    """Whole steps each ray stays inside the region (linear interpolation of the mask above one half; nothing outside the box)."""
    p = start.astype(float).copy()
    n = np.zeros(len(p), int)
    live = np.arange(len(p))
    sh = np.array(m.shape)
    a = m.astype(float)
    nd = m.ndim
    while len(live):
        p[live] += dirs[live]
        q = p[live]
        ins = np.all((q >= 0) & (q <= sh - 1), axis=1)
        q = np.clip(q, 0, sh - 1)
        i0 = np.minimum(np.floor(q).astype(int), np.maximum(sh - 2, 0))
        f = q - i0
        v = np.zeros(len(q))
        for c in range(2**nd):
            bit = [(c >> k) & 1 for k in range(nd)]
            w = np.ones(len(q))
            for k in range(nd):
                w = w * (f[:, k] if bit[k] else 1 - f[:, k])
            v += w * a[tuple(np.minimum(i0[:, k] + bit[k], sh[k] - 1) for k in range(nd))]
        ok = ins & (v > 0.5)
        live = live[ok]
        n[live] += 1
    return n


def reference_rays(m, d, point=None, total=30000):
    rng = np.random.default_rng(d['pick'])
    loc = np.argwhere(m) if point is None else np.array([point])
    if m.ndim == 2:
        th = np.radians(np.arange(0, 360, 0.5))
        if len(loc) * len(th) > total * 2:
            loc = loc[rng.integers(0, len(loc), total // len(th) * 2)] if point is None and len(loc) * len(th) > 60 * total else loc
        start = np.repeat(loc, len(th), axis=0)
        t = np.tile(th, len(loc))
        dirs = np.stack([np.sin(t), np.cos(t)], 1)
    else:
        start = loc[rng.integers(0, len(loc), total)]
        v = rng.normal(size=(total, 3))
        dirs = v / np.linalg.norm(v, axis=1, keepdims=True)
    return ray_lengths(m, start, dirs)


def compare_counts(frac, n, ref, what, skip=()):
    """frac: reported fraction of n rays per length; ref: lengths of reference rays."""
    L = max(len(frac), ref.max() + 1)
    p = np.bincount(ref, minlength=L) / len(ref)
    f = np.append(frac, np.zeros(L - len(frac)))
    m = len(ref)
    tol = 6 * np.sqrt(p * (1. / n + 1. / m)) + 12. / n + 12. / m + 0.015
    for i in range(L):
        if i in skip:
            continue
        check(abs(f[i] - p[i]) <= tol[i], '%s: a fraction %.5f of the rays has length %d, expected %.5f (tolerance %.5f)', what, f[i], i, p[i], tol[i])
    c = np.abs(np.cumsum((f - p)[::-1]))
    if not skip:
        check(c.max() <= 6 * np.sqrt(0.25 * (1. / n + 1. / m)) + 12. / n + 0.015, '%s: the cumulative ray lengths differ by %.4f', what, c.max())


def seeded(d, f, *a, **k):
    np.random.seed(d['rs'] % 2**32)
    return call(f, *a, **k)


def mfp(d, x, **k):
    kw = dict(xth=d['th'], boxsize=d['box'], iterations=d['n'], upper_lim=d['upper'], verbose=False)
    kw.update(k)
    r, p = seeded(d, t2c.mfp, x, **kw)
    return np.asarray(r, float), np.asarray(p, float)


@law(LAWS, cases(), 400, 6000, large=(3, 4, 40))
def ray_distribution(d, ctx):
    """The mean-free-path distribution is r times the fraction of rays of each length, from random cells of the phase in random directions."""
    m = region(d)
    r, p = mfp(d, values(m, d))
    unit = d['box'] / m.shape[0]
    k = r / unit
    kk = np.round(k).astype(int)
    check(np.all(np.diff(kk) > 0) and kk[0] >= 0, 'mfp: radii are not increasing')
    close(k, kk.astype(float), 1e-9, 1e-9, 'mfp radii in cells')
    ref = reference_rays(m, d)
    check(kk[-1] >= ref.max(), 'mfp: no entry for the longest ray of %d cells', ref.max())
    full = np.zeros(kk[-1] + 1)
    pos = kk > 0
    full[kk[pos]] = p[pos] / kk[pos]
    compare_counts(full, d['n'], ref, 'mfp', skip=(0,))
    # rays of zero length are not weighted, so the others are one minus them
    z = (ref == 0).mean()
    tot = full.sum()
    check(abs(tot - (1 - z)) <= 6 * np.sqrt(0.25 * (1. / d['n'] + 1. / len(ref))) + 0.015, 'mfp: rays of non-zero length sum to %.4f, expected %.4f', tot, 1 - z)
    return not m.all()


@law(LAWS, cases(), 300, 5000, large=(3, 4, 40))
def ray_from_point(d, ctx):
    """From a point: the fraction of rays per length; a point outside the phase has none."""
    m = region(d)
    x = values(m, d)
    rng = np.random.default_rng(d['pick'])
    loc = np.argwhere(m)
    pt = [int(i) for i in loc[rng.integers(0, len(loc))]]
    form = [list, tuple, np.array][d['pick'] % 3]
    kw = dict(xth=d['th'], boxsize=d['box'], iterations=d['n'], upper_lim=d['upper'], verbose=False)
    r, p = seeded(d, t2c.mfp_from_point, x, form(pt), **kw)
    k = np.asarray(r) * m.shape[0] / d['box']
    close(k, np.arange(len(k)).astype(float), 1e-9, 1e-9, 'mfp_from_point radii in cells')
    ref = reference_rays(m, d, pt)
    compare_counts(np.asarray(p, float), d['n'], ref, 'mfp_from_point')
    close(np.sum(p), 1.0, 1e-9, 0, 'mfp_from_point: fraction of all rays')
    if len(k) > 4:
        b = np.sort(rng.uniform(r.min(), r.max(), 4))
        rb, pb = seeded(d, t2c.mfp_from_point, x, form(pt), bins=b, **kw)
        same(np.asarray(rb), b, 'mfp_from_point bins')
        close(pb, interp1d(r, p, kind='cubic')(b), 1e-9, 1e-12, 'mfp_from_point at the given sizes')
    out = np.argwhere(~m)
    if len(out):
        o = [int(i) for i in out[rng.integers(0, len(out))]]
        check(seeded(d, t2c.mfp_from_point, x, form(o), **kw) is None, 'mfp_from_point: a point outside the structure has a distribution')
    return not m.all()


@law(LAWS, cases(), 200, 5000, large=(3, 3, 30))
def ray_laws(d, ctx):
    """Same random state, same answer; below a threshold is above it on the mirrored field; sizes scale with the box; rebinning is cubic interpolation."""
    m = region(d)
    x = values(m, d)
    d = dict(d, n=400)
    r, p = mfp(d, x)
    r2, p2 = mfp(d, x)
    same(r2, r, 'mfp repeated'), same(p2, p, 'mfp repeated')
    r3, p3 = mfp(d, -x, xth=-d['th'], upper_lim=not d['upper'])
    close(r3, r, 1e-12, 0, 'mfp of the mirrored field'), close(p3, p, 1e-12, 0, 'mfp of the mirrored field')
    r4, p4 = mfp(d, m.astype('f4'), xth=0.5, upper_lim=False)
    close(r4, r, 1e-12, 0, 'mfp of the mask'), close(p4, p, 1e-12, 0, 'mfp of the mask')
    r5, p5 = mfp(d, x, boxsize=d['box'] * 3)
    close(r5, 3 * r, 1e-12, 0, 'mfp radii in a box three times as large'), close(p5, p, 1e-12, 0, 'mfp in a box three times as large')
    bins = np.sort(np.random.default_rng(d['pick']).uniform(r.min(), r.max(), 5))
    if len(r) > 4:
        rb, pb = mfp(d, x, bins=bins)
        same(rb, bins, 'mfp bins')
        close(pb, interp1d(r, p, kind='cubic')(bins), 1e-9, 1e-12, 'mfp at the given sizes')
        lo, hi = r[1], r[-2]
        rb, pb = mfp(d, x, bins=6, r_min=lo, r_max=hi)
        want = np.exp(np.linspace(np.log(lo), np.log(hi), 6))
        close(rb, want, 1e-9, 0, 'mfp logarithmic bins')
        close(pb, interp1d(r, p, kind='cubic')(np.clip(want, r.min(), r.max())), 1e-7, 1e-12, 'mfp in logarithmic bins')
    return not m.all()


@law(LAWS, cases(), 80, 2000, large=(3, 2, 15))
def nothing_selected(d, ctx):
    """With no cell in the phase every size has zero probability."""
    rng = np.random.default_rng(d['seed'])
    th = d['th']
    x = th - rng.uniform(0.1, 1, d['shape'])
    if d['upper']:
        x = 2 * th - x
    r, p = mfp(d, x)
    check(np.all(p == 0) and len(p) == len(r), 'mfp: non-zero distribution without any cell selected')
    r, p = seeded(d, t2c.mfp_from_point, x, [0] * x.ndim, xth=th, boxsize=d['box'], iterations=50, upper_lim=d['upper'], verbose=False)
    check(np.all(np.asarray(p) == 0), 'mfp_from_point: non-zero distribution without any cell selected')
    if x.ndim == 3 and min(x.shape) >= 4:
        r, p = seeded(d, t2c.averaged_mfp, x, xth=th, boxsize=d['box'], iterations=20, rays_per_point=3, upper_lim=d['upper'], verbose=False, n_jobs=1)
        check(np.all(np.asarray(p) == 0) and len(p) == len(r), 'averaged_mfp: non-zero distribution without any cell selected')
    return True


@law(LAWS, cases(nds=(3,), lo=5, hi3=9, kinds=('balls', 'slab', 'full', 'noise')), 80, 1200, large=(2.5, 2, 15))
def averaged_rays(d, ctx):
    """The averaged mean free path is the density in ln r of the mean ray length of random cells."""
    m = region(d)
    if m.sum() < 8:
        return False
    N, q = 150, int(d['pick'] % 5) + 2
    x = values(m, d)
    if d['pick'] % 4 == 0:
        # selected cells exactly at the threshold
        x = np.where(m, d['th'], d['th'] + (1.0 if d['upper'] else -1.0))
    r, p = seeded(d, t2c.averaged_mfp, x, xth=d['th'], boxsize=d['box'], iterations=N, rays_per_point=q, upper_lim=d['upper'], verbose=False, n_jobs=1)
    k = np.asarray(r) * m.shape[0] / d['box']
    p = np.asarray(p, float)
    check(len(k) > 1 and np.all(np.diff(k) > 0), 'averaged_mfp: radii are not increasing')
    dl = np.diff(np.log(k))
    close(dl, np.full(len(dl), dl.mean()), 1e-6, 1e-9, 'averaged_mfp logarithmic radii')
    h = dl.mean()
    close(np.sum(p) * h, 1.0, 1e-6, 0, 'averaged_mfp: integral over ln r')
    rng = np.random.default_rng(d['pick'])
    loc = np.argwhere(m)
    M = 6000
    start = np.repeat(loc[rng.integers(0, len(loc), M)], q, axis=0)
    v = rng.normal(size=(M * q, 3))
    ref = ray_lengths(m, start, v / np.linalg.norm(v, axis=1, keepdims=True)).reshape(M, q).mean(1)
    ref = ref[ref > 0]
    if len(ref) < M / 3:
        return False
    edges = np.append(np.log(k) - h / 2, np.log(k[-1]) + h / 2)
    got = np.append(0, np.cumsum(p * h))
    n = N * len(ref) / M
    for e, g in zip(edges, got):
        w = np.mean(np.log(ref) < e - 1e-6)
        w2 = np.mean(np.log(ref) <= e + 1e-6)
        check(w - 0.05 - 5 * np.sqrt(.25 / n) <= g <= w2 + 0.05 + 5 * np.sqrt(.25 / n), 'averaged_mfp: %.3f of the cells have a mean ray below %g cells, expected %.3f', g, np.exp(e), w)
    return not m.all()


# ------------------------------------------------------------------ spherical average

@st.composite
def spa_cases(draw):
    d = draw(cases(nds=(3,), lo=6, hi3=11))
    if draw(st.booleans()):
        d['shape'] = [d['shape'][0]] * 3
    d.update(nscales=draw(st.integers(2, 9)), binning=draw(st.sampled_from([None, 'log', 'linear'])), fft=draw(st.sampled_from([None, True, False])),
             cont=draw(st.booleans()), cut=draw(st.sampled_from([0.2, 0.5, 0.8, 0.95])))
    return d


def ball_sum(x, r2, strict):
    n = int(np.sqrt(r2 + 1e-6))
    out = np.zeros(x.shape)
    cnt = 0
    pad = np.pad(x, n)
    for i in range(-n, n + 1):
        for j in range(-n, n + 1):
            for k in range(-n, n + 1):
                s = i * i + j * j + k * k
                if s <= r2 + 1e-6 if not strict else s < r2 - 1e-6:
                    cnt += 1
                    out += pad[n + i:n + i + x.shape[0], n + j:n + j + x.shape[1], n + k:n + k + x.shape[2]]
    return out / cnt


@law(LAWS, spa_cases(), 300, 5000, large=(1.8, 3, 30))
def spherical_average(d, ctx):
    """Each cell gets the largest radius at which the mean over the ball round it passes the threshold."""
    m = region(d)
    rng = np.random.default_rng(d['pick'])
    x = ndimage.uniform_filter(m.astype(float), 3) * 0.9 + rng.uniform(0, 0.1, m.shape) if d['cont'] else m.astype(float)
    th = d['cut'] + 0.00137
    scale = {0.5: 1.0, 0.0: 1.0}.get(d['th'], 10.0)
    sign = -1. if d['upper'] else 1.
    kw = dict(xth=sign * th * scale, boxsize=d['box'], nscales=d['nscales'], upper_lim=d['upper'], verbose=False)
    if d['binning']:
        kw['binning'] = d['binning']
    if d['fft'] is not None:
        kw['use_fftconvolve'] = d['fft']
    with np.errstate(all='ignore'):
        r, p = call(t2c.spa, sign * x * scale, **kw)
    r, p = np.asarray(r, float), np.asarray(p, float)
    check(r.shape == p.shape == (d['nscales'],), 'spa: %s radii for %d scales', r.shape, d['nscales'])
    R = r * m.shape[0] / d['box']
    lo = 1.0 if d['binning'] == 'linear' else 2.0
    want = np.linspace(lo, m.shape[0] / 2., d['nscales']) if d['binning'] == 'linear' else np.exp(np.linspace(np.log(lo), np.log(m.shape[0] / 2.), d['nscales']))
    close(R, want, 1e-9, 0, 'spa radii in cells')
    sure, maybe = [], []
    for i, q in enumerate(R):
        a, b = ball_sum(x, q * q, False), ball_sum(x, q * q, True)
        edge = abs(q * q - round(q * q)) < 1e-6 and i > 0 and d['binning'] != 'linear'
        sure.append((a >= th + 1e-9) & (b >= th + 1e-9) if edge else a >= th + 1e-9)
        maybe.append((a >= th - 1e-9) | (b >= th - 1e-9) if edge else a >= th - 1e-9)
    if not np.any(sure):
        return False
    lows, highs = [], []
    for i in range(len(R)):
        above_m = np.any(maybe[i + 1:], axis=0) if i + 1 < len(R) else np.zeros(m.shape, bool)
        above_s = np.any(sure[i + 1:], axis=0) if i + 1 < len(R) else np.zeros(m.shape, bool)
        lows.append((sure[i] & ~above_m).sum())
        highs.append((maybe[i] & ~above_s).sum())
    T = np.array(lows).sum(), np.array(highs).sum()
    close(p.sum(), 1.0, 1e-9, 0, 'spa: total probability')
    exact = lows == highs
    ctx.label('exact' if exact else 'bounds')
    for i in range(len(R)):
        check(lows[i] / max(T[1], 1) - 1e-9 <= p[i] <= highs[i] / max(T[0], 1) + 1e-9,
              'spa: probability %.6f at radius %g cells, expected %.6f', p[i], R[i], lows[i] / max(T[0], 1))
    return not m.all()


# ------------------------------------------------------------------ granulometry

def ball(n, nd):
    g = np.indices((2 * n + 1,) * nd) - n
    return (g**2).sum(0) <= n * n


def opened(m, n):
    b = ball(n, m.ndim)
    pad = np.pad(m, n)
    e = ndimage.binary_erosion(pad, b, border_value=0)
    return ndimage.binary_dilation(e, b)[tuple(slice(n, n + s) for s in m.shape)]


@law(LAWS, cases(hi2=14, hi3=10, kinds=KINDS + ('discs', 'discs')), 300, 6000, large=(1.8, 3, 30))
def granulometry(d, ctx):
    """Granulometry is the relative area lost from one opening radius to the next."""
    m = region(d)
    x = values(m, dict(d, tie=False))
    r, rp, p = [np.asarray(o, float) for o in call(t2c.granulometry_bsd, x, xth=d['th'], boxsize=d['box'], upper_lim=d['upper'], verbose=False)]
    k = np.arange(int(max(m.shape) / 2))
    close(r, k * d['box'] / m.shape[0], 1e-12, 0, 'granulometry radii')
    area = np.array([opened(m, n).sum() for n in k], float)
    want = np.append((area[:-1] - area[1:]) / area[0], 0)
    close(p, want, 1e-9, 1e-12, 'granulometry dF/dR')
    close(rp, k * want, 1e-9, 1e-12, 'granulometry R dF/dR')
    return not m.all()


@law(LAWS, cases(nds=(3,), lo=5, hi3=11, kinds=KINDS + ('discs', 'discs', 'discs')), 90, 1200, large=(1.8, 2, 10))
def opening_volumes(d, ctx):
    """The cumulative granulometry lists the opened volume for each size, in increasing order of size."""
    m = region(d)
    sizes = np.random.default_rng(d['pick']).permutation(np.arange(1, max(m.shape) // 2 + 1))
    got = seeded(d, t2c.granulometry_CDF, m, sizes=sizes.astype([float, int][d['pick'] % 2]))
    close(np.asarray(got, float), np.array([opened(m, n).sum() for n in np.sort(sizes)], float), 0, 0, 'opened volumes')
    got = seeded(d, t2c.granulometry_CDF, m, n_jobs=1)
    close(np.asarray(got, float), np.array([opened(m, n).sum() for n in range(1, max(m.shape), 2) if 2 * n < max(m.shape)], float), 0, 0, 'opened volumes of the odd sizes below half the box')
    return not m.all()


@law(LAWS, cases(hi2=12, hi3=8), 200, 5000, large=(4, 4, 40))
def morphology(d, ctx):
    """Dilation, erosion and opening are those of the structuring element with nothing outside the box."""
    m = region(d)
    b = ball(int(d['pick'] % 3), m.ndim)
    if d['tie']:
        b = np.random.default_rng(d['pick']).uniform(size=b.shape) < 0.6
        b[tuple(s // 2 for s in b.shape)] = True
    # the definitions, cell by cell
    n = b.shape[0] // 2
    def dilate(a):
        o = np.zeros(a.shape, bool)
        for off in np.argwhere(b) - n:
            dst = tuple(slice(max(0, s), a.shape[i] + min(0, s)) for i, s in enumerate(off))
            src = tuple(slice(max(0, -s), a.shape[i] + min(0, -s)) for i, s in enumerate(off))
            o[dst] |= a[src]
        return o
    sh = m.shape
    dil = dilate(m)
    same(np.asarray(call(morph.binary_dilation, m, b)).astype(bool), dil, 'binary_dilation')
    sym = np.array_equal(b, np.flip(b))
    if sym:
        same(np.asarray(call(morph.binary_erosion, m, b)).astype(bool), ndimage.binary_erosion(m, b, border_value=0), 'binary_erosion')
        same(np.asarray(call(morph.binary_opening, m, structure=b)).astype(bool), ndimage.binary_dilation(ndimage.binary_erosion(m, b, border_value=0), b), 'binary_opening')
    return not m.all() and b.sum() > 1


SPHERE = dict(shape=gen.shape(3, 1, 9), seed=gen.seeds(), half=st.lists(st.integers(-6, 26), min_size=3, max_size=3), rad=st.sampled_from([0, 1, 2, 3, 1.5, 2.2, 5, 8.7]),
              label=st.sampled_from([None, 0, 2, -3.5]), periodic=st.sampled_from([None, True, False]), nan=st.booleans())


@law(LAWS, st.fixed_dictionaries(SPHERE), 300, 5000, large=(3, 10, 80))
def painted_spheres(d, ctx):
    """A sphere is painted on exactly the cells within its radius, of the closest periodic image unless told otherwise."""
    rng = np.random.default_rng(d['seed'])
    x = rng.normal(size=d['shape'])
    if d['nan']:
        x[tuple(rng.integers(0, n) for n in x.shape)] = np.nan
    c = [h / 2. for h in d['half']]
    if d['periodic'] in (None, True):
        c = [min(max(v, 0), n - 0.5) for v, n in zip(c, x.shape)]
    kw = {}
    if d['label'] is not None:
        kw['label'] = d['label']
    if d['periodic'] is not None:
        kw['periodic'] = d['periodic']
    per = d['periodic'] is not False
    want = x.copy()
    hit = np.zeros(x.shape, bool)
    images = [-1, 0, 1] if per else [0]
    i, j, k = np.indices(x.shape)
    for a in images:
        for b in images:
            for e in images:
                r2 = (i + a * x.shape[0] - c[0])**2 + (j + b * x.shape[1] - c[1])**2 + (k + e * x.shape[2] - c[2])**2
                hit |= r2 <= d['rad']**2
    want[hit] = 1 if d['label'] is None else d['label']
    out = call(t2c.spa_np.put_sphere, x.copy(), c, d['rad'], **kw)
    same(out, want, 'painted sphere')
    return bool(hit.any() and not hit.all())
