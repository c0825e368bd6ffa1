"""P19 region identification and superpixels."""
import time
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from tools21cm import superpixels as sp, identify_regions as ir
from vlib import gen
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail
from props.P11 import nosleep

TITLE = 'Region identification splits cells by their own value in the documented order'
RULE = ('2D and 3D fields of 2-12 cells a side: one to three modes of any separation, width and share, tied and constant fields, several types; '
        'labels with and without gaps; non-trivial: at least two different values (superpixels: at least two superpixels)')
ASSUMPTIONS = ['the random state of the clustering is seeded by the check', 'clusters are compared with the two- and three-mode split only when modes are at least ten widths apart',
               'astroML is not installed here, so automatic histogram rules are those of NumPy']
LAWS = []


@st.composite
def fields(draw, nds=(2, 3), lo=2, hi=10, modes=(1, 2, 2, 3)):
    nd = draw(st.sampled_from(nds))
    k = draw(st.sampled_from(modes))
    return dict(shape=draw(gen.shape(nd, lo, hi)), modes=k, share=draw(st.sampled_from([0.1, 0.25, 0.5, 0.8])), sep=draw(st.sampled_from([2.0, 5.0, 30.0, 100.0])),
                tail=draw(st.sampled_from(['normal', 'uniform', 'exp', 'none'])), amp=draw(st.sampled_from([1.0, 1e-3, 25.0])), off=draw(st.sampled_from([0.0, -40.0, 3.0])),
                form=draw(st.sampled_from(['f8', 'f8', 'f4', 'i8', 'F', 'view'])), upper=draw(st.booleans()), seed=draw(gen.seeds()), rs=draw(st.integers(0, 2**31 - 1)))


def field(d):
    """(values, mode index of each cell); modes sit at 0, sep, 2 sep."""
    rng = np.random.default_rng(d['seed'])
    sh = tuple(d['shape'])
    n = int(np.prod(sh))
    k = d['modes']
    if k == 1:
        mode = np.zeros(n, int)
    elif k == 2:
        mode = (rng.uniform(size=n) >= d['share']).astype(int)
    else:
        mode = rng.integers(0, 3, n)
    for j in range(k):
        if n >= k:
            mode[j] = j
    mode = rng.permutation(mode)
    w = {'normal': np.clip(rng.normal(size=n), -2.5, 2.5) / 2.5, 'uniform': rng.uniform(-1, 1, n), 'exp': np.clip(rng.exponential(size=n), 0, 5) / 2.5 - 1, 'none': np.zeros(n)}[d['tail']]
    x = (mode * d['sep'] + w) * d['amp'] + d['off']
    x, mode = x.reshape(sh), mode.reshape(sh)
    f = d['form']
    if f == 'f4':
        x = x.astype('f4')
    elif f == 'i8':
        x = np.round((x - d['off']) * (1000 / d['amp'])).astype('i8')
    elif f == 'F':
        x = np.asfortranarray(x)
    elif f == 'view':
        big = np.zeros(tuple(2 * s for s in x.shape))
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        x = v
    return x, mode


def seeded(d, f, *a, **k):
    np.random.seed(d['rs'] % 2**32)
    with nosleep():
        return call(f, *a, **k)


def binary(got, x, what):
    got = np.asarray(got)
    check(got.shape == x.shape, '%s: shape %s of a field of shape %s', what, got.shape, x.shape)
    check(np.all((got == 0) | (got == 1)), '%s: not a binary field', what)
    return got.astype(bool)


def one_sided(b, x, upper, what):
    """All selected cells lie on the stated side of the others."""
    if b.any() and not b.all():
        if upper:
            check(x[b].max() < x[~b].min(), '%s: a selected cell (%g) is not below another (%g)', what, x[b].max(), x[~b].min())
        else:
            check(x[b].min() > x[~b].max(), '%s: a selected cell (%g) is not above another (%g)', what, x[b].min(), x[~b].max())


@law(LAWS, st.tuples(fields(), st.floats(0, 1), st.booleans()).map(list), 400, 15000, large=(5, 10, 60))
def fixed_threshold(d, ctx):
    """A fixed threshold selects exactly the cells at or on the stated side of it."""
    d, q, tie = d
    x, _ = field(d)
    th = x.ravel()[int(q * (x.size - 1))].item() if tie else float(x.min() + q * (float(x.max()) - float(x.min())))
    got = binary(call(t2c.bubbles_from_fixed_threshold, x, threshold=th, upper_lim=d['upper']), x, 'fixed threshold')
    same(got, x <= th if d['upper'] else x >= th, 'cells selected by the fixed threshold')
    z = x - x.dtype.type(th) if x.dtype.kind == 'f' else x - int(np.round(th))
    same(binary(call(t2c.bubbles_from_fixed_threshold, z), z, 'default threshold'), z <= 0, 'cells selected by the default threshold')
    return len(np.unique(x)) > 1


@law(LAWS, fields(), 300, 8000, large=(4, 10, 60))
def clusters(d, ctx):
    """Clusters split the cells by value: the selected ones are all on the stated side, and both sides have cells."""
    x, mode = field(d)
    k = 2 if d['rs'] % 2 else 3
    kw = dict(upper_lim=d['upper'])
    if k != 3 or d['rs'] % 3:
        kw['n_clusters'] = k
    u = np.unique(x)
    if len(u) < 2:
        got = binary(seeded(d, t2c.bubbles_from_kmeans, x, **kw), x, 'clusters')
        check(got.all(), 'a constant field is not one region')
        return False
    got = binary(seeded(d, t2c.bubbles_from_kmeans, x, **kw), x, 'clusters')
    same(binary(seeded(d, t2c.bubbles_from_kmeans, x, **kw), x, 'clusters'), got, 'clusters of the same random state')
    one_sided(got, x, d['upper'], '%d clusters' % k)
    check(got.any() and not got.all(), '%d clusters: one phase is empty', k)
    if len(u) == 2:
        same(got, (x == u[0]) if d['upper'] else (x == u[1]), 'two values, %d clusters' % k)
        return True
    xs = x.astype(float)
    if k == 2:
        c0, c1 = xs[got].mean(), xs[~got].mean()
        mid, tol = (c0 + c1) / 2, 0.02 * xs.std() + 1e-9 * np.abs(xs).max()
        check(np.all((np.abs(xs - c0) <= np.abs(xs - c1)) | (np.abs(xs - mid) <= tol) == (got | (np.abs(xs - mid) <= tol))), 'two clusters: a cell is nearer to the other mean')
    if d['modes'] == k and d['sep'] >= 30 and min((mode == j).sum() for j in range(k)) >= 0.2 * x.size / k:
        ctx.label('separated')
        same(got, mode == (0 if d['upper'] else k - 1), 'cells of the %s of %d separate modes' % ('lowest' if d['upper'] else 'highest', k))
    return True


@law(LAWS, fields(modes=(2, 2, 3)), 200, 6000, large=(4, 8, 50))
def cluster_symmetry(d, ctx):
    """Moving cells about, transposing, or changing units leaves each cell's class of well separated modes as it is."""
    d = dict(d, sep=100.0, share=0.5, form='f8')
    x, mode = field(d)
    k = d['modes']
    if min((mode == j).sum() for j in range(k)) < 0.2 * x.size / k:
        return False
    rng = np.random.default_rng(d['rs'])
    p = rng.permutation(x.size)
    a = rng.uniform(0.1, 30)
    y = (x.ravel()[p] * a + rng.uniform(-5, 5)).reshape(x.shape[::-1])
    b1 = binary(seeded(d, t2c.bubbles_from_kmeans, x, upper_lim=d['upper'], n_clusters=k), x, 'clusters')
    b2 = binary(seeded(d, t2c.bubbles_from_kmeans, y, upper_lim=d['upper'], n_clusters=k), y, 'clusters')
    same(b2.ravel(), b1.ravel()[p], 'classes of the cells moved about')
    b3 = binary(seeded(d, t2c.bubbles_from_kmeans, -x, upper_lim=not d['upper'], n_clusters=k), x, 'clusters')
    same(b3, b1, 'classes of the mirrored field')
    return True


def triangle_thresholds(x, nbins):
    """Every threshold within round-off of the best of the triangle method."""
    x = np.asarray(x)
    hist, edges = np.histogram(x.ravel().astype(float), nbins)
    cen = (edges[1:] + edges[:-1]) / 2
    n = len(hist)
    pk = int(np.argmax(hist))
    if hist[pk] == 0:
        return None
    nz = np.flatnonzero(hist)
    lo, hi = nz[0], nz[-1]
    if lo == hi:
        return [x.ravel()[0]]
    flip = pk - lo < hi - pk
    if flip:
        hist, lo, pk = hist[::-1], n - 1 - hi, n - 1 - pk
    w, h = pk - lo, float(hist[pk])
    norm = np.hypot(w, h)
    i = np.arange(w)
    dist = (h / norm) * i - (w / norm) * hist[i + lo]
    best = [int(j + lo) for j in i if dist[j] >= dist.max() - 1e-9 * max(1, abs(dist).max())]
    return [cen[n - 1 - b] if flip else cen[b] for b in best]


@law(LAWS, st.tuples(fields(lo=3), st.sampled_from([None, 5, 20, 100, 256]), st.sampled_from([None, 0, 1, 2, -1, -2, -3])).map(list), 400, 12000, large=(5, 10, 60))
def triangle(d, ctx):
    """Triangle thresholding selects the cells on the stated side of the triangle threshold of the whole field, or of the median over its slices."""
    d, nb, ax = d
    x, _ = field(dict(d, form='f8' if d['form'] in ('i8', 'f4') else d['form']))
    kw = dict(upper_lim=d['upper'])
    if nb:
        kw['nbins'] = nb
    if len(np.unique(x)) < 2:
        return False
    th = triangle_thresholds(x, nb or 256)
    got = binary(call(t2c.bubbles_from_triangle3D, x, **kw), x, 'triangle')
    one_sided(got, x, d['upper'], 'triangle')
    eps = 1e-6 * (np.abs(x).max()) if x.dtype == 'f4' else 1e-12 * np.abs(x).max()
    ok = [np.all((got == ((x <= t) if d['upper'] else (x >= t))) | (np.abs(x - t) <= eps)) for t in th]
    check(any(ok), 'triangle: %d cells selected, the threshold is %s', got.sum(), th)
    if x.ndim == 3:
        # the slices perpendicular to the axis
        a = 2 if ax is None else ax
        sl = [np.take(x, i, axis=a) for i in range(x.shape[a])]
        if any(np.ptp(q) < 1e-3 * np.abs(x).max() for q in sl):
            return True
        ths = [triangle_thresholds(np.take(x, i, axis=a), nb or 256) for i in range(x.shape[a])]
        if all(len(t) == 1 for t in ths):
            if ax is not None:
                kw['loc_axis'] = ax
            t = np.median([t[0] for t in ths])
            got = binary(call(t2c.bubbles_from_triangle2D, x, **kw), x, 'triangle of slices')
            want = (x <= t) if d['upper'] else (x >= t)
            check(np.all((got == want) | (np.abs(x - t) <= eps)), 'triangle of slices: %d cells selected, expected %d', got.sum(), want.sum())
            ctx.label('slices')
    return True


# ------------------------------------------------------------------ superpixels

@st.composite
def label_cases(draw):
    d = draw(fields(lo=2, hi=9))
    d.update(how=draw(st.sampled_from(['blocks', 'random', 'gaps', 'one', 'each'])), nl=draw(gen.side(1, 30)), bins=draw(st.sampled_from(['knuth', 'blocks', 4, 10, 'auto'])))
    return d


def labels_of(d, x):
    rng = np.random.default_rng(d['rs'])
    if d['how'] == 'blocks':
        g = np.indices(x.shape)
        b = [int(rng.integers(1, n + 1)) for n in x.shape]
        key = sum((g[a] // b[a]) * 10**(2 * a) for a in range(x.ndim))
        lab = np.unique(key, return_inverse=True)[1].reshape(x.shape)
    elif d['how'] == 'one':
        lab = np.zeros(x.shape, int)
    elif d['how'] == 'each':
        lab = np.arange(x.size).reshape(x.shape)
    else:
        lab = rng.integers(0, d['nl'], x.shape)
        if d['how'] == 'gaps':
            lab = lab * 3 + int(rng.integers(-5, 6))
        else:
            lab = np.unique(lab, return_inverse=True)[1].reshape(x.shape)
    return lab


def tolerance(x):
    return 1e-5 if x.dtype == 'f4' else 1e-10


@law(LAWS, label_cases(), 300, 10000, large=(3, 10, 60))
def superpixel_statistics(d, ctx):
    """Means, deviations, sizes and pixels of superpixels are those of their cells; the map is the mean on every cell of each."""
    x, _ = field(d)
    lab = labels_of(d, x)
    u = np.unique(lab)
    xs = x.astype(float)
    tol = tolerance(x)
    S = np.abs(xs).max() + 1e-300
    mn = np.array([xs[lab == i].mean() for i in u])
    sg = np.array([xs[lab == i].std() for i in u])
    nn = np.array([(lab == i).sum() for i in u])
    v = bool(d['rs'] % 2)
    gm = seeded(d, sp.get_superpixel_means, x, labels=lab, verbose=v)
    gs = seeded(d, sp.get_superpixel_sigmas, x, labels=lab, verbose=v)
    close(gm, mn, tol, 0, 'superpixel means', S)
    close(gs, sg, tol * 10, 0, 'superpixel deviations', S)
    same(np.asarray(seeded(d, sp.get_superpixel_n_pixels, x, labels=lab)), nn, 'superpixel sizes')
    px = seeded(d, sp.get_superpixel_pixels, x, labels=lab, verbose=v)
    check(len(px) == len(u), 'pixel lists of %d superpixels, %d expected', len(px), len(u))
    for i, p in zip(u, px):
        same(np.sort(np.asarray(p)), np.sort(x[lab == i]), 'pixels of superpixel %d' % i)
    op = [np.max, np.median, np.sum][d['rs'] % 3]
    close(seeded(d, sp.apply_operator_labelled_data, x, lab, operator=op, verbose=v), [float(op(xs[lab == i])) for i in u], tol * 100, 0, 'operator on superpixels', S)
    want = np.zeros(x.shape)
    for i, m in zip(u, mn):
        want[lab == i] = m
    close(seeded(d, sp.superpixel_map, x, lab, verbose=v), want, tol, 0, 'superpixel map', S)
    mns = np.random.default_rng(d['rs']).normal(size=len(u))
    for i, m in zip(u, mns):
        want[lab == i] = m
    close(seeded(d, sp.superpixel_map, x, lab, mns=mns, verbose=v), want, 1e-12, 0, 'superpixel map of given means')
    if np.all(sg > 1e-6 * S):
        r = seeded(d, sp.get_superpixel_SNRs, data=x, labels=lab, pixels=v)
        check(len(r) == (5 if v else 4), 'signal-to-noise: %d results', len(r))
        o = np.argsort(mn)
        if len(o) < 2 or np.min(np.diff(mn[o])) > tol * S:
            snr = mn[o] / sg[o]
            close(r[0], snr, 100 * tol, 0, 'superpixel signal-to-noise', (S / sg).max())
            close(r[1], mn[o], tol, 0, 'sorted superpixel means', S)
            close(r[2], sg[o], 10 * tol, 0, 'sorted superpixel deviations', S)
            same(np.asarray(r[3]), nn[o], 'sorted superpixel sizes')
            if v:
                for j, p in zip(o, r[4]):
                    same(np.sort(np.asarray(p)), np.sort(x[lab == u[j]]), 'sorted superpixel pixels')
            for th in (0, 0.5, 1.0, 5):
                sel = snr < (th if th <= 0 else -th)
                if np.any(np.abs(snr - (th if th <= 0 else -th)) < 1e-4):
                    continue
                g = seeded(d, sp.mean_estimate, x, labels=lab, **({} if th == 5 else {'SNR_thres': th}))
                if sel.any() and nn[o][sel].sum() > 1:
                    m_, s_, n_ = np.abs(mn[o][sel]), sg[o][sel], nn[o][sel]
                    w = np.sum(m_ * n_) / n_.sum()
                    close(g[0], w, 100 * tol, 0, 'mean estimate', S)
                    close(g[1], np.sqrt((np.sum((n_ - 1) * s_**2) + np.sum(n_ * (m_ - w)**2)) / (n_.sum() - 1)), 1e3 * tol, 0, 'deviation of the mean estimate', S)
                elif not sel.any():
                    check(g[0] == 0 and g[1] == 0, 'mean estimate without superpixels')
    return len(u) > 1


@law(LAWS, label_cases(), 400, 12000, large=(3, 10, 60))
def stitching(d, ctx):
    """Stitched regions are the superpixels (or cells) whose mean (value) is below one threshold; bimodal superpixels are split into their modes."""
    x, mode = field(d)
    lab = labels_of(d, x)
    u = np.unique(lab)
    xs = x.astype(float)
    mn = np.array([xs[lab == i].mean() for i in u])
    S = np.abs(xs).max() + 1e-300
    tol = tolerance(x) * S
    bins = d['bins']
    if len(u) > 1 and np.ptp(mn) <= 100 * tol:
        return False
    kw = dict(bins=bins, verbose=bool(d['rs'] % 2))
    got = binary(seeded(d, sp.stitch_superpixels, x, lab, **kw), x, 'stitching')
    gm = np.array([got[lab == i].mean() for i in u])
    check(np.all((gm == 0) | (gm == 1)), 'stitching: a superpixel is split')
    gm = gm == 1
    if len(u) == 1:
        return False
    if gm.any() and (~gm).any():
        check(mn[gm].max() < mn[~gm].min() + 100 * tol, 'stitching: a selected superpixel has a mean (%g) above another (%g)', mn[gm].max(), mn[~gm].min())
    th = seeded(d, sp.stitch_superpixels, x, lab, binary=False, **kw)
    check(np.ndim(th) == 0, 'stitching: no threshold')
    bad = (gm != (mn < th)) & (np.abs(mn - th) > 100 * tol)
    check(not bad.any(), 'stitching: superpixels of means %s are on the wrong side of %g', mn[bad].tolist(), th)
    cells = binary(seeded(d, sp.stitch_superpixels, x, lab, on_superpixel_map=False, **kw), x, 'stitching of cells')
    same(cells, x < th, 'cells below the stitching threshold')
    # two separate groups of superpixel means
    if d['how'] == 'each' and d['modes'] == 2 and d['sep'] >= 30 and min((mode == 0).sum(), (mode == 1).sum()) >= 0.2 * x.size and d['bins'] == 4:
        # thresholds are centres of histogram bins of 1/256 of the range: cells that close to the end of the mode may go either way
        ctx.label('bimodal')
        edge = (mode == 0) & (xs > xs[mode == 0].max() - np.ptp(xs) / 128)
        check(np.all((got == (mode == 0)) | edge), 'stitched regions do not separate the two modes')
    y = seeded(d, sp.binary_stitch, x, lab)
    w = np.zeros(x.shape)
    for i, m in zip(u, mn):
        w[lab == i] = m
    amb = np.abs(w - xs.mean()) <= 100 * tol
    y = binary(y, x, 'binary stitching')
    check(np.all((y == (w < xs.mean())) | amb), 'binary stitching does not select the superpixels below the mean')
    t0 = 0 if d['rs'] % 3 == 0 else float(np.quantile(mn, 0.3)) + 1e-3 * S
    y = binary(seeded(d, sp.binary_stitch, x, lab, thres=t0), x, 'binary stitching')
    check(np.all((y == (w < t0)) | (np.abs(w - t0) <= 100 * tol)), 'binary stitching does not select the superpixels below the threshold given')
    return True


def otsu_thresholds(x, nbins=256):
    """Every threshold within round-off of the largest between-class variance."""
    n, e = np.histogram(x, nbins)
    c = (e[1:] + e[:-1]) / 2
    n = n.astype(float)
    w1, w2 = np.cumsum(n), n.sum() - np.cumsum(n)
    s1 = np.cumsum(n * c)
    with np.errstate(all='ignore'):
        v = w1 * w2 * (s1 / w1 - (s1[-1] - s1) / w2)**2
    v = v[:-1]
    v[~np.isfinite(v)] = -1
    return [float(c[i]) for i in np.flatnonzero(v >= v.max() * (1 - 1e-6))]


def stitch_thresholds(mn, bins):
    """(rule, admissible thresholds): the middle of the bin furthest from the line from the first bin to the highest one when the
    histogram of the means has a single peak inside its range, otherwise Otsu's threshold."""
    n, e = np.histogram(mn, bins='auto' if bins in ('knuth', 'blocks') else bins)
    k = int(n.argmax())
    peaks = [i for i in range(1, len(n) - 1) if n[i] > n[i - 1] and n[i] > n[i + 1]]
    if len(peaks) == 1 and k > 0:
        d = [abs((n[i] - n[0]) - (n[k] - n[0]) / (e[k] - e[0]) * (e[i] - e[0])) for i in range(k)]
        return 'one peak', [(e[i] + e[i + 1]) / 2 for i in range(k) if d[i] >= max(d) - 1e-9 * n[k]]
    return 'otsu', otsu_thresholds(mn)


@st.composite
def stitch_cases(draw):
    d = draw(fields(lo=3, hi=9, modes=(1, 1, 2, 3)))
    d.update(how=draw(st.sampled_from(['each', 'random', 'gaps', 'blocks'])), nl=draw(gen.side(5, 80)), bins=draw(st.sampled_from(['knuth', 'blocks', 4, 7, 10, 25, 'auto'])), form='f8')
    return d


@law(LAWS, stitch_cases(), 250, 8000, large=(2.5, 10, 60))
def stitching_threshold(d, ctx):
    """The stitching threshold is that of the histogram of superpixel means (one peak: the bin furthest from the chord; otherwise Otsu's)."""
    x, _ = field(d)
    lab = labels_of(d, x)
    mn = np.asarray(seeded(d, sp.get_superpixel_means, x, labels=lab, verbose=False))
    if len(mn) < 2 or np.ptp(mn) <= 1e-9 * np.abs(mn).max():
        return False
    rule, ths = stitch_thresholds(mn, d['bins'])
    ctx.label(rule)
    scale = np.abs(mn).max()

    def near(t, what):
        check(any(abs(t - w) <= 1e-9 * scale for w in ths), '%s: threshold %r, expected %r (%s, %d means)', what, float(t), ths, rule, len(mn))
    near(seeded(d, sp.stitch_superpixels, x, lab, bins=d['bins'], binary=False, verbose=False), 'stitching')
    near(seeded(d, sp.stitch_using_histogram, x, mn, lab, bins=d['bins'], binary=False, verbose=False), 'stitching of given means')
    if d['bins'] == 'knuth':
        near(seeded(d, sp.stitch_superpixels, x, lab, binary=False, verbose=False), 'stitching by default')
    other = np.random.default_rng(d['rs']).permutation(mn)
    got = binary(seeded(d, sp.stitch_using_histogram, x, other, lab, bins=d['bins'], verbose=False), x, 'stitching of given means')
    w = np.zeros(x.shape)
    for i, m in zip(np.unique(lab), other):
        w[lab == i] = m
    check(any(np.all((got == (w < t)) | (np.abs(w - t) <= 1e-9 * scale)) for t in ths), 'stitching of given means: not the superpixels below the threshold %s', ths)
    ot = otsu_thresholds(mn)
    got = binary(seeded(d, sp.binary_stitch, x, lab, stitch='otsu'), x, 'Otsu stitching')
    for i, m in zip(np.unique(lab), mn):
        w[lab == i] = m
    check(any(np.all((got == (w < t)) | (np.abs(w - t) <= 1e-9 * scale)) for t in ot), 'Otsu stitching: not the superpixels below the threshold %s', ot)
    return True


@law(LAWS, st.tuples(fields(nds=(2,), lo=3, hi=12), st.integers(1, 9), st.sampled_from([None, 1.01, 1.5, 2.0, 0.5])).map(list), 100, 2500, large=(4, 10, 60))
def marked_boundaries(d, ctx):
    """Cells on the boundary between labels get the marking value, the others keep theirs; unmarked, only the corner cell does."""
    d, n, fac = d
    x, _ = field(d)
    lab = labels_of(dict(d, how=['blocks', 'random', 'one'][d['rs'] % 3], nl=n), x)
    kw = {} if fac is None else {'factor': fac}
    f = 1.01 if fac is None else fac
    got = np.asarray(call(sp.boundaries, x, lab, **kw))
    check(got.shape == x.shape, 'boundaries: shape %s', got.shape)
    top = float(x.max()) * f
    tol = 1e-6 * max(abs(top), np.abs(x.astype(float)).max())
    # a cell all of whose neighbours (diagonals too) have its label is inside; one with a different direct neighbour may be marked
    P = np.pad(lab, 1, mode='edge')
    nb = [P[1 + a:P.shape[0] - 1 + a, 1 + b:P.shape[1] - 1 + b] for a in (-1, 0, 1) for b in (-1, 0, 1)]
    inside = np.all([q == lab for q in nb], axis=0)
    kept, marked = np.abs(got - x) <= tol, np.abs(got - top) <= tol
    check(np.all(kept | marked), 'boundaries: a cell has neither its value nor the mark')
    check(np.all(kept | ~inside), 'boundaries: a cell inside a region is marked')
    for a in (0, 1):
        l = np.moveaxis(lab, a, 0)
        m = np.moveaxis(marked, a, 0)
        dif = l[1:] != l[:-1]
        check(np.all(m[1:][dif] | m[:-1][dif]), 'boundaries: neither side of a boundary is marked')
    off = np.asarray(call(sp.boundaries, x, lab, mark=False, **kw))
    w = x.astype(float)
    w[0, 0] = top
    close(off, w, 0, tol, 'unmarked boundaries')
    return len(np.unique(lab)) > 1


@law(LAWS, st.tuples(fields(nds=(2, 3), lo=5, hi=12, modes=(2, 2, 3, 1)), st.sampled_from([5, 20, 60])).map(list), 80, 1500)
def slic_regions(d, ctx):
    """Every cell of the cube belongs to one superpixel numbered from zero; the regions are unions of superpixels, those of low mean."""
    d, n = d
    x, _ = field(dict(d, form='f8'))
    if np.ptp(x) == 0:
        return False
    v = bool(d['rs'] % 2)
    lab = np.asarray(seeded(d, sp.slic_cube, x, n_segments=n, verbose=v))
    check(lab.shape == x.shape, 'superpixels: labels of shape %s for a field of shape %s', lab.shape, x.shape)
    u = np.unique(lab)
    check(np.array_equal(u, np.arange(len(u))), 'superpixels: labels are not 0..%d', len(u) - 1)
    same(np.asarray(seeded(d, sp.slic_cube, x, n_segments=n, verbose=False)), lab, 'superpixels, repeated')
    mn = np.array([x[lab == i].mean() for i in u])
    S = np.abs(x).max()
    for f, w in ((sp.get_superpixel_means, mn), (sp.get_superpixel_sigmas, [x[lab == i].std() for i in u]), (sp.get_superpixel_n_pixels, [(lab == i).sum() for i in u])):
        close(seeded(d, f, x, slic_segments=n, **({} if f is sp.get_superpixel_n_pixels else {'verbose': v})), w, 0, 1e-10 * S, f.__name__ + ' without labels')
    px = seeded(d, sp.get_superpixel_pixels, x, slic_segments=n, verbose=v)
    check(len(px) == len(u), 'pixels without labels: %d superpixels, %d expected', len(px), len(u))
    for i, p in zip(u, px):
        same(np.sort(np.asarray(p)), np.sort(x[lab == i]), 'pixels of superpixel %d, without labels' % i)
    if x.shape[0] == x.shape[-1] or x.ndim == 3:
        q = np.asarray(seeded(d, sp.slic_cube, x * 2.0, n_segments=n, cmap='jet', verbose=False))
        check(q.shape == x.shape and np.array_equal(np.unique(q), np.arange(q.max() + 1)), 'superpixels of the coloured field: labels of shape %s', q.shape)
    if np.ptp(mn) <= 1e-9 * np.abs(x).max():
        return False
    got = binary(seeded(d, t2c.bubbles_from_slic, x, n_segments=n, verbose=v), x, 'superpixel regions')
    gm = np.array([got[lab == i].mean() for i in u])
    check(np.all((gm == 0) | (gm == 1)), 'superpixel regions: a superpixel is split')
    g = gm == 1
    if g.any() and (~g).any():
        check(mn[g].max() < mn[~g].min() + 1e-9 * np.abs(x).max(), 'superpixel regions: a selected superpixel has the higher mean')
    return len(u) > 1


@law(LAWS, label_cases(), 120, 3000, large=(4, 8, 60))
def label_helpers(d, ctx):
    """One label's cells, the under-segmentation error and combined moments follow their formulas."""
    x, mode = field(dict(d, shape=[min(s, 5) for s in d['shape']]))
    lab = labels_of(dict(d, nl=min(d['nl'], 6), how='random' if d['how'] == 'each' else d['how']), x)
    for i in (int(lab.ravel()[0]), 99):
        same(np.asarray(seeded(d, sp.see_label, lab, i)), (lab == i).astype(float), 'cells of label %d' % i)
    if x.ndim == 3:
        b = [0.25, 0.5, 0.1][d['rs'] % 3]
        tot = 0
        for t in np.unique(mode):
            for l in np.unique(lab):
                s = lab == l
                if (s & (mode == t)).sum() > b * s.sum():
                    tot += s.sum()
        close(seeded(d, sp.under_segmentation_error, lab, mode, b=b, verbose=False), (tot - lab.size) / lab.size, 1e-12, 1e-12, 'under-segmentation error')
    rng = np.random.default_rng(d['rs'])
    parts = [rng.normal(rng.uniform(-5, 5), 1, int(rng.integers(2, 20))) for _ in range(int(rng.integers(1, 6)))]
    al = np.concatenate(parts)
    g = call(sp.get_combined_mean_std, np.array([p.mean() for p in parts]), np.array([p.std(ddof=1) for p in parts]), np.array([len(p) for p in parts]))
    close(g[0], al.mean(), 1e-10, 1e-10, 'combined mean'), close(g[1], al.std(ddof=1), 1e-10, 0, 'combined deviation')
    z = 6 + (d['rs'] % 100) / 10.
    close(call(sp.xfrac_mass_estimate, x.astype(float), z), 1 - x.astype(float) / 27 / np.sqrt((1 + z) / 10), 1e-12, 1e-12, 'mass estimate')
    close(call(sp.xfrac_volume_estimate, mode == 0), np.mean(mode == 0), 1e-12, 0, 'volume estimate')
    return len(np.unique(lab)) > 1
