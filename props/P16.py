"""P16 friends-of-friends bubbles and size distributions."""
import itertools
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from tools21cm import bubble_stats as bs
from vlib import gen
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Friends-of-friends bubbles are the connected components of the ionised cells'
RULE = ('2D and 3D meshes, sides 1-14, binary, continuous, tied, filled and empty fields of every real type and memory layout; '
        'non-trivial: at least two regions, or one region and cells outside it')
ASSUMPTIONS = ['no NaN cells']
LAWS = []


def offsets(nd, conn):
    return [o for o in itertools.product((-1, 0, 1), repeat=nd) if 0 < sum(map(abs, o)) <= conn]


def components(mask, conn):
    """Reference labels by flood fill: 0 outside, 1.. in scan order."""
    lab = np.zeros(mask.shape, int)
    offs = offsets(mask.ndim, conn)
    n = 0
    for p in zip(*np.nonzero(mask)):
        if lab[p]:
            continue
        n += 1
        lab[p] = n
        todo = [p]
        while todo:
            q = todo.pop()
            for o in offs:
                r = tuple(a + b for a, b in zip(q, o))
                if all(0 <= a < m for a, m in zip(r, mask.shape)) and mask[r] and not lab[r]:
                    lab[r] = n
                    todo.append(r)
    return lab, n


def same_partition(got, want, what):
    got = np.asarray(got)
    check(got.shape == want.shape, '%s: shape %s, expected %s', what, got.shape, want.shape)
    check(np.array_equal(got != 0, want != 0), '%s: %d cells labelled, %d expected', what, (got != 0).sum(), (want != 0).sum())
    pairs = set(zip(got[want != 0].tolist(), want[want != 0].tolist()))
    check(len(pairs) == len({a for a, _ in pairs}), '%s: one label covers two regions', what)
    check(len(pairs) == len({b for _, b in pairs}), '%s: one region has two labels', what)


FORMS = ['f8', 'f8', 'f4', 'i8', 'F', 'view', 'neg']


def make(d):
    """(data as given to the code, reference float array, threshold)."""
    rng = np.random.default_rng(d['seed'])
    sh = tuple(d['shape'])
    k = d['kind']
    if k == 'binary':
        x = (rng.uniform(size=sh) < d['fill']).astype(float)
    elif k == 'levels':
        x = rng.integers(0, 5, sh) / 4.0
    elif k == 'smooth':
        x = rng.normal(size=sh)
        for ax in range(len(sh)):
            x = x + np.roll(x, 1, ax)
        x = x - np.quantile(x, 1 - d['fill'])
    elif k == 'snake':
        # a corridor that winds through the mesh
        x = np.zeros(sh)
        x[::2] = 1
        for i in range(1, sh[0], 2):
            x[i][tuple(-1 if (i // 2) % 2 else 0 for _ in sh[1:])] = 1
        if rng.uniform() < 0.5:
            x.ravel()[rng.integers(0, x.size)] = 0
        x = x.transpose(rng.permutation(len(sh)))
    elif k == 'checker':
        x = (np.indices(sh).sum(0) % 2).astype(float)
    elif k == 'full':
        x = np.ones(sh)
    elif k == 'empty':
        x = np.zeros(sh)
    else:
        x = rng.uniform(size=sh)
    x = x * d['amp'] + d['offset']
    th = {'half': 0.5, 'tie': float(x.ravel()[rng.integers(0, x.size)]), 'quantile': float(np.quantile(x, 1 - d['fill']))}[d['th']]
    if d['th'] == 'half' or (k in ('binary', 'checker', 'snake', 'full', 'empty') and d['th'] == 'quantile'):
        th = 0.5 * d['amp'] + d['offset']
    f = d['form']
    if f == 'f4':
        x = x.astype('f4')
        th = float(np.float32(th))
        return x, x.astype(float), th
    if f == 'i8':
        s = 10000 if d['amp'] < 1 else 10
        x, th = np.round(x * s).astype('i8'), th * s
        return x, x.astype(float), th
    if f == 'F':
        return np.asfortranarray(x), x, th
    if f == 'view':
        big = np.zeros(tuple(2 * s for s in x.shape))
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v, x, th
    if f == 'neg':
        return x[::-1], x[::-1].copy(), th
    return x, x, th


@st.composite
def fields(draw, hi2=14, hi3=8, kinds=('binary', 'checker', 'levels', 'smooth', 'snake', 'full', 'empty', 'uniform')):
    nd = draw(st.sampled_from([2, 3]))
    return dict(shape=draw(st.one_of(gen.shape(nd, 3, hi2 if nd == 2 else hi3), gen.shape(nd, 1, hi2 if nd == 2 else hi3))), kind=draw(st.sampled_from(kinds)), seed=draw(gen.seeds()),
                fill=draw(st.sampled_from([0.05, 0.3, 0.5, 0.7, 0.95])), amp=draw(st.sampled_from([1.0, 1.0, 20.0, 1e-3])),
                offset=draw(st.sampled_from([0.0, 0.0, -30.0, 5.0])), th=draw(st.sampled_from(['half', 'quantile', 'quantile', 'tie'])),
                form=draw(st.sampled_from(FORMS)), conn=draw(st.sampled_from([1, 1, 2, 3])), pick=draw(gen.seeds()))


FIX = [dict(shape=s, kind=k, seed=1, fill=0.5, amp=1.0, offset=0.0, th='half', form='f8', conn=1, pick=0)
       for s in ([4, 5], [3, 4, 5], [1, 1, 1]) for k in ('full', 'empty')] + \
    [dict(shape=s, kind='checker', seed=1, fill=0.5, amp=1.0, offset=0.0, th='half', form='f8', conn=c, pick=0)
     for s, c in (([258, 262], 1), ([40, 41, 42], 1), ([9, 10, 11], 2))]


@law(LAWS, fields(), 900, 30000, fixed=FIX, large=(4, 15, 100))
def components_of_cells(d, ctx):
    """The labels partition the cells at or above the threshold into their connected components; the list holds their sizes."""
    nt = False
    data, x, th = make(d)
    conn = min(d['conn'], x.ndim)
    mask = x >= th
    want, n = components(mask, conn)
    if n > 1 or (n == 1 and not mask.all()):
        nt = True
    if mask.all():
        ctx.label('all cells')
    kw = dict(xth=th)
    if conn != 1:
        kw['connectivity'] = conn
    lab, sizes = call(t2c.fof, data, **kw)
    same_partition(lab, want, 'fof labels')
    lab, sizes = np.asarray(lab), np.asarray(sizes)
    check(sizes.shape == (n,), 'fof: %s sizes for %d regions', sizes.shape, n)
    check(sorted(np.unique(lab[lab != 0]).tolist()) == list(range(1, n + 1)), 'fof: labels are not 1..%d', n)
    cnt = np.bincount(lab.ravel().astype(int), minlength=n + 1)[1:]
    for i in range(n):
        check(sizes[i] == cnt[i], 'fof: size %d of region %d, which has %d cells', sizes[i], i + 1, cnt[i])
    return nt


@law(LAWS, fields(hi2=10, hi3=6), 500, 15000, large=(4, 12, 100))
def components_search(d, ctx):
    """The plain search gives the face-connected components of the cells above the threshold."""
    nt = False
    data, x, th = make(d)
    mask = x > th
    want, n = components(mask, 1)
    if n > 1 or (n == 1 and not mask.all()):
        nt = True
    lab, sizes = call(bs.FoF_search, data, th)
    same_partition(lab, want, 'FoF_search labels')
    lab = np.asarray(lab)
    check(len(sizes) == n, 'FoF_search: %d sizes for %d regions', len(sizes), n)
    for i in range(n):
        check(sizes[i] == (lab == i + 1).sum(), 'FoF_search: size of region %d', i + 1)
    return nt


@law(LAWS, fields(), 250, 8000, large=(4, 10, 60))
def default_threshold(d, ctx):
    """Without options: face-connected regions of the cells of at least one half."""
    nt = False
    data, x, th = make(d)
    x = np.where(x >= th, 0.5, 0.25) if d['pick'] % 2 else np.where(x >= th, 1, 0)
    want, n = components(x >= 0.5, 1)
    if n > 1:
        nt = True
    lab, sizes = call(t2c.fof, x)
    same_partition(lab, want, 'fof() labels')
    check(sorted(np.asarray(sizes).tolist()) == sorted(np.bincount(want.ravel(), minlength=1)[1:].tolist()), 'fof() sizes')
    return nt


@law(LAWS, fields(), 300, 10000, large=(3, 10, 60))
def axis_symmetry(d, ctx):
    """Transposing or reflecting the field transposes or reflects the regions."""
    nt = False
    data, x, th = make(d)
    rng = np.random.default_rng(d['pick'])
    perm = tuple(int(i) for i in rng.permutation(x.ndim))
    flip = tuple(int(i) for i in np.nonzero(rng.integers(0, 2, x.ndim))[0])
    conn = min(d['conn'], x.ndim)
    a, sa = call(t2c.fof, x, xth=th, connectivity=conn)
    b, sb = call(t2c.fof, np.flip(x.transpose(perm), flip), xth=th, connectivity=conn)
    if len(sa) > 1:
        nt = True
    same_partition(b, np.flip(np.asarray(a).transpose(perm), flip), 'fof of the transposed field')
    check(sorted(np.asarray(sa).tolist()) == sorted(np.asarray(sb).tolist()), 'fof sizes of the transposed field')
    return nt


# ------------------------------------------------------------------ distributions of a volume list

@st.composite
def volume_lists(draw):
    k = draw(gen.side(1, 40))
    v = draw(st.lists(st.one_of(st.integers(1, 12), st.integers(1, 10**6)), min_size=k, max_size=k))
    return dict(vols=v, bins=draw(st.sampled_from([1, 2, 5, 20, 100, None])), res=draw(st.sampled_from([1.0, 0.5, 2.34, 10.0])),
                null=draw(st.sampled_from([None, None, 0, 1e-6])), form=draw(st.sampled_from(['list', 'array', 'float'])),
                box=draw(gen.nice_floats(1, 500)), norm=draw(st.sampled_from(['box', 'ionized'])))


def vols_of(d):
    v = np.array(d['vols'])
    return v.tolist() if d['form'] == 'list' else v.astype(float) if d['form'] == 'float' else v


def histogram(values, bins, what, edges):
    """Counts per bin of the given edges (right edge of the last bin included); None when a value sits on an inner edge within round-off."""
    values = np.asarray(values, float)
    lo, hi = np.min(values), np.max(values)
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    want = np.linspace(lo, hi, bins + 1)
    close(edges, want, 1e-10, 1e-10, what + ' bin edges')
    if len(want) > 2 and np.min(np.abs(values[:, None] - want[None, 1:-1])) < 1e-9:
        return None
    return np.array([np.sum((values >= a if i == 0 else values > a) & (values <= b if i < bins - 1 else True)) for i, (a, b) in enumerate(zip(want[:-1], want[1:]))]) if bins > 1 else np.array([len(values)])


@law(LAWS, volume_lists(), 500, 15000, large=(10, 10, 60))
def volume_distributions(d, ctx):
    """Volume and radius distributions are the normalised histograms of the list in logarithmic bins; empty bins hold the filler."""
    nt = False
    v = np.array(d['vols'], float)
    bins = d['bins'] or 100
    kw = {}
    if d['bins']:
        kw['bins'] = d['bins']
    if d['res'] != 1.0:
        kw['resolution'] = d['res']
    if d['null'] is not None:
        kw['null_factor'] = d['null']
    V, PV, R, PR = [np.asarray(o, float) for o in call(t2c.dist_from_volumes, vols_of(d), **kw)]
    if len(set(d['vols'])) > 1:
        nt = True
    rad = (3 * v / 4 / np.pi) ** (1 / 3.)
    for x, P, vals, unit, what in ((V, PV, v, d['res']**3, 'volume'), (R, PR, rad, d['res'], 'radius')):
        check(x.shape == P.shape == (bins + 1,), '%s distribution: shapes %s %s', what, x.shape, P.shape)
        cnt = histogram(np.log10(vals), bins, what, np.log10(x / unit))
        if cnt is None:
            ctx.label('edge')
            continue
        frac = cnt / cnt.sum()
        # the entry that belongs to no bin holds the filler
        f0 = frac[frac > 0].min() / 1000. if d['null'] is None else d['null']
        close(P[-1] if what == 'volume' else P[0], f0, 1e-9, 0, what + ' distribution: entry outside the bins')
        # entries are bins; the array has one entry more than there are bins
        sides = [P[:-1], P[1:]]
        used = frac > 0
        check(any(np.allclose(s[used], frac[used], rtol=1e-9, atol=0) for s in sides), '%s distribution: %s, expected the fractions %s', what, P.tolist()[:8], frac.tolist()[:8])
        fill = frac[used].min() / 1000. if d['null'] is None else d['null']
        check(any(np.allclose(s[used], frac[used], rtol=1e-9, atol=0) and np.all(s[~used] <= max(fill, 0) * (1 + 1e-9)) for s in sides),
              '%s distribution: empty bins hold more than the filler', what)
    return nt


@law(LAWS, volume_lists(), 400, 10000, large=(10, 10, 60))
def size_histograms(d, ctx):
    """get_distribution and plot_fof_sizes are histograms of exactly the sizes given."""
    nt = False
    v = np.array(d['vols'], float)
    bins = d['bins'] or 100
    kw = {'bins': d['bins']} if d['bins'] else {}
    if len(set(d['vols'])) > 1:
        nt = True
    s, dist, vol = call(t2c.get_distribution, vols_of(d), resolution=d['res'], sizes=True, **kw)
    close(np.asarray(s, float), v, 1e-12, 0, 'get_distribution sizes')
    cnt = histogram(np.log(v), bins, 'get_distribution', np.log(np.asarray(vol) / d['res']))
    if cnt is not None:
        close(dist, np.append(cnt / cnt.sum(), 0), 1e-9, 0, 'get_distribution fractions')
    x, y, low = call(t2c.plot_fof_sizes, vols_of(d), boxsize=d['box'], normalize=d['norm'], **kw)
    cnt = histogram(np.log10(v), bins, 'plot_fof_sizes', np.log10(np.asarray(x)))
    if cnt is not None:
        z = cnt * np.asarray(x)[:-1]
        z = z / (z.sum() if d['norm'] == 'ionized' else d['box']**3)
        filler = z[z > 0].min() / 10
        z = np.append(np.where(z > 0, z, filler), filler)
        close_each(y, z, 1e-9, 0, 'plot_fof_sizes distribution')
        close(low, filler, 1e-9, 0, 'plot_fof_sizes lowest value')
    return nt


@law(LAWS, fields(), 200, 5000, large=(4, 10, 60))
def label_sizes(d, ctx):
    """get_distribution of a label map counts the cells of each label."""
    nt = False
    data, x, th = make(d)
    lab, n = components(x >= th, 1)
    if not n:
        return False
    if n > 1:
        nt = True
    s, dist, vol = call(t2c.get_distribution, lab.astype(d['form'] if d['form'] in ('f8', 'f4', 'i8') else int), bins=7)
    close(np.asarray(s, float), np.bincount(lab.ravel())[1:].astype(float), 0, 0, 'label sizes')
    close(np.sum(dist), 1.0, 1e-12, 0, 'label size fractions')
    return nt


# ------------------------------------------------------------------ watershed

@st.composite
def separate_balls(draw):
    nd = draw(st.sampled_from([2, 3, 3]))
    slots = draw(st.lists(st.integers(0, 4), min_size=4 if nd == 2 else 8, max_size=4 if nd == 2 else 8))
    if not any(slots):
        slots[0] = 2
    return dict(nd=nd, radii=slots, box=draw(gen.nice_floats(1, 300)), extra=draw(st.integers(0, 3)), upper=draw(st.booleans()),
                level=draw(st.sampled_from([0.5, 0.0, 3.0])))


@law(LAWS, separate_balls(), 120, 1500)
def watershed_of_balls(d, ctx):
    """Separate balls inside the box are one watershed region each, counted at their effective radius."""
    nt = False
    nd, w = d['nd'], 11
    n = 2 * w + d['extra']
    mask = np.zeros((n,) * nd, bool)
    vols = []
    g = np.indices(mask.shape)
    for i, r in enumerate(d['radii']):
        if r:
            c = [w * ((i >> a) & 1) + 5 for a in range(nd)]
            b = sum((g[a] - c[a])**2 for a in range(nd)) <= r * r
            mask |= b
            vols.append(b.sum())
    if len(set(vols)) > 1:
        nt = True
    data = np.where(mask, d['level'] + 1, d['level'] - 1.)
    if d['upper']:
        data = 2 * d['level'] - data
    # smoothing of peaks lower than h does not join separate balls
    kw = {'upper_lim': True} if d['upper'] else {}
    if d['extra']:
        kw['h'] = [0.3, 1.0, 2.5][d['extra'] - 1]
    Rs, rdf, df = [np.asarray(o, float) for o in call(t2c.watershed_bsd, data, xth=d['level'], boxsize=d['box'], verbose=False, **kw)]
    unit = d['box'] / n
    rad = np.cbrt(3 * np.array(vols) / 4 / np.pi)
    k = np.arange(len(Rs))
    close(Rs, k * unit, 1e-12, 0, 'watershed radii')
    cnt = np.array([np.sum((rad >= i - 0.5) & (rad < i + 0.5)) for i in k])
    check(len(Rs) > max(np.floor(rad.max() + 0.5), 0), 'watershed: the largest radius %g has no bin', rad.max())
    close(df, cnt / len(rad), 1e-12, 0, 'watershed size fractions')
    close(rdf, k * cnt / len(rad), 1e-12, 1e-15, 'watershed R dF/dR')
    return nt
