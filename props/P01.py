"""P01 power spectrum definition and radial average."""
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from vlib import gen, kspace as ks
from vlib.engine import law, call
from vlib.ref import close, check, same

TITLE = 'Power spectra of a field are its normalised squared Fourier amplitudes'
RULE = ('fields of 1-3 dimensions (2..12 cells a side, unequal and odd/even, 8 kinds of content, 4 amplitudes), '
        'boxes in every documented form; non-trivial: the field is not constant and, for binned laws, at least one '
        'bin holds modes that are certainly inside it')
ASSUMPTIONS = ['modes within 1e-9 (relative) of a bin edge may fall on either side',
               'in one dimension the binned wavenumber keeps its sign (only non-negative edges are meaningful)']
LAWS = []
BOXFORM = st.sampled_from(['float', 'list', 'tuple', 'array', 'kw_float', 'kw_list', 'default', 'int'])


@st.composite
def field_box(draw, dims=(1, 2, 3), hi={1: 24, 2: 12, 3: 9}, lo=2):
    d = draw(st.sampled_from(dims))
    f = draw(gen.fields(gen.shape(d, lo, hi[d])))
    form = draw(BOXFORM)
    if form in ('float', 'kw_float', 'default'):
        L = [draw(gen.nice_floats(5, 900))] * d
    elif form == 'int':
        L = [draw(st.integers(5, 900))] * d
    else:
        L = draw(gen.box_lengths(d, 5, 900))
    dtype = draw(st.sampled_from(['float64', 'float64', 'float32', 'int64']))
    return dict(f=f, form=form, L=L, dtype=dtype)


def arr(f, dtype='float64'):
    a = gen.build(f)
    return np.rint(a).astype('int64') if dtype == 'int64' else a.astype(dtype)


def box_kw(form, L):
    if form == 'default':
        t2c.conv.LB = L[0]
        return {}
    v = {'float': lambda: float(L[0]), 'int': lambda: int(L[0]), 'list': lambda: list(L), 'tuple': lambda: tuple(L),
         'array': lambda: np.array(L), 'kw_float': lambda: float(L[0]), 'kw_list': lambda: list(L)}[form]()
    return {'boxsize': v} if form.startswith('kw') else {'box_dims': v}


def label(ctx, c):
    sh = c['f']['shape']
    ctx.label('dim%d' % len(sh))
    ctx.label('odd' if all(n % 2 for n in sh) else ('even' if not any(n % 2 for n in sh) else 'mixed parity'))
    ctx.label('box:' + c['form'])


@law(LAWS, field_box(), 1500, 12000, large=(5, 16, 100))
def nd_definition(c, ctx):
    label(ctx, c)
    a = arr(c['f'], c['dtype'])
    x = a.astype(float)
    kw = box_kw(c['form'], c['L'])
    P = call(t2c.power_spectrum_nd, a, **kw)
    ref = ks.ps_nd(x, c['L'])
    s = np.sum(x**2) * np.prod(c['L']) / 1.0
    scale = max(ref.max(), 1e-300)
    close(P, ref, rtol=1e-9, scale=scale, what='P(k)')
    close(P.sum(), np.mean(x**2) * np.prod(c['L']), rtol=1e-9, what='sum of P vs V<x^2>')
    check(np.all(P >= 0), 'negative power')
    return np.ptp(x) > 0


@law(LAWS, st.tuples(field_box(), st.lists(st.integers(-30, 30), min_size=3, max_size=3),
                     st.sampled_from([-1.0, 2.0, -0.5, 10.0])), 600, 5000, large=(5, 10, 100))
def nd_invariance(t, ctx):
    c, sh, lam = t
    label(ctx, c)
    x = arr(c['f'])
    kw = box_kw(c['form'], c['L'])
    P = call(t2c.power_spectrum_nd, x.copy(), **kw)
    d = x.ndim
    scale = max(P.max(), 1e-300)
    close(call(t2c.power_spectrum_nd, np.roll(x, sh[:d], tuple(range(d))), **kw), P, rtol=1e-9, scale=scale, what='P of shifted field')
    close(call(t2c.power_spectrum_nd, lam * x, **kw), lam**2 * P, rtol=1e-9, scale=lam**2 * scale, what='P of scaled field')
    if d > 1 and c['form'] in ('list', 'tuple', 'array', 'kw_list'):
        p = [(i + 1) % d for i in range(d)]
        kw2 = box_kw(c['form'], [c['L'][i] for i in p])
        close(call(t2c.power_spectrum_nd, np.ascontiguousarray(x.transpose(p)), **kw2), P.transpose(p), rtol=1e-9, scale=scale,
              what='P of permuted field')
    return np.ptp(x) > 0


@law(LAWS, st.tuples(field_box(), gen.seeds(), st.sampled_from(gen.KINDS), gen.nice_floats(-3, 3)), 900, 7000, large=(5, 16, 100))
def cross_nd(t, ctx):
    c, sd, kind, lam = t
    label(ctx, c)
    x = arr(c['f'], c['dtype'])
    xf = x.astype(float)
    y = gen.build(dict(shape=list(x.shape), kind=kind, seed=sd, amp=2.0))
    kw = box_kw(c['form'], c['L'])
    if c['form'] in ('kw_float', 'kw_list'):
        kw['box_dims'] = None
    elif c['form'] == 'default':
        kw['box_dims'] = None
    X = call(t2c.cross_power_spectrum_nd, x, y, **kw)
    ref = ks.ps_nd(xf, c['L'], y)
    scale = max(np.sqrt(ks.ps_nd(xf, c['L']).max() * ks.ps_nd(y, c['L']).max()), 1e-300)
    close(X, ref, rtol=1e-9, scale=scale, what='cross spectrum')
    close(call(t2c.cross_power_spectrum_nd, y, x, **kw), X, rtol=1e-9, scale=scale, what='swapped cross spectrum')
    A = call(t2c.cross_power_spectrum_nd, x, x, **kw)
    P = call(t2c.power_spectrum_nd, x, **{k: v for k, v in kw.items()})
    close(A, P, rtol=1e-9, scale=max(P.max(), 1e-300), what='cross spectrum of a field with itself')
    Z = call(t2c.cross_power_spectrum_nd, xf + lam * y, y, **kw)
    Y = call(t2c.cross_power_spectrum_nd, y, y, **kw)
    close(Z, X + lam * Y, rtol=1e-8, scale=scale + abs(lam) * max(Y.max(), 0), what='bilinearity')
    return np.ptp(xf) > 0 and np.ptp(y) > 0


@st.composite
def binned(draw, dims=(1, 2, 3)):
    c = draw(field_box(dims=dims, lo=3))
    mode = draw(st.sampled_from(['int', 'int', 'edges', 'list']))
    if mode == 'int':
        c['kbins'] = draw(st.integers(1, 12))
        c['binning'] = draw(st.sampled_from(['log', 'linear', 'mixed']))
        c['breakpoint'] = draw(st.sampled_from([0.1, 0.05, 0.4]))
    else:
        fr = draw(st.lists(st.integers(0, 1100), min_size=2, max_size=9, unique=True))
        c['kbins'] = sorted(float(x) / 1000.0 for x in fr)
        c['binning'] = draw(st.sampled_from(['log', 'linear']))
        c['breakpoint'] = 0.1
    c['mode'] = mode
    return c


def resolve_edges(c, k):
    if c['mode'] == 'int':
        e = ks.int_edges(c['kbins'], k, c['L'], c['binning'], c['breakpoint'])
        return e, c['kbins']
    e = np.array(c['kbins']) * k.max()
    return e, (e.copy() if c['mode'] == 'edges' else [float(v) for v in e])


def check_radial(out, P, c, ctx, edges, k, what, scale=None):
    if len(edges) < 2 or np.any(np.diff(edges) <= 0):
        return None
    ps, kc, n = out
    nb = len(edges) - 1
    check(len(ps) == nb and len(kc) == nb and len(n) == nb, '%s: %d bins returned, expected %d', what, len(ps), nb)
    close(kc, 0.5 * (edges[1:] + edges[:-1]), rtol=1e-9, what='bin centres')
    scale = scale or max(np.abs(P).max(), 1e-300)
    tot = 0
    for i, (sure, maybe) in enumerate(ks.radial_sets(k, edges)):
        tot += ks.compare_bins(ps[i], n[i], P, sure, maybe, '%s bin %d of %d' % (what, i, nb), scale)
    # no mode between the outer edges is lost or counted twice
    el, eh = edges[0], edges[-1]
    inside = np.sum((k > el * (1 + 1e-9) + 1e-30) & (k < eh * (1 - 1e-9)))
    touch = np.sum((np.abs(k - el) <= 1e-9 * abs(el) + 1e-30) | (np.abs(k - eh) <= 1e-9 * abs(eh) + 1e-30))
    check(inside <= np.sum(n) <= inside + touch, '%s: %s modes counted in all bins, %d inside the range', what, np.sum(n), inside)
    ctx.label('bins:' + c['mode'] + ('/' + c['binning'] if c['mode'] == 'int' else ''))
    return tot > 0


def bad_edges(c, k):
    e, _ = resolve_edges(c, k)
    return len(e) < 2 or np.any(np.diff(e) <= 0)


@law(LAWS, binned(), 1600, 12000, large=(5, 16, 100))
def radial(c, ctx):
    label(ctx, c)
    x = arr(c['f'], c['dtype'])
    _, k = ks.kgrid(x.shape, c['L'])
    edges, kb = resolve_edges(c, k)
    if bad_edges(c, k):
        return False
    kw = box_kw(c['form'], c['L'])
    P = ks.ps_nd(x.astype(float), c['L'])
    out = call(t2c.power_spectrum_1d, x, kbins=kb, binning=c['binning'], breakpoint=c['breakpoint'], return_n_modes=True, **kw)
    r = check_radial(out, P, c, ctx, edges, k, 'P(k)')
    two = call(t2c.power_spectrum_1d, x, kbins=kb, binning=c['binning'], breakpoint=c['breakpoint'], **kw)
    check(len(two) == 2, 'without mode counts a pair is expected')
    same(two[0], out[0], 'P(k) with and without mode counts')
    same(two[1], out[1], 'k with and without mode counts')
    return r and np.ptp(x) > 0


@law(LAWS, st.tuples(binned(), gen.seeds(), st.sampled_from(gen.KINDS)), 800, 6000, large=(5, 16, 100))
def radial_cross(t, ctx):
    c, sd, kind = t
    label(ctx, c)
    x = arr(c['f'], c['dtype'])
    y = gen.build(dict(shape=list(x.shape), kind=kind, seed=sd, amp=0.7))
    _, k = ks.kgrid(x.shape, c['L'])
    if bad_edges(c, k):
        return False
    edges, kb = resolve_edges(c, k)
    kw = box_kw(c['form'], c['L'])
    P = ks.ps_nd(x.astype(float), c['L'], y)
    out = call(t2c.cross_power_spectrum_1d, x, y, kbins=kb, binning=c['binning'], breakpoint=c['breakpoint'], return_n_modes=True, **kw)
    r = check_radial(out, P, c, ctx, edges, k, 'cross P(k)',
                     max(1e-300, np.sqrt(ks.ps_nd(x.astype(float), c['L']).max() * ks.ps_nd(y, c['L']).max())))
    two = call(t2c.cross_power_spectrum_1d, x, y, kbins=kb, binning=c['binning'], breakpoint=c['breakpoint'], **kw)
    check(len(two) == 2, 'without mode counts a pair is expected')
    same(two[0], out[0], 'cross P(k) with and without mode counts')
    return r and np.ptp(x) > 0 and np.ptp(y) > 0


@law(LAWS, binned(dims=(2, 3)), 400, 3000, large=(5, 10, 100))
def radial_any_data(c, ctx):
    """radial_average itself, for arbitrary data on the mode grid."""
    label(ctx, c)
    d = arr(c['f'])
    _, k = ks.kgrid(d.shape, c['L'])
    if bad_edges(c, k):
        return False
    edges, kb = resolve_edges(c, k)
    kw = box_kw(c['form'], c['L'])
    if c['form'] in ('kw_float', 'kw_list', 'default'):
        kw['box_dims'] = None
    out = call(t2c.radial_average, d, kbins=kb, binning=c['binning'], breakpoint=c['breakpoint'], **kw)
    return check_radial(out, d, c, ctx, edges, k, 'radial average') and np.ptp(d) > 0


@law(LAWS, st.tuples(binned(dims=(3,)), st.sampled_from(['blackmanharris', 'tukey', 'BlackmanHarris', 'array', 'none']), gen.seeds()), 400, 3000, large=(4, 6, 40))
def tapered(t, ctx):
    c, win, sd = t
    label(ctx, c)
    ctx.label('window:' + win)
    x = arr(c['f'], c['dtype'])
    n = x.shape[-1]
    if win == 'array':
        w = np.random.default_rng(sd).uniform(0, 1, x.shape)
        arg = w.copy()
    elif win == 'none':
        w, arg = 1.0, None
    elif win == 'tukey':
        # alpha 0.5: cosine lobes over a quarter of the interval at either end
        i = np.arange(n)
        r = 2.0 * i / (n - 1)
        al = 0.5
        w = np.ones(n)
        lo, hi = r < al, r > 2 - al
        w[lo] = 0.5 * (1 + np.cos(np.pi * (r[lo] / al - 1)))
        w[hi] = 0.5 * (1 + np.cos(np.pi * ((r[hi] - 2) / al + 1)))
        arg = win
    else:
        i = np.arange(n) * 2 * np.pi / (n - 1)
        w = 0.35875 - 0.48829 * np.cos(i) + 0.14128 * np.cos(2 * i) - 0.01168 * np.cos(3 * i)
        arg = win
    _, k = ks.kgrid(x.shape, c['L'])
    if bad_edges(c, k):
        return False
    edges, kb = resolve_edges(c, k)
    kw = box_kw(c['form'], c['L'])
    P = ks.ps_nd(x.astype(float) * w, c['L'])
    out = call(t2c.power_spectrum_1d, x, kbins=kb, binning=c['binning'], breakpoint=c['breakpoint'], return_n_modes=True, window=arg, **kw)
    return check_radial(out, P, c, ctx, edges, k, 'tapered P(k)') and np.ptp(x) > 0


@law(LAWS, binned(), 300, 2000, large=(4, 6, 40))
def mode_grid(c, ctx):
    """The public wavenumber helpers."""
    label(ctx, c)
    x = arr(c['f'])
    kw = box_kw(c['form'], c['L'])
    bd = kw.get('box_dims', kw.get('boxsize'))
    comps, k = call(t2c.get_k, x, bd)
    g, kr = ks.kgrid(x.shape, c['L'])
    check(len(comps) == x.ndim, 'number of wavenumber components')
    for i in range(x.ndim):
        close(comps[i], g[i], rtol=1e-12, what='component %d of k' % i)
    close(k, kr, rtol=1e-12, what='|k|')
    if c['mode'] == 'int' and not bad_edges(c, kr):
        e = call(t2c.get_kbins, c['kbins'], bd, array=x, binning=c['binning'])
        er = ks.int_edges(c['kbins'], kr, c['L'], c['binning'], 0.1)
        close(e, er, rtol=1e-9, what='bin edges')
        e2 = call(t2c.get_kbins, c['kbins'], bd, k=kr, binning=c['binning'])
        close(e2, er, rtol=1e-9, what='bin edges from k')
    return True


@law(LAWS, st.tuples(gen.fields(gen.shape(3, 5, 9), kinds=('normal', 'uniform', 'lognormal', 'ints')), gen.nice_floats(5, 500),
                     st.integers(3, 6), st.integers(1, 2), st.sampled_from(['linear', 'log'])), 150, 1000, large=(4, 6, 40))
def dimensionless(t, ctx):
    f, L, kb, fac, binning = t
    x = arr(f)
    D, k = call(t2c.dimensionless_ps, x, kbins=kb, box_dims=L, binning=binning, factor=fac)
    _, kk = ks.kgrid(x.shape, [L] * 3)
    Pk, kc, n = call(t2c.power_spectrum_1d, x, kbins=kb * fac, box_dims=L, binning=binning, return_n_modes=True)
    y = Pk * kc**3 / (2 * np.pi**2)
    want_k = np.exp(np.linspace(np.log(kc[1]), np.log(kc[-1]), kb)) if binning == 'log' else np.linspace(kc[1], kc[-1], kb)
    close(k, want_k, rtol=1e-9, what='wavenumbers')
    check(len(D) == kb, 'number of values')
    nt = 0
    for i in range(kb):
        j = int(np.clip(np.searchsorted(kc, want_k[i]), 1, len(kc) - 1))
        w = (want_k[i] - kc[j - 1]) / (kc[j] - kc[j - 1])
        near = min(abs(w), abs(1 - w)) < 1e-6
        if near:
            continue
        v = y[j - 1] * (1 - w) + y[j] * w
        if np.isnan(v):
            continue
        close(D[i], v, rtol=1e-7, scale=np.nanmax(np.abs(y)), what='dimensionless spectrum at point %d' % i)
        nt += 1
    return nt > 0
