"""P02 anisotropic power spectra."""
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from vlib import gen, kspace as ks
from vlib.engine import law, call
from vlib.ref import close, check, same
from props.P01 import arr, box_kw, BOXFORM

TITLE = 'Anisotropic power spectra average exactly the modes of each angular bin'
RULE = ('3D fields (3..9 cells a side, unequal and odd/even), unequal boxes, all three line-of-sight axes, integer, '
        'list and edge binnings; non-trivial: the field is not constant and at least one cell certainly holds a mode')
ASSUMPTIONS = ['modes within 1e-9 (relative) of a bin edge may fall on either side, but in one bin only',
               'user-given bins for Legendre multipoles do not contain k=0, where mu is undefined',
               'the tabulated roots of the fourth Legendre polynomial in the code have six digits: P4 is compared to 1e-5']
LAWS = []


@st.composite
def field_box(draw, lo=3, hi=8):
    f = draw(gen.fields(gen.shape(3, lo, hi)))
    form = draw(BOXFORM)
    big = draw(st.sampled_from([900, 900, 900, 20000]))
    if form in ('float', 'kw_float', 'default', 'int'):
        L = [draw(gen.nice_floats(5, big))] * 3
        if form == 'int':
            L = [int(L[0]) + 1] * 3
    else:
        L = draw(gen.box_lengths(3, 5, big))
    return dict(f=f, form=form, L=L, los=draw(st.integers(0, 2)), cross=draw(st.sampled_from([None, None, 1, 2, 3])),
                dtype=draw(st.sampled_from(['float64', 'float64', 'float32', 'int64'])))


def fracs(lo, hi):
    return st.lists(st.integers(lo, hi), min_size=2, max_size=6, unique=True).map(lambda v: [x / 1000. for x in sorted(v)])


def label(ctx, c):
    sh = c['f']['shape']
    ctx.label('los%d' % c['los'])
    ctx.label('odd' if all(n % 2 for n in sh) else ('even' if not any(n % 2 for n in sh) else 'mixed parity'))
    ctx.label('box:' + c['form'])
    if c['L'][0] > 6000:
        ctx.label('huge box')
    if c.get('cross'):
        ctx.label('cross')


def second(c):
    return gen.build(dict(shape=c['f']['shape'], kind='normal', seed=c['cross'], amp=0.7)) if c['cross'] else None


def slack(e, log):
    """The two-dimensional binning puts values just above the last edge (within a rounding set by the narrowest bin) in the last bin."""
    t = np.log10(e) if log else e
    step = 1.01 * 10.**-(int(-np.log10(np.diff(t).min())) + 6)
    return e[-1] * (10**step - 1) if log else step


def cells(x, xe, y, ye, good, rel=1e-9, exact=(), over=(0., 0.)):
    """{(i,j): (sure, maybe)} and the number of good modes certainly/possibly inside the outer edges."""
    def side(v, e, over):
        lo, hi = e[:-1, None], e[1:, None]
        tl = rel * np.maximum(np.abs(lo), 1e-3 * np.max(np.abs(e)))
        th = rel * np.maximum(np.abs(hi), 1e-3 * np.max(np.abs(e)))
        v = v[None, :]
        sure = (v > lo + tl) & (v < hi - th)
        edge = (np.abs(v - lo) <= tl) | (np.abs(v - hi) <= th)
        edge[-1] |= (v[0] >= e[-1]) & (v[0] <= e[-1] + over)
        return sure, edge
    xs, xm = side(x, xe, over[0])
    for v in exact:
        # values the definition gives exactly: the lower edge of a cell belongs to it, the upper one only in the last cell
        at = x == v
        for i in range(len(xe) - 1):
            inside = xe[i] <= v < xe[i + 1] or (i == len(xe) - 2 and v == xe[i + 1])
            if xe[i] == v or xe[i + 1] == v or xe[i] < v < xe[i + 1]:
                xs[i][at], xm[i][at] = inside, False
    ys, ym = side(y, ye, over[1])
    out = {}
    for i in range(len(xe) - 1):
        for j in range(len(ye) - 1):
            s = xs[i] & ys[j] & good
            m = (xs[i] | xm[i]) & (ys[j] | ym[j]) & good & ~s
            out[i, j] = (s, m)

    def rng(v, e, over):
        tl = rel * max(abs(e[0]), 1e-3 * np.max(np.abs(e)))
        th = max(over, rel * max(abs(e[-1]), 1e-3 * np.max(np.abs(e))))
        return (v > e[0] + tl) & (v < e[-1] - rel * max(abs(e[-1]), 1e-3 * np.max(np.abs(e)))), (v > e[0] - tl) & (v < e[-1] + th)
    a, b = rng(x, xe, over[0])
    p, q = rng(y, ye, over[1])
    return out, int((a & p & good).sum()), int((b & q & good).sum())


def compare(P, n, ref, x, xe, y, ye, good, what, scale, exact=(), over=(0., 0.)):
    nx, ny = len(xe) - 1, len(ye) - 1
    check(np.shape(P) == (nx, ny), '%s: shape %s, expected %s', what, np.shape(P), (nx, ny))
    check(np.shape(n) == (nx, ny), '%s: shape of mode counts %s, expected %s', what, np.shape(n), (nx, ny))
    cs, lo, hi = cells(x, xe, y, ye, good, exact=exact, over=over)
    tot = 0
    for (i, j), (s, m) in cs.items():
        tot += ks.compare_bins(P[i, j], n[i, j], ref, s, m, '%s cell (%d,%d)' % (what, i, j), scale)
    check(lo <= np.sum(n) <= hi, '%s: %s modes in all cells, %d to %d lie inside the outer edges', what, np.sum(n), lo, hi)
    return tot > 0


@st.composite
def case2d(draw):
    c = draw(field_box())
    c['cross'] = None
    mode = draw(st.sampled_from(['int', 'pair', 'edges', 'edge_lists']))
    c['mode'] = mode
    c['binning'] = draw(st.sampled_from(['log', 'linear', 'mixed']))
    c['bp'] = draw(st.sampled_from([0.1, 0.3]))
    if mode == 'int':
        c['n'] = [draw(st.integers(1, 8))] * 2
    elif mode == 'pair':
        c['n'] = [draw(st.integers(1, 8)), draw(st.integers(1, 8))]
    else:
        c['e'] = [draw(fracs(0, 1100)), draw(fracs(0, 1100))]
    c['window'] = draw(st.sampled_from([None, None, None, 'blackmanharris', 'array']))
    return c


@law(LAWS, case2d(), 1500, 12000, large=(5, 16, 100))
def cylindrical(c, ctx):
    label(ctx, c)
    ctx.label('bins:' + c['mode'] + '/' + c['binning'])
    a = arr(c['f'], c['dtype'])
    x = a.astype(float)
    g, k = ks.kgrid(x.shape, c['L'])
    ax = [0, 1, 2]
    ax.remove(c['los'])
    kz = np.abs(g[c['los']]).ravel()
    kp = np.sqrt(g[ax[0]]**2 + g[ax[1]]**2).ravel()
    kw = box_kw(c['form'], c['L'])
    if c['form'] == 'default':      # this function documents its own default; None means the current box
        kw['box_dims'] = None
    if c['window'] == 'array':
        w = np.random.default_rng(c['f']['seed']).uniform(0, 1, x.shape)
        kw['window'] = w
        x = x * w
    elif c['window']:
        n = x.shape[-1]
        i = np.arange(n) * 2 * np.pi / (n - 1)
        w = 0.35875 - 0.48829 * np.cos(i) + 0.14128 * np.cos(2 * i) - 0.01168 * np.cos(3 * i)
        kw['window'] = c['window']
        x = x * w
    ref = ks.ps_nd(x, c['L']).ravel()
    if c['mode'] in ('int', 'pair'):
        edges, mids = [], []
        for v, n in ((kp, c['n'][0]), (kz, c['n'][1])):
            lo, hi = v[v > 0].min(), v.max()
            if c['binning'] == 'mixed':
                e = ks.int_edges(n, v, c['L'], 'mixed', c['bp'], kmin=lo)
            elif c['binning'] == 'linear':
                e = np.linspace(lo, hi, n + 1)
            else:
                e = np.exp(np.linspace(np.log(lo), np.log(hi), n + 1))
            edges.append(e)
            mids.append(np.sqrt(e[1:] * e[:-1]) if c['binning'] == 'log' else 0.5 * (e[1:] + e[:-1]))
        arg = c['n'][0] if c['mode'] == 'int' else list(c['n'])
    else:
        edges = [np.array(c['e'][0]) * kp.max(), np.array(c['e'][1]) * kz.max()]
        mids = [0.5 * (e[1:] + e[:-1]) for e in edges]
        arg = [e.copy() for e in edges] if c['mode'] == 'edges' else [list(map(float, e)) for e in edges]
    if any(len(e) < 2 or np.any(np.diff(e) <= 1e-12 * e[-1]) for e in edges):
        return False
    if c['mode'] == 'int' or c['mode'] == 'pair':
        kw['breakpoint'] = c['bp']
    P, m0, m1, n = call(t2c.power_spectrum_2d, a, kbins=arg, nu_axis=c['los'], binning=c['binning'], return_modes=True, **kw)
    close(m0, mids[0], rtol=1e-9, what='k_perp bin centres')
    close(m1, mids[1], rtol=1e-9, what='k_par bin centres')
    good = np.ones(kp.size, bool)
    r = compare(P, n, ref, kp, edges[0], kz, edges[1], good, 'P(k_perp,k_par)', max(ref.max(), 1e-300),
                over=[slack(e, c['binning'] == 'log' and c['mode'] in ('int', 'pair')) for e in edges])
    three = call(t2c.power_spectrum_2d, a, kbins=arg, nu_axis=c['los'], binning=c['binning'], **kw)
    check(len(three) == 3, 'three values expected without mode counts')
    same(three[0], P, 'P with and without mode counts')
    return r and np.ptp(x) > 0


@st.composite
def casemu(draw):
    c = draw(field_box())
    c['kmode'] = draw(st.sampled_from(['int', 'edges', 'list']))
    c['kn'] = draw(st.integers(1, 6))
    c['ke'] = draw(fracs(0, 1100))
    c['abs'] = draw(st.booleans())
    c['mumode'] = draw(st.sampled_from(['int', 'int', 'edges', 'list']))
    c['mun'] = draw(st.integers(1, 7))
    c['mue'] = draw(fracs(0, 1000) if c['abs'] else fracs(-1000, 1000))
    c['exclude'] = draw(st.booleans())
    c['weights'] = draw(st.sampled_from([None, None, 5, 6]))
    return c


def mu_setup(c):
    a = arr(c['f'], c['dtype'])
    x = a.astype(float)
    g, k = ks.kgrid(x.shape, c['L'])
    with np.errstate(all='ignore'):
        mu = g[c['los']] / k
    mu = (np.abs(mu) if c['abs'] else mu)
    mu = np.where(k == 0, -99., mu)
    if c['kmode'] == 'int':
        ke = ks.int_edges(c['kn'], k, c['L'], 'log')
        karg = c['kn']
    else:
        ke = np.array(c['ke']) * k.max()
        karg = ke.copy() if c['kmode'] == 'edges' else [float(v) for v in ke]
    if c['mumode'] == 'int':
        me = np.linspace(0 if c['abs'] else -1, 1, c['mun'] + 1)
        marg = c['mun']
    else:
        me = np.array(c['mue'])
        marg = me.copy() if c['mumode'] == 'edges' else list(c['mue'])
    ax = [0, 1, 2]
    ax.remove(c['los'])
    good = k > 0
    if c['exclude']:
        good &= (g[ax[0]] != 0) | (g[ax[1]] != 0)
    return a, x, k, mu, ke, karg, me, marg, good


@law(LAWS, casemu(), 2000, 16000, large=(5, 16, 100))
def mu_bins(c, ctx):
    label(ctx, c)
    ctx.label('mu:%s abs:%s excl:%s' % (c['mumode'], c['abs'], c['exclude']))
    a, x, k, mu, ke, karg, me, marg, good = mu_setup(c)
    if np.any(np.diff(ke) <= 1e-12 * ke[-1]) or np.any(np.diff(me) <= 0):
        return False
    y = second(c)
    ref = ks.ps_nd(x, c['L'], y)
    scale = max(np.sqrt(ks.ps_nd(x, c['L']).max() * (ks.ps_nd(y, c['L']).max() if c['cross'] else ks.ps_nd(x, c['L']).max())), 1e-300)
    kw = box_kw(c['form'], c['L'])
    w = None
    if c['weights']:
        w = np.random.default_rng(c['weights']).uniform(0.5, 2, x.shape)
        kw['weights'] = w.copy()
    args = (a,) if y is None else (a, y)
    fn = t2c.power_spectrum_mu if y is None else t2c.cross_power_spectrum_mu
    out = call(fn, *args, los_axis=c['los'], mubins=marg, kbins=karg, exclude_zero_modes=c['exclude'],
               return_n_modes=True, absolute_mus=c['abs'], **kw)
    P, mm, kk, n = out
    close(mm, 0.5 * (me[1:] + me[:-1]), rtol=1e-9, what='mu bin centres', scale=1.0)
    close(kk, 0.5 * (ke[1:] + ke[:-1]), rtol=1e-9, what='k bin centres')
    if w is None:
        r = compare(P, n, ref.ravel(), mu.ravel(), me, k.ravel(), ke, good.ravel(), 'P(mu,k)', scale, exact=(-1., 0., 1.))
    else:
        # weighted mean: check cells without edge modes
        cs, lo, hi = cells(mu.ravel(), me, k.ravel(), ke, good.ravel(), exact=(-1., 0., 1.))
        r = False
        for (i, j), (s, m) in cs.items():
            if m.any() or not s.any():
                continue
            r = True
            ww = w.ravel()[s]
            close(P[i, j], np.sum(ref.ravel()[s] * ww) / np.sum(ww), rtol=1e-9, scale=scale, what='weighted P(mu,k) cell (%d,%d)' % (i, j))
            check(n[i, j] == s.sum(), 'weighted: mode count')
        same(kw['weights'], w, 'weights after the call')
    three = call(fn, *args, los_axis=c['los'], mubins=marg, kbins=karg, exclude_zero_modes=c['exclude'],
                 absolute_mus=c['abs'], **kw)
    check(len(three) == 3, 'three values expected without mode counts')
    same(three[0], P, 'P with and without mode counts')
    return r and np.ptp(x) > 0


@law(LAWS, st.tuples(casemu(), gen.nice_floats(-0.4, 0.95)), 600, 5000, large=(4, 6, 40))
def anisotropy_ratio(t, ctx):
    c, cut = t
    label(ctx, c)
    c = dict(c, cross=None)
    a, x, k, mu, ke, karg, me, marg, good = mu_setup(c)
    if np.any(np.diff(ke) <= 1e-12 * ke[-1]) or np.any(np.diff(me) <= 0):
        return False
    kw = box_kw(c['form'], c['L'])
    opt = dict(los_axis=c['los'], mubins=marg, kbins=karg, exclude_zero_modes=c['exclude'], absolute_mus=c['abs'])
    P, mm, kk, n = call(t2c.power_spectrum_mu, a, return_n_modes=True, **opt, **kw)
    if np.any(np.abs(mm - cut) < 1e-9):
        return False
    if not (mm >= cut).any() or not (mm < cut).any():
        return False
    r, k2, nm = call(t2c.anisotropy_ratio_r_mu, a, mu_cut=cut, return_n_modes=True, **opt, **kw)
    same(k2, kk, 'k bins')
    check(len(r) == len(kk), 'length of the ratio')
    same(nm, n.sum(axis=0), 'number of modes per k')
    nt = False
    for j in range(len(kk)):
        up, dn = P[mm >= cut, j], P[mm < cut, j]
        up, dn = up[np.isfinite(up)], dn[np.isfinite(dn)]
        if not up.size or not dn.size or dn.mean() <= 1e-12 * np.nanmax(np.abs(P)):
            continue
        nt = True
        close(r[j], up.mean() / dn.mean() - 1, rtol=1e-9, atol=1e-9, what='ratio at k %d' % j)
    two = call(t2c.anisotropy_ratio_r_mu, a, mu_cut=cut, **opt, **kw)
    check(len(two) == 2, 'two values without mode counts')
    same(two[0], r, 'ratio with and without mode counts')
    return nt


@st.composite
def casemp(draw):
    c = draw(field_box())
    c['cross'] = None
    if c['form'].startswith('kw'):
        c['form'] = 'list'
    c['kmode'] = draw(st.sampled_from(['int', 'edges', 'list']))
    c['kn'] = draw(st.integers(1, 6))
    c['ke'] = draw(fracs(20, 1100))
    c['exclude'] = draw(st.booleans())
    c['output'] = draw(st.sampled_from([None, None, ['P2'], ['P0', 'P4'], ['P4', 'nmodes']]))
    c['abs'] = True
    c['mumode'], c['mun'] = 'int', 1
    return c


@law(LAWS, casemp(), 900, 7000, large=(5, 12, 80))
def multipoles(c, ctx):
    label(ctx, c)
    a, x, k, mu, ke, karg, me, marg, good = mu_setup(c)
    if np.any(np.diff(ke) <= 1e-12 * ke[-1]):
        return False
    kw = box_kw(c['form'], c['L'])
    if c['output']:
        kw['output'] = list(c['output'])
    out, kk = call(t2c.power_spectrum_multipoles, a, kbins=karg, los_axis=c['los'], exclude_zero_modes=c['exclude'], **kw)
    close(kk, 0.5 * (ke[1:] + ke[:-1]), rtol=1e-9, what='k bin centres')
    want = c['output'] or ['P0', 'P2', 'P4', 'nmodes']
    for w in want:
        check(w in out and len(out[w]) == len(kk), 'output %s missing or of the wrong length', w)
    ref = ks.ps_nd(x, c['L'])
    scale = max(ref.max(), 1e-300)
    L = {'P0': np.ones_like(mu), 'P2': 0.5 * (3 * mu**2 - 1), 'P4': (35 * mu**4 - 30 * mu**2 + 3) / 8.}
    nt = False
    for i, (s, m) in enumerate(ks.radial_sets(k, ke)):
        s = s & good
        m = m & good
        if m.any() or not s.any():
            continue
        nt = True
        if 'nmodes' in want:
            check(out['nmodes'][i] == s.sum(), 'bin %d: %s modes, expected %d', i, out['nmodes'][i], s.sum())
        for key in ('P0', 'P2', 'P4'):
            if key in want:
                d = np.sum(L[key][s]**2)
                if d < 1e-3 * s.sum():
                    continue
                close(out[key][i], np.sum(ref[s] * L[key][s]) / d, rtol=1e-4 if key == 'P4' else 1e-9, scale=scale * max(1, np.abs(L[key][s]).sum() / d), what='%s of bin %d' % (key, i))
    return nt and np.ptp(x) > 0


@law(LAWS, st.tuples(casemu(), st.permutations([0, 1, 2])), 500, 4000, large=(4, 6, 40))
def axis_roles(t, ctx):
    """Permuting field, box and line of sight together changes nothing."""
    c, p = t
    label(ctx, c)
    c = dict(c, cross=None)
    if c['form'] not in ('list', 'tuple', 'array'):
        c['form'] = 'list'
    a, x, k, mu, ke, karg, me, marg, good = mu_setup(c)
    if np.any(np.diff(ke) <= 1e-12 * ke[-1]) or np.any(np.diff(me) <= 0):
        return False
    L2 = [c['L'][i] for i in p]
    a2 = np.ascontiguousarray(a.transpose(p))
    los2 = list(p).index(c['los'])
    # bins away from mode positions, so that rounding cannot move a mode
    def off(v, e):
        return np.min(np.abs(v.ravel()[:, None] - e[None, :])) > 1e-7 * np.max(np.abs(e))
    ke = np.linspace(0.0137, 1.0193, 5) * k.max()
    g, _ = ks.kgrid(x.shape, c['L'])
    kz = np.abs(g[c['los']])
    kp = np.sqrt(np.maximum(k**2 - g[c['los']]**2, 0))
    e2 = [np.linspace(-0.01, 1.0313, 4) * kp.max(), np.linspace(-0.01, 1.0177, 4) * kz.max()]
    me = np.linspace(-1.0001, 1.0002, 6)
    if not (off(k, ke) and off(mu, me) and off(kp, e2[0]) and off(kz, e2[1])):
        return False
    s = max(ks.ps_nd(x, c['L']).max(), 1e-300)
    kw = dict(kbins=ke, mubins=me, exclude_zero_modes=c['exclude'], absolute_mus=c['abs'], return_n_modes=True)
    A = call(t2c.power_spectrum_mu, a, los_axis=c['los'], box_dims=box_kw(c['form'], c['L'])['box_dims'], **kw)
    B = call(t2c.power_spectrum_mu, a2, los_axis=los2, box_dims=box_kw(c['form'], L2)['box_dims'], **kw)
    same(A[3], B[3], 'mode counts after permuting axes')
    close(A[0], B[0], rtol=1e-9, scale=s, what='P(mu,k) after permuting axes')
    A = call(t2c.power_spectrum_2d, a, kbins=e2, nu_axis=c['los'], box_dims=c['L'], return_modes=True)
    B = call(t2c.power_spectrum_2d, a2, kbins=e2, nu_axis=los2, box_dims=L2, return_modes=True)
    same(A[3], B[3], '2D mode counts after permuting axes')
    check(A[3].sum() == x.size, '2D spectrum: %s modes in cells covering all %d', A[3].sum(), x.size)
    close(A[0], B[0], rtol=1e-9, scale=s, what='P(k_perp,k_par) after permuting axes')
    A, _ = call(t2c.power_spectrum_multipoles, a, kbins=ke, los_axis=c['los'], box_dims=c['L'])
    B, _ = call(t2c.power_spectrum_multipoles, a2, kbins=ke, los_axis=los2, box_dims=L2)
    for q in A:
        # bins whose only modes have a vanishing polynomial are ill-conditioned
        ok = np.abs(A[q]) < 1e3 * s
        close(np.where(ok, A[q], 0), np.where(ok, B[q], 0), rtol=1e-7, scale=s, what='%s after permuting axes' % q)
    return np.ptp(x) > 0
