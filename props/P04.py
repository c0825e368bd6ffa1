"""P04 bispectra."""
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from vlib import gen, kspace as ks
from vlib.engine import law, call
from vlib.ref import close, check, same

TITLE = 'Bispectra equal the brute-force sum over closed triangles of modes'
RULE = ('3D fields of 3..8 cells a side (odd, even, unequal), unequal boxes, drawn triangle sides and shell widths; '
        'non-trivial: at least one configuration has a closed triangle')
ASSUMPTIONS = ['configurations with a mode within 1e-9 of a shell boundary are skipped',
               'mode triples close modulo the grid (the usual aliasing of the FFT estimator)',
               'the wrappers around the external Pylians package cannot run here (package absent) and are not covered']
LAWS = []


@st.composite
def tri(draw):
    f = draw(gen.fields(gen.shape(3, 3, 7), kinds=('normal', 'lognormal', 'ints', 'uniform', 'delta', 'sparse')))
    form = draw(st.sampled_from(['float', 'list', 'array', 'none', 'int']))
    L = draw(gen.box_lengths(3, 5, 300)) if form in ('list', 'array') else [float(draw(st.integers(5, 300)))] * 3
    return dict(f=f, form=form, L=L, k1=draw(st.integers(50, 800)), k2=draw(st.integers(50, 800)), dk=draw(st.integers(50, 600)),
                n=draw(st.integers(1, 7)), binning=draw(st.sampled_from(['linear', 'log'])), where=draw(st.sampled_from(['class', 'method'])),
                window=draw(st.sampled_from([None, None, None, 'array', 'blackmanharris'])), same=draw(st.booleans()))


def box(c):
    f, L = c['form'], c['L']
    if f == 'none':
        t2c.conv.LB = L[0]
        return None
    return {'float': lambda: float(L[0]), 'int': lambda: int(L[0]), 'list': lambda: list(L), 'array': lambda: np.array(L)}[f]()


def windowed(c, x):
    if c['window'] == 'array':
        w = np.random.default_rng(c['f']['seed']).uniform(0.2, 1, x.shape)
        return w, x * w
    if c['window']:
        n = x.shape[-1]
        i = np.arange(n) * 2 * np.pi / (n - 1)
        return c['window'], x * (0.35875 - 0.48829 * np.cos(i) + 0.14128 * np.cos(2 * i) - 0.01168 * np.cos(3 * i))
    return None, x


def shell(k, kc, dk):
    d = np.abs(k - kc) - dk / 2
    if np.any(np.abs(d) < 1e-9 * k.max()):
        return None
    return d < 0


def brute(x, L, k, shells):
    """(sum of triple products * V^2/N^3 / number of triangles, number, scale)"""
    F = ks.ft(x)
    sh = np.array(x.shape)
    idx = [np.argwhere(s) - sh // 2 for s in shells]
    val = [F[s] for s in shells]
    if any(len(i) == 0 for i in idx):
        return np.nan, 0, 0.
    third = {}
    for v, i in zip(val[2], idx[2] % sh):
        third[tuple(i)] = v
    tot, n, mag = 0.0, 0, 0.0
    T = np.zeros(tuple(sh), complex)
    M = np.zeros(tuple(sh), bool)
    for i, v in third.items():
        T[i] = v
        M[i] = True
    for i, v in zip(idx[0], val[0]):
        j = (-(i + idx[1])) % sh
        jj = tuple(j.T)
        m = M[jj]
        t = v * val[1][m] * T[jj][m]
        tot += t.sum()
        n += int(m.sum())
        mag += np.abs(t).sum()
    V, N = float(np.prod(L)), x.size
    if n == 0:
        return np.nan, 0, 0.
    f = V**2 / N**3
    fm, fs = np.abs(F).max(), max(np.abs(v).max() for v in val)
    noise = 1e-5 * fm * (fs + 1e-12 * fm)**2      # rounding of the amplitudes themselves (times 1e-7)
    return (tot / n).real * f, n, (mag / n + noise) * f


def label(ctx, c):
    sh = c['f']['shape']
    ctx.label('odd' if all(n % 2 for n in sh) else ('even' if not any(n % 2 for n in sh) else 'mixed parity'))
    ctx.label('box:%s/%s' % (c['form'], c['where']))
    ctx.label('window:%s' % c['window'])


def make(c, x):
    b = box(c)
    if c['where'] == 'class':
        return call(t2c.Bispectrum, x, box_dims=b, verbose=False), {}
    return call(t2c.Bispectrum, x, box_dims=None, verbose=False), {'box_dims': b}


@law(LAWS, tri(), 600, 6000, large=(2, 16, 80))
def general(c, ctx):
    label(ctx, c)
    x = gen.build(c['f'])
    _, k = ks.kgrid(x.shape, c['L'])
    k1 = c['k1'] / 1000. * k.max()
    k2 = k1 if c['same'] else c['k2'] / 1000. * k.max()
    dk = c['dk'] / 1000. * k.max()
    B, kw = make(c, x.copy())
    w, xw = windowed(c, x)
    o = call(B.bispectrum_k1k2, k1, k2, dk=dk, n_bins=c['n'], binning=c['binning'], verbose=False, window=w, **kw)
    al = np.linspace(0, np.pi, c['n']) if c['binning'] == 'linear' else np.exp(np.linspace(np.log(0.01), np.log(np.pi), c['n']))
    k3 = np.sqrt(np.maximum(k1**2 + k2**2 + 2 * k1 * k2 * np.cos(al), 0))
    close(o['alpha'], al, rtol=1e-9, what='alpha')
    close(o['theta'], np.pi - al, rtol=1e-9, scale=np.pi, what='theta')
    close(np.nan_to_num(np.asarray(o['k3'])), k3, rtol=1e-7, scale=k1 + k2, what='third side')
    check(o['k1'] == k1 and o['k2'] == k2 and len(o['B']) == c['n'], 'sides and length of the result')
    return compare(o['B'], xw, c, k, [(k1, k2, q) for q in k3], dk)


def compare(Bs, x, c, k, sides, dk):
    nt = False
    for i, s in enumerate(sides):
        sh = [shell(k, q, np.broadcast_to(dk, len(sides))[i]) for q in s]
        if any(m is None for m in sh):
            continue
        want, n, mag = brute(x, c['L'], k, sh)
        if n == 0:
            continue
        nt = True
        close(Bs[i], want, rtol=1e-7, scale=mag + 1e-300, what='bispectrum of sides %s over %d triangles' % (s, n))
    return nt


@law(LAWS, st.tuples(tri(), st.sampled_from(['linear', 'log']), st.sampled_from(['float', 'list', 'array'])), 400, 4000, large=(2, 12, 80))
def equilateral(t, ctx):
    c, binning, dkform = t
    label(ctx, c)
    x = gen.build(c['f'])
    _, k = ks.kgrid(x.shape, c['L'])
    edges = 2 * np.pi / min(c['L'])
    if k.max() / 2 <= edges * 1.001:
        return False
    n = c['n']
    e = np.linspace(edges, k.max() / 2, n + 1) if binning == 'linear' else np.exp(np.linspace(np.log(edges), np.log(k.max() / 2), n + 1))
    kc = 0.5 * (e[1:] + e[:-1])
    dk = c['dk'] / 1000. * k.max()
    B, kw = make(c, x.copy())
    w, xw = windowed(c, x)
    if dkform != 'float':  # one width per bin
        dk = dk * (1 + 0.5 * np.sin(1 + c['k1'] + 2. * np.arange(n)))
    arg = list(dk) if dkform == 'list' else dk
    o = call(B.bispectrum_k, dk=arg, n_bins=n, binning=binning, verbose=False, window=w, **kw)
    close(o['k'], kc, rtol=1e-9, what='wavenumbers')
    check(len(o['B']) == n, 'number of values')
    r = compare(o['B'], xw, c, k, [(q, q, q) for q in kc], dk)
    # the general configuration with three equal sides agrees (alpha = 2 pi/3 gives k3 = k1)
    return r


@law(LAWS, st.tuples(tri(), st.lists(st.integers(-9, 9), min_size=3, max_size=3), st.sampled_from([-1., 2., -0.3]),
                     st.permutations([0, 1, 2])), 300, 3000, large=(3, 4, 30))
def invariances(t, ctx):
    c, sh, lam, p = t
    c = dict(c, window=None)
    if c['form'] not in ('list', 'array'):
        c['form'] = 'list'
    label(ctx, c)
    x = gen.build(c['f'])
    _, k = ks.kgrid(x.shape, c['L'])
    k1, k2, dk = [c[q] / 1000. * k.max() for q in ('k1', 'k2', 'dk')]

    def B(y, L=None):
        d = dict(c, L=L or c['L'])
        b, kw = make(d, y)
        return call(b.bispectrum_k1k2, k1, k2, dk=dk, n_bins=c['n'], verbose=False, **kw)
    o = B(x.copy())
    b0 = o['B']
    k3 = o['k3']
    ok = np.zeros(len(k3), bool)
    mag = 0.
    for i, q in enumerate(k3):
        s = [shell(k, v, dk) for v in (k1, k2, q)]
        if any(m is None for m in s) or not np.isfinite(q):
            continue
        w, n, m = brute(x, c['L'], k, s)
        if n:
            ok[i] = True
            mag = max(mag, m)
    if not ok.any():
        return False
    mag += 1e-300
    close(np.asarray(B(np.roll(x, sh, (0, 1, 2)))['B'])[ok], b0[ok], rtol=1e-7, scale=mag, what='bispectrum of the shifted field')
    close(np.asarray(B(lam * x)['B'])[ok], lam**3 * b0[ok], rtol=1e-7, scale=abs(lam)**3 * mag, what='bispectrum of the scaled field')
    close(np.asarray(B(np.ascontiguousarray(x.transpose(p)), [c['L'][i] for i in p])['B'])[ok], b0[ok], rtol=1e-7, scale=mag,
          what='bispectrum after permuting axes')
    same(x, gen.build(c['f']), 'input field after the call')
    return True


@law(LAWS, st.tuples(tri(), st.integers(50, 600), st.integers(50, 600)), 250, 2500, large=(2, 12, 80))
def single_triangle(t, ctx):
    """The building block: three shells of separate centres and widths."""
    c, d2, d3 = t
    c = dict(c, window=None)
    label(ctx, c)
    x = gen.build(c['f'])
    g, k = ks.kgrid(x.shape, c['L'])
    k1, k2, k3 = [v / 1000. * k.max() for v in (c['k1'], c['k1'] if c['same'] else c['k2'], c['k2'])]
    w = [v / 1000. * k.max() for v in (c['dk'], d2, d3)]
    B, _ = make(c, x)
    s = [shell(k, q, v) for q, v in zip((k1, k2, k3), w)]
    if any(m is None for m in s):
        return False
    for q, v, m in zip((k1, k2, k3), w, s):
        same(call(B.spherical_shell_mask, x.shape, q, v, k_mag=k).astype(bool), m, 'shell mask')
        same(call(B.spherical_shell_mask, x.shape, q, v, k_comp=g).astype(bool), m, 'shell mask from components')
    want, n, mag = brute(x, c['L'], k, s)
    F = ks.ft(x)
    if n == 0:
        return False
    got = call(B.bispectrum_fast, F, k1, k2, k3, w[0], w[1], w[2], box_dims=list(c['L']), k_mag=k)
    close(got, want, rtol=1e-7, scale=mag + 1e-300, what='bispectrum over %d triangles' % n)
    return True
