"""P18 Euler characteristic and Betti numbers."""
import joblib
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from tools21cm import ViteBetti as VB
from vlib import gen
from vlib.engine import law, call
from vlib.ref import close, check, same, fail
from props.P16 import components

NEEDS_CYTHON = True
TITLE = 'Topology numbers equal those of the periodic cubical complex'
RULE = ('3D meshes of 1-7 cells a side (2D for components), noise, bubbles, handles, shells, filled and empty, any threshold and data type; '
        'non-trivial: both phases present')
ASSUMPTIONS = ['the Cython extension is compiled from the current source; Numba is installed here; Torch is not, so its implementation is replaced by the plain one',
               'Betti numbers count components inside the box (no wrap)', 'several jobs run as threads here']
LAWS = []
SPEED = ['cython', 'numba', 'numpy', 'python', None, 'Cython', 'NUMBA']


def structure(d):
    rng = np.random.default_rng(d['seed'])
    sh = tuple(d['shape'])
    k = d['kind']
    g = np.indices(sh) + 0.5
    if k == 'noise':
        m = rng.uniform(size=sh) < d['fill']
    elif k == 'full':
        m = np.ones(sh, bool)
    elif k == 'empty':
        m = np.zeros(sh, bool)
    elif k in ('ball', 'shell', 'handle'):
        c = [rng.uniform(0, n) for n in sh]
        q = [np.minimum(abs(g[a] - c[a]), sh[a] - abs(g[a] - c[a])) for a in range(len(sh))]
        r = np.sqrt(sum(x**2 for x in q))
        R = rng.uniform(1, max(sh) / 2. + 1)
        m = r <= R
        if k == 'shell':
            m &= r > R - 1.3
        if k == 'handle':
            m = (np.sqrt(q[0]**2 + q[1]**2) - R / 1.5)**2 + (q[2]**2 if len(sh) > 2 else 0) <= 1.2
    else:
        # bars along an axis, possibly through the boundary
        m = np.zeros(sh, bool)
        for _ in range(int(rng.integers(1, 4))):
            ax = int(rng.integers(0, len(sh)))
            ix = [int(rng.integers(0, n)) for n in sh]
            L = int(rng.integers(1, sh[ax] + 1))
            for t in range(L):
                j = list(ix)
                j[ax] = (ix[ax] + t) % sh[ax]
                m[tuple(j)] = True
    if rng.uniform() < 0.3:
        m = ~m
    return m


def data_of(m, d):
    """Field whose cells strictly above the threshold are the structure, and the threshold."""
    rng = np.random.default_rng(d['seed'] + 5)
    f = d['form']
    if f in ('bool', 'i8', 'u1', 'f8bin'):
        return m.astype({'bool': bool, 'i8': 'i8', 'u1': 'u1', 'f8bin': float}[f]), None
    th = d['th']
    u = rng.uniform(0.01, 1, m.shape)
    x = np.where(m, th + u, th - u * (rng.uniform(size=m.shape) < 0.6))
    if f == 'f4':
        x = np.where(m, np.float32(th) + u + 1e-3, np.float32(th) - u - 1e-3).astype('f4')
    elif f == 'F':
        x = np.asfortranarray(x)
    elif f == 'view':
        big = np.zeros(tuple(2 * s for s in x.shape))
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        x = v
    return x, th


@st.composite
def cases(draw, nds=(3,), hi=7):
    nd = draw(st.sampled_from(nds))
    return dict(shape=draw(gen.shape(nd, 1, hi)), kind=draw(st.sampled_from(['noise', 'noise', 'ball', 'shell', 'handle', 'bars', 'full', 'empty'])), seed=draw(gen.seeds()),
                fill=draw(st.sampled_from([0.1, 0.3, 0.5, 0.8])), form=draw(st.sampled_from(['bool', 'i8', 'u1', 'f8bin', 'f8', 'f8', 'f4', 'F', 'view'])),
                th=draw(st.sampled_from([0.5, 0.0, -20.0, 0.25, 1.5])), neighbors=draw(st.sampled_from([None, 6, 6, 4, 26, 8, 18])), speed=draw(st.sampled_from(SPEED)),
                shift=draw(st.lists(st.integers(0, 6), min_size=nd, max_size=nd)), pick=draw(gen.seeds()))


def euler_points(m):
    """Cells as vertices, periodic: vertices - edges + faces - cubes, all corners present."""
    tot = 0
    for c in range(8):
        a = m.copy()
        for ax in range(3):
            if c >> ax & 1:
                a = a & np.roll(a, -1, ax)
        tot += (-1)**bin(c).count('1') * int(a.sum())
    return tot


def euler_cubes(m):
    """Cells as closed cubes, periodic: vertices - edges + faces - cubes of their union."""
    tot = 0
    for c in range(8):
        a = m.copy()
        for ax in range(3):
            if c >> ax & 1:
                a = a | np.roll(a, 1, ax)
        # c marks the axes in which the cell of the complex is a point
        tot += (-1)**(3 - bin(c).count('1')) * int(a.sum())
    return tot


def kwargs(d, th, speed=True):
    kw = {}
    if th is not None:
        kw['thres'] = th
    if d['neighbors'] is not None:
        kw['neighbors'] = d['neighbors']
    if speed:
        kw['verbose'] = False
        if d['speed'] is not None:
            kw['speed_up'] = d['speed']
    return kw


def expected(m, d):
    return euler_points(m) if d['neighbors'] in (None, 6, 4) else euler_cubes(m)


@law(LAWS, cases(), 700, 20000, large=(3.5, 6, 60))
def euler_characteristic(d, ctx):
    """The Euler characteristic is vertices - edges + faces - cubes of the periodic complex of the cells above the threshold."""
    m = structure(d)
    x, th = data_of(m, d)
    got = call(t2c.EulerCharacteristic, x, **kwargs(d, th))
    want = expected(m, d)
    ctx.label('chi %s' % ('0' if want == 0 else '>0' if want > 0 else '<0'))
    check(got == want, 'Euler characteristic %s (%s neighbours, %s), expected %s', got, d['neighbors'], d['speed'], want)
    return 0 < m.sum() < m.size


@law(LAWS, cases(hi=6), 300, 8000, large=(3, 4, 40))
def implementations(d, ctx):
    """Every implementation gives the same number and the same complex."""
    m = structure(d)
    x, th = data_of(m, d)
    kw = kwargs(d, th)
    want = expected(m, d)
    for s in ('cython', 'numba', 'numpy', 'torch', 'other'):
        kw['speed_up'] = s
        got = call(t2c.EulerCharacteristic, x, **kw)
        check(got == want, 'Euler characteristic %s with %s, expected %s', got, s, want)
    A = m.astype(np.int32)
    ref = np.asarray(call(VB.CubeMap, A))
    maps = [('Cython', VB.CubeMap_cython), ('Numba', VB.CubeMap_numba)]
    for nm, f in maps:
        if f is not None:
            same(np.asarray(call(f, A)), ref, 'complex of the %s implementation' % nm)
    # dimension of each cell of the complex: number of odd coordinates
    par = (np.indices(ref.shape) % 2).sum(0)
    check(np.all((ref == 0) | (ref == par + 1)), 'a cell of the complex has the wrong dimension')
    same((ref[::2, ::2, ::2] > 0), m, 'vertices of the complex')
    return 0 < m.sum() < m.size


JOBS = [dict(shape=s, kind='noise', seed=i, fill=0.6, form='f8', th=0.5, neighbors=n, speed='numpy', shift=[0, 0, 0], pick=j)
        for i, (s, n, j) in enumerate([([3, 4, 5], 6, 2), ([5, 2, 3], 26, 3)])]


@law(LAWS, cases(hi=5), 60, 1500, fixed=JOBS)
def parallel(d, ctx):
    """Several jobs give the number one job gives."""
    m = structure(d)
    x, th = data_of(m, d)
    kw = dict(kwargs(d, th), speed_up='numpy', n_jobs=2 + d['pick'] % 3)
    with joblib.parallel_config(backend='threading'):
        got = call(t2c.EulerCharacteristic, x, **kw)
    check(got == expected(m, d), 'Euler characteristic %s on %d jobs, expected %s', got, kw['n_jobs'], expected(m, d))
    return 0 < m.sum() < m.size


@law(LAWS, cases(nds=(2, 3)), 500, 15000, large=(4, 6, 60))
def components_counted(d, ctx):
    """Betti 0 and 2 count the connected regions of the structure and of the rest."""
    m = structure(d)
    x, th = data_of(m, d)
    conn = {None: 1, 4: 1, 6: 1, 8: 2, 18: 2, 26: 3}[d['neighbors']]
    conn = min(conn, m.ndim)
    if d['neighbors'] == 26 and m.ndim == 2:
        d = dict(d, neighbors=8)
    kw = kwargs(d, th, False)
    b0, b2 = call(t2c.betti0, x, **kw), call(t2c.betti2, x, **kw)
    w0, w2 = components(m, conn)[1], components(~m, conn)[1]
    check(b0 == w0, 'betti0 is %s (%s neighbours), expected %s', b0, d['neighbors'], w0)
    check(b2 == w2, 'betti2 is %s (%s neighbours), expected %s', b2, d['neighbors'], w2)
    return 0 < m.sum() < m.size


@law(LAWS, cases(), 300, 10000, large=(3, 4, 40))
def tunnels(d, ctx):
    """Betti 1 is components + cavities - Euler characteristic, whether these are given or not."""
    m = structure(d)
    x, th = data_of(m, d)
    kw = kwargs(d, th)
    conn = {None: 1, 4: 1, 6: 1, 8: 2, 18: 2, 26: 3}[d['neighbors']]
    vals = dict(b0=components(m, conn)[1], b2=components(~m, conn)[1], chi=expected(m, d))
    rng = np.random.default_rng(d['pick'])
    give = {k: int(rng.integers(0, 9)) for k in vals if rng.integers(0, 2)}
    vals.update(give)
    if give:
        ctx.label('given')
    got = call(t2c.betti1, x, **give, **kw)
    want = vals['b0'] + vals['b2'] - vals['chi']
    check(got == want, 'betti1 is %s, expected %s from %s', got, want, vals)
    return 0 < m.sum() < m.size


@law(LAWS, cases(), 300, 10000, large=(3, 4, 40))
def symmetry(d, ctx):
    """The Euler characteristic does not change when the structure is shifted round the box, reflected or turned, and adds up over distant structures."""
    m = structure(d)
    d = dict(d, form='bool')
    kw = kwargs(d, None)
    a = call(t2c.EulerCharacteristic, m, **kw)
    rng = np.random.default_rng(d['pick'])
    b = np.flip(np.roll(m, d['shift'], (0, 1, 2)), [int(i) for i in np.nonzero(rng.integers(0, 2, 3))[0]]).transpose(rng.permutation(3))
    check(call(t2c.EulerCharacteristic, b, **kw) == a, 'Euler characteristic changes under a symmetry of the box')
    n = np.pad(m, [(1, 1)] * 3)
    e1 = call(t2c.EulerCharacteristic, n, **kw)
    two = np.concatenate([n, n], axis=int(rng.integers(0, 3)))
    if d['neighbors'] in (None, 6, 4) or True:
        check(call(t2c.EulerCharacteristic, two, **kw) == 2 * e1, 'Euler characteristic of two separate copies is not twice that of one')
    return 0 < m.sum() < m.size
