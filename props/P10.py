"""P10 redshift-space distortions."""
import os
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from vlib import gen, cosmology as co, files
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Redshift-space distortion moves signal without creating or losing it'
RULE = ('cubes and elongated volumes, velocities from zero to beyond the box length, axes, sub-element numbers, lightcone redshifts; '
        'non-trivial: some sub-element changes cell')
ASSUMPTIONS = ['the two sides perpendicular to the line of sight are equal, as documented',
               'sub-elements within 1e-9 of a cell edge may fall on either side']
LAWS = []
H, OM = 0.7, 0.27


@st.composite
def cubes(draw, lo=2, hi=7):
    w, n = draw(gen.side(lo if lo > 1 else 1, hi)), draw(gen.side(lo, hi + 3))
    cube = draw(st.booleans())
    return dict(w=w, n=w if cube else n, los=draw(st.integers(0, 2)), vax=draw(st.integers(0, 2)), seed=draw(gen.seeds()), z=draw(gen.nice_floats(3, 30)),
                num=draw(st.sampled_from([1, 2, 5, 10, 10, 20])), vel=draw(st.sampled_from(['zero', 'uniform', 'random', 'wave', 'huge'])),
                dtype=draw(st.sampled_from(['f8', 'f8', 'f4', 'int'])), periodic=draw(st.sampled_from([True, True, True, False])),
                box=draw(st.sampled_from([244., 37., 114.])), zarr=draw(st.booleans()), cosmo=draw(st.booleans()))


def make(d):
    rng = np.random.default_rng(d['seed'])
    sh = [d['w']] * 3
    sh[d['los']] = d['n']
    dT = rng.normal(size=sh) * 10
    if d['seed'] % 2:
        dT = np.exp(rng.normal(size=sh))
    dT = np.rint(dT * 10).astype(int) if d['dtype'] == 'int' else dT.astype(d['dtype'])
    v = rng.normal(size=[3] + sh) * 300
    k = d['vel']
    if k == 'zero':
        v[d['vax']] = 0
    elif k == 'uniform':
        v[d['vax']] = rng.normal() * 2000
    elif k == 'huge':
        v *= 60
    elif k == 'wave':
        x = np.arange(d['n']).reshape([-1 if i == d['los'] else 1 for i in range(3)])
        v[d['vax']] = 800 * np.sin(2 * np.pi * x / d['n']) + 0 * dT
    return dT, v


def params(d):
    t2c.set_sim_constants(d['box'])
    h, om = H, OM
    if d['cosmo']:
        h, om = 0.62, 0.33
        co.set_flat(h, om, how=d.get('seed', 0))
    return h, om, t2c.conv.LB


def displacement(v, z, h, om):
    zo = (1 + z) / (1 - v / co.C) - 1
    return (1 + zo) * v / (100 * h * co.E(zo, om, 1 - om))


def model(line, dr, depth, num, periodic):
    """One sight line: returns the new line and the slack from sub-elements at cell edges."""
    n = len(line)
    N = n * num
    pos = np.array([i * depth / (N - 1) if N > 1 else 0. for i in range(N)])
    f = np.arange(N) * (n - 1.) / (N - 1) if N > 1 else np.zeros(1)
    pos = pos + np.interp(f, np.arange(n), dr)
    val = np.repeat(np.asarray(line, float) / num, num)
    out, slack = np.zeros(n), np.zeros(n)
    cell = depth / n
    moved = 0
    for i, (p, q) in enumerate(zip(pos, val)):
        x = p / cell
        edge = abs(x - round(x)) < 1e-9 * max(1., abs(x))
        c = int(np.floor(x))
        cs = [int(round(x)) - 1, int(round(x))] if edge else [c]
        if i == N - 1 and abs(p - depth) < 1e-9 * depth and not np.any(dr):
            cs = [n - 1]
        if i == 0 and not np.any(dr):
            cs = [0]
        if not np.any(dr):
            cs = [i // num]
        for c in cs:
            if periodic:
                c %= n
            if 0 <= c < n:
                if len(cs) == 1:
                    out[c] += q
                else:
                    out[c] += q / 2
                    slack[c] += abs(q) / 2
            moved += c != i // num
    return out, slack, moved


def lines(a, los):
    return np.moveaxis(a, los, -1).reshape(-1, a.shape[los])


@law(LAWS, cubes(), 900, 8000, large=(5, 8, 60))
def mapping(d, ctx):
    h, om, L = params(d)
    dT, v = make(d)
    keep = dT.copy(), v.copy()
    depth = d['n'] * L / d['w']
    z = d['z']
    zs = z
    if d['zarr']:
        z = d['z'] + 0.05 * np.arange(d['n'])
        zs = z.reshape([-1 if i == d['los'] else 1 for i in range(3)])
    kw = dict(los_axis=d['los'], velocity_axis=d['vax'])
    if d['num'] != 10:
        kw['num_particles'] = d['num']
    if not d['periodic']:
        kw['periodic'] = False
    got = call(t2c.get_distorted_dt, dT, v, z, **kw)
    same(dT, keep[0], 'the signal')
    same(v, keep[1], 'the velocities')
    check(np.shape(got) == dT.shape, 'shape %s', np.shape(got))
    dr = displacement(v[d['vax']], zs, h, om)
    big = np.max(np.abs(dT)) * d['n'] + 1e-300
    rt = 1e-10 if d['dtype'] == 'f8' else 2e-5 if d['dtype'] == 'f4' else 1e-6
    moved = 0
    for a, b, r in zip(lines(got, d['los']), lines(dT, d['los']), lines(dr, d['los'])):
        w, sl, m = model(b, r, depth, d['num'], d['periodic'])
        moved += m
        bad = np.abs(a - w) > sl + rt * big
        check(not bad.any(), '%s velocities, axis %d: cell %d has %.10g, expected %.10g', d['vel'], d['los'], int(np.argmax(bad)),
              a[np.argmax(bad)], w[np.argmax(bad)])
    if d['periodic']:
        close(got.astype(float).sum(axis=d['los']), dT.astype(float).sum(axis=d['los']), rtol=0, atol=rt * big * 2, what='sum along every line of sight')
    if d['vel'] == 'zero':
        close(got.astype(float), dT.astype(float), rtol=0, atol=rt * big, what='signal without velocities')
    ctx.label(d['vel'])
    return moved > 0


@law(LAWS, cubes(hi=5), 400, 3000, large=(5, 6, 40))
def symmetry(d, ctx):
    """Axes can be relabelled, and sight lines do not see each other."""
    params(d)
    d = dict(d, dtype='f8', zarr=False)
    dT, v = make(d)
    got = call(t2c.get_distorted_dt, dT, v, d['z'], los_axis=d['los'], velocity_axis=d['vax'], num_particles=d['num'], periodic=d['periodic'])
    to = (d['los'] + 1 + d['seed'] % 2) % 3
    rng = np.random.default_rng(d['seed'] + 7)
    mv = lambda a, off=0: np.moveaxis(a, d['los'] + off, to + off)
    oth = int(rng.integers(0, 3))
    v2 = np.zeros((3,) + mv(dT).shape)
    v2[oth] = mv(v[d['vax']])
    alt = call(t2c.get_distorted_dt, np.ascontiguousarray(mv(dT)), v2, d['z'], los_axis=to, velocity_axis=oth, num_particles=d['num'], periodic=d['periodic'])
    close(alt, mv(np.asarray(got)), rtol=1e-10, atol=1e-10, what='cube with the line of sight moved from axis %d to %d' % (d['los'], to))
    i = int(rng.integers(0, d['w']))
    ax = (d['los'] + 1) % 3
    sl = [slice(None)] * 3
    sl[ax] = i
    d3, v3 = dT.copy(), v.copy()
    d3[tuple(sl)] = 5.0
    v3[d['vax']][tuple(sl)] += 900.
    new = call(t2c.get_distorted_dt, d3, v3, d['z'], los_axis=d['los'], velocity_axis=d['vax'], num_particles=d['num'], periodic=d['periodic'])
    sel = np.arange(d['w']) != i
    close(np.compress(sel, new, axis=ax), np.compress(sel, got, axis=ax), rtol=1e-12, atol=1e-12, what='sight lines other than the changed ones')
    s2 = call(t2c.get_distorted_dt, 3 * dT, v, d['z'], los_axis=d['los'], velocity_axis=d['vax'], num_particles=d['num'], periodic=d['periodic'])
    close(s2, 3 * np.asarray(got), rtol=1e-10, atol=1e-10, what='distortion of the tripled signal')
    return d['w'] > 1


@law(LAWS, st.tuples(cubes(), st.integers(-9, 9), st.sampled_from([20, 50])), 300, 2500, large=(5, 6, 40))
def uniform_shift(t, ctx):
    """A uniform velocity of whole cells: a periodic roll, up to one sub-element per cell."""
    d, m, num = t
    h, om, L = params(d)
    d = dict(d, dtype='f8', vel='zero')
    dT, v = make(d)
    dT = np.abs(dT)
    cell = L / d['w']
    lo, hi = -2.9e5, 2.9e5
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if displacement(mid, d['z'], h, om) < m * cell else (lo, mid)
    if abs(lo) > 1e5:
        return False
    v[d['vax']] = lo
    got = call(t2c.get_distorted_dt, dT, v, d['z'], los_axis=d['los'], velocity_axis=d['vax'], num_particles=num)
    want = np.roll(dT, m, axis=d['los'])
    slack = 1.001 * (np.roll(want, 1, axis=d['los']) + np.roll(want, -1, axis=d['los']) + 2 * want) / num
    check(np.all(np.abs(got - want) <= slack), 'uniform velocity of %d cells is not a roll by %d cells', m, m)
    return m != 0


@law(LAWS, st.tuples(gen.side(2, 5), gen.seeds(), st.integers(0, 2), gen.nice_floats(5, 12), st.sampled_from([10, 10, 3])), 120, 1000, large=(4, 6, 40))
def from_files(t, ctx):
    n, seed, los, z, num = t
    z = round(z, 3)
    rng = np.random.default_rng(seed)
    t2c.set_sim_constants(37.)
    L = 37. / H
    tmp = ctx.tmpdir()
    dT = rng.normal(size=(n, n, n)).astype('f4')
    raw = (rng.normal(size=(3, n, n, n)) * 2).astype('f4')
    rho = rng.uniform(4, 12, (n, n, n)).astype('f4')
    a = files.cbin(os.path.join(tmp, 'dT.cbin'), dT)
    b = files._w(os.path.join(tmp, '%.3fv_all.dat' % z), files.i4(n, n, n), raw.tobytes(order='F'))
    c = files.density(os.path.join(tmp, '%.3fn_all.dat' % z), rho)
    got = call(t2c.make_pv_box, a, b, c, z, **({'los': los} if los or seed % 2 else {}), **({'num_particles': num} if num != 10 else {}))
    k = (L / 2048 * co.MPC_CM) / (2. / (3 * np.sqrt(OM) * 100 * H / co.MPC_CM * 1e5)) * (1 + z) / 1e5
    kms = raw.astype(float) * k * 8. / rho
    dr = displacement(kms[los], z, H, OM)
    moved = 0
    for x, y, r in zip(lines(got, los), lines(dT, los), lines(dr, los)):
        w, sl, m = model(y, r, L, num, True)
        moved += m
        check(np.all(np.abs(x - w) <= sl + 2e-5 * n * np.max(np.abs(dT))), 'redshift-space box from files along axis %d is wrong', los)
    return moved > 0
