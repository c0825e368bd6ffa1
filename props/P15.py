"""P15 halo catalogues: selection, units, gridding."""
import os, struct
import numpy as np
from hypothesis import strategies as st
from astropy import units as U, cosmology as ac
import tools21cm as t2c
from tools21cm import halo_list as hl, nbody_file as nf, nbody_tools as nt, nbody_pkdgrav as pk
from vlib import gen, cosmology as co, files
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Halo and source catalogues are selected and gridded without loss'
RULE = ('catalogues of 0-12 halos in every supported format, random boxes, cosmologies, limits and units; '
        'non-trivial: at least two halos, and where limits are given some halo on each side, or two objects sharing a cell')
ASSUMPTIONS = ['text catalogues of the CubeP3M kind have 19 columns, the mass in the 17th (the third from the end)',
               'masses do not coincide with a selection limit; positions lie inside the box',
               'the order of the numbers in a CubeP3M particle file is taken as the reader has it (undocumented), so it is not judged']
LAWS = []
BOXES = {244.: 8000, 37.: 2048, 114.: 6144, 64.: 3456, 425.: 10976, 500.: 13824, 47.: 3456, 200.: 3456}
MSUN = 5.02785431e-34


@st.composite
def sims(draw):
    return dict(box=draw(st.sampled_from(sorted(BOXES))), cosmo=draw(st.sampled_from([None, None, [0.62, 0.33], [0.8, 0.25]])))


def sim(d):
    """Cosmology, then the box; returns a dictionary of conversion factors."""
    h, om = d['cosmo'] or (0.7, 0.27)
    if d['cosmo']:
        co.set_flat(h, om, how=d['seed'])
    t2c.set_sim_constants(d['box'])
    nb = BOXES[d['box']]
    LB = d['box'] / h
    pos = LB / nb
    mass = co.rho_crit(h) * om * (LB * co.MPC_CM)**3 / nb**3 * MSUN
    tscale = 2 / (3 * np.sqrt(om) * 100 * h / co.MPC_CM * 1e5)
    vel = lambda z: pos * co.MPC_CM / tscale * (1 + z) / 1e5
    return h, nb, LB, pos, mass, vel


@law(LAWS, st.tuples(sims(), gen.seeds(), gen.nice_floats(0, 30), gen.side(1, 6, 30), st.sampled_from(['array', 'float', 'f4', 'plane'])), 400, 4000, large=(5, 4, 30))
def unit_conversions(t, ctx):
    d, seed, z, n, form = t
    d = dict(d, seed=seed)
    h, nb, LB, pos, mass, vel = sim(d)
    rng = np.random.default_rng(seed)
    x = rng.uniform(-2, 2 * nb, (n, 3) if form == 'plane' else n)
    x = float(x[0]) if form == 'float' else (x.astype('f4') if form == 'f4' else x)
    rt = 3e-6 if form == 'f4' else 1e-10
    close_each(call(t2c.conv.gridpos_to_mpc, x), x * pos, rtol=rt, what='grid position in Mpc')
    close_each(call(t2c.conv.gridvel_to_kms, x, z), x * vel(z), rtol=rt, what='grid velocity in km/s')
    m = np.abs(x) + 0.01
    # the logarithm hides factors, so compare the mass itself
    close_each(10**np.asarray(call(t2c.conv.gridmass_to_msol, m), float), np.asarray(m, float) * mass, rtol=1e-8 if rt < 1e-8 else 1e-5, what='grid mass in solar masses')
    if form != 'f4':
        from tools21cm import usefuls as us
        s = call(us.Mgrid_2_Msolar, m)
        close_each(s, np.asarray(m) * mass, rtol=1e-9, what='Mgrid_2_Msolar')
        close_each(call(us.Msolar_2_Mgrid, s), m, rtol=1e-12, what='grid mass of the solar mass')
    return True


# ---------------------------------------------------------------- text catalogues

@st.composite
def texts(draw):
    n = draw(gen.side(0, 12))
    return dict(n=n, seed=draw(gen.seeds()), z=draw(st.integers(0, 30000)) / 1000., lo=draw(st.sampled_from([None, None, 0., 0.3, 0.6])),
                hi=draw(st.sampled_from([None, None, None, 0.5, 0.5, 0.8, 0.8, 2., 2., 0.])), most=draw(st.sampled_from([-1, -1, 0, 1, 2, 5, 12])),
                start=draw(st.sampled_from([0, 0, 1, 2, 4, 20])), route=draw(st.sampled_from(['init', 'read', 'reread'])), **draw(sims()))


def limits(d, msol):
    """Selection limits in solar masses, away from every mass."""
    s = np.sort(msol)

    def at(q):
        i = q * len(s)
        k = int(i)
        if k >= len(s):
            return float(s[-1] * 1.37)
        return float(s[k] * 0.83) if k == 0 else float(np.sqrt(s[k] * s[k - 1]))
    lo = None if d['lo'] is None else (0. if d['lo'] == 0 or not len(s) else at(d['lo']))
    hi = None if d['hi'] is None else (0. if d['hi'] == 0 else at(d['hi']) if len(s) else 1e9)
    return lo, hi


def rows(d):
    rng = np.random.default_rng(d['seed'])
    n, nb = d['n'], BOXES[d['box']]
    r = rng.normal(size=(n, 19)) * 3
    r[:, :3] = rng.uniform(0, nb, (n, 3))
    # a third of the coordinates near a face of the box
    r[:, :3] = np.where(rng.uniform(size=(n, 3)) < 0.35, np.where(rng.uniform(size=(n, 3)) < 0.5, rng.uniform(-0.5, 1, (n, 3)), nb - rng.uniform(-0.5, 1, (n, 3))), r[:, :3])
    r[:, 3:6] = r[:, :3] + rng.normal(size=(n, 3))
    r[:, 16] = 10**(rng.permutation(n) * 0.5 + rng.uniform(0, 0.3, n))
    r[:, 15] = np.abs(r[:, 15])
    r[:, 17] = np.round(r[:, 16] / 8)
    r[:, 18] = r[:, 16] * rng.uniform(0.5, 2, n)
    return r


def select(d, r, msol, lo, hi):
    keep = [i for i in range(len(r)) if i + 1 >= d['start'] and msol[i] > (lo or 0.) and (hi is None or msol[i] < hi)]
    whole = not (d['most'] >= 0 and len(keep) > d['most'])
    return (keep if d['most'] < 0 else keep[:d['most']]), whole


def limit_kw(d, lo, hi):
    kw = {}
    if lo is not None:
        kw['min_select_mass'] = lo
    if hi is not None:
        kw['max_select_mass'] = hi
    if d['most'] != -1:
        kw['max_select_number'] = d['most']
    if d['start']:
        kw['startline'] = d['start']
    return kw


def load(cls, d, path, kw, init_kw, ctx):
    if d['route'] == 'init':
        return call(cls, path, **init_kw, **kw), None
    o = call(cls, **init_kw)
    ok = call(o.read_from_file, path, **kw)
    if d['route'] == 'reread':
        call(o.read_from_file, path)
        ok = call(o.read_from_file, path, **kw)
    return o, ok


@law(LAWS, texts(), 700, 7000, large=(30, 8, 60))
def halo_lists(d, ctx):
    h, nb, LB, pos, mass, vel = sim(d)
    r = rows(d)
    msol = r[:, 16] * mass
    lo, hi = limits(d, msol)
    path = os.path.join(ctx.tmpdir(), '%.3fhalo.dat' % d['z'])
    with open(path, 'w') as f:
        for q in r:
            f.write('  ' + '  '.join(repr(float(v)) for v in q) + '\n')
    keep, whole = select(d, r, msol, lo, hi)
    o, ok = load(hl.HaloList, d, path, limit_kw(d, lo, hi), {}, ctx)
    check(len(o.halos) == len(keep), '%d halos selected, expected %d', len(o.halos), len(keep))
    check(o.z == float('%.3f' % d['z']), 'redshift %s', o.z)
    for a, i in zip(o.halos, keep):
        same(a.pos, r[i, :3], 'position')
        same(a.pos_cm, r[i, 3:6], 'centre of mass')
        same(a.vel, r[i, 6:9], 'velocity')
        same(a.l, r[i, 9:12], 'angular momentum')
        same(a.vel_disp, r[i, 12:15], 'velocity dispersion')
        check(a.m == r[i, 16] and a.mp == r[i, 17], 'mass %s or number of particles %s', a.m, a.mp)
        close_each(a.solar_masses, msol[i], rtol=1e-9, what='solar masses')
    if ok is not None and not whole:
        check(not ok, 'reported that every halo was read although the number was limited')
    if ok is not None and d['most'] < 0:
        check(ok, 'did not report that every halo was read')
    ctx.label(*[k for k in ('lo', 'hi') if d[k]], 'number limited' if not whole else 'number not limited')
    return d['n'] >= 2 and 0 < len(keep)


@law(LAWS, st.tuples(texts(), st.sampled_from([None, None, 250, 60.])), 700, 7000, large=(30, 8, 60))
def halo_cubes(t, ctx):
    d, out = t
    r = rows(d)
    h, nb, LB, pos, mass, vel = sim(d)
    msol = r[:, 16] * mass
    lo, hi = limits(d, msol)
    rng = np.random.default_rng(d['seed'] + 1)
    path = os.path.join(ctx.tmpdir(), '%.3fhalo.dat' % d['z'])
    with open(path, 'w') as f:
        for q in r:
            f.write('  ' + '  '.join(repr(float(v)) for v in q) + '\n')
    keep, whole = select(d, r, msol, lo, hi)
    if d['start'] == 0 and d['most'] == -1 and d['seed'] % 2:
        # lines with a single number separate blocks of the full catalogue
        with open(path, 'w') as f:
            for i, q in enumerate(r):
                if i % 3 == 0:
                    f.write('   %d\n' % i)
                f.write('  ' + '  '.join(repr(float(v)) for v in q) + '\n')
        ctx.label('blocks')
    init = dict(box_len=d['box'])
    if out:
        init['output_len'] = out
    o, ok = load(hl.HaloCubeP3MFull, d, path, limit_kw(d, lo, hi), init, ctx)
    check(len(o.halos) == len(keep), '%d halos selected, expected %d', len(o.halos), len(keep))
    if not keep:
        return False
    L = float(out or d['box'])
    z = float('%.3f' % d['z'])
    check(o.z == z, 'redshift %s', o.z)

    def wrapped(x):
        x = x * L / nb
        return np.where(x < 0, x + L, np.where(x > L, x - L, x))
    k = np.array(keep)
    close(call(o.get, 'pos'), wrapped(r[k, :3]), rtol=1e-9, scale=L, what='positions')
    close(call(o.get, 'pos_cm'), wrapped(r[k, 3:6]), rtol=1e-9, scale=L, what='centres of mass')
    close_each(call(o.get, 'vel'), r[k, 6:9] * vel(z), rtol=1e-9, what='velocities')
    close_each(call(o.get, 'vel_disp'), r[k, 12:15] * vel(z), rtol=1e-9, what='velocity dispersions')
    close_each(call(o.get, 'm'), msol[k] * h, rtol=1e-8, what='masses in Msun/h')
    close_each(call(o.get, 'l'), r[k, 9:12] * vel(z) * pos * h * mass * h, rtol=1e-8, what='angular momenta')
    close_each([a.solar_masses for a in o.halos], msol[k], rtol=1e-9, what='solar masses')
    close_each([a.mp for a in o.halos], r[k, 17], rtol=0, what='particle numbers')
    if ok is not None and not whole:
        check(not ok, 'reported that every halo was read although the number was limited')
    if ok is not None and d['most'] < 0:
        check(ok, 'did not report that every halo was read')
    return d['n'] >= 2


@law(LAWS, st.tuples(texts(), st.sampled_from(['vir', '200b', '500c', 'vir']), st.sampled_from(['list', 'ascii'])), 600, 6000, large=(30, 8, 60))
def rockstar(t, ctx):
    d, mdef, ext = t
    rng = np.random.default_rng(d['seed'])
    n = d['n']
    names = {'list': ['ID', 'DescID', 'Mvir', 'Vmax', 'Vrms', 'Rvir', 'Rs', 'Np', 'X', 'Y', 'Z', 'VX', 'VY', 'VZ', 'JX', 'JY', 'JZ', 'Spin', 'M200b', 'M500c', 'R200b', 'R500c'],
             'ascii': ['id', 'num_p', 'mvir', 'mbound_vir', 'rvir', 'vmax', 'rvmax', 'vrms', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'Jx', 'Jy', 'Jz', 'm200b', 'r200b', 'm500c', 'r500c']}[ext]
    names = names[:1] + [names[i] for i in _shuffle_keep_vectors(names, rng)]
    vals = rng.normal(size=(n, len(names))) * 50
    pm = float('%.6e' % 10**rng.uniform(5, 8))
    for i, q in enumerate(names):
        if q.lower()[0] == 'm' and q.lower() != 'mbound_vir':
            vals[:, i] = np.round(pm * rng.integers(10, 1000, n), 3)
    a = float('%.6f' % (1 / (1 + d['z'])))
    om = float('%.6f' % rng.uniform(0.2, 0.4))
    path = os.path.join(ctx.tmpdir(), 'out_3.' + ext)
    head = ['#' + ' '.join(names), '#a = %f' % a]
    cosm, part, last = (2, 5, 15) if ext == 'list' else (3, 6, 19)
    while len(head) <= last:
        k = len(head)
        head.append('#Om = %f; Ol = %f; h = %f' % (om, 1 - om, 0.678) if k == cosm else ('#Particle mass: %.6e Msun/h' % pm if k == part else '#some header line %d' % k))
    if ext == 'ascii':
        head[part] = '#Particle mass: %.6e Msun/h' % pm
    with open(path, 'w') as f:
        f.write('\n'.join(head) + '\n')
        for q in vals:
            f.write(' '.join(repr(float(v)) for v in q) + '\n')
    kw = {} if d['most'] == -1 else dict(max_select_number=d['most'])
    want = n if d['most'] < 0 else min(n, d['most'])
    if d['route'] == 'init':
        o, ok = call(hl.HaloRockstar, path, mass_def=mdef, **kw), None
    else:
        o = call(hl.HaloRockstar, mass_def=mdef)
        if d['route'] == 'reread':
            call(o.read_from_file, path)
        ok = call(o.read_from_file, path, **kw)
    check(len(o.halos) == want, '%d halos read, expected %d of %d', len(o.halos), want, n)
    if n:
        close(o.z, 1 / a - 1, rtol=1e-12, what='redshift')
        close([o.Om, o.Ol, o.h], [float('%f' % om), float('%f' % (1 - om)), 0.678], rtol=1e-12, what='cosmology of the header')
        close(o.part_mass, pm, rtol=1e-12, what='particle mass')
    if ok is not None:
        check(bool(ok) == (want == n), 'returned %s with %d of %d halos read', ok, want, n)
    if not want:
        return False
    up = (lambda s: s) if ext == 'list' else (lambda s: s.lower() if s[0] != 'J' else s[0] + s[1:].lower())
    col = lambda s: vals[:want, names.index(up(s))]
    close_each(call(o.get, 'm'), col('M' + mdef), rtol=1e-12, what='masses M' + mdef)
    close_each(call(o.get, 'r'), col('R' + mdef), rtol=1e-12, what='radii')
    for v, q in (('pos', 'XYZ'), ('pos_cm', 'XYZ'), ('vel', ['VX', 'VY', 'VZ']), ('l', ['JX', 'JY', 'JZ'])):
        close_each(call(o.get, v), np.stack([col(s) for s in q], axis=1), rtol=1e-12, what=v)
    close_each(call(o.get, 'vel_disp'), col('Vrms'), rtol=1e-12, what='velocity dispersions')
    same([q.mp for q in o.halos], np.round(col('M' + mdef) / pm).astype(int), 'particle numbers')
    return n >= 2


def _shuffle_keep_vectors(names, rng):
    """An order of the columns after the first that keeps vector components together."""
    groups, i = [], 1
    while i < len(names):
        k = 3 if names[i].lower() in ('x', 'vx', 'jx') else 1
        groups.append(list(range(i, i + k)))
        i += k
    return [j for g in rng.permutation(len(groups)) for j in groups[g]]


# ---------------------------------------------------------------- CubeP3M binary catalogues and particles

@st.composite
def cubes(draw):
    nodes = draw(st.integers(1, 3))
    return dict(per=[draw(gen.side(0, 5)) for _ in range(nodes)], seed=draw(gen.seeds()), z=draw(st.sampled_from([0, 6, 8.515, 12.0])),
                node=draw(st.sampled_from([None, None, 0, nodes - 1])), mdef=draw(st.sampled_from(['vir', 'odc'])), pid=draw(st.booleans()),
                cosm=draw(st.booleans()), twice=draw(st.booleans()), slash=draw(st.booleans()), **draw(sims()))


@law(LAWS, cubes(), 400, 4000, large=(40, 8, 60))
def cubep3m(d, ctx):
    if d['z'] == 0:
        d = dict(d, z=0.0)
    h, nb, LB, pos, mass, vel = sim(d)
    rng = np.random.default_rng(d['seed'])
    root = os.path.join(ctx.tmpdir(), 'halos')
    per = []
    for i, n in enumerate(d['per']):
        os.makedirs(os.path.join(root, 'node%d' % i))
        q = rng.normal(size=(n, 25)).astype('f4') * 2
        q[:, :3] = rng.uniform(-0.02, 1.02, (n, 3)) * nb
        q[:, 7:10] = rng.uniform(-0.02, 1.02, (n, 3)) * nb
        q[:, 3:7] = 10**rng.uniform(0, 4, (n, 4))
        with open(os.path.join(root, 'node%d' % i, '%.3fhalo%d.dat' % (d['z'], i)), 'wb') as f:
            np.array([n], 'i4').tofile(f)
            np.array([200., 178.], 'f4').tofile(f)
            for v in q:
                v[:22].astype('f4').tofile(f)
                if d['pid']:
                    rng.integers(0, 10**9, 50).astype('i8').tofile(f)
                    rng.normal(size=300).astype('f4').tofile(f)
                else:
                    rng.normal(size=6).astype('f4').tofile(f)
        per.append(q)
    q = np.concatenate(per if d['node'] is None else [per[d['node']]]).astype(float)
    o = call(hl.HaloCubeP3M, root + ('/' if d['slash'] else ''), d['z'], node=d['node'], mass_def=d['mdef'], pid_flag=d['pid'], cosm_unit=d['cosm'])
    if d['twice']:
        call(o.read_from_file, root + '/', d['z'], d['node'], d['mdef'], d['pid'], d['cosm'])
    check(o.nhalo == len(q) and len(o.halos) == len(q), '%s halos in the list, %s reported, expected %d', len(o.halos), o.nhalo, len(q))
    if not len(q):
        return False
    m, r = (q[:, 3], q[:, 5]) if d['mdef'] == 'vir' else (q[:, 4], q[:, 6])
    disp = np.linalg.norm(q[:, 16:19], axis=1)
    if d['cosm']:
        c = pos * h
        wrap = lambda x: np.where(x * c < 0, x * c + d['box'], np.where(x * c > d['box'], x * c - d['box'], x * c))
        want = dict(pos=wrap(q[:, :3]), pos_cm=wrap(q[:, 7:10]), m=m * mass * h, r=r * c, vel=q[:, 10:13] * vel(d['z']), vel_disp=disp * vel(d['z']),
                    l=q[:, 13:16] * vel(d['z']) * c * mass * h)
        sc = d['box']
    else:
        want = dict(pos=q[:, :3], pos_cm=q[:, 7:10], m=m, r=r, vel=q[:, 10:13], vel_disp=disp, l=q[:, 13:16])
        sc = nb
    for k, w in want.items():
        g = call(o.get, k)
        if k.startswith('pos'):
            close(np.asarray(g, float), w, rtol=1e-6, scale=sc, what='get(%r)' % k)
        else:
            close_each(np.asarray(g, float), w, rtol=3e-5, what='get(%r)' % k)
    return len(q) >= 2


@law(LAWS, cubes(), 200, 2000, large=(40, 6, 40))
def particles(d, ctx):
    """Counts, identifiers and the particles themselves as a whole (not the order of numbers inside the file)."""
    rng = np.random.default_rng(d['seed'])
    root = os.path.join(ctx.tmpdir(), 'part')
    per, ids = [], []
    for i, n in enumerate(d['per']):
        os.makedirs(os.path.join(root, 'node%d' % i))
        head = lambda f: (np.array([n], 'i4').tofile(f), np.array([1 / (1 + d['z']), 1, 1], 'f4').tofile(f), np.array([7], 'i4').tofile(f),
                          np.zeros(3, 'f4').tofile(f), np.zeros(3, 'i4').tofile(f), np.array([8], 'f4').tofile(f))
        q, p = rng.normal(size=(n, 6)).astype('f4'), rng.integers(0, 2**40, n)
        with open(os.path.join(root, 'node%d' % i, '%.3fxv%d.dat' % (d['z'], i)), 'wb') as f:
            head(f)
            q.tofile(f)
        with open(os.path.join(root, 'node%d' % i, '%.3fPID%d.dat' % (d['z'], i)), 'wb') as f:
            head(f)
            p.astype('i8').tofile(f)
        per.append(q)
        ids.append(p)
    o = call(nf.NbodyFile, root, z=d['z'], node=d['node'], pid_file=d['pid'])
    if d['node'] is None:
        check(o.npart == sum(d['per']), '%s particles reported, expected %d', o.npart, sum(d['per']))
        call(o.read_from_file)
    w = [d['node']] if d['node'] is not None else list(range(len(per)))
    n = sum(d['per'][i] for i in w)
    check(len(o.nbody) == n and o.npart == n, '%d particles read, %s reported, expected %d', len(o.nbody), o.npart, n)
    if n:
        got = np.sort(np.concatenate([np.r_[p.pos, p.vel] for p in o.nbody]))
        same(got, np.sort(np.concatenate([per[i].ravel() for i in w])), 'numbers in the particle list')
        if d['pid']:
            same([p.pid for p in o.nbody], np.concatenate([ids[i] for i in w]), 'particle identifiers')
    return n >= 2


# ---------------------------------------------------------------- pkdgrav

FOF = np.dtype([('rPot', '<f4', (3,)), ('minPot', '<f4'), ('rcen', '<f4', (3,)), ('rcom', '<f4', (3,)), ('vcom', '<f4', (3,)), ('angular', '<f4', (3,)),
                ('inertia', '<f4', (6,)), ('sigma', '<f4'), ('rMax', '<f4'), ('fMass', '<f4'), ('e0', '<f4'), ('e1', '<f4'), ('rHalf', '<f4')])


@law(LAWS, st.tuples(st.lists(gen.side(0, 5), min_size=1, max_size=3), gen.seeds(), gen.nice_floats(1, 1000), st.booleans(),
                     st.sampled_from(['.txt', '.npy'])), 200, 2000, large=(40, 6, 40))
def pkdgrav_halos(t, ctx):
    per, seed, L, wrapper, ext = t
    rng = np.random.default_rng(seed)
    d = ctx.tmpdir()
    data, paths = [], []
    for i, n in enumerate(per):
        q = np.zeros(n, FOF)
        for k in FOF.names:
            q[k] = rng.uniform(-0.5, 0.5, q[k].shape)
        q['fMass'] = 10**rng.uniform(-8, -2, n)
        paths.append(os.path.join(d, 'fof.%d' % i))
        q.tofile(paths[-1])
        data.append(q)
    al = data[0] if wrapper else np.concatenate(data)
    want = np.c_[al['fMass'].astype(float) * 2.77536627e11 * L**3, (al['rPot'].astype(float) + al['rcom']) * L]
    if wrapper:
        got = call(nf.read_pkdgrav_fof_halo_catalogue, paths[0], L)
    else:
        rd = call(pk.Pkdgrav3data, L, verbose=False)
        raw = call(rd.read_fof_data, paths if len(paths) > 1 or seed % 2 else paths[0])
        same(raw['fMass'], al['fMass'], 'halos in file order')
        got = call(rd.array_fof_data)
        if len(al):
            f = os.path.join(d, 'out' + ext)
            call(rd.save_fof_data, f)
            same(np.load(f) if ext == '.npy' else np.loadtxt(f, ndmin=2), got, 'saved halos')
    if not len(al):
        check(len(got) == 0, 'halos from nothing')
        return False
    close(got[:, 0], want[:, 0], rtol=1e-5, what='halo masses')
    close(got[:, 1:], want[:, 1:], rtol=1e-6, scale=L, what='halo positions')
    return len(al) >= 2


TIPSY = dict(gas=['mass', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'rho', 'temp', 'hsmooth', 'metals', 'phi'], dark=['mass', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'eps', 'phi'],
             star=['mass', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'metals', 'tform', 'eps', 'phi'])


@law(LAWS, st.tuples(st.tuples(gen.side(0, 5), gen.side(0, 5), gen.side(0, 5)), gen.seeds(), gen.nice_floats(0.05, 1)), 150, 1500, large=(40, 6, 40))
def tipsy_particles(t, ctx):
    """The particles of a (big-endian) tipsy file, by kind, and its header."""
    n, seed, a = t
    rng = np.random.default_rng(seed)
    f = os.path.join(ctx.tmpdir(), 'snap.00001')
    parts = {k: rng.normal(size=(c, len(TIPSY[k]))).astype('f4') for k, c in zip(TIPSY, n)}
    files._w(f, struct.pack('>d6i', a, sum(n), 3, *n, 7), *[parts[k].astype('>f4').tobytes() for k in TIPSY])
    got = call(call(pk.Pkdgrav3data, 100., verbose=False).read_particles, f)
    h = got['header']
    check([h['time'], h['N'], h['Dims'], h['Ngas'], h['Ndark'], h['Nstar']] == [a, sum(n), 3, *n], 'header', h)
    for k, c in zip(TIPSY, n):
        check(len(got[k]) == c, '%d %s particles, expected %d', len(got[k]), k, c)
        for i, q in enumerate(TIPSY[k]):
            same(np.asarray(got[k][q], 'f4'), parts[k][:, i], '%s of %s particles' % (q, k))
    return sum(c > 0 for c in n) >= 2


@law(LAWS, st.tuples(gen.side(5, 30), gen.seeds(), gen.nice_floats(0, 30), st.booleans(), st.sampled_from([None, None, 1, 2, 3, 5]), st.sampled_from(['none', 'nodes', 'between'])), 200, 2000, large=(8, 4, 30))
def pkdgrav_power(t, ctx):
    """The spectrum of a pkdgrav power file: as tabulated, interpolated (a smooth curve through the table) or averaged over a trailing window."""
    n, seed, z, head, win, how = t
    rng = np.random.default_rng(seed)
    lk = np.sort(rng.uniform(-2, 1, n)) if seed % 2 and n < 40 else np.linspace(-2, 1, n) + rng.uniform(-0.02, 0.02, n) * min(1, 40 / n)
    if np.diff(lk).min() < 1e-3:
        return False
    c = rng.normal(size=4)
    lp = sum(q * lk**i for i, q in enumerate(c)) if how == 'between' else rng.uniform(-3, 3, n)   # a cubic: splines are exact
    f = os.path.join(ctx.tmpdir(), 'sim.00010.pk')
    rest = rng.uniform(0, 9, n)
    with open(f, 'w') as o:
        if head:
            o.write('# z=%r\n# k P(k) N\n' % z)
        for row in zip(10**lk, 10**lp, rest):
            o.write('%.17g %.17g %.17g\n' % row)
    kw = {}
    if win:
        kw['window_size'] = win
    if how == 'nodes':
        i = np.sort(rng.choice(n, rng.integers(1, n + 1), replace=False))
        kw['ks'] = 10**lk[i]
        lw = lp[i]
    elif how == 'between':
        x = np.sort(rng.uniform(lk[0], lk[-1], rng.integers(1, 12)))
        kw['ks'] = 10**x
        lw = sum(q * x**i for i, q in enumerate(c))
    else:
        lw = lp
    rd = call(pk.Pkdgrav3data, 100., verbose=False)
    k, p = call(rd.read_pk_data, f, **kw)
    close(np.asarray(k), kw.get('ks', 10**lk), rtol=1e-12, what='wavenumbers')
    if win:
        lw = np.array([lw[max(0, i - win + 1):i + 1].mean() for i in range(len(lw))])
    close(np.log10(np.asarray(p)), lw, rtol=0, atol=1e-7 if how != 'none' else 1e-10, what='log of the power')
    close(rd.pk_data['k'], 10**lk, rtol=1e-12, what='tabulated wavenumbers'), close(rd.pk_data['P'], 10**lp, rtol=1e-12, what='tabulated power')
    if head:
        check(rd.pk_data['z'] == z and len(rd.pk_data['header']) == 2, 'header', rd.pk_data['header'])
    return how != 'none' or bool(win)


@law(LAWS, st.tuples(gen.side(1, 6, 30), gen.seeds(), gen.nice_floats(1, 1000), st.booleans(), st.booleans()), 150, 1500, large=(5, 4, 30))
def pkdgrav_density(t, ctx):
    n, seed, L, given, wrapper = t
    q = np.random.default_rng(seed).uniform(0.1, 3, (n, n, n)).astype('f4')
    f = os.path.join(ctx.tmpdir(), 'dens.%d' % n)
    q.tofile(f)
    kw = dict(nGrid=n) if given else {}
    got = call(nf.read_pkdgrav_density_grid, f, L, **kw) if wrapper else call(call(pk.Pkdgrav3data, L, verbose=False, **kw).load_density_field, f)
    w = q.T.astype(float)
    close(got, w / w.mean() - 1, rtol=3e-6, scale=3., what='density contrast')
    return n > 1


# ---------------------------------------------------------------- gridding

@st.composite
def grids(draw):
    return dict(n=draw(gen.side(1, 12)), g=draw(gen.side(1, 6, 30)), L=draw(gen.nice_floats(1, 500)), seed=draw(gen.seeds()),
                spread=draw(st.sampled_from([1., 1., 0.3, 0.0])), mu=draw(st.sampled_from([None, 'Msun', 'kg', 'g'])),
                pu=draw(st.sampled_from([None, 'Mpc', 'kpc', 'cm'])), bu=draw(st.sampled_from([None, 'Mpc', 'kpc'])))


def objects(d):
    """Cells, positions as fractions of the box, masses."""
    rng = np.random.default_rng(d['seed'])
    n, g = d['n'], d['g']
    base = rng.integers(0, g, 3)
    cell = rng.integers(0, g, (n, 3))
    cell = np.where(rng.uniform(size=(n, 1)) < d['spread'], cell, base)
    frac = (cell + rng.uniform(0.02, 0.98, (n, 3))) / g
    return cell, frac, 10**rng.uniform(8, 12, n)


def summed(cell, m, g):
    w = np.zeros((g, g, g))
    for c, v in zip(cell, m):
        w[tuple(c)] += v
    return w


@law(LAWS, grids(), 600, 6000, large=(30, 8, 60))
def gridded_halos(d, ctx):
    cell, frac, m = objects(d)
    g, L = d['g'], d['L']
    M = m if d['mu'] is None else (m * U.Msun).to(d['mu'])
    P = frac * L if d['pu'] is None else (frac * L * U.Mpc).to(d['pu'])
    B = L if d['bu'] is None else (L * U.Mpc).to(d['bu'])
    got, edges, num = call(nf.halo_list_to_grid, M, P, B, g)
    w = summed(cell, m, g)
    close(got, w, rtol=1e-9, what='mass on the grid (masses %s, positions %s, box %s)' % (d['mu'], d['pu'], d['bu']))
    close(np.sum(got), m.sum(), rtol=1e-12, what='total mass')
    ctx.label('shared cell' if np.unique(cell, axis=0).shape[0] < d['n'] else 'no shared cell')
    return d['n'] >= 2


@law(LAWS, st.tuples(grids(), st.sampled_from(['cm', 'mpc', 'Mpc', 'CM', 'grid', None]), st.sampled_from(['kg', 'gram', 'g', 'Msun', 'msun', None])), 500, 5000, large=(30, 8, 60))
def halo_grids(t, ctx):
    d, pu, mu = t
    cell, frac, m = objects(d)
    g, L = d['g'], d['L']
    o = call(nf.Halo2Grid, L, g)
    f = {'cm': L * 3.085677581491367e24, 'mpc': L}.get((pu or '').lower(), g)
    k = {'kg': 1.988409870698051e30, 'gram': 1.988409870698051e33, 'g': 1.988409870698051e33}.get(mu or '', 1.)
    call(o.set_halo_pos, frac * f, **({} if pu is None else dict(unit=pu)))
    call(o.set_halo_mass, m * k, **({} if mu is None else dict(unit=mu)))
    close(o.pos_grid, frac * g, rtol=1e-12, what='positions in grid units from %s' % pu)
    close_each(o.mass_Msun, m, rtol=1e-12, what='masses from %s' % mu)
    w = summed(cell, m, g)
    p, v = call(o.halo_mass_on_grid)
    same(p, np.argwhere(w > 0), 'occupied cells')
    close_each(v, w[w > 0], rtol=1e-9, what='masses of occupied cells')
    q = np.random.default_rng(d['seed'] + 5).uniform(0.05, 2, d['n'])
    wq = summed(cell, q, g)
    p, v = call(o.halo_value_on_grid, q)
    same(p, np.argwhere(wq > 0), 'occupied cells')
    close_each(v, wq[wq > 0], rtol=1e-9, what='values of occupied cells')
    got = call(o.value_on_grid, frac * g, q)[0]
    close(got, wq, rtol=1e-9, what='values on the grid')
    cnt = summed(cell, np.ones(d['n']), g)
    mean = call(o.value_on_grid, frac * g, q, statistic='mean')[0]
    with np.errstate(all='ignore'):
        close(mean[cnt > 0], (wq / cnt)[cnt > 0], rtol=1e-9, what='mean values on the grid')
    p2, v2 = call(o.halo_mass_on_grid, pos=frac * g, mass=q)
    same(p2, np.argwhere(wq > 0), 'occupied cells of given masses')
    close_each(v2, wq[wq > 0], rtol=1e-9, what='given masses')
    return d['n'] >= 2


@law(LAWS, st.tuples(grids(), st.sampled_from(['hm', 'lm', 'both']), st.integers(0, 3)), 200, 2000, large=(20, 6, 40))
def gridded_sources(t, ctx):
    d, which, extra = t
    t2c.set_sim_constants(114.)
    mass = co.rho_crit(0.7) * 0.27 * (114. / 0.7 * co.MPC_CM / 6144)**3 * MSUN
    cell, frac, m = objects(d)
    m2 = m[::-1] * 0.3
    f = os.path.join(ctx.tmpdir(), '9.000-coarsest_wsubgrid_sources.dat')
    with open(f, 'w') as o:
        o.write('%d 0.0\n' % d['n'])
        for c, a, b in zip(cell, m, m2):
            o.write('%d %d %d %r %r\n\n' % (*(c + 1), float(a / mass), float(b / mass)))
    s = call(t2c.SourceFile, f, mass=which)
    tot = {'hm': m, 'lm': m2, 'both': m + m2}[which]
    g = d['g'] + extra
    call(s.grid_sources, g)
    close(s.sources_coeval, summed(cell, tot, g), rtol=1e-8, what='sources on the grid')
    return d['n'] >= 2


@law(LAWS, st.tuples(gen.nice_floats(1, 1000), st.one_of(st.integers(1, 5000), st.lists(st.integers(1, 5000), min_size=1, max_size=4)),
                     st.sampled_from(['Planck18', 'planck15', 'WMAP9', 'obj', 'Planck13', 'WMAP7', 'WMAP5', 'WMAP3', 'WMAP1']), st.sampled_from([None, 'Mpc', 'kpc']), st.booleans(),
                     st.sampled_from([1, 10, 32])), 300, 3000)
def particle_masses(t, ctx):
    L, N, cosmo, bu, arr, per = t
    if isinstance(N, list):
        N = np.array(N, float)
    c = ac.FlatLambdaCDM(H0=60, Om0=0.4) if cosmo == 'obj' else {k.lower(): getattr(ac, k) for k in ('Planck18', 'Planck15', 'Planck13', 'WMAP9', 'WMAP7', 'WMAP5', 'WMAP3', 'WMAP1')}[cosmo.lower()]
    arg = c if cosmo == 'obj' else cosmo
    B = L if bu is None else (L * U.Mpc).to(bu)
    rho = (c.critical_density0 * c.Om0).to('Msun/Mpc^3').value
    m = call(nt.particle_number_to_particle_mass, B, N, cosmo=arg)
    close_each(m.to('Msun').value, rho * (L / N)**3, rtol=1e-9, what='particle mass')
    m3 = call(nt.particle_number_to_particle_mass, B, particle_total=np.asarray(N, float)**3, cosmo=arg)
    close_each(m3.to('Msun').value, m.to('Msun').value, rtol=1e-9, what='particle mass from the total number')
    given = m if arr else m.to('Msun').value
    keep = np.array(given.value if arr else given)
    close_each(call(nt.ParticleMass_to_ParticleNumber, B, given, cosmo=arg), np.asarray(N, float), rtol=1e-9, what='particle number of the particle mass')
    same(given.value if arr else given, keep, 'particle mass after the call')
    close_each(call(nt.halo_mass_to_particle_number, B, given * per, per, cosmo=arg), np.asarray(N, float), rtol=1e-9, what='particle number resolving a halo')
    return True
