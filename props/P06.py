"""P06 histories of parameter settings."""
import os
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from vlib import gen, fresh, cosmology as co
from vlib.engine import law, call
from props import P27
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Every derived quantity follows the most recently set cosmology and units'
RULE = ('histories of 1-12 setter calls (seven cosmological setters, the simulation box), conversions observed after every call; functions with an optional box length after the box was set; re-imports of the package with other parameters in force; '
        'non-trivial: at least two setter calls that change a value')
ASSUMPTIONS = ['distances and ages are only compared while the parameters in force are flat',
               'virial conversions are only compared while the lambda density was set together with the matter density (see known finding F01)']
SCALE = 1
LAWS = []
NBOX = {37.: 2048, 47.: 3456, 64.: 3456, 114.: 6144, 200.: 3456, 244.: 8000, 425.: 10976, 500.: 13824}

VALUES = {
    'h': st.sampled_from([0.7, 0.674, 0.6]) | gen.nice_floats(0.4, 1.2),
    'Om': st.sampled_from([0.27, 0.315]) | gen.nice_floats(0.05, 1.0),
    'L': st.sampled_from([0.73, 0.685]) | gen.nice_floats(0.0, 0.95),
    'Ob': st.sampled_from([0.044, 0.049]) | gen.nice_floats(0.01, 0.1),
    'ns': gen.nice_floats(0.9, 1.1),
    's8': gen.nice_floats(0.6, 1.0),
    'Y': st.sampled_from([0.2486, 0.24]) | gen.nice_floats(0.0, 0.4),
    'box': st.sampled_from(sorted(NBOX)),
}
OP = st.one_of([st.tuples(st.just(k), v) for k, v in VALUES.items()] +
               [st.tuples(st.just('flat'), VALUES['Om'])])


def setters():
    return {'h': t2c.set_hubble_h, 'Om': t2c.set_omega_matter, 'L': t2c.set_omega_lambda, 'Ob': t2c.set_omega_baryon,
            'ns': t2c.set_ns, 's8': t2c.set_sigma_8, 'Y': t2c.const.set_abundance_helium, 'box': t2c.set_sim_constants}


class Model:
    def __init__(self):
        self.p = dict(h=0.7, Om=0.27, L=0.73, OL=0.73, Ob=0.044, ns=0.96, s8=0.8, Y=0.2486)
        self.setbox(244.)

    def setbox(self, b):
        p = self.p
        LB = b / p['h']
        n = float(NBOX[b])
        H0 = 100 * p['h']
        self.box = dict(b=b, LB=LB, n=NBOX[b], lscale=LB / n * co.MPC_CM, tscale=2. / (3 * np.sqrt(p['Om']) * H0 / co.MPC_CM * 1e5),
                        M_box=co.rho_crit(p['h']) * p['Om'] * (LB * co.MPC_CM)**3)

    def apply(self, op, v):
        if op == 'box':
            self.setbox(v)
        elif op == 'flat':
            self.p.update(Om=v, L=1 - v, OL=1 - v)
        elif op == 'Om':
            self.p.update(Om=v, L=1 - v)
        elif op == 'L':
            self.p.update(L=v, OL=v)
        else:
            self.p[op] = v


def real(op, v):
    s = setters()
    if op == 'flat':
        call(s['Om'], v)
        call(s['L'], 1 - v)
    else:
        call(s[op], v)


def observe(z):
    """Everything a user can read off, as a dictionary of numbers."""
    c, v = t2c.const, t2c.conv
    o = {k: float(getattr(c, k)) for k in ('h', 'H0', 'Omega0', 'OmegaB', 'lam', 'n_s', 'sigma_8', 'abu_he_mass', 'abu_h_mass',
                                            'rho_crit_0', 'rho_matter', 'num_h_0', 'q0')}
    o.update(LB=float(v.LB), nbox=float(v.nbox_fine), M_box=float(v.M_box), M_grid=float(v.M_grid),
             gp=float(t2c.gridpos_to_mpc(10.)), gv=float(t2c.gridvel_to_kms(3., z)), gm=float(t2c.gridmass_to_msol(1000.)),
             mean=float(t2c.mean_dt(z)), hub=float(t2c.hubble_parameter(z)), Hz=float(c.Hz(z)))
    if 0 < o['Omega0'] and abs(o['lam'] + o['Omega0'] - 1) < 1e-9:
        o.update(D=float(t2c.z_to_cdist(z)), age=float(t2c.z_to_age(z)), ld=float(t2c.luminosity_distance(z)),
                 ang=float(t2c.angular_size_comoving(1., z)), nuD=float(t2c.nu_to_cdist(150.)),
                 tau=float(t2c.tau(np.array([1., 0.5, 0.]), np.array([z, z + 1, z + 3]))[0][-1]))
        o['inv'] = float(t2c.cdist_to_z(o['D']))
    o['Tv'] = float(t2c.M_to_Tvir(1e8, z))
    o['Mv'] = float(t2c.Tvir_to_M(1e4, z))
    xi = np.array([0., 0.25, 1.])
    rho = np.array([1., 2., 3.]) * o['rho_crit_0'] * o['OmegaB']
    for i, x in enumerate(t2c.calc_dt(xi, rho, z)):
        o['dt%d' % i] = float(x)
    return o


def expect(m, z):
    p, b = m.p, m.box
    h, Om, L, Ob, Y = p['h'], p['Om'], p['L'], p['Ob'], p['Y']
    rc = co.rho_crit(h)
    flat = abs(Om + L - 1) < 1e-9
    o = dict(h=h, H0=100 * h, Omega0=Om, OmegaB=Ob, lam=L, n_s=p['ns'], sigma_8=p['s8'], abu_he_mass=Y, abu_h_mass=1 - Y,
             rho_crit_0=rc, rho_matter=rc * Om, num_h_0=(1 - Y) * Ob * rc / 1.672661e-24, q0=0.5 * Om - L,
             LB=b['LB'], nbox=b['n'], M_box=b['M_box'], M_grid=b['M_box'] / float(b['n'])**3,
             gp=10 * b['lscale'] / co.MPC_CM, gv=3 * b['lscale'] / b['tscale'] * (1 + z) / 1e5,
             gm=np.log10(1000 * b['M_box'] / float(b['n'])**3 * 5.02785431e-34),
             mean=co.mean_dt(z, h, Om, L, Ob, Y), hub=100 * h * co.E(z, Om, L), Hz=100 * h * co.E(z, Om, L))
    if flat:
        D = float(co.cdist(z, h, Om))
        o.update(D=D, age=float(co.age_gyr(z, h, Om)), ld=(1 + z) * D, ang=np.degrees(1. / D), nuD=float(co.cdist(co.NU0 / 150. - 1, h, Om)),
                 inv=z)
        # Thomson depth: analytic below z, trapezium above
        K = 2 * 3e10 * 6.65e-25 * Ob / Om * rc * 1.074 * (1 - Y) / 1.672661e-24 / (3 * 100 * h * 1e5 / co.MPC_CM)
        f = lambda x, zz: x * (1 + zz)**2 / co.E(zz, Om, L)
        t = K * (co.E(z, Om, L) - 1)
        t += 1.5 * K * Om * ((f(1., z) + f(.5, z + 1)) / 2 * 1 + (f(.5, z + 1) + f(0., z + 3)) / 2 * 2)
        o['tau'] = t
    if abs(p['OL'] - L) < 1e-12:
        o['Tv'] = float(co.tvir(1e8, z, h, Om, L))
        o['Mv'] = 1e8 * (1e4 / o['Tv'])**1.5
    for i, (x, r) in enumerate([(0., 1.), (.25, 2.), (1., 3.)]):
        o['dt%d' % i] = o['mean'] * (1 - x) * r
    return o


TOL = dict(D=1e-7, age=1e-6, ld=1e-6, ang=4e-5, nuD=1e-6, inv=5e-5, gm=1e-9)


def compare(o, w, hist):
    for k, v in w.items():
        if k not in o:
            fail('%s not available after %s', k, hist)
        tol = TOL.get(k, 1e-9)
        if not abs(o[k] - v) <= tol * max(abs(v), 1e-30) + (1e-12 if k in ('q0', 'lam') else 0):
            fail('%s is %.12g after %s, the parameters in force give %.12g', k, o[k], hist, v)


@st.composite
def history(draw):
    return dict(ops=draw(st.lists(OP, min_size=1, max_size=12 if gen._scale[0] == 1 else 40)), z=draw(gen.nice_floats(0.5, 30)), stale=False)


def play(c, ctx, each=True):
    m = Model()
    hist = []
    changed = 0
    for op, v in c['ops']:
        before = dict(m.p), dict(m.box)
        real(op, v)
        m.apply(op, v)
        hist.append('%s=%g' % (op, v))
        ctx.label('op:' + op)
        changed += (dict(m.p), dict(m.box)) != before
        if each:
            w = expect(m, c['z'])
            if c['stale']:
                w['Tv'] = float(co.tvir(1e8, c['z'], m.p['h'], m.p['Om'], m.p['L']))
            compare(call(observe, c['z']), w, ', '.join(hist))
    return m, changed


@law(LAWS, history(), 1500, 12000, large=(3, 30, 200))
def follows(c, ctx):
    m, changed = play(c, ctx)
    return changed >= 2


@law(LAWS, st.tuples(history(), history()), 700, 6000)
def no_memory(t, ctx):
    """Two histories that end with all parameters set to the same values are indistinguishable."""
    a, b = t
    final = {}
    for op, v in a['ops']:
        if op == 'flat':
            final['Om'] = v
            final['L'] = 1 - v
        else:
            final[op] = v
    last = [('h', final.get('h', 0.7)), ('Om', final.get('Om', 0.27)), ('L', final.get('L', 0.73)), ('Ob', final.get('Ob', 0.044)),
            ('ns', final.get('ns', 0.96)), ('s8', final.get('s8', 0.8)), ('Y', final.get('Y', 0.2486)), ('box', final.get('box', 244.))]
    z = a['z']
    for op, v in a['ops']:
        real(op, v)
    for op, v in last:
        real(op, v)
    oa = call(observe, z)
    for op, v in b['ops']:
        real(op, v)
        call(observe, z)
    # other order; matter before lambda, the box last
    for op, v in [last[i] for i in (5, 3, 1, 6, 2, 0, 4, 7)]:
        real(op, v)
    ob = call(observe, z)
    for k in oa:
        check(oa[k] == ob.get(k) or abs(oa[k] - ob[k]) <= 1e-12 * abs(oa[k]), '%s is %r after one history and %r after another with the same final parameters', k, oa[k], ob.get(k))
    return len(a['ops']) + len(b['ops']) >= 3


@law(LAWS, st.sampled_from([36., 48., 100., 245., 0.5, 1000.]), 30, 60, shards=1)
def unknown_box(b, ctx):
    """A box the package has no constants for is rejected, not given those of another one."""
    try:
        t2c.set_sim_constants(b)
    except Exception:
        return True
    fail('box of %g accepted with the mesh of another simulation (%s)', b, t2c.conv.nbox_fine)


# ---------------------------------------------------------------- the whole package
BOXES = ('boxsize', 'box_dims', 'box_length_mpc', 'input_box_size_mpc', 'fov_Mpc')
NOT_LB = ('landy_szalay_estimator', 'apply_uv_response_noise', 'plot_fof_sizes', 'fft_nd')


def setup():
    return st.fixed_dictionaries(dict(h=VALUES['h'], Om=VALUES['Om'], Ob=VALUES['Ob'], ns=VALUES['ns'], s8=VALUES['s8'], Y=VALUES['Y'], box=VALUES['box']))


def put(p, rev=False):
    s = setters()
    ops = [('s8', p['s8']), ('ns', p['ns']), ('Y', p['Y']), ('Ob', p['Ob']), ('Om', p['Om']), ('L', 1 - p['Om']), ('h', p['h'])]
    if rev:
        ops = ops[:4][::-1] + [ops[6]] + ops[4:6]
    for k, v in ops + [('box', p['box'])]:
        call(s[k], v)


def _values(mod, jobs):
    out = []
    for n, s in jobs:
        f, a, k = mod.REG[n].f(mod.V(s))
        out.append(mod.outcome(f, a, k))
    return out


@law(LAWS, st.tuples(setup(), setup(), st.lists(st.tuples(st.sampled_from(P27.NAMES), st.integers(0, 10**6)), min_size=10, max_size=40)), 40, 400)
def nothing_frozen(t, ctx):
    """Every function answers as if the parameters in force had been there when the package was imported."""
    p, q, jobs = t
    put(q)
    _values(P27, jobs[:5])
    put(p, rev=True)
    got = _values(P27, jobs)

    def work():
        import importlib
        return _values(importlib.import_module('props.P27'), jobs)
    want = fresh.evaluate(p, work, os.path.join(ctx.tmpdir(), 'fresh.pickle'))
    if isinstance(want, tuple):
        fail('a package imported with %s in force does not work: %s', p, want[1][-300:])
    for (n, s), g, w in zip(jobs, got, want):
        if 'raised' in (g[0], w[0]):
            check(g == w, '%s: %s, with the parameters in force at import: %s' % (n, g, w))
            continue
        e = P27.REG[n]
        P27.equal(g, w, '%s after setting %s, compared with these parameters at import: ' % (n, p), max(e.tol, 1e-9))
    return True


@law(LAWS, st.tuples(setup(), st.sampled_from(sorted(P27.NAMES)), st.integers(0, 10**6)), 2000, 12000)
def default_box(t, ctx):
    """The box used when none is given is the simulation box in force."""
    p, n, s = t
    put(p)
    f, a, k = P27.REG[n].f(P27.V(s))
    par = P27.DEFAULTS.get('%s.%s' % (getattr(f, '__module__', '').split('.')[-1], getattr(f, '__name__', '')))
    if par is None or f.__name__ in NOT_LB:
        return False
    names = [q['name'] for q in par[len(a):] if q['name'] in BOXES and 'default' in q and q['default'] is None]
    if not names:
        return False
    k = {x: v for x, v in k.items() if x not in names}
    one = P27.outcome(f, a, k)
    f, a, k2 = P27.REG[n].f(P27.V(s))
    two = P27.outcome(f, a, dict(k, **{x: p['box'] / p['h'] for x in names}))
    if 'raised' in (one[0], two[0]):
        check(one == two, '%s without %s: %s, with the box in force: %s' % (n, names, one, two))
        return False
    P27.equal(one, two, '%s without %s, box %g, h %g: ' % (n, names, p['box'], p['h']), max(P27.REG[n].tol, 1e-9))
    return P27.nonzero(one)
