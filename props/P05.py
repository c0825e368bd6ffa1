"""P05 cosmological conversions."""
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from vlib import gen, cosmology as co
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same

TITLE = 'Cosmological distance, frequency, time and mass conversions are consistent'
RULE = ('h 0.4-1.2, Omega_m 0.05-1, flat (curved only for the luminosity distance), redshifts 0-1100 (inverse distances: below 99), '
        'scalars, lists and integer or float arrays; non-trivial: some redshift or size is positive')
ASSUMPTIONS = ['arcseconds are converted with 3.1415 in the code: angles are compared to 4e-5',
               'inverse distances come from a cubic table, compared to 2e-5 (1+z)']
LAWS = []


@st.composite
def params(draw):
    return dict(h=draw(st.sampled_from([0.7, 0.674]) | gen.nice_floats(0.4, 1.2)),
                Om=draw(st.sampled_from([0.27, 0.315, 1.0]) | gen.nice_floats(0.05, 1.0)))


FORM = st.sampled_from(['float', 'int', 'npfloat', 'list', 'intlist', 'array', 'intarray', 'array', 'one'])


@st.composite
def zs(draw, hi=1100.0, lo=0.0, form=FORM):
    f = draw(form)
    r = st.one_of(gen.nice_floats(lo, min(hi, 30.)), gen.nice_floats(lo, hi))
    if f in ('float', 'npfloat'):
        return dict(form=f, v=[draw(r)])
    if f == 'int':
        return dict(form=f, v=[draw(st.integers(int(np.ceil(lo)), int(hi)))])
    n = 1 if f == 'one' else draw(gen.side(2, 6))
    if f in ('intlist', 'intarray'):
        return dict(form=f, v=draw(st.lists(st.integers(int(np.ceil(lo)), int(hi)), min_size=n, max_size=n)))
    return dict(form=f, v=draw(st.lists(r, min_size=n, max_size=n)))


def arg(d):
    v = d['v']
    return {'float': lambda: float(v[0]), 'int': lambda: int(v[0]), 'npfloat': lambda: np.float64(v[0]), 'list': lambda: list(map(float, v)),
            'intlist': lambda: list(v), 'array': lambda: np.array(v, float), 'intarray': lambda: np.array(v, int),
            'one': lambda: np.array(v, float)}[d['form']]()


def setp(p, how=None):
    co.set_flat(p['h'], p['Om'], how=int(1e4 * (p['h'] + p['Om'])) if how is None else how)


def scalar_out(d):
    return len(d['v']) == 1


def compare(got, want, d, rtol, what, atol=0.0):
    want = np.array(want, float)
    if scalar_out(d):
        check(np.ndim(got) == 0, '%s: a single value in gives %s out', what, np.shape(got))
        want = want.reshape(())
    close_each(got, want, rtol=rtol, atol=atol, what=what)


@law(LAWS, st.tuples(params(), zs()), 1500, 12000, large=(30, 8, 60))
def forward(t, ctx):
    p, d = t
    setp(p)
    ctx.label('form:' + d['form'])
    z = np.array(d['v'], float)
    D = co.cdist(z, p['h'], p['Om'])
    a = arg(d)
    compare(call(t2c.z_to_cdist, a), D, d, 1e-7, 'comoving distance')
    compare(call(t2c.luminosity_distance, arg(d)), (1 + z) * D, d, 1e-6, 'luminosity distance')
    compare(call(t2c.z_to_age, np.array(a) if isinstance(a, list) else a), co.age_gyr(z, p['h'], p['Om']), d, 1e-6, 'age')
    if not isinstance(a, list):
        H = 100 * p['h'] * co.E(z, p['Om'], 1 - p['Om'])
        for f in (t2c.hubble_parameter, t2c.const.Hz):
            g = call(f, a)
            close_each(np.ravel(g), H, rtol=1e-9, what='Hubble parameter')
        nu = call(t2c.z_to_nu, a)
        close_each(np.ravel(nu), co.NU0 / (1 + z), rtol=1e-12, what='frequency')
        close_each(np.ravel(call(t2c.nu_to_z, nu)), z, rtol=1e-10, atol=1e-10, what='redshift of the frequency')
        close_each(np.ravel(call(t2c.nu_to_cdist, nu)), D, rtol=1e-6, atol=1e-6, what='distance of the frequency')
        close_each(np.ravel(call(t2c.nu_to_wavel, nu)), 3e8 / (co.NU0 / (1 + z) * 1e6), rtol=1e-9, what='wavelength')
        close_each(np.ravel(call(t2c.c_to_p, 10.0, a)), 10 / (1 + z), rtol=1e-12, what='proper length')
        close_each(np.ravel(call(t2c.p_to_c, call(t2c.c_to_p, 10.0, a), a)), 10 + 0 * z, rtol=1e-12, what='comoving length of the proper length')
    return bool(np.any(z > 0))


@law(LAWS, st.tuples(params(), zs(hi=98.9)), 800, 6000, large=(30, 8, 60))
def inverse_distance(t, ctx):
    p, d = t
    setp(p)
    ctx.label('form:' + d['form'])
    z = np.array(d['v'], float)
    D = co.cdist(z, p['h'], p['Om'])
    q = dict(d)
    if d['form'] in ('int', 'intlist', 'intarray'):      # integer distances
        q['v'] = [int(x) for x in D]
        lo = co.cdist(np.array([98.9]), p['h'], p['Om'])[0]
        got = call(t2c.cdist_to_z, arg(q))
        back = co.cdist(np.atleast_1d(got), p['h'], p['Om'])
        tol = 2e-5 * 3e3 / p['h'] + 0 * lo
        close_each(back, np.array(q['v'], float), rtol=2e-5, atol=tol * 1e-3 + 0.01, what='distance of the redshift of an integer distance')
    else:
        q['v'] = list(D)
        got = call(t2c.cdist_to_z, arg(q))
    zz = z if d['form'] not in ('int', 'intlist', 'intarray') else None
    if zz is not None:
        if scalar_out(d):
            check(np.ndim(got) == 0, 'redshift of one distance is %s', np.shape(got))
        close_each(np.ravel(got), zz, rtol=2e-5, atol=2e-5, what='redshift of the distance')
        close_each(np.ravel(call(t2c.z_to_cdist, np.atleast_1d(got))), D, rtol=2e-5, atol=0.3, what='distance of the redshift')
    return bool(np.any(z > 0))


@law(LAWS, st.tuples(params(), st.lists(gen.nice_floats(0, 99), min_size=3, max_size=8, unique=True)), 400, 3000)
def monotonic(t, ctx):
    p, z = t
    setp(p)
    z = np.sort(np.array(z))
    if np.min(np.diff(z)) < 1e-3:
        return False
    D = call(t2c.z_to_cdist, z)
    check(np.all(np.diff(D) > 0), 'comoving distance is not increasing with redshift')
    check(np.all(np.diff(call(t2c.z_to_age, z)) < 0), 'age is not decreasing with redshift')
    check(np.all(np.diff(call(t2c.luminosity_distance, z)) > 0), 'luminosity distance is not increasing with redshift')
    zz = call(t2c.cdist_to_z, D)
    check(np.all(np.diff(zz) > 0), 'redshift is not increasing with distance')
    check(np.all(np.diff(call(t2c.z_to_nu, z)) < 0), 'frequency is not decreasing with redshift')
    return True


@law(LAWS, st.tuples(params(), zs(lo=0.05, hi=90., form=st.sampled_from(['float', 'array', 'int', 'one'])), gen.nice_floats(0.1, 3000)), 700, 5000, large=(30, 6, 40))
def angles(t, ctx):
    p, d, s = t
    setp(p)
    ctx.label('form:' + d['form'])
    z = np.array(d['v'], float)
    D = co.cdist(z, p['h'], p['Om'])
    w = s / D                                   # radians of a comoving length s
    got = call(t2c.angular_size_comoving, s, arg(d))
    close_each(np.ravel(got), np.degrees(w), rtol=4e-5, what='angle of a comoving length')
    close_each(np.ravel(call(t2c.angular_size, s, arg(d))), np.degrees(s / 1000. * (1 + z) / D) * 3600, rtol=4e-5, what='angle of a proper length')
    back = call(t2c.deg_to_cdist, got, arg(d))
    close_each(np.ravel(back), s + 0 * z, rtol=1e-8, what='length of the angle')
    close_each(np.ravel(call(t2c.deg_to_cdist, 2.5, arg(d))), D * np.radians(2.5), rtol=4e-5, what='length of 2.5 degrees')
    return True


@law(LAWS, st.tuples(params(), gen.nice_floats(5, 15), gen.nice_floats(0, 50), st.booleans()), 700, 5000)
def virial(t, ctx):
    p, lm, z, arr = t
    setp(p, 0)
    M = 10**lm
    m = np.array([M, 3 * M]) if arr else M
    T = call(t2c.M_to_Tvir, m, z)
    close_each(T, co.tvir(m, z, p['h'], p['Om'], 1 - p['Om']), rtol=1e-8, what='virial temperature')
    close_each(call(t2c.Tvir_to_M, T, z), m, rtol=1e-8, what='mass of the virial temperature')
    return True


@law(LAWS, st.tuples(params(), gen.nice_floats(0.0, 0.9) | st.sampled_from(['+4e-4', '-4e-4', '+0.003', '-0.003']), zs(hi=40., form=st.sampled_from(['float', 'array', 'list', 'int']))), 500, 4000, large=(30, 6, 40))
def curved_luminosity(t, ctx):
    p, L, d = t
    if isinstance(L, str):      # nearly flat
        L = max(1 - p['Om'] - float(L), 0.0)
    Ok = 1 - p['Om'] - L
    t2c.set_hubble_h(p['h'])
    t2c.set_omega_matter(p['Om'])
    t2c.set_omega_lambda(L)
    if abs(Ok) < 1e-6 and L > 0:
        Ok = 0.0
    ctx.label('open' if Ok > 0 else ('closed' if Ok < 0 else 'flat'))
    if L == 0:
        ctx.label('no lambda')
    z = np.array(d['v'], float)
    want = co.ldist(z, p['h'], p['Om'], L)
    got = call(t2c.luminosity_distance, arg(d), k=Ok)
    ok = np.ravel(want) > 0
    if not ok.all():
        return False
    compare(got, want, d, 1e-5, 'luminosity distance')
    return True
