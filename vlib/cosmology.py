"""Reference cosmology (flat or curved matter + lambda), independent of the code under test."""
import numpy as np
C = 3.0e5            # km/s, the package's documented value
NU0 = 1420.0         # MHz
MPC_CM = 3.086e24
YR = 3.154e7
_X, _W = np.polynomial.legendre.leggauss(64)


def _quad_log(f, z):
    """Integral of f(z) from 0 to z, by Gauss-Legendre panels in ln(1+z)."""
    z = float(z)
    if z == 0:
        return 0.0
    b = np.log1p(z)
    n = max(1, int(np.ceil(abs(b) * 2)))
    e = np.linspace(0, b, n + 1)
    s = 0.0
    for lo, hi in zip(e[:-1], e[1:]):
        u = 0.5 * (hi - lo) * _X + 0.5 * (hi + lo)
        s += 0.5 * (hi - lo) * np.sum(_W * f(np.expm1(u)) * np.exp(u))
    return s


def E(z, Om, lam, Ok=0.0):
    return np.sqrt(Om * (1 + z)**3 + Ok * (1 + z)**2 + lam)


def cdist(z, h, Om, lam=None, Ok=0.0):
    lam = 1 - Om if lam is None else lam
    z = np.asarray(z, float)
    out = np.array([C / (100 * h) * _quad_log(lambda x: 1 / E(x, Om, lam, Ok), v) for v in z.ravel()])
    return out.reshape(z.shape)


def ldist(z, h, Om, lam):
    Ok = 1 - Om - lam
    d = cdist(z, h, Om, lam, Ok) * 100 * h / C
    if Ok > 1e-12:
        d = np.sinh(np.sqrt(Ok) * d) / np.sqrt(Ok)
    elif Ok < -1e-12:
        d = np.sin(np.sqrt(-Ok) * d) / np.sqrt(-Ok)
    return C / (100 * h) * (1 + np.asarray(z)) * d


def age_gyr(z, h, Om, lam=None):
    lam = 1 - Om if lam is None else lam
    a = 1 / (1 + np.asarray(z, float))
    H = 100 * h * 1e5 / MPC_CM
    if lam < 1e-9:
        t = 2 / 3. / np.sqrt(Om) * a**1.5
    else:
        t = 2 / (3 * np.sqrt(lam)) * np.arcsinh(np.sqrt(lam / Om) * a**1.5)
    return t / H / YR / 1e9


def tvir(M, z, h, Om, lam):
    Ok = 1 - Om - lam
    Omz = Om * (1 + z)**3 / (Om * (1 + z)**3 + lam + Ok * (1 + z)**2)
    d = Omz - 1
    D = 18 * np.pi**2 + 82 * d - 39 * d**2
    return 1.98e4 * (np.asarray(M) * h / 1e8)**(2 / 3.) * (Om / Omz * D / (18 * np.pi**2))**(1 / 3.) * (1 + z) / 10


def rho_crit(h):
    return 3 * (100 * h * 1e5 / MPC_CM)**2 / (8 * np.pi * 6.6732e-8)


def mean_dt(z, h, Om, lam, Ob, Y):
    z = np.asarray(z, float)
    nH = (1 - Y) * Ob * rho_crit(h) / 1.672661e-24
    l0 = 3e10 / 1.42e9
    K = 3 * l0**3 / (32 * np.pi) * 2.85e-15 * 0.068 * nH / (100 * h * 1e5 / MPC_CM) * 1000
    return K * (1 + z)**2 / E(z, Om, lam, 1 - Om - lam)


def zinv(D, h, Om):
    """Redshift of a comoving distance (flat), by Newton steps on the exact distance."""
    D = np.atleast_1d(np.asarray(D, float))
    t = np.expm1(np.linspace(0, np.log(101.), 1500))
    f = np.concatenate([[0], np.cumsum(0.5 * (1 / E(t[1:], Om, 1 - Om) + 1 / E(t[:-1], Om, 1 - Om)) * np.diff(t))]) * C / (100 * h)
    z = np.interp(D, f, t)
    for _ in range(4):
        z = z - (cdist(z, h, Om) - D) * E(z, Om, 1 - Om) * 100 * h / C
    return z


def set_flat(h, om, ob=None, how=0):
    """Put a flat cosmology in force along one of several routes that must all be equivalent."""
    import tools21cm as t2c
    how %= 4
    if how == 2:
        t2c.set_omega_lambda(0.41)
    if how == 3:
        t2c.set_omega_matter(0.99)
        t2c.set_omega_lambda(0.2)
    if how in (0, 1):
        t2c.set_hubble_h(h)
    if ob is not None and how != 0:
        t2c.set_omega_baryon(ob)
    t2c.set_omega_matter(om)
    if how == 0:
        t2c.set_omega_lambda(1 - om)
    if how in (2, 3):
        t2c.set_hubble_h(h)
    if ob is not None and how == 0:
        t2c.set_omega_baryon(ob)
