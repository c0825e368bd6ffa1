"""Reference Fourier-space bookkeeping, independent of the code under test."""
import numpy as np
from .ref import check, fail


def kgrid(shape, box):
    comps = [2 * np.pi * (np.arange(n) - n // 2) / L for n, L in zip(shape, box)]
    g = np.meshgrid(*comps, indexing='ij')
    if len(shape) == 1:
        return g, g[0].copy()      # one dimension: the wavenumber keeps its sign
    return g, np.sqrt(sum(x**2 for x in g))


def ft(a):
    """Centred unnormalised DFT by explicit matrices (no FFT)."""
    a = np.asarray(a, dtype=complex)
    for ax, n in enumerate(a.shape):
        m = np.arange(n)
        W = np.exp(-2j * np.pi * np.outer(m - n // 2, m) / n)
        a = np.moveaxis(np.tensordot(W, a, axes=(1, ax)), 0, ax)
    return a


def ps_nd(a, box, b=None):
    fa = ft(a)
    fb = fa if b is None else ft(b)
    V = float(np.prod(box))
    return (fa * np.conj(fb)).real * (V / a.size)**2 / V


def int_edges(n, k, box, binning, breakpoint=0.1, kmin=None):
    kmin = 2 * np.pi / min(box) if kmin is None else kmin
    kmax = k.max()
    if binning == 'linear':
        return np.linspace(kmin, kmax, n + 1)
    lg = np.exp(np.linspace(np.log(kmin), np.log(kmax), n + 1))
    if binning == 'log':
        return lg
    li = np.linspace(kmin, kmax, n + 1)
    return np.hstack((li[li < breakpoint], lg[lg > breakpoint]))


def compare_bins(mean, counts, values, sure, maybe, what, vscale, rtol=1e-9, empty_nan=True):
    """One bin: the reported mean/count must be that of all `sure` plus some of `maybe` values."""
    vs, vm = values[sure], np.sort(values[maybe])
    ns, nm = vs.size, vm.size
    n = None
    if counts is not None:
        n = int(round(float(counts)))
        check(abs(float(counts) - n) < 1e-6 and ns <= n <= ns + nm,
              '%s: %s modes reported, between %d and %d lie in the bin', what, counts, ns, ns + nm)
    rng = [n] if n is not None else range(ns, ns + nm + 1)
    ok = False
    for c in rng:
        m = c - ns
        if c == 0:
            if np.isnan(mean) or not empty_nan:
                ok = True
            continue
        lo = (vs.sum() + vm[:m].sum()) / c
        hi = (vs.sum() + (vm[nm - m:].sum() if m else 0.0)) / c
        tol = rtol * vscale
        if lo - tol <= mean <= hi + tol:
            ok = True
    check(ok, '%s: mean %.12g, expected %s over %d certain and %d edge modes', what, mean,
          ('%.12g' % vs.mean()) if ns else 'nan', ns, nm)
    return ns


def radial_sets(k, edges, rel=1e-9):
    """For every bin: (certain modes, modes within rounding of an edge)."""
    out = []
    nb = len(edges) - 1
    for i in range(nb):
        lo, hi = edges[i], edges[i + 1]
        el, eh = rel * (1e-30 + abs(lo)), rel * (1e-30 + abs(hi))
        sure = (k > lo + el) & (k < hi - eh)
        maybe = (np.abs(k - lo) <= el) | (np.abs(k - hi) <= eh)
        out.append((sure, maybe))
    return out
