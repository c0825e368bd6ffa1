"""Comparison helpers used by the oracles."""
import numpy as np
from .engine import Violation


def fail(msg, *a):
    try:
        text = msg % a if a else msg
    except TypeError:
        text = ' '.join([msg] + [str(x) for x in a])
    raise Violation(text)


def check(cond, msg, *a):
    if not cond:
        fail(msg, *a)


def close(got, want, rtol=1e-9, atol=0.0, what='value', scale=None):
    """got == want within |d| <= atol + rtol*max(|want|) (array-wide scale, or the given one)."""
    g, w = np.asarray(got), np.asarray(want)
    check(g.shape == w.shape, '%s: shape %s, expected %s', what, g.shape, w.shape)
    if g.size == 0:
        return
    gn, wn = np.isnan(g), np.isnan(w)
    check(np.array_equal(gn, wn), '%s: NaN pattern differs (got %d NaN, expected %d)', what, gn.sum(), wn.sum())
    gi, wi = np.isinf(g), np.isinf(w)
    check(np.array_equal(gi, wi), '%s: infinities differ', what)
    ok = ~(gn | gi)
    if not ok.any():
        return
    s = np.max(np.abs(w[ok])) if scale is None else scale
    tol = atol + rtol * s
    d = np.abs(g[ok] - w[ok])
    if np.max(d) > tol:
        i = int(np.argmax(d))
        fail('%s: got %.12g, expected %.12g (difference %.3g, tolerance %.3g; flat index %d of %d compared, %d differ)',
             what, np.real(g[ok].ravel()[i]), np.real(w[ok].ravel()[i]), d.ravel()[i], tol, i, d.size, int((d > tol).sum()))


def close_each(got, want, rtol=1e-9, atol=0.0, what='value'):
    """got == want element by element: |d| <= atol + rtol*|want|."""
    g, w = np.asarray(got), np.asarray(want)
    check(g.shape == w.shape, '%s: shape %s, expected %s', what, g.shape, w.shape)
    if g.size == 0:
        return
    gn, wn = np.isnan(g), np.isnan(w)
    check(np.array_equal(gn, wn), '%s: NaN pattern differs', what)
    gi, wi = np.isinf(g), np.isinf(w)
    check(np.array_equal(gi, wi) and np.array_equal(g[gi], w[wi]), '%s: infinities differ', what)
    ok = ~(gn | gi)
    d = np.abs(g[ok] - w[ok]) - (atol + rtol * np.abs(w[ok]))
    if d.size and np.max(d) > 0:
        i = int(np.argmax(d))
        fail('%s: got %.12g, expected %.12g (%d of %d differ)', what, np.real(g[ok].ravel()[i]),
             np.real(w[ok].ravel()[i]), int((d > 0).sum()), d.size)


def same(got, want, what='value'):
    g, w = np.asarray(got), np.asarray(want)
    check(g.shape == w.shape, '%s: shape %s, expected %s', what, g.shape, w.shape)
    check(np.array_equal(g, w, equal_nan=g.dtype.kind in 'fc'), '%s: not identical (%d of %d differ)', what,
          int(np.sum(g != w)), g.size)
