"""Independent writers of the simulation file formats (Fortran order, little endian)."""
import numpy as np


def _w(path, *parts):
    with open(path, 'wb') as f:
        for p in parts:
            f.write(p)
    return path


def i4(*v):
    return np.array(v, '<i4').tobytes()


def xfrac(path, a, bits=64, records=True):
    h = i4(12, *a.shape, 12, 8 * a.size) if records else i4(*a.shape)
    return _w(path, h, np.asarray(a, '<f8' if bits == 64 else '<f4').tobytes(order='F'))


def temper(path, a):
    return _w(path, i4(12, *a.shape, 12, 4 * a.size), np.asarray(a, '<f4').tobytes(order='F'))


def density(path, raw):
    return _w(path, i4(*raw.shape), np.asarray(raw, '<f4').tobytes(order='F'))


def cbin(path, a, bits=32, order='C'):
    return _w(path, i4(*a.shape), np.asarray(a, '<f8' if bits == 64 else '<f4').tobytes(order=order))
