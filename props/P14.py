"""P14 simulation data files."""
import json, os, pickle
import numpy as np
from hypothesis import strategies as st
import tools21cm as t2c
from tools21cm import helper_functions as hf, read_files as rf, conv, const
from tools21cm.density_file import ClumpingFile
from tools21cm.irate_file import IonRateFile
from tools21cm.temper_file import TemperFile
from vlib import gen, files, cosmology as co
from vlib.engine import law, call
from vlib.ref import close, close_each, check, same, fail

TITLE = 'Simulation data files survive a write-read round trip'
RULE = ('meshes of 1-9 cells per axis, mostly unequal, values of both signs over many decades, every precision, order and header variant, redshifts in the naming '
        'convention and names without one; non-trivial: the mesh sides differ and the data are not constant')
ASSUMPTIONS = ['little-endian machine, as the files are', 'hdf5, netcdf, zarr and parquet dictionaries are not decided: their libraries are not installed here']
LAWS = []


def data(d, shape=None, dtype=np.float64):
    rng = np.random.default_rng(d['seed'])
    sh = tuple(shape or d['shape'])
    k = d['values']
    a = {'uniform': lambda: rng.uniform(0, 1, sh), 'signed': lambda: rng.normal(size=sh) * 1e3, 'decades': lambda: 10**rng.uniform(-12, 12, sh) * rng.choice([-1, 1], sh),
         'counter': lambda: np.arange(np.prod(sh), dtype=float).reshape(sh), 'zeros': lambda: np.zeros(sh)}[k]()
    a = a.astype(dtype)
    if d.get('layout') == 'F':
        a = np.asfortranarray(a)
    elif d.get('layout') == 'view':
        b = np.zeros(tuple(2 * n for n in sh), dtype)
        b[tuple(slice(None, None, 2) for _ in sh)] = a
        a = b[tuple(slice(None, None, 2) for _ in sh)]
    return a


@st.composite
def mesh(draw, ndim=3, hi=9):
    return dict(shape=draw(gen.shape(ndim, 1, hi)), seed=draw(gen.seeds()), values=draw(st.sampled_from(['uniform', 'signed', 'decades', 'counter', 'zeros'])),
                layout=draw(st.sampled_from(['C', 'F', 'view'])), dtype=draw(st.sampled_from(['f8', 'f8', 'f4'])),
                z=draw(st.integers(0, 40000)) / 1000., digits=draw(st.sampled_from([1, 3, 3, 4])), noz=draw(st.booleans()), deep=draw(st.booleans()))


def nontrivial(d):
    return len(set(d['shape'])) > 1 and d['values'] != 'zeros'


def where(d, ctx, name):
    top = ctx.tmpdir()
    if d['deep']:     # directories may contain digits and underscores as well
        top = os.path.join(top, 'run_2.5n_all', '114Mpc_12.000')
        os.makedirs(top)
    return os.path.join(top, name)


def zstr(d):
    s = '%.*f' % (d['digits'], d['z'])
    return s, float(s)


def meshes(f, a, what):
    check((f.mesh_x, f.mesh_y, f.mesh_z) == a.shape[-3:], '%s: mesh (%s, %s, %s), expected %s', what, f.mesh_x, f.mesh_y, f.mesh_z, a.shape[-3:])


def written(path, header, payload, what):
    with open(path, 'rb') as f:
        b = f.read()
    h = np.frombuffer(b[:4 * len(header)], '<i4')
    for i, v in enumerate(header):
        check(v is None or h[i] == v, '%s: header %s, expected %s', what, list(h), header)
    same(np.frombuffer(b[4 * len(header):], payload.dtype), payload, what + ': file contents')


@law(LAWS, st.tuples(mesh(), st.booleans(), st.booleans(), st.booleans()), 500, 5000, large=(4, 15, 100))
def ionised_fractions(t, ctx):
    d, old, neutral, plain = t
    a = data(d, dtype=np.dtype(d['dtype']))
    s, z = zstr(d)
    path = where(d, ctx, 'xfrac.bin' if d['noz'] else 'xfrac3d_%s.bin' % s)
    a0 = a.copy()
    opt = dict(old_format=old, neutral=neutral, binary_format=plain)
    kw = {k: v for k, v in opt.items() if v}
    call(t2c.XfracFile().write_to_file, path, a, **kw)
    same(a, a0, 'cube after writing')
    stored = ((1.0 - a) if neutral else a).astype('<f4' if old else '<f8')
    written(path, list(a.shape) if plain else [None] + list(a.shape) + [None, None], stored.ravel(order='F'), 'xfrac file')
    f = call(t2c.XfracFile, path, **kw)
    want = 1.0 - stored if neutral else stored
    same(f.xi, want, 'ionised fraction')
    check(f.xi.dtype == (np.float32 if old else np.float64), 'precision %s', f.xi.dtype)
    meshes(f, a, 'xfrac file')
    check(f.z == (-1 if d['noz'] else z), 'redshift %s, expected %s', f.z, -1 if d['noz'] else z)
    check(f.filename == path, 'file name %s', f.filename)
    # a file written by the simulation
    files.xfrac(path, a, bits=32 if old else 64, records=not plain)
    g = t2c.XfracFile()
    call(g.read_from_file, path, **kw)
    st_ = a.astype('<f4' if old else '<f8')
    same(g.xi, 1.0 - st_ if neutral else st_, 'ionised fraction of a simulation file')
    if not d['noz'] and not plain:
        same(call(hf.get_mesh_size, path), np.array(a.shape), 'mesh size of the file')
        if not old and not neutral:
            arr, kind = call(hf.get_data_and_type, path)
            check(kind == 'xfrac', 'type %s', kind)
            same(arr, a.astype('<f8'), 'data of the file')
            arr, kind = call(hf.get_data_and_type, g)
            check(kind == 'xfrac' and arr is g.xi, 'data of a file object')
            same(call(rf.read_c2ray_files, path, file_type='xfrac'), a.astype('<f8'), 'C2Ray file')
            same(call(rf.read_grizzly_files, path), a.astype('<f8'), 'Grizzly file')
    return nontrivial(d)


@law(LAWS, st.tuples(mesh(), st.sampled_from(['raw', 'cgs', 'sim']), st.sampled_from([None, 37., 37., 64., 114., 244.])), 500, 5000, large=(4, 15, 100))
def densities(t, ctx):
    d, way, box = t
    a = np.abs(data(d)) if d['values'] != 'decades' else np.clip(np.abs(data(d)), 1e-3, 1e9)
    if box:
        t2c.set_sim_constants(box)
    nbox = {None: 8000, 37.: 2048, 64.: 3456, 114.: 6144, 244.: 8000}[box]
    unit = co.rho_crit(0.7) * 0.044 * (a.shape[0] / float(nbox))**3
    s, z = zstr(d)
    path = where(d, ctx, 'density.dat' if d['noz'] else '%sn_all.dat' % s)
    a0 = a.copy()
    if way == 'raw':
        w = t2c.DensityFile()
        call(w.write_to_file, path, raw_density=a)
    elif way == 'cgs':
        cgs = a * unit
        w = t2c.DensityFile()
        call(w.write_to_file, path, cgs_density=cgs)
        close_each(w.raw_density, a, rtol=1e-4, what='raw density of the writer')
    else:
        files.density(path, a)
    same(a, a0, 'cube after writing')
    f = call(t2c.DensityFile, path)
    if way == 'cgs':
        close_each(f.raw_density, a.astype('f4').astype(float), rtol=1e-4, what='raw density')
    else:
        same(f.raw_density, a.astype('f4'), 'raw density')
        written(path, list(a.shape), a.astype('<f4').ravel(order='F'), 'density file')
    if unit > 4e-41:       # the single-precision conversion factor of so coarse a mesh loses digits below this
        close_each(np.asarray(f.cgs_density, float), f.raw_density.astype(float) * unit, rtol=1e-4, atol=1e-43, what='cgs density')
        if way == 'raw':
            close_each(np.asarray(w.cgs_density, float), a * unit, rtol=1e-4, atol=1e-43, what='cgs density of the writer')
    meshes(f, a, 'density file')
    g = t2c.DensityFile()
    call(g.read_from_file, path)
    same(g.raw_density, f.raw_density, 'raw density, read into an existing object')
    same(g.cgs_density, f.cgs_density, 'cgs density, read into an existing object')
    check(f.z == (-1 if d['noz'] else z), 'redshift %s, expected %s', f.z, z)
    if not d['noz']:
        same(call(hf.get_mesh_size, path), np.array(a.shape), 'mesh size of the file')
        arr, kind = call(hf.get_data_and_type, path)
        check(kind == 'density', 'type %s', kind)
        same(arr, f.cgs_density, 'data of the file')
        same(call(hf.get_data_and_type, path, raw_density=True)[0], f.raw_density, 'raw data of the file')
        same(call(hf.get_data_and_type, f)[0], f.cgs_density, 'data of the object')
        same(call(hf.get_data_and_type, f, raw_density=True)[0], f.raw_density, 'raw data of the object')
        same(call(rf.read_c2ray_files, path, file_type='dens'), f.cgs_density.astype(float), 'C2Ray file')
    try:
        t2c.DensityFile().write_to_file(path)
    except AssertionError:
        pass
    else:
        fail('a density file was written without data')
    ctx.label(way)
    return nontrivial(d)


@law(LAWS, gen.seeds(), 1, 2, fixed=(11,))
def old_density_format(seed, ctx):
    rng = np.random.default_rng(seed)
    a = rng.uniform(0, 5, (203, 203, 203)).astype('f4')
    path = os.path.join(ctx.tmpdir(), '07.30n_old.dat')
    call(t2c.DensityFile().write_to_file, path, raw_density=a, old_format=True)
    check(os.path.getsize(path) == a.size * 4, 'old density files have no header')
    f = call(t2c.DensityFile, path, old_format=True)
    same(f.raw_density, a, 'old-format density')
    check(f.z == 7.3, 'redshift %s', f.z)


@law(LAWS, st.tuples(mesh(hi=7), st.booleans(), st.sampled_from([None, 37., 114.]), st.sampled_from(['array', 'file', 'object'])), 300, 3000, large=(4, 15, 100))
def velocities(t, ctx):
    d, sim, box, form = t
    if box:
        t2c.set_sim_constants(box)
    v = np.asarray(data(d, [3] + list(d['shape'])))
    s, z = zstr(d)
    path = where(d, ctx, 'velocity.dat' if d['noz'] else '%sv_all.dat' % s)
    v0 = v.copy()
    if sim:
        files._w(path, files.i4(*d['shape']), v.astype('<f4').tobytes(order='F'))
    else:
        call(t2c.VelocityFile().write_to_file, path, v)
    same(v, v0, 'velocities after writing')
    written(path, d['shape'], v.astype('<f4').ravel(order='F'), 'velocity file')
    f = call(t2c.VelocityFile, path)
    same(f.raw_velocity, v.astype('f4').astype(float), 'raw velocity')
    g = t2c.VelocityFile()
    call(g.read_from_file, path)
    same(g.raw_velocity, f.raw_velocity, 'raw velocity, read into an existing object')
    meshes(f, v, 'velocity file')
    check(f.z == (-1 if d['noz'] else z), 'redshift %s, expected %s', f.z, z)
    again = os.path.join(ctx.tmpdir(), 'again.dat')
    call(f.write_to_file, again)
    written(again, d['shape'], v.astype('<f4').ravel(order='F'), 'velocity file written from a loaded one')
    if not d['noz']:
        L, nb = {None: (244., 8000), 37.: (37., 2048), 114.: (114., 6144)}[box]
        cell = L / 0.7 / nb * co.MPC_CM
        tsim = 2 / (3 * np.sqrt(0.27) * 70e5 / co.MPC_CM)
        kms8 = f.raw_velocity * cell / tsim * (1 + z) / 1e5
        close_each(f.kmsrho8, kms8, rtol=1e-4, what='momentum')
        rho = np.random.default_rng(d['seed']).uniform(0.1, 20, d['shape'])
        dp = os.path.join(os.path.dirname(path), '%sn_all.dat' % s)
        files.density(dp, rho)
        arg = rho if form == 'array' else dp if form == 'file' else t2c.DensityFile(dp)
        r = rho if form == 'array' else rho.astype('f4')
        close_each(call(f.get_kms_from_density, arg), kms8 / (r / 8.), rtol=1e-4, what='velocity in km/s')
        close_each(call(rf.read_c2ray_files, path, file_type='vel', density_file=arg), kms8 / (r / 8.), rtol=1e-4, what='velocity of the C2Ray file')
    return nontrivial(d)


@law(LAWS, st.tuples(mesh(), st.sampled_from(['clumping', 'clumping-sim', 'temper', 'irate', 'irate-plain']), st.booleans()), 400, 4000, large=(4, 15, 100))
def other_cubes(t, ctx):
    d, kind, old = t
    a = data(d)
    s, z = zstr(d)
    a4 = a.astype('<f4')
    if kind.startswith('clump'):
        path = where(d, ctx, 'clumping.dat' if d['noz'] else '%sc_all.dat' % s)
        if kind == 'clumping':
            call(ClumpingFile().write_to_file, path, a)
        else:
            files.density(path, a)
        f = call(ClumpingFile, path)
        got = f.raw_clumping
        again = os.path.join(ctx.tmpdir(), 'again.dat')
        call(f.write_to_file, again)
        written(again, list(a.shape), a4.ravel(order='F'), 'clumping file written from a loaded one')
    elif kind == 'temper':
        path = where(d, ctx, 'temperature.bin' if d['noz'] else 'Temper3D_%s.bin' % s)
        files.temper(path, a)
        f = call(TemperFile, path, old_format=old)
        got = f.temper
        e = TemperFile()
        call(e.read_from_file, path)
        same(e.temper, got, 'temperature, read into an existing object')
        if not d['noz']:
            same(call(hf.get_mesh_size, path), np.array(a.shape), 'mesh size of the file')
            arr, typ = call(hf.get_data_and_type, path)
            check(typ == 'temper', 'type %s', typ)
            same(arr, a4, 'data of the file')
            same(call(hf.get_data_and_type, f)[0], a4, 'data of the object')
    else:
        path = where(d, ctx, 'rates.bin' if d['noz'] else 'IonRates3_%s.bin' % s)
        plain = kind == 'irate-plain'
        files._w(path, files.i4(*a.shape) if plain else files.i4(12, *a.shape, 12, 4 * a.size), a4.tobytes(order='F'))
        f = call(IonRateFile, path, old_format=old, binary_format=plain)
        got = f.irate
        if not plain:
            e = IonRateFile()
            call(e.read_from_file, path)
            same(e.irate, got, 'rates, read into an existing object')
    same(got, a4, kind)
    meshes(f, a, kind)
    check(f.z == (-1 if d['noz'] else z), 'redshift %s, expected %s', f.z, z)
    ctx.label(kind)
    return nontrivial(d)


@st.composite
def binary(draw):
    nd = draw(st.sampled_from([3, 3, 3, 1, 2, 4]))
    d = draw(mesh(nd, 6))
    d.update(bits=draw(st.sampled_from([32, 64])), order=draw(st.sampled_from(['C', 'F'])), records=draw(st.booleans()), default=draw(st.booleans()))
    return d


@law(LAWS, binary(), 500, 5000, large=(5, 15, 100))
def plain_binaries(d, ctx):
    if d['default']:
        d = dict(d, order='C', bits=32)
    a = data(d)
    dt = '<f4' if d['bits'] == 32 else '<f8'
    kw = {} if d['default'] else dict(bits=d['bits'], order=d['order'])
    path = where(d, ctx, 'field_7.250.cbin')
    a0 = a.copy()
    call(hf.save_cbin, path, a, **kw)
    same(a, a0, 'array after saving')
    written(path, list(a.shape), a.astype(dt).ravel(order=d['order']), 'cbin file')
    rk = dict(kw, dimensions=a.ndim) if a.ndim != 3 else kw
    got = call(hf.read_cbin, path, **rk)
    same(got, a.astype(dt), 'cbin array')
    check(got.dtype == np.dtype(dt), 'precision %s', got.dtype)
    if a.ndim == 3:
        same(call(hf.get_mesh_size, path), np.array(a.shape), 'mesh size of the file')
        arr, kind = call(hf.get_data_and_type, path, cbin_bits=d['bits'], cbin_order=d['order'])
        check(kind == 'cbin', 'type %s', kind)
        same(arr, a.astype(dt), 'data of the cbin file')
    if d['records']:
        raw = a.astype(dt).tobytes(order=d['order'])
        files._w(path, files.i4(4 * a.ndim, *a.shape, 4 * a.ndim, len(raw)), raw, files.i4(len(raw)))
        same(call(hf.read_cbin, path, records=True, **rk), a.astype(dt), 'cbin array with records')
    for bad in (dict(bits=16), dict(bits=128)):
        for f in (lambda: hf.read_cbin(path, **bad), lambda: hf.save_cbin(path, a, **bad), lambda: hf.read_raw_binary(path, **bad)):
            try:
                f()
            except AssertionError:
                continue
            fail('%s bits accepted', bad)
    if a.ndim == 3:
        n = a.shape[0]
        c = data(d, (n, n, n))
        raw = where(d, ctx, 'cube.raw')
        bits = 64 if d['default'] else d['bits']
        call(hf.save_raw_binary, raw, c, **kw)
        dt = '<f4' if bits == 32 else '<f8'
        written(raw, [], c.astype(dt).ravel(order=d['order']), 'raw binary')
        same(call(hf.read_raw_binary, raw, **kw), c.astype(dt), 'raw binary cube')
        if bits == 32 and d['order'] == 'C':
            same(call(rf.read_21cmfast_files, raw), c.astype(dt), '21cmFAST cube')
    ctx.label('%dD' % a.ndim)
    return nontrivial(d)


@law(LAWS, st.tuples(mesh(), st.sampled_from(['.npy', '.pkl', '.cbin', '.fits', '.bin']), st.booleans(), st.booleans(), st.booleans()), 300, 2000, large=(4, 15, 100))
def save_by_extension(t, ctx):
    d, ext, named, flag, header = t
    n = d['shape'][0]
    a = data(d, (n, n, n) if ext == '.bin' else None)
    top = ctx.tmpdir()
    path = os.path.join(top, 'box%s' % (ext if not named or ext == '.npy' else '.dat'))
    kw = {}
    if named:
        kw['filetype'] = {'.npy': 'npy', '.pkl': 'pickle', '.cbin': 'cbin', '.fits': 'fits', '.bin': 'bin'}[ext]
    if flag and ext in ('.cbin', '.bin'):
        kw.update(bits=32 if ext == '.bin' else 64, order='F')
    if header and ext == '.fits':
        from astropy.io import fits
        h = fits.Header()
        h['ZRED'] = 7.25
        kw['header'] = h
    a0 = a.copy()
    check(call(hf.save_data, path, a, **kw) is True, 'saving reported failure')
    if ext == '.fits':        # overwriting an older file
        call(hf.save_data, path, a, **kw)
    same(a, a0, 'array after saving')
    if ext == '.npy':
        got, want = np.load(path), a
    elif ext == '.pkl':
        with open(path, 'rb') as f:
            got = pickle.load(f)
        want = a
    elif ext == '.cbin':
        got = call(hf.read_cbin, path, **({'bits': 64, 'order': 'F'} if flag else {}))
        want = a.astype('f8' if flag else 'f4')
    elif ext == '.bin':
        got = call(hf.read_raw_binary, path, **({'bits': 32, 'order': 'F'} if flag else {}))
        want = a.astype('f4' if flag else 'f8')
    else:
        got = call(hf.read_fits, path, header=False)
        want = a
        arr, h = call(hf.read_fits, path)
        same(arr, a, 'fits data with header')
        check(h['NAXIS'] == 3 and [h['NAXIS%d' % i] for i in (1, 2, 3)] == list(a.shape[::-1]), 'fits header')
        check(not header or h['ZRED'] == 7.25, 'header entry lost')
    same(got, want, 'data saved as %s' % ext)
    check(os.listdir(top) == [os.path.basename(path)], 'files in the directory: %s', os.listdir(top))
    check(hf.save_data(os.path.join(top, 'x.xyz'), a) is False, 'unknown file type accepted')
    check(not os.path.exists(os.path.join(top, 'x.xyz')), 'unknown file type written')
    ctx.label(ext)
    return nontrivial(d)


@law(LAWS, mesh(), 200, 1500, large=(4, 15, 100))
def brightness_files(d, ctx):
    a = data(d)
    s, z = zstr(d)
    path = where(d, ctx, 'dbt_z%s.npy' % s)
    np.save(path, a)
    arr, kind = call(hf.get_data_and_type, path)
    check(kind == 'dbt', 'type %s', kind)
    same(arr, a, 'brightness temperature')
    same(call(hf.get_mesh_size, path), np.array(a.shape), 'mesh size of the file')
    arr, kind = call(hf.get_data_and_type, a)
    check(arr is a and kind == 'unknown', 'data of an array')
    for bad in (os.path.join(os.path.dirname(path), 'something.txt'), 3, [1, 2]):
        try:
            hf.get_data_and_type(bad)
        except Exception:
            continue
        fail('data of %r', bad)
    return nontrivial(d)


@law(LAWS, mesh(), 150, 1000)
def failed_writes_are_reported(d, ctx):
    a = data(d)
    gone = os.path.join(ctx.tmpdir(), 'no', 'such', 'dir')
    v = np.stack([a, a, a])
    src = np.array([[0, 0, 0, 1e9]])
    for name, f in [('xfrac', lambda p: t2c.XfracFile().write_to_file(p, a)), ('density', lambda p: t2c.DensityFile().write_to_file(p, raw_density=np.abs(a))),
                    ('velocity', lambda p: t2c.VelocityFile().write_to_file(p, v)), ('clumping', lambda p: ClumpingFile().write_to_file(p, a)),
                    ('sources', lambda p: t2c.SourceFile(None).write_to_file(p, src)), ('cbin', lambda p: hf.save_cbin(p, a)), ('raw', lambda p: hf.save_raw_binary(p, a)),
                    ('dictionary', lambda p: rf.write_dictionary_data({'a': 1}, p, 'json'))]:
        try:
            f(os.path.join(gone, 'x.dat'))
        except Exception:
            continue
        fail('writing a %s file into a missing directory went unnoticed', name)


# ---------------------------------------------------------------- sources

@st.composite
def srclist(draw):
    n = draw(gen.side(1, 12))
    return dict(n=n, mesh=draw(gen.side(1, 6, 30)), seed=draw(gen.seeds()), mass=draw(st.sampled_from(['hm', 'lm', 'both'])), box=draw(st.sampled_from([None, 37., 114.])),
                z=draw(st.integers(0, 30000)) / 1000., noz=draw(st.booleans()), wrapped=draw(st.booleans()))


@law(LAWS, srclist(), 500, 5000, large=(10, 15, 100))
def source_lists(d, ctx):
    L, nb = {None: (244., 8000), 37.: (37., 2048), 114.: (114., 6144)}[d['box']]
    if d['box']:
        t2c.set_sim_constants(d['box'])
    rng = np.random.default_rng(d['seed'])
    n, m = d['n'], d['mesh']
    pos = rng.integers(0, m, (n, 3))
    gm = 10**rng.uniform(-1, 7, (n, 2))
    gm[rng.uniform(size=(n, 2)) < 0.2] = 0
    msol = gm * co.rho_crit(0.7) * 0.27 * (L / 0.7 * co.MPC_CM / nb)**3 / 1.989e33
    cols = {'hm': [0], 'lm': [1], 'both': [0, 1]}[d['mass']]
    name = 'list.dat' if d['noz'] else '%.3f-coarsest_wsubgrid_sources.dat' % d['z']
    path = os.path.join(ctx.tmpdir(), name)
    with open(path, 'w') as f:
        f.write('  %d   %d\n' % (n, n))
        for p, q in zip(pos, gm):
            f.write('  %d  %d  %d  %.9e  %.9e\n%s\n' % (p[0] + 1, p[1] + 1, p[2] + 1, q[0], q[1], '   0.0  0.0' if d['wrapped'] else ''))
    s = call(t2c.SourceFile, path, mass=d['mass'])
    check(s.sources_list.shape == (n, 3 + len(cols)), 'list shape %s', s.sources_list.shape)
    same(s.sources_list[:, :3], pos.astype(float), 'positions')
    close_each(s.sources_list[:, 3:], msol[:, cols], rtol=3e-3, what='masses in solar masses')
    scale = s.sources_list[:, 3:] / np.where(gm[:, cols] > 0, gm[:, cols], np.nan)
    check(np.nanmax(scale, initial=1) <= np.nanmin(scale, initial=np.nanmax(scale, initial=1)) * (1 + 1e-7) if np.isfinite(scale).any() else True, 'masses are not proportional to grid masses')
    check(s.z == (-1 if d['noz'] else float('%.3f' % d['z'])), 'redshift %s', s.z)
    # gridding
    call(s.grid_sources, m)
    g = np.zeros((m, m, m))
    for p, q in zip(pos, s.sources_list[:, 3:].sum(axis=1)):
        g[tuple(p)] += q
    close_each(s.sources_coeval, g, rtol=1e-12, what='gridded sources')
    call(s.grid_sources, m)
    close_each(s.sources_coeval, g, rtol=1e-12, what='gridded a second time')
    # round trip
    out = os.path.join(ctx.tmpdir(), name)
    keep = s.sources_list.copy()
    if d['wrapped']:
        call(s.write_to_file, out)
    else:
        call(t2c.SourceFile(None, mass=d['mass']).write_to_file, out, keep)
    r = call(t2c.SourceFile, out, mass=d['mass'])
    same(r.sources_list[:, :3], pos.astype(float), 'positions read back')
    close_each(r.sources_list[:, 3:], keep[:, 3:], rtol=1e-8, what='masses read back')
    check(r.z == s.z, 'redshift read back')
    e = t2c.SourceFile(None, mass=d['mass'])
    call(e.read_from_file, out)
    same(e.sources_list, r.sources_list, 'sources read into an existing object')
    full = np.zeros((n, 2))
    full[:, cols] = keep[:, 3:]
    close_each(call(t2c.SourceFile, out, mass='both').sources_list[:, 3:], full, rtol=1e-8, what='both masses read back')
    ctx.label(d['mass'], 'shared cell' if len({tuple(p) for p in pos}) < n else 'no shared cell')
    return n > 1


# ---------------------------------------------------------------- directories

@st.composite
def listing(draw):
    k = draw(gen.side(1, 12))
    zs = draw(st.lists(st.integers(5000, 15000), min_size=k, max_size=k, unique=True))
    lo, hi = sorted(draw(st.lists(st.one_of(st.integers(4000, 16000), st.sampled_from(zs)), min_size=2, max_size=2)))
    return dict(zs=[z / 1000. for z in zs], lo=lo / 1000., hi=hi / 1000., give=draw(st.sampled_from(['both', 'low', 'high', 'none'])), bracket=draw(st.booleans()),
                kind=draw(st.sampled_from(['xfrac', 'dens', 'source'])), slash=draw(st.booleans()))


@law(LAWS, listing(), 400, 3000, large=(8, 15, 100))
def redshifts_in_a_directory(d, ctx):
    top = ctx.tmpdir()
    name = {'xfrac': 'xfrac3d_%.3f.bin', 'dens': '%.3fn_all.dat', 'source': '%.3f-coarsest_wsubgrid_sources.dat'}[d['kind']]
    for z in d['zs']:
        open(os.path.join(top, name % z), 'w').close()
    for junk in ('notes.txt', 'xfrac3d_average.bin', 'allv_all.dat', 'xn_all.dat', 'q-coarsest_wsubgrid_sources.dat', 'Temper3D_9.000.bin'):
        open(os.path.join(top, junk), 'w').close()
    f = {'xfrac': hf.get_xfrac_redshifts, 'dens': hf.get_dens_redshifts, 'source': hf.get_source_redshifts}[d['kind']]
    zs = np.sort(d['zs'])
    lo = d['lo'] if d['give'] in ('both', 'low') else None
    hi = d['hi'] if d['give'] in ('both', 'high') else None
    kw = {}
    if lo is not None:
        kw['z_low'] = lo
    if hi is not None:
        kw['z_high'] = hi
    arg = top + '/' if d['slash'] else top
    if d['bracket'] and d['give'] == 'both':
        if lo < zs[0] or hi > zs[-1]:
            try:
                f(arg, bracket=True, **kw)
            except Exception:
                return True
            fail('redshifts %s cannot bracket %s-%s', zs, lo, hi)
        got = call(f, arg, bracket=True, **kw)
        lo, hi = zs[zs <= lo].max(), zs[zs >= hi].min()
    else:
        got = call(f, arg, **kw)
    want = np.array([z for z in zs if (lo is None or z >= lo) and (hi is None or z <= hi)])
    same(got, want, 'redshifts of the directory')
    for z in d['zs']:
        check(call(hf.determine_redshift_from_filename, os.path.join(arg, name % z)) == z, 'redshift of %s', name % z)
        check(call(hf.determine_filetype, os.path.join(arg, name % z)) == {'xfrac': 'xfrac', 'dens': 'density', 'source': 'unknown'}[d['kind']], 'type of %s', name % z)
    check(hf.determine_filetype(os.path.join(arg, 'v_all_xfrac3d', '9.0v_all.dat')) == 'velocity', 'the directory decides the type')
    check(hf.determine_filetype('a.cbin') == 'cbin' and hf.determine_filetype('Temper3D_9.0.bin') == 'temper' and hf.determine_filetype('dbt_9.npy') == 'dbt', 'file types')
    check(hf.determine_redshift_from_filename('none.dat') == -1, 'name without a number')
    return len(d['zs']) > 2


# ---------------------------------------------------------------- dictionaries

KEY = st.text(st.sampled_from('abcdefgh_XYZ0123456789'), min_size=1, max_size=8).filter(lambda s: not s[0].isdigit() and s not in ('file', 'args', 'kwds', 'allow_pickle'))
NUM = st.one_of(st.integers(-10**9, 10**9), gen.nice_floats(-1e9, 1e9))
TXT = st.text(st.characters(min_codepoint=32, max_codepoint=0x2fff, exclude_categories=('Cs', 'Cc', 'Zl', 'Zp', 'Cn', 'Co')), max_size=10)
TREE = st.recursive(st.one_of(NUM, st.booleans(), TXT, st.none(), st.lists(NUM, max_size=5)), lambda c: st.dictionaries(KEY, c, max_size=3), max_leaves=6)


@st.composite
def book(draw):
    fmt = draw(st.sampled_from(['pickle', 'pkl', 'json', 'yaml', 'yml', 'npz', 'csv', 'xlsx']))
    if fmt in ('csv', 'npz', 'xlsx'):
        n = draw(st.integers(1, 6))
        val = st.one_of(st.lists(st.integers(-10**9, 10**9), min_size=n, max_size=n), st.lists(gen.nice_floats(-1e9, 1e9), min_size=n, max_size=n))
        data = draw(st.dictionaries(KEY, val, min_size=1, max_size=4))
    else:
        data = draw(st.dictionaries(KEY, TREE, min_size=0, max_size=4))
    return dict(fmt=fmt, data=data, explicit=draw(st.sampled_from([None, 'lower', 'UPPER', 'other name'])), twice=draw(st.booleans()))


def equal(a, b, where=''):
    if isinstance(b, dict):
        check(isinstance(a, dict) and set(a) == set(b), 'keys at %s: %s, expected %s', where, sorted(a) if isinstance(a, dict) else a, sorted(b))
        for k in b:
            equal(a[k], b[k], where + '/' + k)
    elif isinstance(b, list):
        check(isinstance(a, list) and len(a) == len(b), 'list at %s', where)
        for x, y in zip(a, b):
            equal(x, y, where)
    elif isinstance(b, float):
        check(isinstance(a, (float, int)) and abs(a - b) <= 1e-14 * abs(b), 'value at %s: %r, expected %r', where, a, b)
    else:
        check(type(a) is type(b) and a == b, 'value at %s: %r, expected %r', where, a, b)


@law(LAWS, book(), 500, 4000)
def dictionaries(d, ctx):
    fmt = d['fmt']
    if fmt == 'xlsx' and d['explicit'] == 'other name':
        return False
    top = ctx.tmpdir()
    path = os.path.join(top, 'results.' + ('dat' if d['explicit'] == 'other name' else fmt.upper() if d['explicit'] is None and fmt != 'xlsx' and d['twice'] else fmt))
    kw = {} if d['explicit'] is None else dict(format=fmt.upper() if d['explicit'] == 'UPPER' else fmt)
    src = json.loads(json.dumps(d['data']))
    if fmt == 'npz':
        src = {k: np.array(v) for k, v in src.items()}
    if d['twice']:
        call(rf.write_dictionary_data, {k: v for k, v in list(src.items())[:1]} if src else src, path, **kw)
    call(rf.write_dictionary_data, src, path, **kw)
    check(os.listdir(top) == [os.path.basename(path)], 'files written: %s', os.listdir(top))
    got = call(rf.read_dictionary_data, path, **kw)
    if fmt == 'npz':
        check(set(got) == set(src), 'keys %s', sorted(got))
        for k in src:
            same(got[k], src[k], 'array %s' % k)
            check(got[k].dtype == src[k].dtype, 'type of %s', k)
    else:
        equal(got, d['data'])
    for f in (lambda: rf.write_dictionary_data(src, os.path.join(top, 'a.dat')), lambda: rf.read_dictionary_data(path, format='tree')):
        try:
            f()
        except ValueError:
            continue
        fail('an unsupported format was accepted')
    ctx.label(fmt)
    return bool(d['data'])
