"""P21 the saved file of uv coverage: histories of runs, interruptions and crashes."""
import builtins
import io
import os
import sys
import joblib
import numpy as np
import astropy.units as u
from hypothesis import strategies as st
import tools21cm as t2c
from vlib import gen
from vlib.engine import law, call
from vlib.ref import check, same, fail

TITLE = 'Saved UV coverage survives interruption and is never mixed between setups'
RULE = ('histories of 1-5 runs on one file (pickle or npz), each with its own redshifts, jobs and checkpoint, some interrupted at any executed '
        'function call, some crashing at any byte written or before any rename, some with another set-up; non-trivial: a run found a file of an earlier run')
ASSUMPTIONS = ['a set-up is the grid, box, times, declination and layout (the cosmology is not recorded in the file)',
               'maps are keyed by the redshift to three decimals, so redshifts here have at most three decimals',
               'interruptions of the process that write through other calls than open() are not injected']
LAWS = []


def layout(seed, n=4):
    return np.random.default_rng(seed).normal(size=(n, 3)) * 300.


BASE = dict(ncells=5, boxsize=300., total_int_time=0.5, int_time=600., declination=-30., layout=['array', 1])
CHANGES = [dict(ncells=6), dict(boxsize=310.), dict(boxsize=600.), dict(total_int_time=0.7), dict(int_time=900.), dict(int_time=610.), dict(declination=-25.),
           dict(declination=30.), dict(layout=['array', 2]), dict(layout=['array', 3]), dict(layout=['name', 'AA0.5']), dict(layout=['more', 1])]


def args(s):
    kind, v = s['layout']
    lay = v if kind == 'name' else layout(v, 5 if kind == 'more' else 4) * u.m
    return s['ncells'], lay, dict(boxsize=s['boxsize'], total_int_time=s['total_int_time'], int_time=s['int_time'],
                                  declination=s['declination'], verbose=False)


_cache = {}


def direct(s, z):
    """The coverage of one redshift computed on its own."""
    key = (tuple(sorted((k, str(v)) for k, v in s.items())), z)
    if key not in _cache:
        n, lay, kw = args(s)
        _cache[key] = call(t2c.get_uv_map, n, z, lay, **kw)[0]
    return _cache[key]


def run(s, zs, path, nj=1, ck=16, aslist=False, backend='threading'):
    n, lay, kw = args(s)
    with joblib.parallel_config(backend=backend):
        return t2c.get_uv_map_lightcone(n, list(zs) if aslist else np.array(zs), lay, save_uvmap=path, n_jobs=nj, checkpoint=ck, **kw)


def maps(d):
    return {k: np.asarray(v) for k, v in d.items() if k[:1].isdigit()}


def right(got, s, zs, what):
    m = maps(got)
    for z in zs:
        k = '%.3f' % z
        check(k in m, '%s: no coverage for z=%s', what, k)
    for k in m:
        same(m[k], direct(s, float(k)), '%s: coverage at z=%s' % (what, k))
    n, lay, kw = args(s)
    nant = 4 if s['layout'][0] in ('name', 'array') else 5
    check(int(got['N_ant']) == nant, '%s: %s antennas instead of %s', what, got['N_ant'], nant)
    check(int(got['ncells']) == n and float(got['boxsize']) == s['boxsize'] and float(got['declination']) == s['declination'],
          '%s: set-up entries wrong', what)


def read(path):
    try:
        return t2c.read_dictionary_data(path)
    except Exception as e:
        fail('the saved file cannot be read after an interruption: %s: %s', type(e).__name__, e)


Z = st.sampled_from([6.0, 6.5, 7.0, 7.001, 7.25, 8.0, 8.123, 9.5, 10.0, 12.0, 6.999, 7.002])
SOME = st.lists(Z, min_size=1, max_size=6, unique=True)
RUN = st.fixed_dictionaries(dict(zs=SOME, nj=st.sampled_from([1, 1, 2, 3]), ck=st.sampled_from([1, 2, 2, 3, 2, 1, 16, None, 0]), aslist=st.booleans(),
                                 act=st.sampled_from(['run', 'run', 'change', 'interrupt', 'interrupt', 'crash', 'crash']),
                                 frac=st.integers(0, 100).map(lambda x: x / 100.), more=st.lists(Z, min_size=0, max_size=6, unique=True), which=st.integers(0, len(CHANGES) - 1)))
HIST = st.fixed_dictionaries(dict(runs=st.lists(RUN, min_size=1, max_size=5), ext=st.sampled_from(['.pkl', '.pkl', '.npz', '.pickle']),
                                  sub=st.booleans(), name=st.booleans()))


def interrupted(s, r, path, frac):
    """The run, stopped by KeyboardInterrupt at a fraction of the package's function calls. Returns (finished, completed maps)."""
    pkg = os.path.dirname(t2c.__file__)
    box = dict(n=0, stop=None, done=0)

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(pkg):
            return None
        box['n'] += 1
        if box['stop'] is not None and box['n'] > box['stop']:
            raise KeyboardInterrupt
        if frame.f_code.co_name == 'get_uv_map':
            def local(fr, ev, a):
                if ev == 'return' and a is not None:
                    box['done'] += 1
                return local
            return local
        return None

    def go(p):
        box.update(n=0, done=0)
        old = sys.gettrace()
        sys.settrace(tracer)
        try:
            run(s, r['zs'], p, r['nj'], r['ck'], backend='sequential')
            return True
        except KeyboardInterrupt:
            return False
        finally:
            sys.settrace(old)
    # dry run beside the file, to know how many calls there are
    dry = os.path.join(os.path.dirname(path), 'dry' + os.path.splitext(path)[1])
    if os.path.exists(path):
        with open(path, 'rb') as f, open(dry, 'wb') as g:
            g.write(f.read())
    go(dry)
    total = box['n']
    os.remove(dry) if os.path.exists(dry) else None
    box['stop'] = int(total * frac)
    return go(path), box['done']


class Dying(io.FileIO):
    budget = [None]

    def write(self, b):
        b = bytes(b)
        w = Dying.budget
        if w[0] is not None and len(b) > w[0]:
            super().write(b[:w[0]])
            os._exit(7)
        if w[0] is not None:
            w[0] -= len(b)
        return super().write(b)


def crashed(s, r, path, frac, ctx):
    """The run in a child process that dies after a number of written bytes, or before or after a rename. Returns whether it finished."""
    top = os.path.dirname(path)
    size = 600 + 500 * len(r['zs'])
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            ropen, rrep, rren = builtins.open, os.replace, os.rename
            Dying.budget[0] = int(frac * 3 * size)
            late = frac > 0.93

            def fake(file, mode='r', *a, **k):
                if isinstance(file, (str, bytes, os.PathLike)) and os.fspath(file).startswith(top) and any(c in mode for c in 'wax+'):
                    f = Dying(file, mode.replace('b', '').replace('t', ''))
                    return f if 'b' in mode else io.TextIOWrapper(f)
                return ropen(file, mode, *a, **k)

            def move(f):
                def g(*a, **k):
                    if late:
                        os._exit(7)
                    return f(*a, **k)
                return g
            builtins.open = fake
            os.replace, os.rename = move(rrep), move(rren)
            run(s, r['zs'], path, r['nj'], r['ck'], backend='sequential')
            code = 0
        except BaseException:
            code = 8
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    check(code in (0, 7), 'the run failed (exit %s)', code)
    ctx.label('crashed' if code else 'crash point not reached')
    return code == 0


@law(LAWS, HIST, 600, 4000)
def histories(d, ctx):
    top = ctx.tmpdir()
    if d['sub']:
        top = os.path.join(top, 'v1.0 maps')
        os.makedirs(top)
    path = os.path.join(top, 'uv' + d['ext'])
    s = dict(BASE)
    if d['name']:
        s['layout'] = ['name', 'AA0.5']
    saved = set()
    reused = False
    for i, r in enumerate(d['runs']):
        what = 'run %d (%s)' % (i + 1, r['act'])
        existed = os.path.exists(path)
        reused |= existed
        act = r['act']
        if act in ('interrupt', 'crash'):
            r = dict(r, zs=list(dict.fromkeys(r['zs'] + r['more'])))
        if act == 'change':
            s2 = dict(s, **CHANGES[r['which']])
            if s2 == s:
                continue
            before = open(path, 'rb').read() if existed else None
            try:
                with joblib.parallel_config(backend='threading'):
                    got = run(s2, r['zs'], path if existed else None, r['nj'], r['ck'], r['aslist'])
            except Exception:
                ctx.label('refused')
                check(existed, '%s: another set-up failed without a file', what)
            else:
                right(got, s2, r['zs'], what + ', another set-up')
                if existed:
                    # it may have been recomputed, but then the file must be of one set-up
                    fail('%s: a file of another set-up was used without complaint', what)
            if existed:
                check(open(path, 'rb').read() == before, '%s: the file of another set-up was changed', what)
            continue
        if act == 'interrupt':
            fin, done = interrupted(s, r, path, r['frac'])
            if fin:
                act = 'run'
            else:
                ctx.label('interrupted')
                if os.path.exists(path):
                    f = read(path)
                    right(f, s, [float(z) for z in sorted(saved)], what + ', file afterwards')
                    ck = (r['ck'] or 10**6)
                    new = len(set(maps(f)) - saved)
                    check(new >= (done - 1) // ck * ck, '%s: %d maps were computed but only %d saved with a checkpoint every %s', what, done, new, r['ck'])
                    saved |= set(maps(f))
                else:
                    check(not existed, '%s: the file vanished', what)
                    check(done <= (r['ck'] or 10**6), '%s: %d maps were computed, none saved with a checkpoint every %s', what, done, r['ck'])
        elif act == 'crash':
            if crashed(s, r, path, r['frac'], ctx):
                act = 'run'
            elif os.path.exists(path):
                f = read(path)
                right(f, s, [float(z) for z in sorted(saved)], what + ', file afterwards')
                saved |= set(maps(f))
            else:
                check(not existed, '%s: the file vanished', what)
        if r['act'] == 'run':
            got = call(run, s, r['zs'], path, r['nj'], r['ck'], r['aslist'])
            right(got, s, r['zs'], what)
        if act == 'run':
            saved |= set('%.3f' % z for z in r['zs'])
            if os.path.exists(path) or saved:
                check(os.path.exists(path), '%s: no file was written', what)
                f = read(path)
                right(f, s, r['zs'], what + ', file')
                check(set(maps(f)) >= saved, '%s: the file lost redshifts %s', what, sorted(saved - set(maps(f))))
    # whatever happened, the next run gives everything
    zs = sorted(float(k) for k in saved) + [5.5]
    got = call(run, s, zs, path)
    right(got, s, zs, 'final run')
    right(read(path), s, zs, 'final file')
    return reused


@law(LAWS, st.fixed_dictionaries(dict(zs=SOME, nj=st.sampled_from([1, 2, 3]), ck=st.sampled_from([1, 2, 16, None]), seed=gen.seeds(),
                                      chg=st.integers(0, len(CHANGES) - 1), w=st.sampled_from(['natural', 'uniform']))), 60, 300)
def noise_from_file(d, ctx):
    """Noise made with a saved coverage equals noise made without."""
    path = os.path.join(ctx.tmpdir(), 'uv.pkl')
    s = dict(BASE, **CHANGES[d['chg']])
    n, lay, kw = args(s)
    zs = np.sort(np.array(d['zs'] + [6.3]))
    out = []
    for p in (None, path, path):
        np.random.seed(d['seed'])
        with joblib.parallel_config(backend='threading'), np.errstate(all='ignore'):
            out.append(call(t2c.noise_lightcone, n, zs, obs_time=100., subarray_type=lay, save_uvmap=p, n_jobs=d['nj'], checkpoint=d['ck'],
                            uv_weighting=d['w'], **kw))
    check(out[0].shape == (n, n, len(zs)), 'noise cube of shape %s', out[0].shape)
    same(out[1], out[0], 'noise with a new file')
    same(out[2], out[0], 'noise with a complete file')
    right(read(path), s, zs, 'file of the noise')
    return True
