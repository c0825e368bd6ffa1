"""Process environment for every check: where hypothesis and tools21cm come from.

* third-party packages come from /opt/venv (the interpreter's own site-packages);
* hypothesis comes from the tooling venv, and only hypothesis and its two pure
  python dependencies are taken from there (a meta-path finder with an allow list),
  so numpy/scipy of the tooling venv never shadow the ones tools21cm runs with;
* tools21cm comes from $VERIF_REPO/src (default /repo), never from byte code:
  sys.pycache_prefix points at a directory that does not exist while it is imported,
  and numba's on-disk cache goes to a scratch directory;
* the Cython extension is compiled, on request, from the current .pyx into a scratch
  directory and registered as tools21cm.ViteBetti_cython, so that a stale .so lying
  in the working tree is never what gets tested.
"""
import atexit, glob, hashlib, importlib.abc, importlib.machinery, importlib.util
import os, shutil, subprocess, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
_VT = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']
_ALLOW = {'hypothesis', 'sortedcontainers', 'attr', 'attrs', '_hypothesis_globals',
          '_hypothesis_ftz_detector', '_hypothesis_pytestplugin'}


class _HypFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if path is None and name in _ALLOW:
            return importlib.machinery.PathFinder.find_spec(name, _VT)
        return None


_scratch = None


def scratch():
    """A directory of this run, removed when the main process ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif_t21_')
        owner = os.getpid()

        def _rm(d=_scratch, owner=owner):
            if os.getpid() == owner and d.startswith(tempfile.gettempdir()):
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(_rm)
    return _scratch


def prepare():
    """Environment variables and import hooks; call before numpy is imported."""
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[k] = '1'
    os.environ['NUMBA_NUM_THREADS'] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    d = scratch()
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(d, 'numba')
    os.environ['MPLCONFIGDIR'] = os.path.join(d, 'mpl')
    os.environ['XDG_CACHE_HOME'] = os.path.join(d, 'xdg')
    os.environ['XDG_CONFIG_HOME'] = os.path.join(d, 'xdg')
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(d, 'hyp')
    os.environ['JOBLIB_TEMP_FOLDER'] = d
    os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    os.makedirs(os.environ['XDG_CACHE_HOME'], exist_ok=True)
    sys.dont_write_bytecode = True
    sys.meta_path.append(_HypFinder())
    import warnings
    warnings.simplefilter('ignore')


def build_cython():
    """Compile ViteBetti_cython.pyx of the working tree in scratch; return the module path."""
    pyx = os.path.join(SRC, 'tools21cm', 'ViteBetti_cython.pyx')
    d = os.path.join(scratch(), 'cy')
    os.makedirs(d, exist_ok=True)
    shutil.copy(pyx, d)
    setup = (
        "import numpy\n"
        "from setuptools import setup, Extension\n"
        "from Cython.Build import cythonize\n"
        "setup(name='vb', ext_modules=cythonize(Extension('ViteBetti_cython',"
        "['ViteBetti_cython.pyx'], include_dirs=[numpy.get_include()], language='c++'), language_level=3))\n")
    with open(os.path.join(d, 'setup.py'), 'w') as f:
        f.write(setup)
    env = dict(os.environ)
    env['CFLAGS'] = '-O1'
    r = subprocess.run([sys.executable, 'setup.py', '-q', 'build_ext', '--inplace'], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    so = glob.glob(os.path.join(d, 'ViteBetti_cython*.so'))
    if r.returncode or not so:
        raise RuntimeError('the Cython extension does not build:\n' + r.stdout[-3000:])
    return so[0]


class _Block(importlib.abc.MetaPathFinder):
    """Keeps the stale in-tree extension from being imported."""
    def find_spec(self, name, path=None, target=None):
        if name == 'tools21cm.ViteBetti_cython':
            so = _Block.so
            if so is None:
                raise ImportError('no extension in this check')
            return importlib.util.spec_from_file_location(name, so)
        return None


_Block.so = None


def load(cython=False):
    """Import tools21cm from the working tree; returns the package."""
    if cython:
        _Block.so = build_cython()
    sys.meta_path.insert(0, _Block())
    import numpy, scipy, scipy.signal, scipy.integrate, scipy.ndimage, scipy.interpolate  # noqa
    import scipy.stats, scipy.spatial, scipy.special, scipy.optimize  # noqa
    import skimage, skimage.segmentation, skimage.measure, skimage.filters, skimage.morphology  # noqa
    import astropy, astropy.units, astropy.cosmology, astropy.coordinates, astropy.io.fits  # noqa
    import matplotlib, matplotlib.pyplot, joblib, tqdm, pandas, sklearn, sklearn.cluster, numba  # noqa
    sys.pycache_prefix = '/nonexistent-pycache'
    sys.path.insert(0, SRC)
    os.environ['PYTHONPATH'] = SRC
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        import tools21cm as t2c
    if not os.path.realpath(t2c.__file__).startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError('tools21cm was imported from %s' % t2c.__file__)
    sys.pycache_prefix = None
    return t2c
