"""Evaluate calls in a newly imported tools21cm whose cosmology and box were in force while it was imported.

The package is imported again in a forked child, and the setters are called as soon as
the modules const and conv have been executed, before any other module sees them.
What a function of that instance returns must equal what the same function returns in
the ordinary instance after the same parameters were set later.
"""
import contextlib
import importlib
import importlib.abc
import importlib.machinery
import io
import os
import pickle
import signal
import sys
import traceback


class _After(importlib.abc.MetaPathFinder):
    def __init__(self, actions):
        self.actions = actions

    def find_spec(self, name, path=None, target=None):
        if name not in self.actions:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        ex = spec.loader.exec_module
        act = self.actions.pop(name)

        def exec_module(module):
            ex(module)
            act(module)
        spec.loader.exec_module = exec_module
        return spec


def evaluate(p, work, path):
    """work(modules...) in a child; its (picklable) result is returned, or ('failed', traceback)."""
    r = os.fork()
    if r == 0:
        code = 3
        try:
            signal.alarm(140)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            for n in [m for m in sys.modules if m == 'tools21cm' or m.startswith('tools21cm.') or m.startswith('props.')]:
                del sys.modules[n]
            sys.pycache_prefix = '/nonexistent-pycache'

            def const(m):
                m.set_hubble_h(p['h'])
                m.set_omega_matter(p['Om'])
                m.set_omega_lambda(1 - p['Om'])
                m.set_omega_baryon(p['Ob'])
                m.set_ns(p['ns'])
                m.set_sigma_8(p['s8'])
                m.set_abundance_helium(p['Y'])
            sys.meta_path.insert(0, _After({'tools21cm.const': const, 'tools21cm.conv': lambda m: m.set_sim_constants(p['box'])}))
            with contextlib.redirect_stdout(io.StringIO()):
                importlib.import_module('tools21cm')
                res = work()
            with open(path, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        except BaseException:
            with open(path, 'wb') as f:
                pickle.dump(('failed', traceback.format_exc()[-1500:]), f)
        finally:
            os._exit(code)
    try:
        os.waitpid(r, 0)
    except BaseException:
        os.kill(r, signal.SIGKILL)
        os.waitpid(r, 0)
        raise
    with open(path, 'rb') as f:
        return pickle.load(f)
