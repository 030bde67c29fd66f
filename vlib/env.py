"""Make /repo's real modules importable here.

edpyt's Python files are imported from /repo itself; its compiled extensions are
built from /repo's current sources into /verif/build (the .so files lying in
/repo are not used: nobody rebuilds them before a check runs).
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import build

sys.dont_write_bytecode = True
VERIF, REPO = build.VERIF, build.REPO


class _ExtFinder(importlib.abc.MetaPathFinder):
    names = {'edpyt._psparse': 'psparse', 'edpyt._continued_fraction': 'continued_fraction'}
    override = {}

    def find_spec(self, fullname, path, target=None):
        if fullname in self.names:
            so = self.override.get(fullname) or build.build_ext(self.names[fullname])
            loader = importlib.machinery.ExtensionFileLoader(fullname, so)
            return importlib.util.spec_from_file_location(fullname, so, loader=loader)
        return None


def _fake_scipy_optimize():
    """scipy.optimize's __init__ pulls in a pybind11 module that aborts PyPy; expose the parts that load."""
    import scipy
    import scipy.linalg, scipy.sparse.linalg  # noqa
    m = types.ModuleType('scipy.optimize')
    m.__path__ = [os.path.join(os.path.dirname(scipy.__file__), 'optimize')]
    m.__package__ = 'scipy.optimize'
    sys.modules['scipy.optimize'] = m
    scipy.optimize = m
    o = importlib.import_module('scipy.optimize.optimize')
    for n in ('OptimizeResult', 'OptimizeWarning', 'fmin_cg', 'fmin', 'fmin_bfgs', 'approx_fprime', 'check_grad'):
        setattr(m, n, getattr(o, n))
    mp = importlib.import_module('scipy.optimize.minpack')
    for n in ('fsolve', 'leastsq', 'fixed_point'):
        setattr(m, n, getattr(mp, n))
    z = importlib.import_module('scipy.optimize.zeros')
    for n in ('newton', 'bisect', 'ridder', 'brentq', 'brenth', 'toms748', 'RootResults'):
        setattr(m, n, getattr(z, n))
    rs = importlib.import_module('scipy.optimize._root_scalar')
    m.root_scalar = rs.root_scalar
    nl = importlib.import_module('scipy.optimize.nonlin')
    for n in ('broyden1', 'broyden2', 'anderson', 'linearmixing', 'diagbroyden', 'excitingmixing', 'newton_krylov',
              'NoConvergence'):
        setattr(m, n, getattr(nl, n))


def _fake_pybind_users():
    """Other scipy modules built with pybind11, replaced by equivalents (only dedlib.smooth uses them)."""
    import numpy as np
    class Any(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return lambda *a, **k: None
    sys.modules['scipy.spatial._distance_pybind'] = Any('scipy.spatial._distance_pybind')
    import scipy
    m = types.ModuleType('scipy.fftpack')
    m.fft, m.ifft, m.fftfreq = np.fft.fft, np.fft.ifft, np.fft.fftfreq
    m.rfft, m.irfft = np.fft.rfft, np.fft.irfft
    sys.modules['scipy.fftpack'] = m
    scipy.fftpack = m


def setup(optimize=False, ext=True):
    for p in (REPO, os.path.join(VERIF, 'stubs')):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if ext and not any(isinstance(f, _ExtFinder) for f in sys.meta_path):
        sys.meta_path.insert(0, _ExtFinder())
    if optimize and 'scipy.optimize' not in sys.modules:
        _fake_scipy_optimize()
        _fake_pybind_users()
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')


def setup_backend():
    """Make edpyt_backend (built from the working tree) importable; returns its shared library."""
    import ctypes
    d = build.build_backend_pkg()
    if d not in sys.path:
        sys.path.insert(0, d)
    return ctypes.CDLL(os.path.join(d, 'edpyt_backend', 'libfit.so'), mode=ctypes.RTLD_GLOBAL)
