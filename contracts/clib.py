"""binding of contracts to the C functions: the clang AST of the real source on
symbolic values, the compiled real source on concrete ones"""
import ctypes
import os
import subprocess

import rmv.core as core
from rmv.core import Unsupported


class M(object):
    """math vocabulary usable in both modes"""
    def __init__(self, c):
        import math
        if c.symbolic:
            f = core
            self.log = lambda x: f.f_log(f.fl(x))
            self.exp = lambda x: f.f_exp(f.fl(x))
            self.sqrt = lambda x: f.f_sqrt(f.fl(x))
            self.erf = lambda x: f.f_erf(f.fl(x))
            self.pow = lambda x, y: f.f_pow(f.fl(x), y if isinstance(y, int) else f.fl(y))
        else:
            self.log, self.exp, self.sqrt, self.erf, self.pow = math.log, math.exp, math.sqrt, math.erf, math.pow


def srcdir(c, d):
    base = c.run.repo if c.symbolic else os.environ['RMV_SCRATCH']
    return os.path.join(base, 'redmapper', d)


_libs = {}


def clib(d):
    """shared library of the plain C functions (without the Python wrapper)"""
    if d in _libs:
        return _libs[d]
    import glob
    path = os.path.join(os.environ['RMV_SCRATCH'], 'redmapper', d)
    out = os.path.join(path, 'plain_%d.so' % os.getpid())
    srcs = [f for f in sorted(glob.glob(path + '/*.c')) if not f.endswith('_pywrap.c')]
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w'] + srcs + ['-o', out, '-lgsl', '-lgslcblas', '-lm'])
    _libs[d] = ctypes.CDLL(out)
    return _libs[d]


def cfiles(c, d):
    import glob
    return [f for f in sorted(glob.glob(srcdir(c, d) + '/*.c')) if not f.endswith('_pywrap.c')]


def interp(c, d, **k):
    from rmv import cfront
    return cfront.Interp(c, cfiles(c, d), **k)


def ptr(a):
    return a.ctypes.data_as(ctypes.POINTER(ctypes.c_double))
