"""R04 chi-squared of the red-sequence colour model: compute_chisq and the C code behind it"""
import ctypes
import types
from rmv.run import contract
from rmv import core, cfront, arr
from rmv.core import SFloat, fl, zb, mkb
from contracts.clib import M, clib, interp, ptr, srcdir

PY = 'redmapper/chisq_dist/chisq_dist_lib.py:compute_chisq'
CD = 'redmapper/chisq_dist/chisq_dist.c:chisq_dist'
FX = 'redmapper/chisq_dist/chisq_dist.c:check_and_fix_covmat'
WRAP = ['chisq_dist_pywrap.c (argument marshalling) is trusted in the proof; its effect is exercised concretely',
        'GSL: dgemm/dgemv/ddot/matrix access have their mathematical meaning; LU inverse and determinant and symmetric '
        'eigen-decomposition are uninterpreted functions of the matrix entries; gsl_eigen_symm and gsl_eigen_symmv return '
        'eigenvalues in the same order']
MIN_EIG = 1e-6


def need_fix(n, e):
    return core.Or(*[SFloat(core.ruf('EIG%d_%d' % (n, k), *cfront.ent_key(e))) < MIN_EIG for k in range(n)])


def fixed_entry(n, r, k, e):
    return core.ite(need_fix(n, e), SFloat(core.ruf('FIX%d_%d_%d' % (n, r, k), *cfront.ent_key(e))), e[r * n + k])


def fix_contract(it, m):
    """contract discharged as R04/fix_covmat"""
    e = [fl(x) for x in cfront._entries(it, m)]
    n = m.size1
    vals = {(r, k): fixed_entry(n, r, k, e) for r in range(n) for k in range(n)}
    return cfront._fill(it, m, lambda r, k: vals[(r, k)])


def overrides(c):
    mod = types.ModuleType('_chisq_dist_pywrap')

    class ChisqDist(object):
        def __init__(self, mode, ngal, nz, ncol, *arrays):
            self.mode, self.ncol = mode, ncol
            self.ncalc = ngal if mode == 0 else nz
            self.arrays = arrays
            if len(arrays) != 9:
                raise core.Unsupported('ChisqDist arguments')
            self.sigint = cfront.define(srcdir(c, 'chisq_dist') + '/chisq_dist.h', 'SIGINT_DEFAULT')

        def compute(self, do, nophot):
            it = interp(c, 'chisq_dist', stubs={'check_and_fix_covmat': fix_contract})
            names = ('covmat', 'c', 'slope', 'pivotmag', 'refmag', 'refmagerr', 'magerr', 'color', 'lupcorr')
            A = [it.array(x, nm) for x, nm in zip(self.arrays, names)]
            dist = it.zeros(self.ncalc, 'dist')
            it.call('chisq_dist', [self.mode, int(bool(do)), int(bool(nophot)), self.ncalc, self.ncol] + A + [dist, fl(self.sigint)])
            return it.result(dist)
    mod.ChisqDist = ChisqDist
    return {'redmapper.chisq_dist._chisq_dist_pywrap': mod}


# ---------------------------------------------------------------- the repair of non positive-definite matrices
@contract('R04', [FX], assumes=WRAP[1:], trials=300)
def fix_covmat(c):
    n = c.choice('n', [1, 2, 3, 4])
    a = c.array('m', (n, n), gen=(-0.05, 0.3))
    if c.symbolic:
        it = interp(c, 'chisq_dist')
        p = it.array(a, 'covmat')
        e = [fl(a[r, k]) for r in range(n) for k in range(n)]
        it.call('check_and_fix_covmat', [cfront.GMat(p.mem, 0, n, n)])
        out = it.result(p)
        ev = [SFloat(core.ruf('EIG%d_%d' % (n, k), *cfront.ent_key(e))) for k in range(n)]
        Q = {(r, k): SFloat(core.ruf('EVEC%d_%d_%d' % (n, r, k), *cfront.ent_key(e))) for r in range(n) for k in range(n)}
        qe = [Q[(r, k)] for r in range(n) for k in range(n)]
        bad = mkb(need_fix(n, e))
        lam = [core.ite(zb(v < MIN_EIG), fl(MIN_EIG), v) for v in ev]
        for r in range(n):
            for k in range(n):
                s = fl(0)
                for j in range(n):
                    s = s + Q[(r, j)] * lam[j] * cfront.inv_entry(n, j, k, qe)
                c.prove('a positive-definite matrix is left alone', c.implies(c.Not(bad), c.close(out[r * n + k], e[r * n + k])))
                c.prove('otherwise its small eigenvalues are raised to the floor', c.implies(bad, c.close(out[r * n + k], s)))
        return
    np = c.np
    m = (a + a.T) / 2
    if c.bool('pd'):
        m = m @ m.T + 1e-4 * np.eye(n)
    L = clib('chisq_dist')

    class GM(ctypes.Structure):
        _fields_ = [('size1', ctypes.c_size_t), ('size2', ctypes.c_size_t), ('tda', ctypes.c_size_t),
                    ('data', ctypes.POINTER(ctypes.c_double)), ('block', ctypes.c_void_p), ('owner', ctypes.c_int)]
    buf = np.ascontiguousarray(m.copy())
    g = GM(n, n, n, ptr(buf), None, 0)
    L.check_and_fix_covmat(ctypes.byref(g))
    ev, Q = np.linalg.eigh(m)
    c.assume(np.all(np.abs(ev - MIN_EIG) > 1e-9))
    if np.all(ev >= MIN_EIG):
        c.prove('a positive-definite matrix is left alone', np.array_equal(buf, m))
    else:
        c.prove('otherwise its small eigenvalues are raised to the floor',
                np.allclose(buf, (Q * np.maximum(ev, MIN_EIG)) @ Q.T, rtol=1e-6, atol=1e-9))


# ---------------------------------------------------------------- chi-squared and log-likelihood of every galaxy / redshift
def make(mode, ncols):
    def body(c):
        lib = c.mod('redmapper.chisq_dist.chisq_dist_lib')
        ncol = c.choice('ncol', ncols)
        nophot = c.choice('nophotoerr', [False, True])
        hasref = c.choice('refmagerr', [True, False])
        haslup = c.choice('lupcorr', [True, False])
        n = c.size('n', max=4, min=1)
        vec = (ncol,) if mode == 0 else (n, ncol)
        cov = c.array('covmat', (ncol, ncol) if mode == 0 else (ncol, ncol, n), gen=(0.0, 0.01), special=(1e-8,))
        cc = c.array('c', vec)
        sl = c.array('slope', vec, gen=(-0.3, 0.3))
        piv = c.array('pivotmag', 1 if mode == 0 else n, gen=(18, 22))
        ref = c.array('refmag', 1 if mode == 1 else n, gen=(18, 22))
        rerr = c.array('rerr', 1 if mode == 1 else n, lo=0, gen=(0, 0.2)) if hasref else None
        me = c.array('magerr', (ncol + 1,) if mode == 1 else (n, ncol + 1), lo=0, gen=(0, 0.3))
        col = c.array('color', (ncol,) if mode == 1 else (n, ncol))
        lup = c.array('lup', (n, ncol), gen=(-0.2, 0.2)) if haslup else None
        if not c.symbolic:
            np = c.np
            lay = c.choice('layout', ['C', 'F', 'view'])
            # symmetric, mostly positive-definite matrices
            nz = 1 if mode == 0 else n
            cv = cov.reshape(ncol, ncol, nz)
            cv = (cv + cv.transpose(1, 0, 2)) / 2 + c.float('ridge', gen=(0.0, 0.03), special=(0.0,)) * np.eye(ncol)[:, :, None]
            cov = cv[:, :, 0].copy() if mode == 0 else cv.copy()

            def shape(x):
                if x is None or lay == 'C':
                    return x
                if lay == 'F':
                    return np.asfortranarray(x)
                b = np.zeros(tuple(2 * s for s in x.shape))
                v = b[tuple(slice(None, None, 2) for _ in x.shape)]
                v[...] = x
                return v
            ins = [x for x in (cov, cc, sl, piv, ref, me, col, rerr, lup)]
            cov, cc, sl, piv, ref, me, col, rerr, lup = [shape(x) for x in ins]
        f = c.get(lib, 'compute_chisq')
        chi, lk = f(cov, cc, sl, piv, ref, me, col, refmagerr=rerr, lupcorr=lup, calc_chisq=True, calc_lkhd=True,
                    nophotoerr=nophot)
        c.prove('one value per galaxy or redshift', c.And(chi.size == n, lk.size == n))
        m = M(c)
        c.canon_first = True
        sig2 = 0.001 * 0.001
        if c.symbolic:
            sig2 = fl(0.001) * fl(0.001)
        for i in c.each(n):
            C = [[cov[r, k] if mode == 0 else cov[r, k, i] for k in range(ncol)] for r in range(ncol)]
            s = [sl[j] if mode == 0 else sl[i, j] for j in range(ncol)]
            c0 = [cc[j] if mode == 0 else cc[i, j] for j in range(ncol)]
            pv = piv[0] if mode == 0 else piv[i]
            rf = ref[0] if mode == 1 else ref[i]
            re = (rerr[0] if mode == 1 else rerr[i]) if hasref else 0.0
            er = [me[j] if mode == 1 else me[i, j] for j in range(ncol + 1)]
            cl = [col[j] if mode == 1 else col[i, j] for j in range(ncol)]
            lu = [lup[i, j] if haslup else 0.0 for j in range(ncol)]
            tiny = c.Or(*[C[j][j] < sig2 for j in range(ncol)])
            A = [[C[r][k] + s[r] * s[k] * re * re for k in range(ncol)] for r in range(ncol)]
            if not nophot:
                for j in range(ncol):
                    A[j][j] = A[j][j] + er[j] * er[j] + er[j + 1] * er[j + 1]
                    if j + 1 < ncol:
                        A[j][j + 1] = A[j][j + 1] - er[j + 1] * er[j + 1]
                        A[j + 1][j] = A[j + 1][j] - er[j + 1] * er[j + 1]
            d = [c0[j] + s[j] * (rf - pv) + lu[j] - cl[j] for j in range(ncol)]
            if c.symbolic:
                e = [fl(A[r][k]) for r in range(ncol) for k in range(ncol)]
                fe = [fixed_entry(ncol, r, k, e) for r in range(ncol) for k in range(ncol)]
                q = fl(0)
                for r in range(ncol):
                    for k in range(ncol):
                        q = q + cfront.inv_entry(ncol, r, k, fe) * d[r] * d[k]
                det = cfront.det_of(ncol, fe)
                ll = -0.5 * q - 0.5 * m.log(det)
                c.prove('chi-squared is the error-weighted colour distance', c.implies(c.Not(tiny), c.close(chi[i], q)))
                c.prove('log-likelihood adds the determinant', c.implies(c.And(c.Not(tiny), det > 0), c.close(lk[i], ll)))
            elif not tiny:
                A = np.array(A)
                ev, Q = np.linalg.eigh(A)
                if np.any(np.abs(ev - MIN_EIG) < 1e-9):
                    continue
                A = (Q * np.maximum(ev, MIN_EIG)) @ Q.T
                q = float(np.dot(d, np.linalg.solve(A, d)))
                c.prove('chi-squared is the error-weighted colour distance', c.close(chi[i], q, 1e-5, 1e-7))
                c.prove('chi-squared is not negative', chi[i] >= -1e-9)
                c.prove('log-likelihood adds the determinant',
                        c.close(lk[i], -0.5 * q - 0.5 * np.log(np.prod(np.maximum(ev, MIN_EIG))), 1e-4, 1e-5))
            c.prove('too small an intrinsic width is flagged',
                    c.implies(tiny, c.And(c.close(chi[i], 1e11), c.close(lk[i], -1e11))))
    body.__name__ = 'mode%d' % mode
    return body


for _m in (0, 1, 2):
    contract('R04', [PY, CD], overrides=overrides, budget=200, trials=300, assumes=WRAP +
             ['the number of colours is 1 to 4 in the proof of the chi-squared formula'])(make(_m, [1, 2, 3, 4]))


def overrides_shapes(c):
    mod = types.ModuleType('_chisq_dist_pywrap')

    class ChisqDist(object):
        def __init__(self, *a):
            pass

        def compute(self, do, nophot):
            return None
    mod.ChisqDist = ChisqDist
    return {'redmapper.chisq_dist._chisq_dist_pywrap': mod}


@contract('R04', [PY], overrides=overrides_shapes, trials=300, budget=100, maxpaths=3000)
def bad_shapes(c):
    """inputs whose sizes do not fit together never reach the C code"""
    lib = c.mod('redmapper.chisq_dist.chisq_dist_lib')
    mode = c.choice('mode', [0, 1, 2])
    ncol = 2
    n = c.size('n', max=3, min=1)
    which = c.choice('which', ['none', 'slope', 'pivotmag', 'covmat', 'covmat_n', 'magerr', 'magerr_n', 'color', 'color_n', 'lupcorr',
                               'refmagerr', 'refmag', 'slope_c', 'covmat_c', 'lupcorr_c', 'slope_dim', 'color_dim', 'covmat_dim'])
    k = c.size('wrong', max=5, min=1)

    def w(name, good):
        return k if which == name else good
    g = lambda nm, sh: c.array(nm, sh, lo=0.01, hi=1)
    cov = g('covmat', 
            (w('covmat', ncol), w('covmat_c', ncol)) + (() if (mode == 0) != (which == 'covmat_dim') else (w('covmat_n', n),)))
    cc = g('c', (ncol,) if mode == 0 else (n, ncol))
    sl = g('slope', (w('slope', ncol),) if (mode == 0) != (which == 'slope_dim') else (w('slope', n), w('slope_c', ncol)))
    piv = g('pivotmag', w('pivotmag', 1 if mode == 0 else n))
    ref = g('refmag', w('refmag', 1 if mode == 1 else n))
    rerr = g('rerr', w('refmagerr', 1 if mode == 1 else n))
    me = g('magerr', (w('magerr', ncol + 1),) if mode == 1 else (w('magerr_n', n), w('magerr', ncol + 1)))
    col = g('color', (w('color', ncol),) if (mode == 1) != (which == 'color_dim') else (w('color_n', n), w('color', ncol)))
    lup = g('lup', (w('lupcorr', n), w('lupcorr_c', ncol)))
    good = {'none': k, 'slope': ncol if mode == 0 else n, 'pivotmag': 1 if mode == 0 else n, 'covmat': ncol,
            'covmat_n': n, 'magerr': ncol + 1, 'magerr_n': n, 'color': ncol, 'color_n': n, 'lupcorr': n,
            'refmagerr': 1 if mode == 1 else n, 'refmag': 1 if mode == 1 else n,
            'slope_c': ncol, 'covmat_c': ncol, 'lupcorr_c': ncol, 'slope_dim': 0, 'color_dim': 0, 'covmat_dim': 0}[which]
    if (which in ('covmat_n', 'slope_c') and mode == 0) or (which in ('magerr_n', 'color_n') and mode == 1):
        return
    bad, v = c.raises((ValueError, IndexError), lambda: c.get(lib, 'compute_chisq')(cov, cc, sl, piv, ref, me, col, refmagerr=rerr, lupcorr=lup))
    c.prove('rejected exactly when a size does not fit', c.Iff(bad, c.Not(k == good)))
