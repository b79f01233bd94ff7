"""R14: photometric redshifts of clusters (zlambda.py) and of galaxies (zred_color.py, zred_runner.py)"""
import copy as _copy
import os
from rmv.run import contract
from contracts.stand import Ns, Log, FakeMp, recs, differently

K = 'redmapper/zlambda.py:'
Z = 'redmapper/zred_color.py:'
ZR = 'redmapper/zred_runner.py:'


# ------------------------------------------------------------------ clusters
@contract('R14', [K + 'Zlambda._bracket_fn', K + 'Zlambda._delta_bracket_fn'], assumes=['calculate_chisq by its contract (R06)'])
def likelihood_of_redshift(c):
    np = c.np
    m = c.mod('redmapper.zlambda')
    gm = c.mod('redmapper.galaxy')
    n = c.size('n', min=1, max=6)
    k = c.size('k', min=1, max=5)
    g = c.get(gm, 'GalaxyCatalog')(c.rec('g', n, [('refmag', 'f8', dict(lo=14.0, hi=24.0))]))
    inr = c.array('inr', k, kind='i', lo=0, hi=n - 1)
    pw = c.array('pw', k, lo=0.0, hi=1.0)
    lk = c.func('lk', 2, lo=-1e3, hi=0.0)
    asked = []

    def chisq(gals, z, calc_lkhd=False, **kw):
        asked.append((gals.size, z, calc_lkhd))
        return lk(gals.refmag, gals.refmag * 0 + z) if c.symbolic else np.array([lk(a, z) for a in gals.refmag])
    zl = c.bare(m.Zlambda, cluster=Ns(neighbors=g), zredstr=Ns(calculate_chisq=chisq), _zlambda_in_rad=inr, _zlambda_pw=pw, _zlambda_targval=0.0)
    z = c.float('z', lo=0.05, hi=1.0)
    t = c.get(zl, '_bracket_fn')(z)
    c.prove('asked once for the log-likelihood at this redshift of the selected galaxies', c.And(len(asked) == 1, asked[0][0] == k, asked[0][1] == z, asked[0][2] is True or asked[0][2]))
    ref = np.sum(pw * (lk(g.refmag[inr], g.refmag[inr] * 0 + z) if c.symbolic else np.array([lk(a, z) for a in g.refmag[inr]])))
    c.prove('minus the weighted log-likelihood', c.close(t, -ref, rtol=1e-9))
    zl._zlambda_targval = tv = c.float('tv', lo=-50.0, hi=50.0)
    d = c.get(zl, '_delta_bracket_fn')(z)
    c.prove('distance to the target', c.And(d >= 0, c.Or(c.close(d, -ref - tv, rtol=1e-9, atol=1e-9), c.close(d, tv + ref, rtol=1e-9, atol=1e-9))))


class Clus(object):
    """a cluster of galaxies with their own redshift likelihoods"""
    def __init__(self, c, n):
        np, r = c.np, c.nrng
        self.np = np
        gm = c.mod('redmapper.galaxy')
        span = c.choice('zspan', [0.5, 0.5, 0.8, None])
        self.z0 = 0.15 + span * r.random() if span else r.choice([0.15, 0.9])
        self.base = -c.choice('base', [0.0, 0.0, 300.0])
        g = np.zeros(n, dtype=[('refmag', 'f8'), ('refmag_err', 'f8'), ('mag', 'f8', (3,)), ('mag_err', 'f8', (3,)), ('r', 'f8'), ('theta', 'f8'), ('pcol', 'f8'), ('zt', 'f8'), ('zs', 'f8'), ('w', 'f8')])
        g['refmag'] = 17 + 3 * r.random(n)
        g['refmag_err'] = 0.02
        g['mag'], g['mag_err'] = 18 + r.random((n, 3)), 0.02
        g['theta'] = r.random(n)
        g['zt'] = self.z0 + r.normal(0, 0.02, n)
        g['zs'] = (0.02 + 0.05 * r.random(n)) * c.choice('wide', [1.0, 1.0, 0.15, 5.0])
        g['w'] = np.where(r.random(n) < 0.2, 0, r.random(n))
        self.g = gm.GalaxyCatalog(g)
        self.neighbors = self.g
        self.r0, self.beta = 0.4 + 0.6 * r.random(), 0.2 * r.random()
        self.poor = c.choice('poor', [False, False, False, False, 'start', 'near'])
        self._z = 9.9
        self.Lambda, self.r_lambda, self.z_lambda, self.z_lambda_err = 33.0, 0.8, 9.0, 9.0
        self.zcrit = self.z0 + 0.01
        self.zg = np.arange(0.05, 1.0, 0.01)
        self.zredstr = Ns(mstar=lambda z: 20.0 - 3.0 * (0.5 - z), z=np.append(self.zg, 1000.0), refmagbins=np.arange(14, 22, 0.1), volume_factor=np.append(1 + self.zg * 5, 0.0),
                          zindex=lambda z: np.clip(np.around((np.asarray(z) - 0.05) / 0.01).astype(int), 0, self.zg.size - 1), calculate_chisq=self.lk)
        self.config = None
        self.cosmo = None

    def lk(self, g, z, calc_lkhd=False, **k):
        return self.base - 0.5 * ((z - g.zt) / g.zs) ** 2 - 0.1 * abs(self.np.asarray((z - g.zt) / g.zs)) if calc_lkhd else ((z - g.zt) / g.zs) ** 2

    @property
    def redshift(self):
        return self._z

    @redshift.setter
    def redshift(self, z):
        self._z = z
        self.neighbors.r = self.radius(z)

    def radius(self, z):
        return self.neighbors.theta * (0.5 + z)

    def copy(self):
        o = _copy.copy(self)
        o.neighbors = o.g = self.neighbors.__class__(self.neighbors._ndarray.copy())
        return o
    __copy__ = None
    del __copy__

    def pcols(self, z, index):
        np = self.np
        p = np.zeros(self.neighbors.size)
        p[index] = self.neighbors.w[index] * np.exp(-0.5 * ((z - self.neighbors.zt[index]) / 0.1) ** 2)
        return p

    def calc_richness(self, mask, calc_err=True, index=None, **k):
        if index is None:
            index = self.np.arange(self.neighbors.size)
        self.neighbors.pcol = self.pcols(self._z, index)
        self.Lambda = self.rich(self._z)
        self.r_lambda = 0.7
        return self.Lambda

    def rich(self, z):
        if self.poor == 'start':
            return 1.0
        if self.poor == 'near' and z > self.zcrit:
            return 1.0
        return 20.0


def select(np, cl, z, maxmag, topfrac, minrad):
    """weights of the galaxies that enter: the top fraction, softened"""
    g = cl.neighbors
    r = cl.radius(z)
    w = cl.pcols(z, np.where(r < minrad)[0])
    use = np.where((r < minrad) & (g.refmag < maxmag) & (w > 0))[0]
    if use.size < 3:
        return None
    nc = min(max(topfrac * w.sum(), 3), use.size)
    th = np.sort(w[use])[::-1][int(np.around(nc)) - 1]
    pw = 1 / (np.exp((th - w[use]) / 0.04) + 1)
    return use[pw > 1e-3], pw[pw > 1e-3]


def like(np, cl, sel, z):
    return float(np.sum(sel[1] * cl.lk(cl.neighbors[sel[0]], z, calc_lkhd=True)))


@contract('R14', [K + 'Zlambda.calc_zlambda', K + 'Zlambda._zlambda_select_neighbors', K + 'Zlambda._zlambda_calcz', K + 'Zlambda._zlambda_calc_gaussian_err', K + 'Zlambda._zlambda_calc_pz',
                 K + 'Zlambda._zlambda_calc_pz_and_check'], kind='conc', bounded='up to 30 galaxies, up to 20 iterations', trials=250)
def cluster_redshift(c):
    import scipy.integrate
    np, r = c.np, c.nrng
    m = c.mod('redmapper.zlambda')
    n = c.size('n', min=0, max=30)
    cl = Clus(c, n)
    topf, nbins, maxit = c.choice('topf', [0.4, 0.7, 1.0]), c.choice('nbins', [21, 31]), c.choice('maxit', [20, 20, 2, 1])
    step, tol = 0.002, 0.0002
    cl.config = Ns(zlambda_topfrac=topf, npzbins=nbins, zlambda_maxiter=maxit, zlambda_tol=tol, zlambda_parab_step=step, lval_reference=0.2, percolation_minlambda=3.0, logger=Log())
    cl.redshift = 0.33
    mode = c.choice('mode', ['err', 'pz', 'fast'])
    zin = cl.z0 + c.choice('off', [0.0, 0.01, -0.03, 0.05, 0.2])
    rec = c.choice('rec', [True, True, False])
    lim = c.choice('lim', [None, None, None, 18.7])
    before = {k: getattr(cl.neighbors, k).copy() for k in cl.neighbors.dtype.names}
    zl = m.Zlambda(cl)
    kw = dict(maxmag_in=np.float64(lim)) if lim is not None else {}
    z, e = zl.calc_zlambda(zin, 'mask', calc_err=mode != 'fast', calcpz=mode == 'pz', record_values=rec, **kw)
    c.prove('the same is returned and kept', zl.z_lambda == z and zl.z_lambda_err == e)
    c.prove('recorded in the cluster only when asked for', (cl.z_lambda, cl.z_lambda_err) == ((z, e) if rec else (9.0, 9.0)))
    c.prove('the cluster itself keeps its redshift, richness and neighbours', cl.redshift == 0.33 and cl.Lambda == 33.0 and all(np.array_equal(getattr(cl.neighbors, k), before[k]) for k in before))
    rad = 1.2 * cl.r0 * 3 ** cl.beta
    mm = lim if lim is not None else cl.zredstr.mstar(zin) - 2.5 * np.log10(0.2)
    first = select(np, cl, zin, mm, topf, rad)
    if n == 0 or cl.rich(zin) < 3 or not (cl.radius(zin) < rad).any() or first is None:
        c.prove('no redshift without enough members', z < 0)
    if z <= 0:
        c.cover('no redshift')
        c.prove('flagged', z == -1.0 and (e == -1.0 or mode == 'fast'))
        if mode == 'pz':
            c.prove('no p(z) then', hasattr(zl, 'pz') and hasattr(zl, 'pzbins') and zl.pz.size == nbins and np.all(zl.pz == 0) and np.all(zl.pzbins == 0))
        return
    c.cover('redshift')
    c.prove('a failure is not passed over', cl.poor != 'start' and (cl.poor != 'near' or mode == 'pz' or z <= cl.zcrit + 1e-3 or maxit < 20))
    # the members that give the redshift are those selected at that redshift
    sel = select(np, cl, z, mm, topf, rad)
    if mode != 'pz' and maxit == 20 and zl.niter < 20 and sel is not None:
        st = z + step * (np.arange(10) - 4.5)
        fit = np.polyfit(st - z, [-like(np, cl, sel, s) for s in st], 2)
        znew = z - fit[1] / (2 * fit[0]) if fit[0] > 0 else -1
        c.prove('the redshift is a fixed point: the best one for the members at that redshift', abs(np.clip(znew, st[0] - step, st[-1] + step) - z) < tol * 1.01 + 1e-7)
    if mode == 'err':
        c.prove('the error is positive', e > 0)
        if maxit == 20 and zl.niter < 20 and sel is not None:
            zz = z + np.arange(0.001, 0.1, 0.0001)
            up = np.array([like(np, cl, sel, z) - like(np, cl, sel, s) for s in zz])
            zd = z - np.arange(0.001, 0.1, 0.0001)
            dn = np.array([like(np, cl, sel, z) - like(np, cl, sel, s) for s in zd])
            if up[0] < 1 < up[-1] and dn[0] < 1 < dn[-1] and np.all(np.diff(up) > 0) and np.all(np.diff(dn) > 0):
                want = (np.interp(1, up, zz) - np.interp(1, dn, zd)) / 2
                c.prove('half the range in which the likelihood falls by one', abs(e - want) < 0.03 * want + 2e-4)
    if mode == 'pz':
        b, p = zl.pzbins, zl.pz
        c.prove('p(z) on the configured number of bins', b.size == nbins and p.size == nbins)
        c.prove('p(z) is a probability density', np.all(p >= 0) and abs(scipy.integrate.simpson(y=p, x=b) - 1) < 1e-6)
        c.prove('on evenly spaced bins', np.allclose(np.diff(b), b[1] - b[0], rtol=1e-6) and b[1] > b[0] and abs(zl.pzbinsize - (b[1] - b[0])) < 1e-9)
        c.prove('the redshift is the most likely one', abs(b[np.argmax(p)] - z) <= tol + 1e-9)
        c.prove('and the error is positive', e > 0)
        import scipy.optimize
        try:
            co = scipy.optimize.curve_fit(lambda x, A, mu, sg: A * np.exp(-(x - mu) ** 2 / (2 * sg ** 2)), b, p, p0=[p.max(), b[np.argmax(p)], 0.01])[0]
        except Exception:
            co = [0, 0, -1]
        if co[2] > 0:
            c.prove('it is the width of p(z)', abs(e - co[2]) < 0.02 * co[2])
        ed = cl.zg[0] + 0.01, cl.zg[-1] - 0.01
        h, pk = b[1] - b[0], p[np.argmin(np.abs(b - z))]
        c.prove('p(z) is not cut off inside the redshift range', (p[0] <= 0.03 * pk or b[0] <= ed[0] + h) and (p[-1] <= 0.03 * pk or b[-1] >= ed[1] - h))


@contract('R14', [K + 'Zlambda._zlambda_calcz'], kind='conc', bounded='the least squares of numpy', trials=150)
def best_redshift(c):
    np = c.np
    m = c.mod('redmapper.zlambda')
    st = c.choice('step', [0.002, 0.01])
    a, z0, k = c.float('a', gen=(-50.0, 50.0)), c.float('z0', lo=0.1, hi=0.6), c.float('k', gen=(-5.0, 5.0))
    z = z0 + c.choice('off', [0.0, 3.0, -4.0, 5.2, -5.3, 9.0, -30.0]) * st
    zl = c.bare(m.Zlambda, config=Ns(zlambda_parab_step=st), _bracket_fn=lambda x: a * (x - z0) ** 2 + k)
    if abs(a) < 1e-2:
        return
    new = float(c.get(zl, '_zlambda_calcz')(z))
    lo, hi = z - 5.5 * st, z + 5.5 * st
    if a > 0:
        c.prove('the most likely redshift, at most a step beyond those looked at', abs(new - min(max(z0, lo), hi)) < 1e-6 * max(1.0, 1 / a))
    else:
        c.prove('never the least likely one', new == -1.0 or abs(new - lo) < 1e-9)


@contract('R14', [K + 'Zlambda._zlambda_calc_pz'], kind='conc', bounded='up to 30 galaxies', trials=150)
def pz_shape(c):
    """p(z) is likelihood times volume at every bin"""
    np, r = c.np, c.nrng
    m = c.mod('redmapper.zlambda')
    n = c.size('n', min=3, max=30)
    cl = Clus(c, n)
    nbins = c.choice('nbins', [21, 31])
    cl.config = Ns(npzbins=nbins)
    zl = m.Zlambda(cl)
    k = 1 + int(r.integers(n))
    zl._zlambda_in_rad, zl._zlambda_pw, zl._zlambda_targval = np.sort(r.permutation(n)[:k]), r.random(k) + 0.01, 0.0
    z = cl.z0
    slow = c.choice('slow', [False, True])
    c.get(zl, '_zlambda_calc_pz')(z, None, 0.7, 20.0, slow=slow)
    b, p = zl.pzbins, zl.pz
    ln = np.array([like(np, cl, (zl._zlambda_in_rad, zl._zlambda_pw), x) for x in b])
    v = np.exp(ln - ln.max()) * cl.zredstr.volume_factor[cl.zredstr.zindex(b)]
    c.prove('likelihood times volume', np.allclose(p / p.max(), v / v.max(), rtol=1e-6, atol=1e-12))
    c.prove('one of the bins is the cluster redshift', np.abs(b - z).min() < 1e-9)
    at = lambda x: like(np, cl, (zl._zlambda_in_rad, zl._zlambda_pw), x)
    dz = b[-1] - z
    if not slow:
        c.prove('in the middle', abs(b[nbins // 2] - z) < 1e-9)
        fall = at(z) - at(z + dz)
        c.prove('out to where the likelihood has fallen by 16', abs(fall - 16) < 0.5 or dz < 0.0051 and fall > 15.5 or dz > 0.149 and fall < 16.5 or at(z + 0.002) > at(z))
    else:
        h = b[1] - b[0]
        c.prove('within the range of the red sequence', b[0] >= cl.zg[0] - h and b[-1] <= cl.zg[-1] + h)
        c.prove('and not cut off inside it', (p[0] <= 0.02 * p[np.argmin(np.abs(b - z))] or b[0] <= cl.zg[0] + h) and (p[-1] <= 0.02 * p[np.argmin(np.abs(b - z))] or b[-1] >= cl.zg[-1] - h))


@contract('R14', [K + 'ZlambdaCorrectionPar.apply_correction'])
def correction(c):
    np = c.np
    m = c.mod('redmapper.zlambda')
    nz = c.size('nz', min=2, max=6)
    it = c.choice('it', [1, 2, 3])
    zg = c.array('zg', nz, sorted='inc', gen=(0.05, 1.0))
    off, slo, sca = (c.array(k, (it, nz), gen=(-0.02, 0.02)) for k in ('off', 'slo', 'sca'))
    if not c.symbolic:
        sca = np.clip(np.abs(sca), 0.001, None)
    par = c.bare(m.ZlambdaCorrectionPar, z=zg, niter=it, offset=off, slope=slo, scatter=sca, zlambda_pivot=30.0)
    lam = c.float('lam', lo=3.0, hi=300.0)
    z, e = c.float('zin', lo=0.05, hi=1.0), c.float('e', lo=0.001, hi=0.1)
    noerr = c.choice('noerr', [False, True])
    o = par.apply_correction(lam, z, e, noerr=noerr)
    zz, ee = z, e
    for i in range(it):
        ee = np.sqrt(ee ** 2 + (0.0 if noerr else np.interp(zz, zg, sca[i, :])) ** 2)
        zz = zz + np.interp(zz, zg, off[i, :] + slo[i, :] * np.log(lam / 30.0))
    c.prove('redshift and error', len(o) == 2)
    c.prove('shifted by offset and slope at the redshift, step by step', c.close(o[0], zz, rtol=1e-9, atol=1e-12))
    c.prove('scatter added in quadrature', c.close(o[1], ee, rtol=1e-9, atol=1e-12))


@contract('R14', [K + 'ZlambdaCorrectionPar.apply_correction', K + 'ZlambdaCorrectionPar.__init__'], kind='conc', bounded='up to 3 steps, 31 bins', trials=200)
def correction_pz(c):
    import fitsio
    import scipy.integrate
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.zlambda')
    u = c.mod('redmapper.utilities')
    it = c.choice('it', [1, 2, 3])
    no, ns = int(r.integers(4, 8)), int(r.integers(4, 7))
    oz, sz = np.linspace(0.12, 0.5, no), np.linspace(0.1, 0.52, ns)
    sh = lambda k: (k,) if it == 1 else (k, it)
    d = dict(niter_true=it, offset_z=oz, offset_true=r.normal(0, 0.01, sh(no)), slope_z=sz, slope_true=r.normal(0, 0.01, sh(ns)), scatter_true=r.normal(0.004, 0.004, sh(ns)), zred_uncorr=oz + r.normal(0, 0.01, no))
    zr, bs, pv = c.choice('zr', [[0.1, 0.6], [0.1, 0.7], [0.2, 0.9]]), c.choice('bs', [0.02, 0.1]), 30.0
    if c.choice('file', [False, True]):
        a = np.zeros(1, dtype=[(k, 'f8', np.shape(v)) if k != 'niter_true' else (k, 'i4') for k, v in d.items()])
        for k in d:
            a[k][0] = d[k]
        h = fitsio.FITSHDR()
        h['ZRANGE0'], h['ZRANGE1'], h['ZBINSIZE'], h['ZLAMPIV'] = 0.2, 0.4, 0.05, 10.0
        over = c.choice('over', [False, True])
        if not over:
            zr, bs, pv = [0.2, 0.4], 0.05, 10.0
        with tempfile.TemporaryDirectory() as t:
            f = os.path.join(t, 'x.fit')
            c.prove('a missing file is reported', c.raises(IOError, lambda: m.ZlambdaCorrectionPar(f))[0])
            fitsio.write(f, a, header=h, clobber=True)
            par = m.ZlambdaCorrectionPar(f, **(dict(zrange=zr, zbinsize=bs, zlambda_pivot=pv) if over else {}))
    else:
        par = m.ZlambdaCorrectionPar(pars=Ns(**d), zrange=zr, zbinsize=bs, zlambda_pivot=pv)
        c.prove('a range is needed', c.raises(ValueError, lambda: m.ZlambdaCorrectionPar(pars=Ns(**d), zbinsize=bs, zlambda_pivot=pv))[0])
        c.prove('a bin size is needed', c.raises(ValueError, lambda: m.ZlambdaCorrectionPar(pars=Ns(**d), zrange=zr, zlambda_pivot=pv))[0])
        c.prove('a pivot is needed', c.raises(ValueError, lambda: m.ZlambdaCorrectionPar(pars=Ns(**d), zrange=zr, zbinsize=bs))[0])
    c.prove('something has to be given', c.raises(RuntimeError, lambda: m.ZlambdaCorrectionPar())[0])
    zg = par.z
    c.prove('the redshift grid', zg.size == int(round((zr[1] - zr[0]) / bs)) and np.allclose(zg, zr[0] + bs * np.arange(zg.size)) and par.zlambda_pivot == pv and par.niter == it)
    col = lambda k, i: d[k] if it == 1 else d[k][:, i]
    for i in range(it):
        c.prove('offset, slope and scatter of each step', np.allclose(par.offset[i], u.CubicSpline(oz, col('offset_true', i))(zg), rtol=1e-5, atol=1e-8) and
                np.allclose(par.slope[i], u.CubicSpline(sz, col('slope_true', i))(zg), rtol=1e-5, atol=1e-8) and
                np.allclose(par.scatter[i], np.maximum(u.CubicSpline(sz, col('scatter_true', i))(zg), 0.001), rtol=1e-5, atol=1e-8))
    c.prove('uncorrected redshifts', np.allclose(par.zred_uncorr, u.CubicSpline(oz, d['zred_uncorr'])(zg), rtol=1e-5))
    c.prove('extrapolation is marked', np.array_equal(par.extrapolated, (zg < oz[0]) | (zg > oz[-1])))
    # p(z)
    nb = c.choice('nb', [21, 31])
    z, e, lam = c.float('z', lo=0.1, hi=0.6), c.float('e', lo=0.005, hi=0.03), c.float('lam', lo=5.0, hi=150.0)
    d0 = c.choice('d0', [0.0, 0.003])
    b = z + d0 + 0.004 * (np.arange(nb) - (nb - 1) // 2)
    p = np.exp(-0.5 * ((b - z) / e) ** 2)
    p /= scipy.integrate.simpson(y=p, x=b)
    b0, p0 = b.copy(), p.copy()
    noerr = c.choice('noerr', [False, True])
    z2, e2, b2, p2 = par.apply_correction(lam, z, e, pzbins=b, pzvals=p.copy(), noerr=noerr)
    zz, ee = z, e
    for i in range(it):
        ee = np.hypot(ee, 0.0 if noerr else np.interp(zz, zg, par.scatter[i]))
        zz += np.interp(zz, zg, par.offset[i] + par.slope[i] * np.log(lam / pv))
    c.prove('redshift and error as without p(z)', abs(z2 - zz) < 1e-9 and abs(e2 - ee) < 1e-9 and tuple(np.round(par.apply_correction(lam, z, e, noerr=noerr), 12)) == tuple(np.round((z2, e2), 12)))
    c.prove('p(z) moves with the redshift', abs(b2[(nb - 1) // 2] - z2 - d0) < 1e-9)
    c.prove('and widens with the error', np.allclose(np.diff(b2), 0.004 * ee / e, rtol=1e-6))
    c.prove('p(z) stays a probability density', np.all(p2 >= 0) and abs(scipy.integrate.simpson(y=p2, x=b2) - 1) < 1e-9)
    c.prove('of the same shape', np.allclose(p2 / p2.max(), p0 / p0.max()))
    c.prove('input bins are not changed', np.array_equal(b, b0))


# ------------------------------------------------------------------ galaxies
class Seq(Ns):
    """a red sequence: chi-squared of each galaxy at each redshift node is any given table"""
    def __init__(self, c, n):
        np, r = c.np, c.nrng
        Ns.__init__(self)
        nz = int(r.integers(12, 40))
        self.c = c
        self.nz = nz
        z = 0.1 + 0.02 * np.arange(nz)
        self.z = np.append(z, 1000.0)
        ex = np.zeros(nz + 1, dtype=bool)
        ex[-1] = True
        ex[:int(r.integers(0, 3))] = True
        self.extrapolated = ex
        self._mstar = np.append(17 + 6 * z, 60.0)
        self.alpha = -1.0 if r.random() < 0.5 else -0.6
        self.volume_factor = np.append(0.1 + z, 1.0)
        self.maxrefmag = np.append(17.5 + 8 * z, 90.0)
        self.minrefmag = np.append(13.0 + 5 * z, 10.0) if r.random() < 0.5 else np.append(16.0 + 6 * z, 10.0)
        self.corr, self.corr2 = np.append(r.normal(0, 0.01, nz), 0.0), np.append(r.normal(0, 0.01, nz), 0.0)
        self.corr_slope, self.corr2_slope = np.append(r.normal(0, 0.002, nz), 0.0), np.append(r.normal(0, 0.002, nz), 0.0)
        self.corr_r, self.corr2_r = np.append(0.5 + r.random(nz), 1.0), np.append(0.5 + r.random(nz), 1.0)
        self.pivotmag = np.append(16 + 5 * z, 20.0)
        self.tab = np.zeros((n, nz))
        for i in range(n):
            zt, s = 0.1 + 0.02 * nz * r.uniform(-0.1, 1.1), r.uniform(0.005, 0.06)
            self.tab[i] = r.uniform(0, 15) + ((z - zt) / s) ** 2 + r.normal(0, 0.1, nz)
            if r.random() < 0.1:
                self.tab[i] = np.nan if r.random() < 0.5 else np.inf

    def calculate_chisq_redshifts(self, g, zbins, z_is_index=False, calc_lkhd=False, **k):
        if not z_is_index or calc_lkhd:
            differently()
        return self.tab[int(g.id), zbins].copy()

    def calculate_chisq(self, g, zbins, z_is_index=False, calc_lkhd=False, **k):
        return self.calculate_chisq_redshifts(g, zbins, z_is_index=z_is_index, calc_lkhd=calc_lkhd)


NAMES = ('zred', 'zred_e', 'zred2', 'zred2_e', 'zred_uncorr', 'zred_uncorr_e')


def posterior(np, s, i, mag):
    """redshift, error, likelihood and chi-squared of a galaxy by its own: None when it has none"""
    import scipy.integrate
    tz = scipy.integrate.trapezoid
    nz, z = s.nz, s.z
    ok = np.where((mag < s.maxrefmag) & (mag > s.minrefmag) & (z < 100))[0]
    if ok.size < 2:
        return None
    zb = np.arange(max(ok[0] - 10, 0), min(ok[-1] + 10, nz))
    ln = np.full(nz, -1e12)
    x = 10 ** (0.4 * (s._mstar[zb] - mag))
    with np.errstate(all='ignore'):
        ln[zb] = -0.5 * s.tab[i, zb] + np.log(x ** (s.alpha + 1) * np.exp(-x) * s.volume_factor[zb])
    ln[zb[~np.isfinite(ln[zb])]] = -1e11
    if np.max(ln) < -1e10:
        return None
    p = np.zeros(nz)
    p[zb] = np.exp(ln[zb] - ln[zb].max())
    k = np.where(p > 1e-5)[0]
    if k.size >= 3:
        t = tz(p[k], z[k])
        mean = tz(p[k] * z[k], z[k]) / t
        var = tz(p[k] * z[k] ** 2, z[k]) / t - mean ** 2
    else:
        t = p[k].sum()
        mean = (p[k] * z[k]).sum() / t
        var = (p[k] * z[k] ** 2).sum() / t - mean ** 2
    e = max(np.sqrt(var), 0.005) if var >= 0 else 1.0
    return dict(mean=mean, e=e, ln=ln, p=p, k=k, near=abs(var - 0.005 ** 2) < 1e-9)


def refine(np, s, q):
    """the peak of a parabola through five nodes around the most likely one"""
    nx = np.where(~s.extrapolated)[0]
    b = nx[np.argmax(q['p'][nx])]
    use = np.where(q['ln'] > -1e10)[0]
    if use.size < 5:
        return []
    lo, hi = use.min(), use.max()
    out = []
    for j in range(lo, hi - 3):
        for k in (5, 6):
            if j + k - 1 <= hi and (b - 5 <= j and j + k - 1 <= b + 5 or j == lo or j + k - 1 == hi):
                f = np.polyfit(s.z[j:j + k] - q['mean'], q['ln'][j:j + k], 2)
                if f[0] < 0:
                    out.append(q['mean'] - f[1] / (2 * f[0]))
    return out


def zgals(c, n, nsamp=3):
    np, r = c.np, c.nrng
    gm = c.mod('redmapper.galaxy')
    g = np.zeros(n, dtype=[('id', 'i8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', (3,)), ('mag_err', 'f4', (3,))])
    g['id'] = np.arange(n)
    g['refmag'] = np.where(r.random(n) < 0.1, 30.0, 15 + 6 * r.random(n))
    cat = gm.GalaxyCatalog(g)
    cat.add_zred_fields(nsamp)
    return cat


@contract('R14', [Z + 'ZredColor.compute_zred', Z + 'ZredColor._calculate_lndist', Z + 'ZredColor._reset_bad_values', Z + 'ZredColor.__init__'], kind='conc', bounded='up to 6 galaxies, up to 40 redshift nodes', trials=200)
def galaxy_redshift(c):
    np, r = c.np, c.nrng
    m = c.mod('redmapper.zred_color')
    n = c.size('n', min=1, max=6)
    s = Seq(c, n)
    g = zgals(c, n)
    corr = c.choice('corr', [False, True])
    zc = m.ZredColor(s, do_correction=corr)
    np.random.seed(c.int('seed', lo=0, hi=10000))
    for i in range(n):
        one = g[i]
        mag = float(g.refmag[i])
        q = posterior(np, s, i, mag)
        with np.errstate(all='ignore'):
            zc.compute_zred(one)
        v = {k: float(np.ravel(getattr(one, k))[0]) for k in NAMES}
        if q is None:
            c.cover('flagged')
            c.prove('a galaxy without redshift is flagged', all(v[k] == -1 for k in NAMES) and float(one.chisq) == -1 and float(one.lkhd) == -1000)
            continue
        c.cover('redshift')
        zu, ze = v['zred_uncorr'], v['zred_uncorr_e']
        if not q['near']:
            c.prove('the error is the width of the likelihood, at least 0.005', abs(ze - q['e']) < 1e-5 * max(1, q['e']))
        c.prove('the redshift is within twice its error of the mean', abs(zu - q['mean']) <= 2 * ze * 1.0001 + 1e-6)
        c.prove('it is the mean or the peak of the likelihood', abs(zu - q['mean']) < 1e-5 or any(abs(zu - t) < 1e-4 for t in refine(np, s, q)))
        us, nx = np.where(q['ln'] > -1e10)[0], np.where(~s.extrapolated)[0]
        b = nx[np.argmax(q['p'][nx])]
        if us.size and us.min() < b - 2 and us.max() > b + 2:
            f = np.polyfit(s.z[b - 2:b + 3] - q['mean'], q['ln'][b - 2:b + 3], 2)
            if f[0] < -1e-3 and abs(f[1] / (2 * f[0])) < 1.9 * ze:
                c.cover('peak')
                c.prove('the peak where there is one', abs(zu - q['mean'] + f[1] / (2 * f[0])) < 1e-4)
        j = int(np.argmin(np.abs(zu - s.z)))
        if abs(abs(zu - s.z[j]) - 0.01) > 1e-5:
            want = s.tab[i, j] if q['ln'][j] > -1e11 or q['ln'][j] == -1e11 else 1e12
            c.prove('chi-squared at that redshift', np.isclose(float(one.chisq), want, rtol=1e-4, equal_nan=True))
        c.prove('finite likelihood, a weighted mean', np.isfinite(float(one.lkhd)) and q['ln'][q['k']].min() - 1e-2 <= float(one.lkhd) <= q['ln'][q['k']].max() + 1e-2)
        gd = np.where(q['p'] > 1e-10)[0]
        sm = np.ravel(one.zred_samp)
        c.prove('samples lie where the likelihood is', np.all(sm >= s.z[gd[0]] - 1e-5) and np.all(sm <= s.z[gd[-1]] + 2e-4) if gd.size >= 3 else np.allclose(sm, zu, atol=1e-5))
        if not corr:
            c.prove('uncorrected', all(v[k] == zu for k in ('zred', 'zred2')) and all(v[k] == ze for k in ('zred_e', 'zred2_e')))
            continue
        piv = np.interp(zu, s.z[:-1], s.pivotmag[:-1])
        dz = v['zred'] - zu
        inside = s.z[0] <= min(zu, zu + dz) and max(zu, zu + dz) <= s.z[-2]
        if inside and s.z[0] + 0.05 < zu < s.z[-2] - 0.05:
            ip = lambda k, x: np.interp(x, s.z, getattr(s, k))
            # the iteration contracts: slope of the correction in redshift can exceed one, then only the last step is known
            st = [0.0]
            for _ in range(10):
                st.append(ip('corr', zu + st[-1]) + (mag - piv) * ip('corr_slope', zu + st[-1]))
                if abs(st[-1] - st[-2]) <= 0.001:
                    break
            c.prove('corrected at the corrected redshift', abs(dz - st[-1]) < 2e-5 or any(abs(abs(st[k] - st[k - 1]) - 0.001) < 1e-5 for k in range(1, len(st))))
            c.prove('error scaled at the corrected redshift', abs(v['zred_e'] - ze * ip('corr_r', v['zred'])) < 1e-4)
            c.prove('second correction', abs(v['zred2'] - zu - ip('corr2', zu) - (mag - piv) * ip('corr2_slope', zu)) < 2e-5 and abs(v['zred2_e'] - ze * ip('corr2_r', zu)) < 1e-5)


@contract('R14', [Z + 'ZredColor.compute_zreds'], kind='conc', bounded='up to 8 galaxies, up to 40 redshift nodes', trials=150)
def galaxy_redshifts(c):
    np, r = c.np, c.nrng
    m = c.mod('redmapper.zred_color')
    n = c.size('n', min=1, max=8)
    s = Seq(c, n)
    corr = c.choice('corr', [True, True, False])
    g = zgals(c, n)
    zc = m.ZredColor(s, do_correction=corr)
    base = m.ZredColor(s, do_correction=False)
    with np.errstate(all='ignore'):
        zc.compute_zreds(g)
    ref = zgals(c, n)
    ref.refmag = g.refmag
    for i in range(n):
        one = ref[i]
        with np.errstate(all='ignore'):
            base.compute_zred(one)
        zu, ze = float(np.ravel(one.zred)[0]), float(np.ravel(one.zred_e)[0])
        c.prove('each galaxy has its own redshift, likelihood and chi-squared', g.zred_uncorr[i] == np.float32(zu) and g.zred_uncorr_e[i] == np.float32(ze) and g.lkhd[i] == np.float32(one.lkhd) and
                (g.chisq[i] == np.float32(one.chisq)))
        if zu < 0:
            c.cover('flagged')
            c.prove('a galaxy without redshift stays flagged', all(float(getattr(g, k)[i]) == -1 for k in NAMES))
            continue
        if not corr:
            c.prove('uncorrected', g.zred[i] == g.zred_uncorr[i] and g.zred2_e[i] == g.zred_uncorr_e[i])
            continue
        c.cover('corrected')
        mag = float(g.refmag[i])
        if not s.z[0] + 0.05 < zu < s.z[-2] - 0.05:
            continue
        ip = lambda k, x: np.interp(x, s.z, getattr(s, k))
        piv = ip('pivotmag', zu)
        st = [0.0]
        for _ in range(5):
            st.append(ip('corr', zu + st[-1]) + (mag - piv) * ip('corr_slope', zu + st[-1]))
        dz = float(g.zred[i]) - zu
        if abs(st[-1] - st[-2]) < 1e-4:
            c.prove('corrected at the corrected redshift', abs(dz - st[-1]) < 1.5e-4)
            c.prove('error scaled at the corrected redshift', abs(g.zred_e[i] - ze * ip('corr_r', zu + dz)) < 1e-4)
        c.prove('second correction', abs(g.zred2[i] - zu - ip('corr2', zu) - (mag - piv) * ip('corr2_slope', zu)) < 2e-5 and abs(g.zred2_e[i] - ze * ip('corr2_r', zu)) < 1e-5)


class FakeZ(object):
    """compute_zreds as told: values that name their galaxy"""
    def __init__(self, *a, **k):
        pass

    def compute_zreds(self, g):
        for k, nm in enumerate(NAMES + ('lkhd', 'chisq')):
            setattr(g, nm, g.refmag * 10 + k)
        g.zred_samp = (g.refmag * 100).reshape(-1, 1) + __import__('numpy').arange(g.zred_samp.shape[1] if g.zred_samp.ndim > 1 else 1)


@contract('R14', [ZR + 'ZredRunCatalog.run', ZR + 'ZredRunCatalog._worker'], kind='conc', bounded='up to 12 galaxies', trials=60)
def run_catalogue(c):
    import fitsio
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.zred_runner')
    n = c.size('n', min=1, max=12)
    ns = c.choice('ns', [2, 4])
    cf = Ns(parfile='x', zred_nsamp=ns, calib_nproc=c.choice('np', [1, 2, 4, 9]), cosmo=None)
    cf.copy = lambda: cf
    c.patch(m, 'RedSequenceColorPar', lambda *a, **k: Ns())
    c.patch(m, 'ZredColor', FakeZ)
    c.patch(m, 'multiprocessing', FakeMp())
    g = np.zeros(n, dtype=[('ID', 'i8'), ('REFMAG', 'f4')])
    g['ID'], g['REFMAG'] = np.arange(n), r.permutation(n) + 15
    npp, mx = c.choice('npp', [None, None, 1, 3, 40]), c.choice('mx', [None, 2])
    with tempfile.TemporaryDirectory() as d:
        fi, fo = os.path.join(d, 'g.fit'), os.path.join(d, 'z.fit')
        fitsio.write(fi, g)
        kw = {}
        if npp is not None:
            kw['nperproc'] = npp
        if mx is not None:
            kw['maxperproc'] = mx
        m.ZredRunCatalog(cf).run(fi, fo, **kw)
        z = fitsio.read(fo, ext=1, lower=True)
    c.prove('one row per galaxy', z.size == n)
    c.prove('each with its own values', all(np.allclose(z[k], g['REFMAG'] * 10 + q) for q, k in enumerate(NAMES + ('lkhd', 'chisq'))) and np.allclose(z['zred_samp'], g['REFMAG'][:, None] * 100 + np.arange(ns)))


@contract('R14', [ZR + 'ZredRunPixels.run', ZR + 'ZredRunPixels._worker', ZR + 'ZredRunPixels.make_zred_table'], kind='conc', bounded='up to 30 galaxies in at least two pixels', trials=25)
def run_pixels(c):
    import fitsio
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.zred_runner')
    gm = c.mod('redmapper.galaxy')
    n = c.size('n', min=2, max=30)
    ns = 3
    g = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', (3,)), ('mag_err', 'f4', (3,)), ('ebv', 'f4')])
    g['id'], g['ra'], g['dec'], g['refmag'] = r.permutation(n) + 100, r.uniform(10, 60, n), r.uniform(-20, 20, n), r.permutation(n) + 14.0
    g['refmag_err'], g['mag_err'], g['mag'] = 0.1, 0.1, 17.0
    g['ra'][0], g['dec'][0], g['ra'][1], g['dec'][1] = 12.0, -18.0, 58.0, 18.0
    c.patch(m, 'RedSequenceColorPar', lambda *a, **k: Ns())
    c.patch(m, 'ZredColor', FakeZ)
    c.patch(m, 'multiprocessing', FakeMp())
    with tempfile.TemporaryDirectory() as d:
        mk = gm.GalaxyCatalogMaker(os.path.join(d, 'gal'), dict(LIM_REF=30.0, REF_IND=0, AREA=100.0, NMAG=3, MODE=0, ZP=22.5, B=np.zeros(3), U_IND=0), nside=8)
        mk.append_galaxies(g)
        mk.finalize_catalog()
        gf = os.path.join(d, 'gal_master_table.fit')
        zf = os.path.join(d, 'zz', 'gal_zreds_master_table.fit')
        tab = fitsio.read(gf, ext=1, lower=True)
        if tab['hpix'].size < 2:
            return
        sub = c.choice('sub', [False, True])
        cf = Ns(parfile='x', zred_nsamp=ns, calib_nproc=2, cosmo=None, galfile=gf, zredfile=zf, galfile_pixelized=True, border=0.0, logger=Log(), d=Ns(hpix=[], nside=0))
        cf.copy = lambda: cf
        if sub:
            cf.d = Ns(hpix=[int(tab['hpix'].ravel()[0])], nside=8)
        single = c.choice('single', [False, True])
        flat = Ns(**dict(cf.__dict__, galfile_pixelized=False))
        flat.copy = lambda: flat
        c.prove('only for pixelised catalogues', c.raises(ValueError, lambda: m.ZredRunPixels(flat).run())[0])
        m.ZredRunPixels(cf).run(single_process=single)
        zt = fitsio.read(zf, ext=1, lower=True)
        c.prove('the table is that of the galaxies', np.array_equal(zt['hpix'], tab['hpix']) and int(np.ravel(zt['nside'])[0]) == 8)
        want = np.ravel(tab['ngals']).copy()
        if sub:
            want[np.ravel(tab['hpix']) != cf.d.hpix[0]] = 0
        c.prove('with the galaxies that were processed', np.array_equal(np.ravel(zt['ngals']), want))
        for i, nm in enumerate(np.ravel(zt['filenames'])):
            nm = (nm.decode() if isinstance(nm, bytes) else str(nm)).strip()
            if want[i] == 0:
                c.prove('no file otherwise', nm == '')
                continue
            gp = fitsio.read(os.path.join(d, (np.ravel(tab['filenames'])[i].decode() if isinstance(np.ravel(tab['filenames'])[i], bytes) else str(np.ravel(tab['filenames'])[i])).strip()), ext=1, lower=True)
            zp = fitsio.read(os.path.join(d, 'zz', nm), ext=1, lower=True)
            c.prove('each galaxy has its own values, in the order of its file', zp.size == gp.size and all(np.allclose(zp[k], gp['refmag'] * 10 + q) for q, k in enumerate(NAMES + ('lkhd', 'chisq'))))
            c.prove('and its samples', np.allclose(zp['zred_samp'], gp['refmag'][:, None] * 100 + np.arange(ns)))
        # a file that does not belong is noticed
        k = int(np.where(want > 0)[0][0])
        bad = os.path.join(d, 'zz', 'bad.fit')
        fitsio.write(bad, np.zeros(int(want[k]) + 1, dtype=[('zred', 'f4')]), clobber=True)
        run = m.ZredRunPixels(cf)
        run.galtable = c.mod('redmapper.catalog').Entry.from_fits_file(gf)
        c.prove('a length mismatch is noticed', c.raises(ValueError, lambda: run.make_zred_table([(k, bad)]))[0])
        c.prove('a missing file is noticed', c.raises(ValueError, lambda: run.make_zred_table([(k, os.path.join(d, 'none.fit'))]))[0])


@contract('R14', ['redmapper/cluster_runner.py:ClusterRunner.run', K + 'ZlambdaCorrectionPar.apply_correction'], kind='conc', bounded='up to 3 clusters, up to 3 steps of the correction', trials=80)
def corrected_catalogue(c):
    """what a run leaves in its catalogue after the correction: redshift, error, and a distribution of unit integral over the bins beside it"""
    import scipy.integrate
    from contracts.r03_cluster import World
    from contracts.r07_percolation import MEM
    np, r = c.np, c.nrng
    m, zm = c.mod('redmapper.cluster_runner'), c.mod('redmapper.zlambda')
    clm, gm = c.mod('redmapper.cluster'), c.mod('redmapper.galaxy')
    nc, nb = c.size('nc', min=1, max=3), c.choice('nb', [21, 31])
    w = World(c, 2, dtype=[('PZBINS', 'f4', nb), ('PZ', 'f4', nb)])
    n = 4 * nc
    g = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 3), ('mag_err', 'f4', 3), ('ebv', 'f4'), ('chisq', 'f4'), ('zred', 'f4'), ('zred_e', 'f4')])
    g['id'], g['ra'], g['dec'] = np.arange(n), 50 + r.uniform(-0.02, 0.02, n) + np.repeat(np.arange(nc), 4), 10 + r.uniform(-0.02, 0.02, n)
    g['refmag'] = w.mst
    w.config.cosmo.Da = lambda a, z: np.degrees(8.0)
    w.config.__dict__.update(logger=Log(), start_file_logging=lambda *a: None, bkg_local_compute=False, bkg_local_use=False, limmag_catalog=21.0, percolation_memradius=None, percolation_memlum=None, member_dtype=MEM)
    cat = clm.ClusterCatalog(np.zeros(nc, dtype=w.config.cluster_dtype), r0=1.0, beta=0.2, zredstr=w.zredstr, config=w.config, bkg=w.bkg)
    cat.z, cat.mem_match_id, cat.ra, cat.dec = 0.3, np.arange(nc) + 1, 50.0 + np.arange(nc), 10.0
    it, pz, corr = c.choice('it', [1, 2, 3]), c.choice('pz', [True, True, False]), c.choice('corr', [True, True, False])
    sh = lambda k: (k,) if it == 1 else (k, it)
    par = zm.ZlambdaCorrectionPar(pars=Ns(niter_true=it, offset_z=np.linspace(0.1, 0.7, 5), offset_true=r.normal(0, 0.01, sh(5)), slope_z=np.linspace(0.1, 0.7, 4), slope_true=r.normal(0, 0.01, sh(4)),
                                          scatter_true=r.uniform(0.004, 0.02, sh(4)), zred_uncorr=np.linspace(0.1, 0.7, 5)), zrange=[0.1, 0.7], zbinsize=0.02, zlambda_pivot=30.0)
    lam, z, e = r.uniform(5, 100, nc), r.uniform(0.2, 0.6, nc), r.uniform(0.005, 0.02, nc)
    bins = z[:, None] + 0.004 * (np.arange(nb) - (nb - 1) // 2)
    p = np.exp(-0.5 * ((bins - z[:, None] - 0.002) / e[:, None]) ** 2)
    p /= np.array([scipy.integrate.simpson(y=a, x=b) for a, b in zip(p, bins)])[:, None]

    class R(m.ClusterRunner):
        def _setup(self):
            return True

        def _more_setup(self, *a, **kw):
            return True

        def _process_cluster(self, cl):
            k = int(cl.mem_match_id) - 1
            cl.Lambda, cl.r_lambda, cl.z_lambda, cl.z_lambda_e = lam[k], 0.5, z[k], e[k]
            cl.pzbins, cl.pz = bins[k], p[k]
            cl.neighbors.p = cl.neighbors.pmem = 0.5
            return False

        def _postprocess(self):
            pass

        def _cleanup(self):
            pass
    mg = Ns(r=np.array([0.1, 0.5, 0.9, 1.5]), mark=np.array([True, True, False, True]), exptime=np.ones(4), limmag=np.ones(4) * 21.0)
    run = c.bare(R, config=w.config, gals=gm.GalaxyCatalog(g), cat=cat, mask=Ns(maskgals=mg, select_maskgals_sample=lambda *a: 3, set_radmask=lambda *a: None),
                 depthstr=Ns(calc_maskdepth=lambda *a: None), depthlim=None, read_gals=True, use_maxmag_in_matching=False, do_percolation_masking=False, doublerun=False,
                 match_centers_to_galaxies=False, did_read_zreds=True, do_correct_zlambda=True, zlambda_corr=par if corr else None, do_pz=pz, do_lam_plusminus=False,
                 record_members=False, use_memradius=False, use_memlum=False, hpix_logstr='x', maxrad=1.5, rmask_0=1.0, rmask_beta=0.0, rmask_gamma=0.0, rmask_zpivot=0.3,
                 percolation_lmask=0.1, limlum=0.1, min_lambda=-1.0)
    run.run()
    out = run.cat
    for k in range(nc):
        zz, ee = float(np.float32(z[k])), float(np.float32(e[k]))
        for i in range(it if corr else 0):
            ee = np.hypot(ee, np.interp(zz, par.z, par.scatter[i]))
            zz += np.interp(zz, par.z, par.offset[i] + par.slope[i] * np.log(lam[k] / 30.0))
        c.prove('the redshift and error of the catalogue are corrected', abs(out.z_lambda[k] - zz) < 1e-5 and abs(out.z_lambda_e[k] - ee) < 1e-5)
        if not (corr and pz):
            c.prove('the distribution is left without a correction', np.allclose(out.pz[k], p[k], rtol=1e-5, atol=1e-5) and np.allclose(out.pzbins[k], bins[k], atol=1e-6))
            continue
        c.prove('the distribution of the catalogue integrates to one over the bins of the catalogue', abs(scipy.integrate.simpson(y=out.pz[k].astype('f8'), x=out.pzbins[k].astype('f8')) - 1) < 1e-3)
        c.prove('and keeps its shape', np.allclose(out.pz[k] / out.pz[k].max(), p[k] / p[k].max(), rtol=1e-3, atol=1e-4))
        c.prove('the bins move with the redshift and widen with the error', abs(out.pzbins[k][(nb - 1) // 2] - zz) < 1e-4 and np.allclose(np.diff(out.pzbins[k]), 0.004 * ee / e[k], rtol=5e-2))
