"""R10: what the first-pass, likelihood, catalogue, scan, colour-member and random runners do with one cluster, and what they start from"""
from rmv.run import contract
from contracts.stand import Ns, Log
from contracts.r03_cluster import World
from contracts.r07_percolation import Sky, FULL, Clu, apart

KL = 'redmapper/run_likelihoods.py:'
KF = 'redmapper/run_firstpass.py:'
KR = 'redmapper/runcat.py:'
KZ = 'redmapper/run_zscan.py:'
KC = 'redmapper/run_colormem.py:'
KM = 'redmapper/run_randoms_zmask.py:'


class Told(object):
    """richness and redshift answer as told: any values at every call"""
    def __init__(self, c, w, m, n, zr=(-1.0, 1.5), nz=3, nl=3, fail=False):
        self.c, self.w = c, w
        self.lam = [c.float('lam%d' % k, lo=0.5, hi=300.0) for k in range(nl)]
        self.sc = [c.float('sc%d' % k, lo=0.5, hi=3.0) for k in range(nl)]
        self.zl = [c.float('zl%d' % k, lo=zr[0], hi=zr[1]) for k in range(nz)]
        self.pm = c.array('pm', n, lo=0.0, hi=0.999)
        if fail and c.choice('fail', [False, True]):
            # no richness, as calc_richness reports it
            self.lam[-1], self.sc[-1] = -1, -1
        self.calls, self.zcalls = [], []
        t = self

        def richness(mask, index=None, calc_err=True, **k):
            i = min(len(t.calls), nl - 1)
            t.calls.append((w.cl.redshift, index))
            w.cl.Lambda, w.cl.scaleval = t.lam[i], t.sc[i]
            w.cl.neighbors.pmem = t.pm
            return t.lam[i]
        w.cl.calc_richness = richness

        class Z(object):
            def __init__(self, cluster):
                self.cluster = cluster
                self.niter = 4
                self.pzbins = self.pz = None

            def calc_zlambda(self, zin, mask, calc_err=False, calcpz=False, **k):
                i = min(len(t.zcalls), nz - 1)
                t.zcalls.append((zin, len(t.calls), calcpz))
                if calcpz:
                    self.pzbins, self.pz = c.np.arange(5) * 0.01 + i, c.np.arange(5) * 0.02 + i
                return t.zl[i], 0.01 * (i + 1)
        if m is not None:
            c.patch(m, 'Zlambda', Z)


def isbad(c, cl):
    return c.And(cl.Lambda == -1, cl.Lambda_e == -1, cl.scaleval == -1, cl.z_lambda == -1, cl.z_lambda_e == -1)


@contract('R10', [KL + 'RunLikelihoods._process_cluster', KL + 'RunLikelihoods._reset_bad_values'], assumes=['calc_richness by its contract (R03)'])
def likelihood(c):
    np = c.np
    m = c.mod('redmapper.run_likelihoods')
    n = c.size('n', min=1, max=8)
    w = World(c, n)
    cl = w.cl
    cal = c.choice('cal', [True, False])
    usez = c.choice('usez', [True, False]) if cal else True
    T = Told(c, w, None, n)
    nb = cl.neighbors
    nb.r = R = c.array('R', n, lo=1e-6, hi=2.0)
    if usez and cal:
        nb.add_fields([('zred', 'f8'), ('zred_e', 'f8')])
        zr, ze = c.array('zred', n, lo=0.0, hi=1.5), c.array('zrede', n, lo=0.001, hi=0.2)
        nb.zred, nb.zred_e = zr, ze
    cl.z_lambda = zl = c.float('zlam', lo=0.05, hi=1.2)
    cl.r_lambda = rl = c.float('rl', lo=0.1, hi=2.0)
    w.config.__dict__.update(logger=Log(), likelihoods_minlambda=3.0, lnw_cen_sigma=0.3 if cal else -9999.0, lnw_cen_mean=0.3, wcen_Delta0=-1.5, wcen_Delta1=-0.4, wcen_pivot=30.0, wcen_sigma_m=0.4,
                             likelihoods_use_zred=usez, wcen_rsoft=0.05, wcen_maxlambda=100.0)
    if c.symbolic:
        f1 = c.func('chipdf', 1, lo=0.0, hi=1e3)
        c.patch(m, 'chisq_pdf', lambda x, k: f1(x))
    w.zredstr.dof = 4
    corr = not c.symbolic and c.choice('corr', [False, True])
    cz = np.array([0.0, 0.5, 1.3])
    zc = Ns(z=cz, zred_uncorr=cz + np.array([0.01, -0.02, 0.03])) if corr else None
    run = c.bare(m.RunLikelihoods, config=w.config, mask=w.mask, zlambda_corr=zc, zredstr=w.zredstr, limlum=0.1)
    chi = c.snapshot(nb.chisq)
    if not c.symbolic and cal:
        # the central likelihood takes logarithms of densities: keep away from underflow
        nb.refmag[:] = w.mst - 1.0 + 0.1 * c.nrng.random(n)
        R2 = np.clip(R, 0.05, 0.15)
        nb.r = R = R2
        cl.r_lambda = rl = 1.0
    rm = c.snapshot(nb.refmag)
    bad = run._process_cluster(cl)
    near = np.argmin(R)
    inc, = np.where((T.pm > 0) & (R > R[near]))
    lo = c.Or(T.lam[0] < 3.0, inc.size < 3)
    c.prove('poor clusters and those with fewer than three members are bad, others are not', c.Iff(lo, bad is True or bad))
    if bad:
        c.prove('bad clusters are flagged', c.And(isbad(c, cl), cl.lnlike <= -9.9e10, cl.lnlamlike <= -9.9e10, cl.lnbcglike <= -9.9e10))
        return
    c.cover('good cluster')
    c.prove('richness is measured once and kept', len(T.calls) == 1 and c.same(cl.Lambda, T.lam[0]))
    want = -T.lam[0] / T.sc[0] - np.sum(np.log(1.0 - T.pm[inc]))
    c.prove('richness likelihood', c.close(cl.lnlamlike, want, rtol=1e-4, atol=1e-4))
    c.prove('the total likelihood is the sum of its parts', c.close(cl.lnlike, cl.lnlamlike + cl.lnbcglike, rtol=1e-4, atol=1e-3))
    if not cal:
        c.prove('no central likelihood before calibration', cl.lnbcglike == 0)
    elif not c.symbolic:
        mbar = w.mst - 1.5 - 0.4 * np.log(T.lam[0] / 30.0)
        phi = np.exp(-0.5 * ((rm[near] - mbar) / 0.4) ** 2) / np.sqrt(2 * np.pi) / 0.4
        if usez:
            g = np.exp(-0.5 * ((zr[near] - (np.interp(zl, zc.z, zc.zred_uncorr) if corr else zl)) / ze[near]) ** 2) / np.sqrt(2 * np.pi) / ze[near]
        else:
            g = m.chisq_pdf(chi[near], 4)
        u = (R > 1e-5) & (T.pm > 0)
        lum = 10 ** ((w.mst - rm[u]) / 2.5)
        wt = np.log(np.sum(T.pm[u] * lum / np.sqrt(R[u] ** 2 + 0.05 ** 2)) * rl / np.sum(T.pm[u] * lum))
        sig = 0.3 / np.sqrt(min(T.lam[0], 100.0) / T.sc[0] / 30.0)
        fw = np.exp(-0.5 * ((np.log(wt) - 0.3) / sig) ** 2) / np.sqrt(2 * np.pi) / sig
        v = np.log(phi * max(float(g), 1e-10) * fw)
        c.prove('central likelihood of the nearest galaxy', abs(cl.lnbcglike - v) < 1e-3 * max(1.0, abs(v)))


@contract('R10', [KL + 'RunLikelihoods._more_setup', KL + 'RunLikelihoods._postprocess'], kind='conc', bounded='up to 8 input clusters', trials=150)
def likelihood_input(c):
    np = c.np
    m = c.mod('redmapper.run_likelihoods')
    n = c.size('n', min=1, max=8)
    w = World(c, 2, dtype=FULL)
    sky = Sky(c, n, w)
    a = sky.a
    f = {k.lower(): a[k] for k in a.dtype.names}
    keepz, clean = c.choice('keepz', [False, True]), c.choice('clean', [False, True])
    inm = c.nrng.random(n) < 0.7
    pos = {float(x): bool(y) for x, y in zip(a['RA'], inm)}
    run = c.bare(m.RunLikelihoods, config=w.config, zredstr=w.zredstr, bkg=w.bkg, cosmo=w.config.cosmo, r0=0.9, beta=0.15, limlum=0.1, hpix_logstr='x', cat=None,
                 mask=Ns(compute_radmask=lambda ra, dec: np.array([pos[float(x)] for x in ra])))
    ok = run._more_setup(keepz=keepz, cleaninput=clean)
    lo, hi = (0.05, 0.65) if keepz else (0.1, 0.6)
    if np.any((np.abs(f['z'] - lo) < 1e-4) | (np.abs(f['z'] - hi) < 1e-4)):
        return
    use = (f['z'] > lo) & (f['z'] < hi) & (f['lambda'] > 0) & (f['refmag'] < w.mst - 2.5 * np.log10(0.1))
    if clean:
        use &= inm
    o = np.where(use)[0]
    c.prove('usable inputs are needed', bool(ok) == (o.size > 0))
    c.prove('the configuration is not changed', w.config.zrange == [0.1, 0.6])
    if not ok:
        c.prove('no catalogue then', run.cat is None)
        return
    c.prove('exactly the usable inputs in their order, rows together', np.array_equal(run.cat.mem_match_id, f['mem_match_id'][o]) and np.allclose(run.cat.ra, f['ra'][o]) and
            np.allclose(run.cat.Lambda, f['lambda'][o]) and np.allclose(run.cat.z, f['z'][o]))
    c.prove('with the configured radius', sky.opened[0][1].get('r0') == 0.9 and sky.opened[0][1].get('beta') == 0.15)
    b = c.nrng.random(o.size) < 0.4
    run.cat.lnlamlike = np.where(b, -1e11, -5.0)
    run._postprocess()
    c.prove('bad clusters are not written, all others are', np.array_equal(run.cat.mem_match_id, f['mem_match_id'][o][~b]))


@contract('R10', [KF + 'RunFirstPass._process_cluster'], assumes=['calc_richness (R03) and calc_zlambda (R14) by their contracts'])
def first_pass(c):
    np = c.np
    m = c.mod('redmapper.run_firstpass')
    n = c.size('n', min=1, max=6)
    w = World(c, n)
    cl = w.cl
    spec, keepz = c.choice('mode', [(False, False), (True, False), (False, True)])
    niter = 1 if spec else c.choice('niter', [1, 2])
    T = Told(c, w, m, n, nz=2, nl=niter, fail=True)
    cl.z_init = cl.redshift
    cl.z_spec_init = zs = c.float('zspec', lo=0.05, hi=1.2)
    nb = cl.neighbors
    nb.r = R = c.array('R', n, lo=1e-6, hi=2.0)
    w.config.__dict__.update(logger=Log(), firstpass_minlambda=3.0, zrange=[0.1, 0.9])
    run = c.bare(m.RunFirstPass, config=w.config, mask=w.mask, maxiter=niter, keepz=keepz, specmode=spec)
    nb.chisq = c.array('chinow', n, lo=0.0, hi=50.0)
    chi = c.snapshot(nb.chisq)
    z0 = cl.redshift
    bad = run._process_cluster(cl)
    fails = []
    for i in range(niter):
        fails.append(c.Or(T.lam[i] < 3.0 / T.sc[i] if not isinstance(T.lam[i], int) else True, T.zl[i] < 0.1, T.zl[i] > 0.9))
    c.prove('poor clusters and those outside the redshift range are bad, others are not', c.Iff(c.Or(*fails), bad is True or bad))
    c.prove('the nearest galaxy is the centre', c.close(cl.chisq, chi[np.argmin(nb.r)], rtol=1e-5))
    if bad:
        c.prove('bad clusters are flagged', c.And(isbad(c, cl)))
        return
    c.cover('good cluster')
    c.prove('one richness and one redshift per iteration', len(T.calls) == niter and len(T.zcalls) == niter)
    c.prove('the redshift is the last one', c.And(c.close(cl.z_lambda, T.zl[niter - 1], rtol=1e-5), c.close(cl.z_lambda_e, 0.01 * niter, rtol=1e-5)))
    for i in range(niter):
        before = z0 if (i == 0 or keepz) else T.zl[i - 1]
        c.prove('each iteration starts from the redshift of the one before', c.And(c.close(T.calls[i][0], before, rtol=1e-5), c.close(T.zcalls[i][0], before, rtol=1e-5)))
    c.prove('redshift of the catalogue', c.close(cl.z, zs if spec else T.zl[niter - 1], rtol=1e-5))
    c.prove('richness is the last one', c.same(cl.Lambda, T.lam[niter - 1]))


@contract('R10', [KF + 'RunFirstPass._more_setup'], kind='conc', bounded='up to 8 seeds', trials=200)
def first_pass_input(c):
    np = c.np
    r = c.nrng
    m = c.mod('redmapper.run_firstpass')
    clm, gm, cm = c.mod('redmapper.cluster'), c.mod('redmapper.galaxy'), c.mod('redmapper.catalog')
    n = c.size('n', min=1, max=8)
    w = World(c, 2, dtype=FULL)
    seeds, spec, readz, cut, clean = c.choice('seeds', [True, False]), c.choice('spec', [True, False]), c.choice('readz', [True, True, False]), c.choice('cut', [True, False]), c.choice('clean', [True, False])
    g = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 3), ('mag_err', 'f4', 3), ('ebv', 'f4'),
                           ('chisq', 'f4'), ('zred', 'f4'), ('zred_e', 'f4'), ('zred_chisq', 'f4'), ('zspec', 'f4')])
    for k in ('refmag_err', 'ebv', 'zred_e'):
        g[k] = r.uniform(0.1, 1, n)
    g['chisq'] = g['zred_chisq'] = r.uniform(0, 40, n)
    g['zred'], g['zspec'] = r.uniform(0, 0.8, n), r.uniform(0.1, 0.6, n)
    g['refmag'] = w.mst + r.uniform(-2, 4, n)
    g['ra'], g['dec'] = r.uniform(0, 360, n), r.uniform(-60, 60, n)
    g['mag'], g['mag_err'] = r.uniform(15, 20, (n, 3)), r.uniform(0.1, 1, (n, 3))
    w.config.__dict__.update(logger=Log(), seedfile='seed.fit' if seeds else None, zrange=[0.1, 0.6], chisq_max=20.0, lval_reference=0.2, firstpass_niter=2, firstpass_minlambda=3.0)
    w.zredstr.mstar = lambda z: w.mst + 0.0 * z
    import os
    c.patch(m, 'os', Ns(path=Ns(isfile=lambda f: f == 'seed.fit', join=os.path.join)))
    c.patch(m.Catalog, 'from_fits_file', classmethod(lambda cls, f, **k: cls(g.copy())))
    inm = r.random(n) < 0.7
    pos = {float(x): bool(y) for x, y in zip(g['ra'], inm)}
    run = c.bare(m.RunFirstPass, config=w.config, zredstr=w.zredstr, bkg=w.bkg, cosmo=w.config.cosmo, r0=0.9, beta=0.15, limlum=0.1, hpix_logstr='x', cat=None, specmode=spec, did_read_zreds=readz,
                 cutgals_chisqmax=cut, gals=gm.GalaxyCatalog(g.copy()), mask=Ns(compute_radmask=lambda ra, dec: np.array([pos[float(x)] for x in ra])))
    box = []
    bad, _ = c.raises(RuntimeError, lambda: box.append(run._more_setup(cleaninput=clean)))
    c.prove('seeds are needed for spectroscopic mode and without redshifts', bad == (not seeds and (spec or not readz)))
    if bad:
        return
    use = (g['zred'] >= 0.1) & (g['zred'] <= 0.6)
    if cut:
        use &= g['chisq'] < 20.0
    if seeds:
        if clean:
            use &= inm
    else:
        use &= g['refmag'] < w.mst - 2.5 * np.log10(0.2)
    o = np.where(use)[0]
    c.prove('usable seeds are needed', bool(box[0]) == (o.size > 0))
    if not box[0]:
        return
    k = run.cat
    c.prove('exactly the usable seeds', k.size == o.size and np.allclose(k.ra, g['ra'][o]) and np.allclose(k.dec, g['dec'][o]))
    c.prove('with their properties', np.allclose(k.mag, g['mag'][o]) and np.allclose(k.mag_err, g['mag_err'][o]) and np.allclose(k.refmag, g['refmag'][o]) and np.allclose(k.refmag_err, g['refmag_err'][o]) and
            np.allclose(k.zred, g['zred'][o]) and np.allclose(k.zred_e, g['zred_e'][o]) and np.allclose(k.chisq, g['chisq'][o]) and np.allclose(k.zred_chisq, g['chisq'][o]))
    z = g['zspec'] if (seeds and spec) else g['zred']
    c.prove('at their redshift', np.allclose(k.z, z[o]) and np.allclose(k.z_init, z[o]))
    first = k[0]
    c.prove('with the configured radius', first.r0 == 0.9 and first.beta == 0.15)
    c.prove('iterations and cut as configured', run.maxiter == (1 if spec else 2) and run.min_lambda == 3.0)


@contract('R10', [KR + 'RunCatalog._process_cluster'], assumes=['calc_richness (R03) and calc_zlambda (R14) by their contracts'])
def catalogue_run(c):
    np = c.np
    m = c.mod('redmapper.runcat')
    n = c.size('n', min=1, max=6)
    w = World(c, n, dtype=FULL)
    cl = w.cl
    conv = c.choice('conv', [False, True])
    niter = c.choice('niter', [1, 2]) if conv else 5
    T = Told(c, w, m, n, nz=6, nl=6)
    cl.maskfrac = mf = c.float('mf', lo=0.0, hi=1.0)
    run = c.bare(m.RunCatalog, config=w.config, mask=w.mask, maxiter=niter, tol=0.005, converge_zlambda=conv, limlum=0.1)
    z0 = cl.redshift
    bad = run._process_cluster(cl)
    k = len(T.calls)
    c.prove('mostly masked clusters are bad', c.implies(mf > 0.7, bad is True or bad))
    c.prove('poor clusters are bad', c.And(*[c.implies(T.lam[i] < 3.0, bad is True or bad) for i in range(k)]))
    c.prove('clusters without redshift are bad', c.And(*[c.implies(T.zl[i] < 0.0, bad is True or bad) for i in range(len(T.zcalls))]))
    if bad:
        ok = c.Or(mf > 0.7, c.And(k > 0, c.Or(T.lam[k - 1] < 3.0, T.zl[len(T.zcalls) - 1] < 0)) if k else False)
        c.prove('others are not', ok)
        if k:
            c.prove('bad clusters are flagged', isbad(c, cl))
        return
    c.cover('good cluster')
    c.prove('one iteration without convergence', conv or k == 1)
    c.prove('never more than allowed', c.And(k >= 1, k <= niter, len(T.zcalls) == k))
    j = k - 1
    c.prove('the last redshift and its p(z) are kept', c.And(c.close(cl.z_lambda, T.zl[j], rtol=1e-5), c.close(cl.z_lambda_e, 0.01 * k, rtol=1e-5),
                                                              c.And(*[c.close(cl.pzbins[q], 0.01 * q + j, rtol=1e-4, atol=1e-5) for q in range(5)]), c.And(*[c.close(cl.pz[q], 0.02 * q + j, rtol=1e-4, atol=1e-5) for q in range(5)])))
    for i in range(k):
        before = z0 if i == 0 else c.ite(T.zl[i - 1] < 0.01, 0.01, T.zl[i - 1])
        c.prove('each iteration starts from the redshift of the one before', c.And(c.close(T.calls[i][0], before, rtol=1e-5), c.close(T.zcalls[i][0], before, rtol=1e-5)))
        if conv and i + 1 < k:
            c.prove('stops when converged', c.Or(before - T.zl[i] >= 0.005 - 1e-7, T.zl[i] - before >= 0.005 - 1e-7))
    if conv and k < niter:
        last = z0 if j == 0 else c.ite(T.zl[j - 1] < 0.01, 0.01, T.zl[j - 1])
        c.prove('does not stop before', c.And(last - T.zl[j] < 0.005 + 1e-7, T.zl[j] - last < 0.005 + 1e-7))


@contract('R10', [KM + 'RunRandomsZmask._process_cluster'], assumes=['calc_maskcorr by its contract (R15)'])
def random_point(c):
    np = c.np
    m = c.mod('redmapper.run_randoms_zmask')
    w = World(c, 2, dtype=[('LAMBDA_IN', 'f4')])
    cl = w.cl
    cl.lambda_in = lin = c.float('lin', lo=5.0, hi=300.0)
    run = c.bare(m.RunRandomsZmask, config=w.config, mask=w.mask)
    bad = run._process_cluster(cl)
    c.prove('never fails', not bad)
    c.prove('the input richness is kept', c.close(cl.Lambda, lin, rtol=1e-5))
    rl = w.r0 * (lin / 100.0) ** w.beta
    c.prove('radius of that richness', c.And(c.close(cl.r_lambda, rl, rtol=1e-4), c.close(cl.r_mask, rl, rtol=1e-4)))
    call = [x for x in w.log if x[0] == 'maskcorr']
    c.prove('the mask correction is for the luminosity limit of the catalogue', len(call) == 1 and c.And(c.close(call[0][1], w.mst), c.close(call[0][2], w.mst - 2.5 * np.log10(0.2)), c.close(call[0][3], w.limmag)))
    p = w.cpars
    rr = cl.r_lambda
    cv = p[0] * rr * rr * rr + p[1] * rr * rr + p[2] * rr + p[3]
    if c.symbolic:
        c.prove('mask correction', c.implies(cv != 1, c.close(cl.scaleval * (1.0 - cv), 1.0)))
    else:
        c.prove('mask correction', abs(1 - cv) < 1e-2 or c.close(cl.scaleval, 1 / (1 - cv), rtol=1e-3))


@contract('R10', [KC + 'RunColormem._process_cluster'], assumes=['calc_richness_fit by its contract (R03)'])
def colour_member(c):
    np = c.np
    m = c.mod('redmapper.run_colormem')
    n = c.size('n', min=1, max=6)
    w = World(c, n, dtype=[('redcolor', 'f4', 3), ('p_bcg', 'f4')])
    cl = w.cl
    nb = cl.neighbors
    nb.r = R = c.array('R', n, lo=1e-6, hi=2.0)
    pm = c.array('pm', n, lo=0.0, hi=1.0)
    lam, sc = c.float('lam', lo=0.5, hi=300.0), c.float('sc', lo=0.5, hi=3.0)
    asked = []

    def fit(mask, mode, calc_err=True, centcolor_in=None, **k):
        asked.append((mode, centcolor_in))
        cl.Lambda, cl.scaleval = lam, sc
        nb.pmem = pm
        return lam
    cl.calc_richness_fit = fit
    z = c.float('cz', lo=0.1, hi=0.9)
    cl.z = z
    for j in range(3):
        cl.redcolor[j] = 0.5 + j
    w.config.__dict__.update(calib_colormem_colormodes=[2, 0, 1], calib_colormem_minlambda=10.0, calib_pcut=0.3)
    zb = np.array([0.089, 0.35, 0.7, 0.911])
    run = c.bare(m.RunColormem, config=w.config, mask=w.mask, zbounds=zb)
    bad = run._process_cluster(cl)
    zf = cl.z
    want = c.ite(zf <= 0.35, 2, c.ite(zf <= 0.7, 0, 1))
    c.prove('the colour of the redshift range is used, with the model colour as a start', len(asked) == 1 and c.And(asked[0][0] == want, c.close(asked[0][1], 0.5 + want, rtol=1e-5)))
    b = pm[np.argmin(R)]
    c.prove('probability of the nearest galaxy', c.close(cl.p_bcg, b, rtol=1e-5))
    lo = c.Or(lam / sc < 10.0, cl.p_bcg < 0.3)
    c.prove('poor clusters and unlikely centres are bad, others are not', c.Iff(lo, bad is True or bad))
    if bad:
        c.prove('bad clusters are flagged', isbad(c, cl))


@contract('R10', [KC + 'RunColormem._postprocess', KC + 'RunColormem.output_training', KC + 'RunColormem._doublerun_sort'], kind='conc', bounded='up to 6 clusters')
def colour_output(c):
    np = c.np
    r = c.nrng
    m = c.mod('redmapper.run_colormem')
    clm, cm = c.mod('redmapper.cluster'), c.mod('redmapper.catalog')
    n = c.size('n', min=1, max=6)
    a = np.zeros(n, dtype=[('mem_match_id', 'i4'), ('lambda', 'f4'), ('scaleval', 'f4'), ('maskfrac', 'f4'), ('ra', 'f8')])
    a['mem_match_id'] = r.permutation(50)[:n] + 1
    a['lambda'] = r.permutation(30)[:n] + 1.0
    a['scaleval'] = np.where(r.random(n) < 0.2, -1, r.uniform(1, 2, n))
    a['lambda'][a['scaleval'] < 0] = -1
    a['maskfrac'] = r.uniform(0, 0.4, n)
    cat = clm.ClusterCatalog(a.copy())
    mm = np.repeat(a['mem_match_id'], r.integers(1, 4, n))
    mem = np.zeros(mm.size, dtype=[('mem_match_id', 'i4'), ('id', 'i8'), ('z', 'f4'), ('pcol', 'f4')])
    mem['mem_match_id'], mem['id'], mem['z'], mem['pcol'] = mm, np.arange(mm.size), 0.3, r.uniform(0, 1, mm.size)
    ml = c.choice('minlambda', [10.0, 10.0, 0.5])
    cf = Ns(calib_colormem_minlambda=ml, max_maskfrac=0.2, calib_colormem_smooth=0.0, calib_pcut=0.3, zmemfile='zmem.fit', redmapper_filename=lambda x, **k: x + '.fit')
    run = c.bare(m.RunColormem, config=cf, cat=cat, members=cm.Catalog(mem.copy()))
    keep = (a['lambda'] / a['scaleval'] >= ml) & (a['scaleval'] > 0) & (a['maskfrac'] < np.float32(0.2))
    run._doublerun_sort()
    if np.sum(a['lambda'] < 0) < 2:
        c.prove('the second pass goes from rich to poor', np.array_equal(run.cat.mem_match_id, a['mem_match_id'][np.argsort(-a['lambda'])]))
    run._postprocess()
    kid = set(a['mem_match_id'][keep].tolist())
    c.prove('rich unmasked clusters are kept', set(run.cat.mem_match_id.tolist()) == kid and run.cat.size == keep.sum())
    c.prove('with all of their members and no others', sorted(run.members.id.tolist()) == np.where(np.isin(mm, list(kid)))[0].tolist())
    if run.members.size == 0:
        return
    out = {}
    c.patch(cm.Catalog, 'to_fits_file', lambda self, f, **k: out.__setitem__(f, self._ndarray.copy()))
    run.output_training()
    c.prove('the clusters are written', out.get('colorcat.fit') is not None and set(out['colorcat.fit']['mem_match_id'].tolist()) == kid)
    c.prove('likely members are the training sample', sorted(out['zmem.fit']['id'].tolist()) == np.where(np.isin(mm, list(kid)) & (mem['pcol'] > np.float32(0.3)))[0].tolist())


ZS = 4
ZDT = [('z_steps', 'f4', ZS), ('lambda_steps', 'f4', ZS), ('likelihood_steps', 'f4', ZS), ('lmax', 'f4'), ('max_ind', 'i4'), ('zmax', 'f4'), ('ra_opt', 'f8'), ('dec_opt', 'f8'),
       ('lambda_opt', 'f4'), ('lambda_opt_e', 'f4'), ('z_lambda_opt', 'f4'), ('z_lambda_opt_e', 'f4')]


@contract('R10', [KZ + 'RunZScan._process_cluster'], kind='conc', bounded='4 redshift steps, up to 10 neighbours', trials=250)
def scan_one(c):
    np = c.np
    r = c.nrng
    m = c.mod('redmapper.run_zscan')
    clm = c.mod('redmapper.cluster')
    n = c.size('n', min=2, max=10)
    W = Clu(c, n, m, spread=c.choice('spread', [0.05, 0.4]))
    w = W.w
    faint = r.random(n) < 0.3
    W.gals.refmag[faint] = W.g['refmag'][faint] = w.mst + r.uniform(1.5, 3.5, faint.sum())
    cl = clm.Cluster(dtype=list(w.config.cluster_dtype) + ZDT, r0=1.0, beta=0.2, config=w.config, zredstr=w.zredstr, bkg=w.bkg)
    cl.ra, cl.dec, cl.redshift = W.cl.ra, W.cl.dec, 0.2
    cl.find_neighbors(5.0, W.gals, megaparsec=True)
    w.config.cosmo.Da = lambda a, z: W.da * (0.5 + z)
    zarr = 0.2 + 0.05 * np.arange(ZS)
    ans = {i: (5.0 + 40 * r.random() if r.random() < 0.8 else r.choice([1.0, 3.5])) for i in range(40)}
    pmv = [r.uniform(0, 0.95, n) * (r.random(n) < 0.8) for _ in range(40)]
    zl = [0.3 + 0.02 * r.random() if r.random() < 0.93 else -1.0 for _ in range(4)]
    scale = c.choice('scale', [1.0, 1.5])
    found = c.choice('found', [True, True, False])
    pz = r.uniform(0, 1, 5)
    hist, zh, masks = [], [], []

    def richness(self, mask, index=None, calc_err=True, **k):
        i = len(hist)
        nb = self.neighbors
        ix = np.arange(nb.size) if index is None else index
        self.Lambda, self.Lambda_e, self.scaleval, self.r_lambda = ans[i], 0.5 + i, scale, 0.8
        nb.pmem[:] = 0.0
        nb.pmem[ix] = pmv[i][nb.index[ix]]
        nb.p[:] = nb.pmem
        hist.append(dict(me=self, z=float(self.redshift), ra=float(self.ra), ix=np.array(ix), r=nb.r.copy(), mag=nb.refmag.copy(), idx=nb.index.copy(), r0=self.r0, beta=self.beta, pm=nb.pmem.copy(),
                         radmask=masks[-1] if masks else None, pfree=nb.pfree.copy(), d=apart(np, nb.ra, nb.dec, self.ra, self.dec)))
        return self.Lambda
    c.patch(clm.Cluster, 'calc_richness', richness)

    class Z(object):
        niter = 3

        def __init__(self, cluster):
            self.cluster = cluster
            self.pzbins = self.pz = None

        def calc_zlambda(self, zin, mask, calc_err=False, calcpz=False, **k):
            z = zl[len(zh) % 4]
            zh.append((self.cluster, zin, z, calcpz))
            if calcpz and z > 0:
                self.pzbins, self.pz = np.arange(5) * 0.01 + z, pz
            return z, (0.01 if z > 0 else -1.0)
    c.patch(m, 'Zlambda', Z)
    best = {}
    short = c.choice('short', [True, False])

    class Cent(object):
        def __init__(self, cluster, **k):
            q = best['i'] = int(r.integers(cluster.neighbors.size))
            k3 = 3
            self.ra, self.dec = np.zeros(k3) - 400, np.zeros(k3) - 400
            self.index = np.zeros(k3, dtype=np.int32) - 1
            self.p_cen, self.q_cen, self.p_fg, self.p_sat, self.p_c = (np.zeros(k3) for _ in range(5))
            self.q_miss, self.ngood, self.maxind = 0.25, 1, q
            self.ra[0], self.dec[0], self.index[0], self.p_cen[0] = cluster.neighbors.ra[q], cluster.neighbors.dec[q], q, 1.0
            if short:               # CenteringBCG gives the one position only
                self.ra, self.dec = self.ra[:1].copy(), self.dec[:1].copy()

        def find_center(self):
            return found
    c.patch(m, 'CenteringBCG', Cent)
    w.config.__dict__.update(logger=Log(), centerclass='CenteringBCG')
    run = c.bare(m.RunZScan, config=w.config, gals=W.gals, z_array=zarr, nzstep=ZS, depthlim=None, limlum=0.1, maxrad=3.0, min_lambda=3.0, refine_r0=0.9, refine_beta=0.15, refine_maxrad=2.5, did_read_zreds=True,
                 mask=Ns(maskgals=Ns(), set_radmask=lambda x: masks.append((float(x.ra), float(x.redshift)))), depthstr=Ns(calc_maskdepth=lambda *a: None))
    mst = lambda z: w.mst + 1.5 * (z - 0.3)
    c.patch(w.zredstr, 'mstar', mst)
    bad = run._process_cluster(cl)
    for h in hist:
        rr = np.clip(np.radians(1.0) * W.da * (0.5 + h['z']) * h['d'], 1e-6, None)
        c.prove('radii are those at the redshift and position of each step', np.all(np.abs(h['r'] - rr) < 1e-3 + 1e-4 * rr))
    sc = [h for h in hist if h['me'] is cl and h['r0'] == 1.0]
    c.prove('the steps are those of the grid', np.allclose(cl.z_steps, zarr))
    lam = np.zeros(ZS) - 1
    like = np.zeros(ZS) - 1
    for k, h in enumerate(sc):
        i = int(np.argmin(np.abs(zarr - h['z'])))
        c.prove('each richness is measured at its step with its mask', abs(zarr[i] - h['z']) < 1e-9 and h['radmask'] == (h['ra'], h['z']))
        sel = (h['mag'] < mst(h['z']) + 2.5) & (h['r'] < 3.0)
        c.prove('from the neighbours inside the search radius', np.array_equal(h['ix'], np.where(sel)[0]))
        if ans[k] >= 3.0:
            lam[i] = ans[k]
            inc = (h['pm'] > 0) & (h['r'] > 1e-6) & (h['pm'] < 1)
            like[i] = -ans[k] / scale - np.sum(np.log(1 - h['pm'][inc])) if inc.any() else -1.0
    c.prove('richness of each step', np.allclose(cl.lambda_steps, lam, rtol=1e-5))
    c.prove('likelihood of each step', np.allclose(cl.likelihood_steps, like, rtol=1e-4, atol=1e-4))
    c.prove('the most likely step is found', abs(cl.lmax - like.max()) < 1e-3 and abs(like[cl.max_ind] - like.max()) < 1e-3 and abs(cl.zmax - zarr[cl.max_ind]) < 1e-6)
    if lam[cl.max_ind] < 3.0:
        c.prove('a scan without cluster is bad', bool(bad))
        return
    rf = [h for h in hist if h['me'] is cl and h['r0'] == 0.9]
    c.prove('the cluster is measured again with the radius of the catalogue', len(rf) >= 1 and all(h['beta'] == 0.15 for h in rf))
    c.prove('starting at the most likely redshift', abs(rf[0]['z'] - zarr[cl.max_ind]) < 1e-6 and rf[0]['radmask'][1] == rf[0]['z'] and np.all(rf[0]['pfree'] == 1))
    k0 = len(sc)
    poor = any(ans[k0 + i] / scale < 3.0 for i in range(len(rf)))
    noz = zl[0] < 0 and len(zh) > 0
    c.prove('poor clusters and those without redshift are bad, others are not', bool(bad) == (poor or noz))
    if bad:
        c.prove('bad clusters are flagged', cl.Lambda == -1 and cl.z_lambda == -1 and cl.scaleval == -1)
        return
    c.cover('good cluster')
    c.prove('and then at its own redshift', len(rf) == 2 and abs(rf[1]['z'] - zl[0]) < 1e-6 and abs(cl.z_lambda - zl[0]) < 1e-6 and np.allclose(cl.pz, pz) and abs(cl.redshift - zl[0]) < 1e-6)
    c.prove('the richness stays that of the given centre', abs(cl.Lambda - ans[k0 + 1]) < 1e-4 and cl.ra == W.cl.ra and cl.dec == W.cl.dec)
    if not found:
        return
    q = best['i']
    nb = cl.neighbors
    c.prove('optical centre', cl.ra_opt == nb.ra[q] and cl.dec_opt == nb.dec[q] and cl.id_cent[0] == nb.id[q] and not np.any(cl.id_cent[1:]) and cl.refmag == nb.refmag[q] and np.array_equal(cl.mag, nb.mag[q]) and
            cl.ncent_good == 1 and np.allclose(cl.p_cen, [1, 0, 0]))
    c.prove('unused slots stay empty', np.all(cl.ra_cent[1:] == -400) and np.all(cl.dec_cent[1:] == -400) and cl.ra_cent[0] == nb.ra[q] and cl.dec_cent[0] == nb.dec[q])
    o = [h for h in hist if h['me'] is not cl]
    c.prove('optical richness and redshift are measured around it', len(o) == 1 and o[0]['ra'] == float(nb.ra[q]) and abs(cl.lambda_opt - ans[k0 + 2]) < 1e-4 and abs(cl.lambda_opt_e - (0.5 + k0 + 2)) < 1e-4 and abs(cl.Lambda_e - (0.5 + k0 + 1)) < 1e-4 and abs(cl.z_lambda_opt - zl[1]) < 1e-6 and
            zh[1][0] is o[0]['me'])


@contract('R10', [KZ + 'RunZScan._more_setup', KR + 'RunCatalog._more_setup', KM + 'RunRandomsZmask._more_setup'], kind='conc', bounded='up to 8 inputs', trials=150)
def other_inputs(c):
    np = c.np
    r = c.nrng
    which = c.choice('which', ['zscan', 'cat', 'rand'])
    n = c.size('n', min=1, max=8)
    w = World(c, 2, dtype=FULL)
    sky = Sky(c, n, w)
    a = sky.a
    f = {k.lower(): a[k] for k in a.dtype.names}
    ids = f['mem_match_id'].copy()
    if which == 'zscan':
        m = c.mod('redmapper.run_zscan')
        step = c.choice('step', [0.01, 0.03, 0.05])
        w.config.__dict__.update(zscan_zstep=step, zscan_minlambda=4.0, percolation_r0=0.8, percolation_beta=c.choice('b', [0.0, 0.3]))
        run = c.bare(m.RunZScan, config=w.config, zredstr=w.zredstr, bkg=w.bkg, zredbkg=None, cosmo=w.config.cosmo, r0=0.9, beta=0.15)
        c.prove('set up', run._more_setup())
        c.prove('the steps cover the redshift range', abs(run.z_array[0] - 0.1) < 1e-9 and np.allclose(np.diff(run.z_array), step) and run.z_array[-1] < 0.6 + 1e-6 and run.z_array[-1] + step >= 0.6 - 1e-6 and
                run.cat.z_steps.shape == (n, run.z_array.size))
        c.prove('all inputs, from the first step', np.array_equal(run.cat.mem_match_id, ids) and np.allclose(run.cat.z, 0.1) and np.allclose(run.cat.ra_orig, f['ra']))
        c.prove('cut', run.min_lambda == 4.0 and not run.do_percolation_masking and run.record_members)
        b = w.config.percolation_beta
        c.prove('neighbours reach the refined radius', run.refine_r0 == 0.8 and run.refine_beta == b and run.refine_maxrad >= 0.8 * 3 ** b - 1e-9)
    elif which == 'cat':
        m = c.mod('redmapper.runcat')
        memlum, lmask = c.choice('memlum', [None, 0.05, 0.15, 0.5]), c.choice('lmask', [None, -1.0, 0.02, 0.3])
        perc = c.choice('perc', [True, False])
        w.config.__dict__.update(percolation_memlum=memlum, percolation_lmask=lmask, lval_reference=0.2)
        run = c.bare(m.RunCatalog, config=w.config, zredstr=w.zredstr, bkg=w.bkg, cosmo=w.config.cosmo, r0=0.9, beta=0.15, limlum=0.1)
        opt = c.choice('opt', [{}, dict(maxiter=3), dict(tol=0.02), dict(converge_zlambda=True, maxiter=7)])
        c.prove('set up', run._more_setup(do_percolation_masking=perc, **opt))
        c.prove('options', (run.maxiter, run.tol, bool(run.converge_zlambda)) == (opt.get('maxiter', 5), opt.get('tol', 0.005), opt.get('converge_zlambda', False)))
        c.prove('all inputs in order', np.array_equal(run.cat.mem_match_id, ids) and np.allclose(run.cat.ra, f['ra']) and run.do_percolation_masking == perc and run.record_members)
        need = [0.1] + ([memlum] if memlum and memlum < 0.2 else []) + ([lmask] if lmask and lmask > 0 else [])
        c.prove('neighbours reach the faintest luminosity that is used', abs(run.limlum - min(need)) < 1e-12)
    else:
        m = c.mod('redmapper.run_randoms_zmask')
        g = np.zeros(n, dtype=[('id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('lambda', 'f4'), ('id_input', 'i4')])
        g['id'], g['ra'], g['dec'], g['z'], g['lambda'], g['id_input'] = r.permutation(90)[:n], f['ra'], f['dec'], f['z'], np.abs(f['lambda']), ids
        calls = []
        c.patch(m.RandomCatalog, 'from_randfile', classmethod(lambda cls, x, **k: (calls.append((x, k)), cls(g.copy()))[1]))
        w.config.__dict__.update(randfile='rand.fit', d=Ns(nside=4, hpix=[3]), border=0.3)
        run = c.bare(m.RunRandomsZmask, config=w.config, zredstr=w.zredstr, bkg=w.bkg, cosmo=w.config.cosmo, r0=0.9, beta=0.15, limlum=0.1)
        c.prove('set up', run._more_setup())
        k = run.cat
        c.prove('the random points of the region are read', calls == [('rand.fit', dict(nside=4, hpix=[3], border=0.3))])
        c.prove('all random points with what they stand for', np.array_equal(k.mem_match_id, g['id']) and np.array_equal(k.ra, g['ra']) and np.array_equal(k.dec, g['dec']) and np.array_equal(k.z, g['z']) and
                np.array_equal(k.lambda_in, g['lambda']) and np.array_equal(k.z_in, g['z']) and np.array_equal(k.id_input, g['id_input']) and np.array_equal(k.Lambda, g['lambda']))
        c.prove('nothing is measured', not (run.do_percolation_masking or run.record_members or run.do_lam_plusminus))


@contract('R10', [KC + 'RunColormem._more_setup'], kind='conc', bounded='up to 8 inputs', trials=60)
def colour_input(c):
    np = c.np
    r = c.nrng
    m = c.mod('redmapper.run_colormem')
    n = c.size('n', min=1, max=8)
    w = World(c, 2, dtype=FULL)
    sky = Sky(c, n, w)
    a = sky.a
    a['Z'] = np.where(r.random(n) < 0.2, r.choice(np.array([0.1, 0.6], dtype='f4'), n), a['Z'])
    f = {k.lower(): a[k].copy() for k in a.dtype.names}
    nm = c.choice('nm', [3, 4])
    nodes = np.array([0.05, 0.3, 0.5, 0.7])
    col = r.uniform(0, 2, (4, nm - 1))
    got = []
    c.patch(m, 'Entry', Ns(from_fits_file=lambda x, **k: (got.append(x), Ns(nodes=nodes, meancol=col))[1]))
    w.config.__dict__.update(redgalfile='red.fit', redgalmodelfile='model.fit', nmag=nm, calib_colormem_r0=0.55, calib_colormem_beta=0.05, calib_colormem_zbounds=np.array([0.35]))
    cb = Ns()
    run = c.bare(m.RunColormem, config=w.config, zredstr=w.zredstr, cbkg=cb, bkg=None, cosmo=w.config.cosmo, r0=0.9, beta=0.15, limlum=0.1, rmask_0=3.0, rmask_beta=0.3, hpix_logstr='x')
    keep = (f['z'] > 0.1) & (f['z'] < 0.6) & (np.abs(f['z'] - 0.1) > 1e-6) & (np.abs(f['z'] - 0.6) > 1e-6)
    if not keep.any():
        return
    c.prove('set up', run._more_setup())
    k = run.cat
    c.prove('the clusters inside the redshift range', sky.opened[0][0] == 'red.fit' and got == ['model.fit'] and np.array_equal(k.ra, f['ra'][keep]) and np.array_equal(k.mem_match_id, f['mem_match_id'][keep]))
    c.prove('start from their redshifts', np.array_equal(k.z, f['z'][keep]) and np.array_equal(k.z_init, f['z'][keep]))
    cs = c.mod('redmapper.utilities').CubicSpline
    c.prove('with the model colours there', k.redcolor.shape == (keep.sum(), nm - 1) and all(np.allclose(k.redcolor[:, j], cs(nodes, col[:, j])(f['z'][keep]), rtol=1e-4, atol=1e-5) for j in range(nm - 1)))
    c.prove('every redshift has a colour', run.zbounds[0] < 0.1 and run.zbounds[-1] > 0.6 and np.array_equal(run.zbounds[1:-1], [0.35]))
    c.prove('masked to the radius of the training clusters, in two passes', run.rmask_0 == 0.55 and run.rmask_beta == 0.05 and run.doublerun)
    c.prove('the settings stay', w.config.zrange == [0.1, 0.6])
