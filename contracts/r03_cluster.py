"""R03: richness and member quantities of a cluster (cluster.py)"""
from rmv.run import contract
from contracts.stand import Ns

K = 'redmapper/cluster.py:'
GAL = [('ra', 'f8', dict(lo=0.0, hi=360.0)), ('dec', 'f8', dict(lo=-80.0, hi=80.0)), ('refmag', 'f4', dict(lo=14.0, hi=24.0)),
       ('refmag_err', 'f4', dict(lo=0.001, hi=1.0)), ('mag', 'f4', dict(shape=3, lo=14.0, hi=26.0)), ('mag_err', 'f4', dict(shape=3, lo=0.001, hi=1.0)),
       ('chisq', 'f4', dict(lo=0.0, hi=100.0)), ('pfree', 'f8', dict(lo=0.0, hi=1.0)), ('dist', 'f8', dict(lo=0.0, hi=2.0))]


def galaxies(c, gm, n, name='g', drop=()):
    return c.get(gm, 'GalaxyCatalog')(c.rec(name, n, [(f[0], f[1], dict(f[2])) for f in GAL if f[0] not in drop]))


class World(object):
    """a cluster on top of arbitrary neighbours, with stand-ins for the red sequence, backgrounds, cosmology and mask"""
    def __init__(self, c, n, pfree=True, dtype=None):
        self.c = c
        np = c.np
        self.m = m = c.mod('redmapper.cluster')
        gm = c.mod('redmapper.galaxy')
        self.z = c.float('z', lo=0.05, hi=1.2)
        self.gals = galaxies(c, gm, n, drop=() if pfree else ('pfree',))
        self.s = {k: c.snapshot(getattr(self.gals, k)) for k in ('refmag', 'refmag_err', 'dist', 'chisq')}
        self.pfree0 = c.snapshot(self.gals.pfree) if pfree else None
        self.mst = c.float('mst', lo=15.0, hi=22.0)
        self.da = c.float('da', lo=1.0, hi=5000.0)
        self.limmag = c.float('limmag', lo=18.0, hi=24.0)
        self.lnorm = c.float('lnorm', lo=0.001, hi=10.0)
        self.newchi = c.array('newchi', n, lo=0.0, hi=100.0)
        self.sig = c.func('sig', 2, lo=0.0, hi=50.0)
        self.log = []
        w = self

        class Lum(object):
            def __getitem__(self, k):
                return w.lnorm if tuple(k) == (4, 3) else -7.0

        def chisq(g, z, **k):
            w.log.append(('chisq', g.size, z))
            ix = getattr(w, 'index', None)
            return w.newchi if ix is None else w.newchi[ix]

        class Look(Ns):
            """a background that is any function of what it is asked for"""
            def sigma_g_lookup(self, *a):
                w.log.append(('bkg', a[0]))
                q = a[1]
                return c.np.array(w.sig(q, a[2])) if not c.symbolic else w.sig(q, a[2])

            def sigma_g_diagonal(self, i, col, refmag):
                return w.sig(col, refmag)
        self.zredstr = Ns(mstar=lambda z: w.mst + 2.0 * (z - w.z), z=c.np.arange(0.05, 0.65, 0.1), zindex=lambda z: 3, lumrefmagindex=lambda r: 4, lumnorm=Lum(), alpha=-1.0, ncol=2, limmag=self.limmag,
                          calculate_chisq=chisq)
        self.config = Ns(cosmo=Ns(Da=lambda a, z: w.da * (1.0 + a)), lval_reference=0.2, rsig=0.05, dldr_gamma=0.6,
                         cluster_dtype=list(m.cluster_dtype_base) + list(dtype or []), limmag_catalog=self.limmag)
        self.bkg = Look()
        self.maskgals = Ns()
        self.cpars = c.array('cpars', 4, lo=-0.5, hi=0.5)
        self.mask = Ns(maskgals=self.maskgals, calc_maskcorr=self.maskcorr)
        self.r0, self.beta = c.float('r0', lo=0.1, hi=2.0), c.float('beta', lo=0.0, hi=0.5)
        cl = c.get(m, 'Cluster')(r0=self.r0, beta=self.beta, config=self.config, zredstr=self.zredstr, bkg=self.bkg, cbkg=Look(), neighbors=self.gals)
        cl.redshift = self.z
        self.cl = cl

        if c.symbolic:
            # callees by contract (R12): any functions with the proved ranges
            f1, f2, f3, f4 = (c.func('chipdf', 1, lo=0.0, hi=1e3), c.func('nfwpdf', 1, lo=0.0, hi=1e3), c.func('schpdf', 2, lo=0.0, hi=1e3),
                              c.func('theta', 4, lo=0.0, hi=1.0))
            c.patch(m, 'chisq_pdf', lambda x, k: f1(x))
            c.patch(m, 'nfw_pdf', lambda x, rscale=0.15: f2(x))
            c.patch(m, 'schechter_pdf', lambda x, alpha=-1.0, mstar=0.0: f3(x, mstar))
            c.patch(m, 'calc_theta_i', lambda a, b, mx, lm: f4(a, b, mx, lm))

    def maskcorr(self, *a):
        self.log.append(('maskcorr',) + a)
        return self.cpars

    def solver(self, n):
        """stand-in for the richness solver with its contract (R01, R02)"""
        c, w = self.c, self
        self.found = c.choice('found', [True, False, 'empty'])
        self.lam = c.float('lam', lo=1.0, hi=2000.0) if self.found else -1.0
        self.rlam = c.float('rlam', lo=0.05, hi=3.0) if self.found else -1.0
        self.P = c.array('P', n, lo=0.0, hi=1.0)
        self.T = c.array('T', n, lo=0.0, hi=1.0)
        self.PM = c.array('PM', n, lo=0.0, hi=1.0) if self.found is True else c.np.zeros(n)
        if self.found is True:
            c.assume(self.PM[0] > 0.01)

        class S(Ns):
            def __init__(self, r0, beta, ucounts, bcounts, r, wts, **k):
                Ns.__init__(self)
                w.args = dict(r0=r0, beta=beta, u=c.snapshot(ucounts), b=c.snapshot(bcounts), r=c.snapshot(r), w=c.snapshot(wts), k=k)

            def solve_nfw(self):
                return w.lam, w.P, w.PM, w.rlam, w.T
        c.patch(self.m, 'Solver', S)


@contract('R03', [K + 'Cluster.calc_richness', K + 'Cluster._calc_luminosity', K + 'Cluster._calc_radial_profile', K + 'Cluster.calc_bkg_density'],
          assumes=['Solver by its contract (R01, R02)'], overrides=lambda ctx: {})
def richness(c):
    np = c.np
    n = c.size('n', min=2, max=6)
    w = World(c, n, pfree=c.choice('pfree', [True, False]))
    m, cl = w.m, w.cl
    w.solver(n)
    err = c.choice('err', [True, False])
    cerr = c.float('cerr', lo=0.0, hi=10.0)
    seen = {}

    def lamerr(maskgals, mstar, lam, rlam, pmem, cval, gamma):
        seen.update(lam=lam, rlam=rlam, cval=cval, gamma=gamma, mstar=mstar)
        return cerr
    cl.calc_lambdacerr = lamerr
    r = c.snapshot(cl.neighbors.r)
    lam = cl.calc_richness(w.mask, calc_err=err)
    nb = cl.neighbors
    maxmag = w.mst - 2.5 * np.log10(0.2)
    a = w.args
    rho = m.chisq_pdf(w.newchi, 2)
    nfw = m.nfw_pdf(r, rscale=0.15)
    phi = m.schechter_pdf(w.s['refmag'], alpha=-1.0, mstar=w.mst) / w.lnorm
    th = m.calc_theta_i(w.s['refmag'], w.s['refmag_err'], maxmag, w.limmag)
    scale = np.radians(1.0) * w.da
    c.prove('the solver uses the radius relation of the cluster', c.And(c.same(a['r0'], w.r0), c.same(a['beta'], w.beta), a['k'].get('rsig') == 0.05))
    c.prove('and its mask correction', a['k'].get('cpars') is w.cpars)
    for i in c.each(n):
        c.prove('projected radius of each neighbour', c.close(r[i], c.ite(scale * w.s['dist'][i] > 1e-6, scale * w.s['dist'][i], 1e-6)))
        c.prove('chi-squared at the cluster redshift is kept', c.close(nb.chisq[i], w.newchi[i], rtol=1e-5))
        u, b = a['u'][i], a['b'][i]
        c.prove('signal of each neighbour', c.close(u, 2 * np.pi * r[i] * nfw[i] * phi[i] * rho[i], rtol=1e-4))
        c.prove('background of each neighbour', c.close(b, 2 * np.pi * r[i] * (w.sig(nb.chisq[i], w.s['refmag'][i]) / scale ** 2), rtol=1e-4))
        pf = w.pfree0[i] if w.pfree0 is not None else 1.0
        c.prove('weight of each neighbour', c.close(a['w'][i], th[i] * pf, rtol=1e-5))
        c.prove('radius of each neighbour', c.close(a['r'][i], r[i]))
    sp, sp2 = np.sum(w.PM), np.sum(w.PM ** 2.)
    c.sum_le('squares of memberships are smaller', w.PM ** 2., w.PM)
    if w.found is not True:
        c.prove('no richness is flagged', c.And(lam == -1.0, cl.Lambda == -1.0, cl.scaleval == -1.0, cl.Lambda_e == (-1.0 if err else 0.0)))
        for i in c.each(n):
            c.prove('and there are no members', c.And(nb.p[i] == 0, nb.pmem[i] == 0, nb.pcol[i] == 0, nb.theta_i[i] == 0, nb.theta_r[i] == 0))
        return
    c.prove('richness and radius are those of the solution', c.And(c.same(lam, w.lam), c.close(cl.Lambda, w.lam, rtol=1e-5), c.close(cl.r_lambda, w.rlam, rtol=1e-5)))
    c.prove('scale times the sum of memberships is the richness', c.close(cl.scaleval * sp, w.lam, rtol=1e-4))
    if err:
        sc = w.lam / sp
        v = (1 - sp2 / sp) * sp * sc * sc + cerr * cerr
        c.prove('richness error combines membership and mask noise', c.close(cl.Lambda_e * cl.Lambda_e, v, rtol=1e-3, atol=1e-3))
        p = w.cpars
        cv = p[3] + p[2] * w.rlam + p[1] * w.rlam * w.rlam + p[0] * w.rlam * w.rlam * w.rlam
        c.prove('mask noise uses the mask correction at the cluster radius', c.close(seen['cval'], c.ite(cv > 0, cv, 0.0), rtol=1e-4, atol=1e-6))
        c.prove('mask noise of this solution', c.And(c.same(seen['lam'], w.lam), c.same(seen['rlam'], w.rlam), seen['gamma'] == 0.6))
    else:
        c.prove('no error unless asked for', cl.Lambda_e == 0.0)
    for i in c.each(n):
        c.prove('members are those of the solution', c.And(c.same(nb.p[i], w.P[i]), c.same(nb.pmem[i], w.PM[i]), c.same(nb.theta_r[i], w.T[i]), c.same(nb.theta_i[i], th[i])))
        pc = nb.pcol[i]
        c.prove('colour probability is a probability', c.And(pc >= 0, pc <= 1))
        out = c.Or(r[i] > w.rlam, w.s['refmag'][i] > maxmag, w.s['refmag'][i] > w.limmag)
        u, b = rho[i] * phi[i] * w.lam, a['b'][i]
        c.prove('zero outside the cluster', c.implies(out, pc == 0))
        c.prove('signal over signal plus background inside', c.implies(c.And(c.Not(out), u + b > 1e-30), c.close(pc * (u + b), u, rtol=1e-4)))


@contract('R03', [K + 'Cluster.calc_richness'], assumes=['Solver by its contract (R01, R02)'])
def richness_subset(c):
    """members outside the chosen neighbours get nothing, whatever they had before"""
    np = c.np
    n = c.size('n', min=3, max=6)
    w = World(c, n)
    m, cl = w.m, w.cl
    nj = c.size('nj', min=1, max=4)
    c.assume(nj < n)
    w.solver(nj)
    lo = c.int('lo', lo=0, hi=n - nj)
    idx = lo + np.arange(nj)
    w.index = idx
    nb = cl.neighbors
    old = c.float('old', lo=0.1, hi=1.0)
    for f in ('p', 'pmem', 'pcol', 'theta_i', 'theta_r'):
        getattr(nb, f)[:] = old
    chi0 = c.snapshot(nb.chisq)
    cl.calc_richness(w.mask, calc_err=False, index=idx)
    for i in c.each(n):
        out = c.Or(i < lo, i >= lo + nj)
        c.prove('neighbours not considered are not members', c.implies(out, c.And(nb.p[i] == 0, nb.pmem[i] == 0, nb.pcol[i] == 0, nb.theta_i[i] == 0,
                                                                                  nb.theta_r[i] == 0, c.same(nb.chisq[i], chi0[i]))))
    for j in c.each(nj):
        if w.found is True:
            c.prove('the chosen ones are in order', c.And(c.same(nb.pmem[lo + j], w.PM[j]), c.same(nb.p[lo + j], w.P[j]), c.same(nb.theta_r[lo + j], w.T[j])))
        c.prove('each with its own weight', c.close(w.args['w'][j], m.calc_theta_i(w.s['refmag'], w.s['refmag_err'], w.mst - 2.5 * np.log10(0.2), w.limmag)[lo + j] * w.pfree0[lo + j], rtol=1e-5))


@contract('R03', [K + 'Cluster.redshift', K + 'Cluster._compute_neighbor_r', K + 'Cluster._update_mstar', K + 'Cluster._update_mpc_scale'])
def redshift(c):
    np = c.np
    n = c.size('n', min=2, max=5)
    w = World(c, n)
    cl = w.cl
    da2, ms2 = c.float('da2', lo=1.0, hi=5000.0), c.float('ms2', lo=15.0, hi=22.0)
    w.config.cosmo.Da = lambda a, z: da2 * (1.0 + a)
    w.zredstr.mstar = lambda z: ms2
    z = c.float('znew', lo=-1.0, hi=2.0, special=(0.0, 0.005, 0.01))
    bad, _ = c.raises(ValueError, lambda: setattr(cl, 'redshift', z))
    if bad:
        c.prove('only negative redshifts are rejected', z < 0)
        c.prove('and leave the cluster alone', c.And(c.same(cl.redshift, w.z), c.same(cl.mstar, w.mst)))
        return
    c.prove('negative redshifts are rejected', z >= 0)
    c.prove('redshift set, at least 0.01', c.same(cl.redshift, c.ite(z < 0.01, 0.01, z)))
    c.prove('everything that depends on it follows', c.And(c.same(cl.mstar, ms2), c.close(cl.mpc_scale, np.radians(1.0) * da2)))
    for i in c.each(n):
        x = np.radians(1.0) * da2 * w.s['dist'][i]
        c.prove('projected radii follow', c.close(cl.neighbors.r[i], c.ite(x > 1e-6, x, 1e-6)))


@contract('R03', [K + 'Cluster.find_neighbors', K + 'Cluster.set_neighbors'])
def neighbours(c):
    np = c.np
    n, k = c.size('n', min=1, max=6), c.size('k', min=2, max=5)
    w = World(c, 2)
    m, cl = w.m, w.cl
    cat = galaxies(c, c.mod('redmapper.galaxy'), n, name='cat', drop=('dist', 'pfree'))
    s = {f: c.snapshot(getattr(cat, f)) for f in ('ra', 'refmag', 'chisq')}
    idx = c.array('idx', k, kind='i', lo=0, hi=n - 1)
    d = c.array('d', k, lo=0.0, hi=2.0)
    ra, dec = c.float('ra', lo=0.0, hi=360.0), c.float('dec', lo=-80.0, hi=80.0)
    cl.ra, cl.dec = ra, dec
    asked = []

    def match(r_, d_, rad):
        asked.append((r_, d_, rad))
        return idx, d
    cat.__dict__['match_one'] = match
    rad = c.float('rad', lo=0.01, hi=3.0)
    mpc = c.choice('mpc', [False, True])
    mm = c.choice('mm', [False, True])
    lim = c.float('lim', lo=16.0, hi=22.0)
    cl.find_neighbors(rad, cat, megaparsec=mpc, maxmag=lim if mm else None)
    c.prove('searched around the cluster', c.And(c.close(asked[0][0], ra), c.close(asked[0][1], dec)))
    c.prove('to the radius asked for', c.close(asked[0][2], rad / cl.mpc_scale if mpc else rad))
    nb = cl.neighbors
    sel = np.arange(k)
    if mm:
        sel, = np.where(s['refmag'][idx] <= lim)
    c.prove('as many neighbours as matched and bright enough', nb.size == sel.size)
    for j in c.each(sel.size):
        i = idx[sel[j]]
        c.prove('each neighbour is its catalogue galaxy', c.And(nb.index[j] == i, c.same(nb.ra[j], s['ra'][i]), c.same(nb.refmag[j], s['refmag'][i])))
        x = cl.mpc_scale * d[sel[j]]
        c.prove('with its own separation', c.And(c.same(nb.dist[j], d[sel[j]]), c.close(nb.r[j], c.ite(x > 1e-6, x, 1e-6))))
        c.prove('free until claimed', c.And(nb.pfree[j] == 1.0, nb.pmem[j] == 0, c.close(nb.zred_chisq[j], s['chisq'][i])))
    nb.ra[:] = 0.0
    for i in c.each(n):
        c.prove('the catalogue is not touched through a cluster', c.And(c.same(cat.ra[i], s['ra'][i]), c.same(cat.refmag[i], s['refmag'][i])))


@contract('R03', [K + 'Cluster.copy', K + 'Cluster.__copy__'])
def copies(c):
    np = c.np
    n = c.size('n', min=2, max=5)
    w = World(c, n)
    cl = w.cl
    s = {f: c.snapshot(getattr(cl.neighbors, f)) for f in ('ra', 'refmag', 'r', 'dist', 'pfree')}
    cp = cl.copy()
    c.prove('a copy has a redshift', cp.redshift is not None)
    c.prove('same cluster', c.And(c.same(cp.redshift, cl.redshift), c.same(cp.r0, cl.r0), c.same(cp.beta, cl.beta), cp.bkg is cl.bkg, cp.zredstr is cl.zredstr))
    for i in c.each(n):
        c.prove('same neighbours', c.And(*[c.same(getattr(cp.neighbors, f)[i], s[f][i]) for f in s]))
    w.config.cosmo.Da = lambda a, z: 1.5
    cp.redshift = c.float('z2', lo=0.05, hi=1.0)
    cp.neighbors.pfree[:] = 0.5
    cp.neighbors.refmag[:] = 1.0
    cp.Lambda = 7.0
    for i in c.each(n):
        c.prove('the original does not change with the copy', c.And(*[c.same(getattr(cl.neighbors, f)[i], s[f][i]) for f in s]))
    c.prove('nor its redshift and richness', c.And(c.same(cl.redshift, w.z), cl.Lambda == 0))


@contract('R03', [K + 'Cluster.calc_lambdacerr'])
def mask_error(c):
    np = c.np
    n = c.size('n', min=2, max=6)
    w = World(c, 2)
    cl = w.cl
    g = Ns(r=c.array('mr', n, lo=0.01, hi=2.0), mark=c.array('mk', n, kind='b'), m=c.array('mm', n, lo=-3.0, hi=3.0), cwt=c.array('cw', n, lo=0.001, hi=1.0),
           nfw=c.array('nf', n, lo=0.001, hi=1.0), lumwt=c.array('lw', n, lo=0.001, hi=1.0), chisq=c.array('ch', n, lo=0.0, hi=50.0))
    lam, rlam = c.float('lam', lo=1.0, hi=500.0), c.float('rlam', lo=0.1, hi=2.0)
    cval = c.float('cval', lo=0.0, hi=1.0, special=(0.0, 0.005, 0.01))
    k = c.size('k', min=1, max=4)
    pm = c.array('pm', k, lo=0.01, hi=1.0)
    e = cl.calc_lambdacerr(g, w.mst, lam, rlam, pm, cval, 0.6)
    c.prove('no mask noise without a mask correction', c.implies(cval < 0.01, e == 0))


@contract('R03', [K + 'Cluster.calc_lambdacerr'], kind='conc', bounded='up to 30 mask galaxies')
def mask_error_value(c):
    np = c.np
    n = c.size('n', min=2, max=30)
    w = World(c, 2)
    cl = w.cl
    r = c.nrng
    g = Ns(r=r.uniform(0.01, 2, n), mark=r.random(n) < 0.7, m=r.uniform(-3, 3, n), cwt=r.uniform(0.01, 1, n), nfw=r.uniform(0.01, 1, n),
           lumwt=r.uniform(0.01, 1, n), chisq=r.uniform(0, 50, n))
    lam, rlam = r.uniform(1, 500), r.uniform(0.1, 2)
    pm = r.uniform(0.01, 1, 5)
    cval = r.choice([0.005, 0.3])
    e = cl.calc_lambdacerr(g, w.mst, lam, rlam, pm, cval, 0.6)
    use = g.r < rlam
    ref = w.mst + g.m
    lg = np.log(rlam)
    norm = np.exp(1.65169 - 0.54785 * lg + 0.138202 * lg ** 2 - 0.0719021 * lg ** 3 - 0.0158241 * lg ** 4 - 0.000854985 * lg ** 5)
    u = lam * g.cwt * norm * g.nfw * g.lumwt
    lim = w.limmag
    b = 2 * np.pi * g.r * np.array([w.sig(x, y) for x, y in zip(g.chisq, np.where(ref >= lim, lim - 0.01, ref))]) / cl.mpc_scale ** 2
    lost = use & ((ref > lim) | ~g.mark)
    if cval < 0.01 or not lost.any():
        want = 0.0
    else:
        v = np.sum((u / (u + b))[lost]) / lam / use.sum()
        if v > 1:
            return
        want = lam ** 2 / np.sum(pm ** 2) * np.sqrt(v - v * v) / (1 - w.beta * 0.6)
    c.prove('noise of the members lost to the mask', abs(e - want) <= 1e-6 * (1 + abs(want)))


@contract('R03', [K + 'ClusterCatalog.__getitem__', K + 'ClusterCatalog.__init__'], kind='conc', bounded='up to 6 clusters')
def catalogue(c):
    np = c.np
    m = c.mod('redmapper.cluster')
    w = World(c, 2)
    n = c.size('n', min=1, max=6)
    kw = dict(r0=0.7, beta=0.3, zredstr=w.zredstr, config=w.config, bkg=w.bkg, cbkg=5, zredbkg=6)
    cat = m.ClusterCatalog(np.zeros(n, dtype=[('ID', 'i4'), ('RA', 'f8')]), **kw)
    cat.ra = np.arange(n) * 1.5
    cat.mem_match_id = np.arange(n) + 1
    k = c.int('k', lo=0, hi=n - 1)
    e = cat[k]
    c.prove('one cluster with its context', e.ra == 1.5 * k and e.r0 == 0.7 and e.beta == 0.3 and e.zredstr is w.zredstr and e.config is w.config and e.bkg is w.bkg
            and e.cbkg == 5 and e.zredbkg == 6)
    e.Lambda = 22.0
    c.prove('what is measured lands in the catalogue', cat.Lambda[k] == 22.0 and np.sum(cat.Lambda != 0) == 1)
    p = c.nrng.permutation(n)
    sub = cat[p]
    c.prove('a selection keeps rows and context', isinstance(sub, m.ClusterCatalog) and (sub.ra == 1.5 * p).all() and sub.r0 == 0.7 and sub.beta == 0.3
            and sub.zredstr is w.zredstr and sub.bkg is w.bkg and sub.cbkg == 5 and sub.zredbkg == 6 and sub.config is w.config)


@contract('R03', [K + 'Cluster.calc_richness', K + 'Cluster.calc_richness_fit'], kind='conc', bounded='up to 40 neighbours, with the compiled solver')
def end_to_end(c):
    np = c.np
    n = c.size('n', min=1, max=40)
    w = World(c, n)
    cl = w.cl
    r = c.nrng
    nb = cl.neighbors
    nb.r = r.uniform(0.001, 1.5, n)
    nb.refmag = w.mst + r.uniform(-3, 3, n)
    w.newchi = r.uniform(0, 25, n) * r.choice([1.0, 0.1, 4.0])
    w.sig = lambda a, b: np.zeros(np.size(a)) + r0
    r0 = float(r.choice([0.0, 0.1, 1e3, 1e5]))
    w.cpars[:] = r.uniform(-0.1, 0.2, 4)
    w.lnorm = float(r.choice([1e-3, 1.0]))
    w.maskgals.__dict__.update(r=r.uniform(0.01, 2, 50), mark=r.random(50) < 0.7, m=r.uniform(-3, 3, 50), cwt=r.uniform(0.01, 1, 50), nfw=r.uniform(0.01, 1, 50),
                               lumwt=r.uniform(0.01, 1, 50), chisq=r.uniform(0, 50, 50))
    fit = c.choice('fit', [False, True])
    err = c.choice('err', [False, True])
    if fit:
        cl.cbkg.get_colrange = lambda k: [-20.0, 20.0]
        lam = cl.calc_richness_fit(w.mask, 1, centcolor_in=r.choice([None, 0.5]), rcut=0.8, calc_err=err)
        if lam == -10.0:
            return
    else:
        lam = cl.calc_richness(w.mask, calc_err=err)
    c.prove('richness is kept', abs(cl.Lambda - lam) < 1e-4 * abs(lam))
    for f in ('p', 'pmem', 'pcol', 'theta_r', 'theta_i'):
        v = getattr(nb, f)
        c.prove('%s is a probability' % f, np.all((v >= 0) & (v <= 1)) or (fit and f == 'pcol' and np.all(np.isnan(v) | ((v >= 0) & (v <= 1)))))
    if lam < 0:
        c.prove('no members without richness', not np.any(nb.pmem) and cl.scaleval == -1.0)
        return
    rl = w.r0 * (lam / 100.) ** w.beta
    c.prove('radius belongs to the richness', abs(cl.r_lambda - rl) < 0.01 * rl)
    cv = max(0.0, np.polyval(w.cpars, cl.r_lambda))
    c.prove('richness is the sum of members plus what the mask hides', abs(np.sum(nb.pmem) + lam * cv - lam) < 0.2 + 0.02 * lam or lam > 1990 or lam < 1.2)
    c.prove('scale', abs(cl.scaleval * np.sum(nb.pmem) - lam) < 1e-4 * lam)
    c.prove('error', (np.isfinite(cl.Lambda_e) and cl.Lambda_e >= 0) if err else cl.Lambda_e == 0)
    if err and not fit:
        bar = np.sum(nb.pmem ** 2) / np.sum(nb.pmem)
        ce = cl.calc_lambdacerr(w.maskgals, cl.mstar, lam, cl.r_lambda, nb.pmem, cv, 0.6)
        want = np.sqrt((1 - bar) * np.sum(nb.pmem) * cl.scaleval ** 2 + ce ** 2)
        c.prove('error value', abs(cl.Lambda_e - want) < 1e-3 * (1 + want) or not np.isfinite(want))


@contract('R03', [K + 'Cluster.compute_bkg_local'], kind='conc', bounded='up to 60 neighbours and mask galaxies')
def local_background(c):
    np = c.np
    n, k = c.size('n', min=2, max=60), c.size('k', min=20, max=60)
    w = World(c, n)
    cl = w.cl
    r = c.nrng
    nb = cl.neighbors
    w.config.bkg_local_annuli = np.array([2.0, 3.0])
    nb.r = r.uniform(0, 4, n)
    nb.refmag = w.mst + r.uniform(-3, 3, n)
    nb.chisq = r.uniform(0, 40, n)
    ru = 3.0 * np.sqrt(r.random(k))
    ru[0] = 2.5
    g = Ns(x_uniform=ru * np.cos(np.arange(k)), y_uniform=ru * np.sin(np.arange(k)), r_uniform=ru, m=r.uniform(-3, 2, k), refmag=w.mst + r.uniform(-3, 2, k),
           chisq=r.uniform(0, 20, k), chisq_pdf=r.uniform(0.01, 1, k), lum_pdf=r.uniform(0.01, 1, k))
    g.refmag[0] = w.mst - 2.5
    g.chisq_pdf[1] = 0.0
    mark = r.random(k) < 0.8
    mark[0] = True
    cl.ra, cl.dec = 20.0, 30.0
    lim = w.mst + c.choice('depth', [1.0, 2.5])
    g.mark = r.random(k) < 0.5
    mapped = c.choice('mapped', ['map', 'fit', 'failed'])
    pos = []

    def rad(ra, dec):
        pos.append((ra, dec))
        return mark
    mask = Ns(maskgals=g, compute_radmask=rad)
    deep = lambda ra, dec: lim + np.sin(300 * (np.asarray(ra, dtype='f8') + np.asarray(dec, dtype='f8')))
    if mapped == 'map':
        depth = Ns(get_depth_values=lambda ra, dec: (deep(ra, dec), None))
        lg, ln = deep(20.0 + g.x_uniform / cl.mpc_scale / np.cos(np.radians(30.0)), 30.0 + g.y_uniform / cl.mpc_scale), deep(nb.ra, nb.dec)
        g.refmag[0] = min(g.refmag[0], lg[0] - 0.1)
    else:
        depth = type('DepthLim', (object,), dict(initpars={'LIMMAG': lim}))()
        fit = lim - 0.4
        c.patch(w.m, 'calcErrorModel', lambda a, b, **kk: ({'LIMMAG': fit if mapped == 'fit' else -1.0}, mapped == 'failed'))
        lg = ln = fit if mapped == 'fit' else lim
        g.refmag[0] = min(g.refmag[0], lg - 0.1)
    sg = np.array([w.sig(a, b) for a, b in zip(g.chisq, g.refmag)]) + 0.1
    sg[2] = np.inf
    cl.bkg.sigma_g_lookup = lambda z, a, b: sg
    got = cl.compute_bkg_local(mask, depth)
    s = cl.mpc_scale
    c.prove('mask looked up around the cluster', np.allclose(pos[0][0], 20.0 + g.x_uniform / s / np.cos(np.radians(30.0))) and np.allclose(pos[0][1], 30.0 + g.y_uniform / s))
    mx = w.mst - 2.5 * np.log10(0.2)
    b = (g.refmag < mx) & np.isfinite(sg) & (g.chisq_pdf > 0) & (g.lum_pdf > 0) & (g.refmag < lg)
    pred = np.mean((sg / (g.chisq_pdf * g.lum_pdf + 1e-300))[b])
    ann = (ru > 2.0) & (ru < 3.0)
    area = np.pi * (9.0 - 4.0) / s ** 2 * np.mean(mark[ann])
    cnt = np.sum((nb.r > 2) & (nb.r < 3) & (nb.refmag < mx) & (nb.chisq < g.chisq.max()) & (nb.refmag < ln))
    want = cnt / area / pred
    c.prove('local density in the annulus over the predicted density', abs(got - want) <= 1e-5 * (1 + abs(want)))


@contract('R03', [K + 'Cluster.calc_richness_fit', K + 'Cluster.calc_cbkg_density', K + 'Cluster.calc_zred_bkg_density'], kind='conc',
          bounded='up to 30 neighbours; a weighted straight-line fit by polyfit')
def colour_richness(c):
    np = c.np
    n = c.size('n', min=1, max=30)
    w = World(c, n)
    m, cl, r = w.m, w.cl, c.nrng
    nb = cl.neighbors
    mx, mn = w.mst - 2.5 * np.log10(0.2), w.mst - 2.5 * np.log10(20.0)
    nb.r = r.uniform(0.001, 0.7, n)
    nb.refmag = w.mst + r.uniform(-3.6, 2.2, n)
    w.limmag = w.config.limmag_catalog = w.mst + c.choice('lim', [0.5, 3.0])
    ci = c.choice('colour', [0, 1])
    nb.mag = 20 + r.normal(0, 0.3, (n, 3))
    nb.mag[:, 1] -= 0.6
    nb.mag_err = r.uniform(0.02, 0.15, (n, 3))
    col, cerr = nb.galcol[:, ci].copy(), nb.galcol_err[:, ci].copy()
    c.prove('colours and their errors', np.allclose(col, nb.mag[:, ci] - nb.mag[:, ci + 1]) and np.allclose(cerr ** 2, nb.mag_err[:, ci] ** 2 + nb.mag_err[:, ci + 1] ** 2))
    cr = [col.min() - 0.01, col.max() + 0.01] if c.choice('wide', [True, False]) else list(np.quantile(col, [0.1, 0.9]))
    asked = []
    cl.cbkg.get_colrange = lambda k: (asked.append(k), cr)[1]
    sg = r.uniform(0.1, 5, n)
    cl.cbkg.sigma_g_diagonal = lambda k, cc, rm: (asked.append(k), sg if np.array_equal(cc, col) and np.array_equal(rm, nb.refmag) else sg * np.nan)[1]
    w.solver(n)
    w.P, w.T, w.PM = np.asarray(w.P), np.asarray(w.T), np.asarray(w.PM)
    cc = c.choice('centre', [None, 'given'])
    if cc:
        cc = float(np.median(col))
    mingal, rcut, sigint = c.choice('mingal', [2, 5]), 0.5, c.choice('sigint', [0.05, 0.2])
    err = c.choice('err', [True, False])
    ce = 3.5
    cl.calc_lambdacerr = lambda *a: ce
    old = float(cl.Lambda)
    lam = cl.calc_richness_fit(w.mask, ci, centcolor_in=cc, rcut=rcut, mingal=mingal, sigint=sigint, calc_err=err)
    use = (nb.refmag > mn) & (nb.refmag < mx) & (nb.r < rcut) & (col > cr[0]) & (col < cr[1])
    near = int(np.argmin(nb.r))
    if use.sum() < mingal or (cc is None and not use[near]):
        c.prove('too few galaxies, or no central one, give no richness', lam == -10.0)
        return
    cen = cc if cc is not None else col[near]
    tot = np.sqrt(cerr ** 2 + sigint ** 2)
    two = use & (np.abs(col - cen) < 2 * tot)
    if two.sum() < mingal:
        c.prove('too few galaxies near the central colour give no richness', lam == -10.0 and cl.scaleval == -1)
        return
    if two.sum() < 2:
        return
    piv = np.median(nb.refmag[use])
    A = np.vstack([nb.refmag[two] - piv, np.ones(two.sum())]).T / cerr[two][:, None]
    sl, b0 = np.linalg.lstsq(A, col[two] / cerr[two], rcond=None)[0]
    d = col - (sl * (nb.refmag - piv) + b0)
    g = np.exp(-0.5 * (d / tot) ** 2) / (np.sqrt(2 * np.pi) * tot)
    a = w.args
    nfw = m.nfw_pdf(nb.r)
    phi = m.schechter_pdf(nb.refmag, alpha=-1.0, mstar=w.mst) / w.lnorm
    th = m.calc_theta_i(nb.refmag, nb.refmag_err, mx, w.limmag)
    wu = 2 * np.pi * nb.r * g * nfw * phi
    wb = 2 * np.pi * nb.r * sg / (np.radians(1.0) * w.da) ** 2
    c.prove('signal follows the fitted colour-magnitude relation', np.allclose(a['u'], wu, rtol=1e-3, atol=1e-6 * np.abs(wu).max()))
    c.prove('background of that colour', np.allclose(a['b'], wb, rtol=1e-4) and set(asked) == {ci})
    c.prove('weights and radii', np.allclose(a['w'], th * w.pfree0, rtol=1e-5) and np.allclose(a['r'], nb.r) and a['k'].get('cpars') is w.cpars and a['r0'] == w.r0 and a['beta'] == w.beta)
    c.prove('richness and radius of the solution', lam == w.lam and abs(cl.Lambda - w.lam) < 1e-4 * abs(w.lam) and abs(cl.r_lambda - w.rlam) < 1e-5)
    if lam < 0:
        c.prove('no members without richness', cl.scaleval == -1 and not np.any(nb.pmem) and not np.any(nb.p) and not np.any(nb.pcol) and not np.any(nb.theta_r) and (cl.Lambda_e == -1 if err else cl.Lambda_e == 0))
        return
    if w.found is not True:
        return
    c.prove('members of the solution', np.allclose(nb.p, w.P) and np.allclose(nb.pmem, w.PM) and np.allclose(nb.theta_r, w.T) and np.allclose(nb.theta_i, th))
    sp = w.PM.sum()
    c.prove('scale', abs(cl.scaleval * sp - w.lam) < 1e-4 * w.lam)
    u, bb = g * phi * w.lam, sg / (np.radians(1.0) * w.da) ** 2 * np.pi * w.rlam ** 2
    pc = np.where((nb.r > w.rlam) | (nb.refmag > mx) | (nb.refmag > w.limmag), 0, u / (u + bb))
    c.prove('colour probability', np.allclose(nb.pcol, pc, rtol=1e-3, atol=1e-5))
    c.prove('error', abs(cl.Lambda_e - np.sqrt((1 - (w.PM ** 2).sum() / sp) * sp + ce ** 2)) < 1e-3 * (1 + cl.Lambda_e) if err else cl.Lambda_e == 0)
    cl.zredbkg = Ns(sigma_g_lookup=lambda z, rm: sg * (1.0 if z is col else np.nan))
    c.prove('redshift background', np.allclose(cl.calc_zred_bkg_density(nb.r, col, nb.refmag), wb, rtol=1e-5))
    cl.zredbkg = None
    c.prove('no redshift background', c.raises(AttributeError, lambda: cl.calc_zred_bkg_density(nb.r, col, nb.refmag))[0])
