"""R16: calibration of the centring model and of the cluster redshift corrections"""
from rmv.run import contract, StubMissing
from contracts.stand import Ns, Log, recs, differently
from contracts.r16_calibration import Cat
from contracts.r16_redsequence import Fitters, need, same

CC = 'redmapper/calibration/centeringcal.py:WcenCalibrator.'
ZC = 'redmapper/calibration/zlambdacal.py:ZLambdaCalibrator.'


class Sink(object):
    """fitsio for writing one table"""
    def __init__(self, real):
        self.real, self.out = real, {}

    def write(self, f, a, **k):
        import numpy as np
        self.out[f] = (np.array(a), k)

    def FITSHDR(self, *a, **k):
        return self.real.FITSHDR(*a, **k)


def clusters(c, np, n, zlo=0.1, zhi=0.6):
    r = c.nrng
    z = r.uniform(zlo, zhi, n)
    sv = r.uniform(1.0, 1.6, n)
    lam = np.exp(r.uniform(np.log(3), np.log(130), n)) * sv
    w = r.uniform(0.01, 4.0, n)
    w[r.uniform(0, 1, n) < 0.15] = 0.0
    pc = r.uniform(0.0, 0.6, (n, 5))
    e = r.uniform(0.005, 0.02, n)
    zl = z + e * r.uniform(-4.5, 4.5, n)
    f = lambda x: np.asarray(x).astype('f4')
    return recs(np, n, mem_match_id=np.arange(n) + 1, ra=r.uniform(0, 300, n), dec=r.uniform(-50, 50, n), refmag=f(r.uniform(15, 20, n)), refmag_err=f(r.uniform(0.01, 0.05, n)),
                mag=f(r.uniform(15, 20, (n, 3))), mag_err=f(r.uniform(0.01, 0.1, (n, 3))), z=f(r.uniform(0.1, 0.6, n)), z_spec_init=f(z), **{
                    'lambda': f(lam), 'scaleval': f(sv), 'w': f(w), 'r_lambda': f(r.uniform(0.5, 1.3, n)), 'maskfrac': f(r.uniform(0, 0.3, n)), 'p_cen': f(pc),
                    'p_sat': f(r.uniform(0, 0.4, (n, 5))), 'z_lambda': f(zl), 'z_lambda_e': f(e), 'zred': f(z + r.normal(0, 0.02, n)), 'lambda_e': f(lam * 0.1)})


@contract('R16', [CC + 'run', CC + '__init__'], kind='conc', bounded='up to 60 clusters, fits answer random values', trials=60)
def centring_calibration(c):
    import numpy as np
    m = c.mod('redmapper.calibration.centeringcal')
    r = c.nrng
    real = m.ClusterCatalog
    cat, fg, sat = [clusters(c, np, int(r.integers(25, 60))) for _ in range(3)]
    first = bool(r.integers(2))
    hf, hs = (bool(r.integers(2)), bool(r.integers(2))) if first else (False, False)
    given = dict(lnw_fg_mean=float(r.uniform(-1, 1)), lnw_fg_sigma=float(r.uniform(0.1, 1)), lnw_sat_mean=float(r.uniform(-1, 1)), lnw_sat_sigma=float(r.uniform(0.1, 1)))
    mc = bool(r.integers(2))
    phi = dict(phi1_mmstar_m=-2000.0 if mc else -1.3, phi1_mmstar_slope=-0.2, phi1_msig_m=0.35, phi1_msig_slope=0.03)
    conf = Ns(logger=Log(), wcen_minlambda=10.0, wcen_maxlambda=100.0, wcen_cal_zrange=[0.2, 0.5], max_maskfrac=0.2, wcen_pivot=float(r.uniform(15, 40)), parfile='par', bkgfile='bkg', catfile='cat',
              wcenfile='out', cosmo=Ns(Da=lambda a, z: 1000.0 * np.asarray(z) + 10.0 + a * 1e9), calib_lumfunc_alpha=-1.0, **dict(given, **phi))
    files = {'cat': cat, 'fg': fg, 'sat': sat}
    keep = {k: v.copy() for k, v in files.items()}
    C = Cat(real, files)
    c.patch(m, 'ClusterCatalog', C)
    c.patch(m, 'fitsio', Sink(m.fitsio))
    mst = lambda z: 17.0 + 4.0 * np.asarray(z)
    chi = lambda g, z: np.abs(g.refmag - 17.0) + 3.0 * np.asarray(z) + g.mag[:, 1] * 0.1

    def ZS(parfile, fine=False, **k):
        c.prove('the colour model is that of the configuration', parfile == 'par')
        return Ns(mstar=mst, calculate_chisq=lambda g, z, **kk: chi(g, z), ncol=2)
    c.patch(m, 'RedSequenceColorPar', ZS)
    sig = lambda z, x, y: 1.0 + np.asarray(z) * 7 + 0.3 * np.asarray(x) + 0.01 * np.asarray(y) ** 2

    def BK(f, *a, **k):
        c.prove('the background is that of the configuration', f == 'bkg')
        return Ns(sigma_g_lookup=lambda z, chisq, refmag, **kk: sig(z, chisq, refmag))
    c.patch(m, 'Background', BK)
    Fg = Fitters(c, m.WcenFgFitter, lambda o, q: r.uniform(0.1, 1, 2))
    Fc = Fitters(c, m.WcenCFitter, lambda o, q: r.uniform(0.1, 1, 3))
    Fw = Fitters(c, m.WcenCwFitter, lambda o, q: r.uniform(0.1, 1, 2))
    pdf = m.chisq_pdf
    for n, f in (('WcenFgFitter', Fg), ('WcenCFitter', Fc), ('WcenCwFitter', Fw)):
        c.patch(m, n, f)
    it = 1 if first else int(r.integers(2, 4))
    if first:
        lost = c.bare(m.WcenCalibrator)
        for s, who in (('lnw_fg_sigma', 'randcatfile'), ('lnw_sat_sigma', 'randsatcatfile')):
            no = Ns(**dict(conf.__dict__, **{s: -1.0}))
            kw = {'randcatfile': 'fg', 'randsatcatfile': 'sat'}
            kw.pop(who)
            bad, _ = c.raises(RuntimeError, lambda: m.WcenCalibrator(no, 1, **kw))
            c.prove('the first iteration needs the random clusters or their numbers', bad)
    cal = m.WcenCalibrator(conf, it, randcatfile='fg' if hf else None, randsatcatfile='sat' if hs else None)
    if mc:
        ans = dict(phi1_mmstar_m=-1.7, phi1_mmstar_slope=-0.3, phi1_msig_m=0.5, phi1_msig_slope=0.01)

        def sch(testing=False):
            for k, v in ans.items():
                setattr(cal, k, v)
        c.get(cal, '_schechter_montecarlo_calib')
        cal._schechter_montecarlo_calib = sch
    else:
        ans = phi
    c.get(cal, 'run')()
    c.prove('the files are left alone', all(np.array_equal(keep[k], files[k]) for k in files))

    def sel(a):
        ll = a['lambda'] / a['scaleval']
        return a[(ll > 10.0) & (ll < 100.0) & (a['w'] > 0) & (a['z_spec_init'] > 0.2) & (a['z_spec_init'] < 0.5) & (a['maskfrac'] < 0.2)]
    want = dict(given)
    c.prove('one fit of each set of random clusters', len(Fg.made) == int(hf) + int(hs))
    for on, name, pre in ((hf, 'fg', 'lnw_fg_'), (hs, 'sat', 'lnw_sat_')):
        if not on:
            continue
        a = sel(files[name])
        mine = [o for o in Fg.made if np.shape(o.args.get('w')) == a['w'].shape and same(np, o.args['w'], a['w'])]
        c.prove('random clusters that pass the cuts', len(mine) == 1)
        ls, = need(mine[0].args, 'lscale')
        c.prove('widths scale with the richness', same(np, ls, 1. / np.sqrt(a['lambda'] / a['scaleval'] / conf.wcen_pivot)))
        p0, = need(mine[0].fits[0][0], 'p0')
        c.prove('started from the moments', same(np, p0, [np.mean(np.log(a['w'])), np.std(np.log(a['w']))], rtol=1e-4))
        want[pre + 'mean'], want[pre + 'sigma'] = mine[0].fits[-1][1]
    for k, v in want.items():
        c.prove('foreground and satellite numbers are the fitted ones, else those given', abs(getattr(conf, k) - v) < 1e-9)
    a = sel(cat)
    L, ll, z = a['lambda'].astype('f8'), (a['lambda'] / a['scaleval']).astype('f8') / conf.wcen_pivot, a['z_spec_init'].astype('f8')
    c.prove('one fit of the centrals and one of their weights', len(Fc.made) == 1 and len(Fw.made) == 1)
    g = Ns(refmag=a['refmag'].astype('f8'), mag=a['mag'].astype('f8'))
    x = chi(g, z)
    d = Fc.made[0].args
    pcen, psat, ms, lsc, rm, cw, p1, bc = need(d, 'pcen', 'psat', 'mstar', 'lamscale', 'refmag', 'cwt', 'phi1', 'bcounts')
    c.prove('clusters that pass the cuts, with their probabilities', same(np, pcen, a['p_cen'][:, 0]) and same(np, psat, a['p_sat'][:, 0]))
    c.prove('magnitudes relative to the characteristic one at the spectroscopic redshift', same(np, ms, mst(z)) and same(np, rm, a['refmag']))
    c.prove('as a function of log richness', same(np, lsc, np.log(ll), atol=1e-5))
    c.prove('colour weight', same(np, cw, pdf(x, 2), rtol=1e-3))
    lp = np.log(L / conf.wcen_pivot)
    mm, sg = mst(z) + ans['phi1_mmstar_m'] + ans['phi1_mmstar_slope'] * lp, ans['phi1_msig_m'] + ans['phi1_msig_slope'] * lp
    c.prove('satellites: the brightest of a luminosity function', same(np, p1, np.exp(-0.5 * (a['refmag'] - mm) ** 2 / sg ** 2) / (np.sqrt(2 * np.pi) * sg), rtol=1e-3))
    mpc = np.radians(1.) * (1000.0 * z + 10.0)
    c.prove('foreground: background counts inside the cluster', same(np, bc, sig(z, x, a['refmag']) / mpc ** 2 * np.pi * a['r_lambda'] ** 2, rtol=1e-3))
    gau = lambda v, mu, s: np.exp(-0.5 * (v - mu) ** 2 / s ** 2) / (np.sqrt(2 * np.pi) * s)
    d = Fw.made[0].args
    pcen, psat, w, ff, fs, ls = need(d, 'pcen', 'psat', 'wcen', 'ffg', 'fsat', 'lscale')
    c.prove('weights of the same clusters', same(np, pcen, a['p_cen'][:, 0]) and same(np, psat, a['p_sat'][:, 0]) and same(np, w, a['w']))
    c.prove('foreground weight', same(np, ff, gau(np.log(a['w']), want['lnw_fg_mean'], want['lnw_fg_sigma'] / np.sqrt(ll)), rtol=1e-3))
    c.prove('satellite weight', same(np, fs, gau(np.log(a['w']), want['lnw_sat_mean'], want['lnw_sat_sigma'] / np.sqrt(ll)), rtol=1e-3))
    c.prove('widths scale with the richness', same(np, ls, 1. / np.sqrt(ll)))
    if set(m.fitsio.out) != {'out'}:
        raise StubMissing('written differently')
    o = m.fitsio.out['out'][0]
    p, wp = Fc.made[0].fits[-1][1], Fw.made[0].fits[-1][1]
    exp = dict(want, delta0=p[0], delta1=p[1], sigma_m=p[2], pivot=conf.wcen_pivot, lnw_cen_mean=wp[0], lnw_cen_sigma=wp[1], **ans)
    for k, v in exp.items():
        c.prove('the parameter file has the fitted ' + k, k in o.dtype.names and np.allclose(o[k], v))


@contract('R16', [CC + '_schechter_montecarlo_calib'], kind='conc', bounded='the short form of the simulation, with a given sampler', trials=4)
def brightest_of_many(c):
    import numpy as np
    m = c.mod('redmapper.calibration.centeringcal')
    r = c.nrng
    al = float(r.uniform(-1.2, -0.6))
    asked, pool = [], []

    def sample(f, ranges, step, nsamp, **k):
        x = np.linspace(ranges[0], ranges[1], 40)
        fx = f(x, **k)
        s = 10. ** (0.4 * (al + 1.0) * (-x)) * np.exp(-10. ** (0.4 * (-x)))
        asked.append((nsamp, same(np, fx / fx.max(), s / s.max())))
        c.prove('range from ten times to a fifth of the characteristic luminosity', same(np, sorted(ranges), sorted(-2.5 * np.log10(np.array([10.0, 0.2])))))
        pp = np.linspace(ranges[0], ranges[1], 4000)
        w = 10. ** (0.4 * (al + 1.0) * (-pp)) * np.exp(-10. ** (0.4 * (-pp)))
        pool.append(r.choice(pp, nsamp, p=w / w.sum()))
        return pool[-1].copy()
    c.patch(m, 'sample_from_pdf', sample)
    seen = []

    def hg(ax, x, **k):
        x = np.asarray(x)
        seen.append(x.copy())
        return np.array([1.0, np.mean(x), np.std(x)])
    c.patch(m, 'histoGauss', hg)
    piv = float(r.uniform(15, 40))
    cal = c.bare(m.WcenCalibrator, config=Ns(calib_lumfunc_alpha=al, wcen_pivot=piv))
    np.random.seed(int(r.integers(1 << 30)))
    c.get(cal, '_schechter_montecarlo_calib')(testing=True)
    c.prove('sampled from the luminosity function of the configuration', len(asked) == 1 and asked[0][1])
    if len(seen) < 3:
        raise StubMissing('summarised differently')
    lam = np.linspace(20, 100, num=3, dtype=np.int32)
    c.prove('the brightest galaxy is brighter in a richer cluster', cal.phi1_mmstar_slope < 0)
    # against an independent simulation: the brightest of lambda - 1 draws
    for q in lam:
        t = np.min(r.choice(pool[0], (1500, q - 1)), axis=1)
        mine = cal.phi1_mmstar_m + cal.phi1_mmstar_slope * np.log(q / piv)
        wide = cal.phi1_msig_m + cal.phi1_msig_slope * np.log(q / piv)
        c.prove('magnitude of the brightest of that many galaxies', abs(np.mean(t) - mine) < 0.22)
        c.prove('and its width', abs(np.std(t) - wide) < 0.15)


@contract('R16', [ZC + 'run', ZC + '__init__'], kind='conc', bounded='up to 150 clusters, fits answer random values', trials=40)
def redshift_afterburner(c):
    import numpy as np
    m = c.mod('redmapper.calibration.zlambdacal')
    r = c.nrng
    n = int(r.integers(60, 150))
    cat = clusters(c, np, n, 0.1, 0.6)
    nit, slope = int(r.integers(1, 4)), bool(r.integers(2))
    zr = [0.1, 0.6]
    if r.integers(5) == 0:
        cat['z_spec_init'] = np.where((cat['z_spec_init'] > 0.2) & (cat['z_spec_init'] < 0.35), 0.4, cat['z_spec_init'])
    keep = cat.copy()
    log = []
    conf = Ns(logger=Log(), catfile='cat', zlambdafile='out', cosmo=None, calib_zlambda_minlambda=10.0, max_maskfrac=0.2, zrange=zr, calib_zlambda_nodesize=0.1, calib_zlambda_slope_nodesize=0.25,
              calib_zlambda_correct_niter=nit, zlambda_binsize=0.002, zlambda_pivot=float(r.uniform(20, 40)))
    nodes, snodes = m.make_nodes(zr, 0.1), m.make_nodes(zr, 0.25)
    c.patch(m, 'ClusterCatalog', Cat(m.ClusterCatalog, {'cat': cat}))

    def answer(one, q):
        out = []
        for f, s, lo, hi in (('fit_delta', nodes.size, -0.02, 0.02), ('fit_slope', snodes.size, -0.1, 0.1), ('fit_scatter', snodes.size, 0.002, 0.02)):
            if need(q, f)[0]:
                out.append(r.uniform(lo, hi, s))
        return tuple(out)
    F = Fitters(c, m.ZLambdaFitter, answer)
    Md = Fitters(c, m.MedZFitter, lambda o, q: r.uniform(0, 1, nodes.size))
    c.patch(m, 'ZLambdaFitter', F)
    c.patch(m, 'MedZFitter', Md)
    corrs = []

    def Corr(parfile=None, pars=None, zrange=None, zbinsize=None, zlambda_pivot=None):
        if pars is None:
            differently()
        k = len(corrs)
        corrs.append((Ns(**{q: np.array(pars._ndarray[q]) for q in pars._ndarray.dtype.names}), zrange, zbinsize, zlambda_pivot))

        def apply_correction(lam, zlam, zlam_e, **kk):
            return zlam + 0.003 * (k + 1) + 1e-5 * lam, zlam_e * (1 + 0.1 * (k + 1))
        return Ns(apply_correction=apply_correction)
    c.patch(m, 'ZlambdaCorrectionPar', Corr)
    out = {}

    def tff(self, f, clobber=False, header=None, **k):
        out[f] = (np.array(self._ndarray), header)
    c.patch(m.Entry, 'to_fits_file', tff)
    u = (cat['lambda'] / cat['scaleval'] > 10.0) & (cat['maskfrac'] < 0.2)
    a = cat[u]
    h, _ = np.histogram(a['z_spec_init'], bins=nodes)
    cal = m.ZLambdaCalibrator(conf, corrslope=slope)
    if h.min() == 0:
        bad, _ = c.raises(RuntimeError, lambda: c.get(cal, 'run')())
        c.prove('refused without spectra in every redshift bin', bad and not out)
        return
    c.get(cal, 'run')()
    c.prove('the catalogue is left alone', np.array_equal(keep, cat))
    c.prove('one fit and one after outlier removal, for every correction', len(F.made) == 2 + 2 * nit)
    zt, ll = a['z_spec_init'].astype('f8'), np.log(a['lambda'].astype('f8') / a['scaleval'] / conf.zlambda_pivot)
    zl, ze = a['z_lambda'].astype('f4'), a['z_lambda_e'].astype('f4')
    fin = []
    for k, o in enumerate(F.made):
        kind, it, second = (0, 0, k) if k < 2 else (1, (k - 2) // 2, (k - 2) % 2)
        cz, ce = (zl, ze) if it == 0 else ((zl + 0.003 * it + 1e-5 * a['lambda']).astype('f4'), (ze * (1 + 0.1 * it)).astype('f4'))
        var = ce.astype('f8') ** 2
        if second:
            var = var + m.CubicSpline(snodes, fin[-1][2])(zt) ** 2
        lim = 3.0 * np.sqrt(var)
        dz = np.abs(zt - cz)
        if np.min(np.abs(dz - lim)) < 3e-6:
            return
        s = dz < lim
        nd, sn, zz, dd, ee, lam = need(o.args, 'nodes', 'slope_nodes', 'redshifts', 'dzs', 'redshift_errs', 'loglambdas')
        c.prove('nodes', same(np, nd, nodes) and same(np, sn, snodes))
        c.prove('fitted to the clusters within three sigma', np.asarray(zz).size == s.sum())
        c.prove('first as a function of true, then of measured redshift', same(np, zz, (cz if kind else zt)[s], atol=1e-5))
        c.prove('offset of true from measured redshift, with its error and richness', same(np, dd, (zt - cz)[s], atol=2e-6) and same(np, ee, ce[s]) and same(np, lam, ll[s], atol=1e-4))
        last = [np.zeros(nodes.size), np.zeros(snodes.size), None]
        for q, ans in o.fits:
            j = 0
            for i, f in enumerate(('fit_delta', 'fit_slope', 'fit_scatter')):
                if q[f]:
                    last[i] = ans[j]
                    j += 1
        ql = o.fits[-1][0]
        c.prove('all of it is fitted together at the end', ql['fit_delta'] and ql['fit_scatter'] and bool(ql['fit_slope']) == slope)
        c.prove('without slopes none is fitted', slope or not any(q['fit_slope'] for q, _ in o.fits))
        fin.append(last)
    c.prove('a correction for every iteration', len(corrs) == nit)
    for k, (p, zrg, zb, pv) in enumerate(corrs):
        c.prove('on a wider range, with the pivot', same(np, zrg, [0.08, 0.67]) and zb == 0.002 and pv == conf.zlambda_pivot)
        c.prove('of the parameters just fitted', same(np, p.offset_true[:, k], fin[3 + 2 * k][0]) and same(np, p.scatter_true[:, k], fin[3 + 2 * k][2]))
    if set(out) != {'out'}:
        raise StubMissing('written differently')
    o, hd = out['out']
    c.prove('the file has the nodes', same(np, o['offset_z'], nodes) and same(np, o['slope_z'], snodes) and int(o['niter_true']) == nit)
    c.prove('and the correction of the second fit', same(np, o['offset'], fin[1][0]) and same(np, o['slope'], fin[1][1]) and same(np, o['scatter'], fin[1][2]))
    for k in range(nit):
        f = fin[3 + 2 * k]
        c.prove('and that of every iteration', same(np, o['offset_true'][:, k], f[0]) and same(np, o['slope_true'][:, k], f[1]) and same(np, o['scatter_true'][:, k], f[2]))
    c.prove('one fit of the photometric redshift of the centre', len(Md.made) == 1)
    zn, zx, v = need(Md.made[0].args, 'z_nodes', 'redshifts', 'values')
    c.prove('against the uncorrected cluster redshift', same(np, zn, nodes) and same(np, zx, zl) and same(np, v, a['zred']) and same(np, o['zred_uncorr'], Md.made[0].fits[-1][1]))
    g = lambda k: float(hd[k])
    c.prove('header', np.allclose([g('ZRANGE0'), g('ZRANGE1'), g('ZBINSIZE'), g('ZLAMPIV')], [0.08, 0.67, 0.002, conf.zlambda_pivot]))
