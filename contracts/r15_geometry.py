"""R15: what the survey shows where: mask (mask.py), depth (depthmap.py) and volume limit (volumelimit.py)"""
import os
import tempfile
from rmv.run import contract
from contracts.stand import Ns, Log

M = 'redmapper/mask.py:'
D = 'redmapper/depthmap.py:'
V = 'redmapper/volumelimit.py:'
U = 'redmapper/utilities.py:'


@contract('R15', [M + 'Mask.set_radmask', M + 'Mask.compute_radmask'])
def mask_positions(c):
    np = c.np
    m = c.mod('redmapper.mask')
    cm = c.mod('redmapper.catalog')
    n = c.size('n', min=1, max=6)
    g = c.get(cm, 'Catalog')(c.rec('g', n, [('x', 'f8', dict(lo=-2.0, hi=2.0)), ('y', 'f8', dict(lo=-2.0, hi=2.0)), ('mark', '?', {})]))
    sx, sy = c.snapshot(g.x), c.snapshot(g.y)
    ra, dec, sc = c.float('ra', lo=0.0, hi=360.0), c.float('dec', lo=-80.0, hi=80.0), c.float('sc', lo=1.0, hi=100.0)
    seen = []
    vis = c.array('vis', n, kind='b')

    class Mine(c.get(m, 'Mask')):
        def compute_radmask(self, ras, decs):
            seen.append((ras, decs))
            return vis
    k = c.bare(Mine, maskgals=g, config=Ns())
    k.set_radmask(Ns(ra=ra, dec=dec, mpc_scale=sc))
    c.prove('one look-up', len(seen) == 1)
    c.prove('for every mask galaxy', c.And(seen[0][0].size == n, seen[0][1].size == n))
    cd = np.cos(np.radians(dec))
    for i in c.each(n):
        c.prove('at its offset from the cluster centre', c.And(c.close(seen[0][0][i], ra + sx[i] / sc / cd, rtol=1e-12), c.close(seen[0][1][i], dec + sy[i] / sc, rtol=1e-12)))
        c.prove('and it is marked by what is seen there', c.Iff(k.maskgals.mark[i], vis[i]))


def maskgals(c, n, nr=5, w=0.0, m50=True, lim=True):
    np, r = c.np, c.nrng
    cm = c.mod('redmapper.catalog')
    g = np.zeros(n, dtype=[('x', 'f4'), ('y', 'f4'), ('m', 'f4'), ('refmag', 'f4'), ('refmag_obs', 'f4'), ('refmag_obs_err', 'f4'), ('limmag', 'f4'), ('limmag_dered', 'f4'), ('exptime', 'f4'), ('m50', 'f4'), ('eff', 'f4'),
                           ('w', 'f4'), ('theta_r', 'f4', nr), ('mark', '?'), ('radbins', 'f4', nr), ('nin', 'f4', nr), ('nin_orig', 'f4', nr), ('zp', 'f4'), ('ebv', 'f4'), ('extinction', 'f4'), ('nsig', 'f4')])
    g['x'], g['y'] = r.uniform(-1, 1, n), r.uniform(-1, 1, n)
    g['m'] = r.uniform(-2, 2.5, n)
    g['limmag'] = r.uniform(20, 22, n) if lim else -1.0
    g['exptime'], g['zp'], g['nsig'], g['w'] = r.uniform(50, 200, n), 22.5, 10.0, w
    g['m50'] = r.uniform(19, 21, n) if m50 else 0.0
    g['radbins'] = 0.4 + 0.15 * np.arange(nr)
    g['theta_r'] = np.clip(g['radbins'] - np.abs(g['x'])[:, None] + 0.3, 0, 1)
    g['nin'] = np.maximum(g['theta_r'][g['m'] < 1.75].sum(axis=0), 1.0)
    g['mark'] = r.random(n) < 0.7
    return c.get(cm, 'Catalog')(g)


@contract('R15', [M + 'Mask.calc_maskcorr'], kind='conc', bounded='up to 40 mask galaxies, 5 radii', trials=200)
def mask_correction(c):
    np, r = c.np, c.nrng
    m = c.mod('redmapper.mask')
    u = c.mod('redmapper.utilities')
    n = c.size('n', min=1, max=40)
    kind = c.choice('kind', ['m50', 'm50', 'lim', 'flat', 'no limit', 'weird'])
    g = maskgals(c, n, w={'lim': -1.0, 'weird': 0.5}.get(kind, 0.0), m50=kind in ('m50', 'lim', 'weird'), lim=kind != 'no limit')
    if kind == 'no limit' and c.choice('zero', [False, True]):
        g.limmag[:] = 0.0
    if kind == 'm50' and c.choice('some', [False, True]) and n > 1:
        g.m50[r.integers(n)] = 0.0
    a = {k: getattr(g, k).copy() for k in g.dtype.names}
    k = c.bare(c.get(m, 'Mask'), maskgals=g, config=Ns())
    mst, mx, lim = c.float('mst', lo=17.0, hi=20.0), c.float('mx', lo=18.0, hi=21.0), c.float('lim', lo=19.0, hi=21.0)
    if kind in ('no limit', 'weird'):
        c.prove('a survey without limiting magnitude, or of another mode, is rejected', c.raises(Exception, lambda: k.calc_maskcorr(mst, mx, lim))[0])
        return
    cp = k.calc_maskcorr(mst, mx, lim)
    c.prove('magnitudes at the cluster', np.allclose(g.refmag, a['m'] + mst, rtol=1e-6))
    c.prove('observed magnitudes have errors', np.all(g.refmag_obs_err != 0) and np.all(np.isfinite(g.refmag_obs)))
    th = u.calc_theta_i(g.refmag_obs.astype('f8'), g.refmag_obs_err.astype('f8'), mx, a['m50'].astype('f8') if kind == 'm50' else lim)
    lost = 1 - np.array([np.sum(th * a['mark'] * a['theta_r'][:, j]) / a['nin'][0, j] for j in range(5)])
    want = np.polyfit(a['radbins'][0].astype('f8'), lost, 3)
    c.prove('cubic in radius of the fraction lost', np.size(cp) == 4 and np.allclose(np.polyval(cp, a['radbins'][0]), np.polyval(want, a['radbins'][0]), atol=2e-4))
    if not a['mark'].any():
        c.prove('everything is lost behind the mask', np.allclose(np.polyval(cp, a['radbins'][0]), 1, atol=1e-6))
    c.prove('the mask galaxies stay', all(np.array_equal(getattr(g, q), a[q]) for q in ('m', 'theta_r', 'mark', 'nin', 'limmag', 'm50', 'radbins')))


@contract('R15', [U + 'apply_errormodels'], kind='conc', bounded='up to 8 galaxies', trials=200)
def error_model(c):
    np, r = c.np, c.nrng
    u = c.mod('redmapper.utilities')
    n = c.size('n', min=1, max=8)
    zp, ns = c.choice('zp', [22.5, 30.0]), c.choice('ns', [5.0, 10.0])
    g = Ns(limmag=r.uniform(19, 23, n), exptime=r.uniform(100, 1000, n), zp=np.full(n, zp), nsig=np.full(n, ns), size=n)
    mag = r.uniform(16, 25, n)
    m1, e1 = u.apply_errormodels(g, mag, nonoise=True)
    c.prove('magnitudes without noise are unchanged', np.allclose(m1, mag, atol=1e-8))
    c.prove('errors are positive', np.all(e1 > 0) and np.all(np.isfinite(e1)))
    f = 10 ** ((mag - zp) / -2.5)
    fl, fe = u.apply_errormodels(g, mag, nonoise=True, fluxmode=True)
    c.prove('fluxes', np.allclose(fl, f, rtol=1e-9) and np.allclose(fe / fl * 2.5 / np.log(10), e1, rtol=1e-9))
    m2, e2 = u.apply_errormodels(g, g.limmag.copy(), nonoise=True)
    f1 = 10 ** ((g.limmag - zp) / -2.5)
    deep = f1 ** 2 * g.exptime / ns ** 2 - f1 > 0.001
    c.prove('signal to noise at the limiting magnitude', np.allclose(e2[deep], 2.5 / np.log(10) / ns, rtol=1e-9))
    m3, e3 = u.apply_errormodels(g, mag + 0.5, nonoise=True)
    c.prove('fainter galaxies have larger errors', np.all(e3 > e1))
    m3, e3 = u.apply_errormodels(g, mag, nonoise=True, err_ratio=2.0)
    c.prove('the error ratio scales errors', np.allclose(e3, 2 * e1))
    m3, e3 = u.apply_errormodels(g, mag, nonoise=True, sigma0=0.05)
    c.prove('the noise floor adds in quadrature', np.allclose(e3, np.hypot(e1, 0.05), rtol=1e-9))
    np.random.seed(c.int('seed', lo=0, hi=100000))
    mn, en = u.apply_errormodels(g, mag)
    many = Ns(limmag=np.full(600, 21.0), exptime=np.full(600, 100.0), zp=np.full(600, zp), nsig=np.full(600, ns), size=600)
    fm, em = u.apply_errormodels(many, np.full(600, 20.0), fluxmode=True)
    c.prove('fluxes scatter by their error', abs(np.std(fm) / em[0] - 1) < 0.15 and abs(np.mean(fm) - 10 ** ((20.0 - zp) / -2.5)) < 0.2 * em[0])
    bad = mn == 99.0
    c.prove('a galaxy without flux is faint beyond all limits, others have their noise', np.all(np.isfinite(mn)) and np.all(en[bad] == 99.0) and np.allclose((en * 10 ** ((mn - zp) / -2.5))[~bad], (e1 * f)[~bad], rtol=1e-6))
    b = 1e-10
    lu, le = u.apply_errormodels(g, mag, b=b, nonoise=True)
    back, be = u.apply_errormodels(g, lu, b=b, inlup=True, nonoise=True, fluxmode=True)
    c.prove('luptitudes are invertible', zp != 22.5 or np.allclose(back, f, rtol=1e-6))
    nf = fe / np.sqrt(f ** 2 + (2 * b * 1e9) ** 2) * 2.5 / np.log(10)
    c.prove('and their errors are those of the flux', np.allclose(le, nf, rtol=1e-6))
    c.prove('asinh magnitude', np.allclose(lu, 2.5 * np.log10(1 / b) - np.arcsinh(f / (2 * b * 1e9)) * 2.5 / np.log(10), rtol=1e-8))


def cfg(**k):
    d = dict(maskgalfile='none', border=0.0, d=Ns(hpix=[], nside=0), logger=Log(), galfile_nside=8, area=11.0)
    d.update(k)
    return Ns(**d)


@contract('R15', [M + 'Mask.select_maskgals_sample', M + 'Mask.gen_maskgals', M + 'Mask.read_maskgals', M + 'Mask.compute_radmask', M + 'get_mask'], kind='conc', bounded='3 samples of 40 mask galaxies', trials=40)
def mask_galaxies(c):
    import fitsio
    np = c.np
    m = c.mod('redmapper.mask')
    u = c.mod('redmapper.utilities')
    ns, ng = c.choice('ns', [1, 3]), 40
    rs = c.choice('rsig', [0.05, 0.2])
    cf = cfg(percolation_r0=c.choice('r0', [1.0, 0.5]), percolation_beta=c.choice('beta', [0.2, 0.1]), maskgal_rad_stepsize=0.2, nmag=4, maskgal_ngals=ng, maskgal_nsamples=ns, chisq_max=20.0, lval_reference=0.2, maskgal_dmag_extra=0.3,
             calib_lumfunc_alpha=-1.0, bkg_local_annuli=np.array([2.0, 3.0]), maskgal_zred_err=0.02, rsig=rs, mask_mode=0)
    np.random.seed(c.int('seed', lo=0, hi=100000))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'mg.fit')
        cf.maskgalfile = f
        c.prove('a missing file is reported', c.raises(RuntimeError, lambda: m.Mask(cf))[0])
        k = m.get_mask(cf, include_maskgals=False)
        k.gen_maskgals(f)
        k = m.get_mask(cf)
        h = fitsio.read_header(f, ext=1)
        old = os.path.join(d, 'old.fit')
        h2 = fitsio.FITSHDR()
        h2['version'] = int(h['version']) - 1
        fitsio.write(old, np.zeros(1, dtype=[('a', 'f4')]), header=h2)
        cf2 = cfg(maskgalfile=old)
        c.prove('an old version is reported', c.raises(RuntimeError, lambda: m.Mask(cf2))[0])
    a = k.maskgals_all
    lim = -2.5 * np.log10(0.2)
    maxrad = cf.percolation_r0 * 3.0 ** cf.percolation_beta
    rb = a.radbins[0]
    c.prove('as many as configured', a.size == ns * ng)
    c.prove('radii reach the largest cluster', np.all(a.radbins == rb) and rb[0] <= 0.5 and rb[-1] >= maxrad - 1e-5 and np.allclose(np.diff(rb), 0.2, atol=1e-5))
    c.prove('positions', np.allclose(np.hypot(a.x, a.y), a.r, rtol=1e-4) and np.all(a.r >= 0) and np.all(a.r <= np.ceil(10 * maxrad) / 10 + 0.01) and np.allclose(np.hypot(a.x_uniform, a.y_uniform), a.r_uniform, rtol=1e-4) and np.all(a.r_uniform <= 3.0))
    c.prove('chi-squared in range with its density', np.all(a.chisq >= 0) and np.all(a.chisq <= 20) and np.allclose(a.chisq_pdf, u.chisq_pdf(a.chisq.astype('f8'), 3), rtol=1e-3, atol=1e-6) and np.allclose(a.cwt, a.chisq_pdf))
    c.prove('luminosities in range', np.all(a.m >= -2.5 - 1e-3) and np.all(a.m <= lim + 0.3 + 0.01))
    c.prove('profile and luminosity densities', np.allclose(a.nfw, u.nfw_pdf(a.r.astype('f8'), radfactor=True), rtol=1e-3) and np.allclose(a.lum_pdf, u.schechter_pdf(a.m.astype('f8') + 19, mstar=19.0, alpha=-1.0), rtol=1e-3))
    st = np.arange(10.0, 19 + lim, 0.002)
    norm = np.sum(u.schechter_pdf(st, alpha=-1.0, mstar=19.0)) * 0.002
    c.prove('luminosity weight is normalised above the limit', np.allclose(a.lumwt, a.lum_pdf / norm, rtol=2e-2))
    c.prove('redshift weight', np.allclose(a.zwt, np.exp(-0.5 * (a.dzred.astype('f8') / 0.02) ** 2) / np.sqrt(2 * np.pi) / 0.02, rtol=1e-3))
    from scipy.special import erf
    th = 0.5 + 0.5 * erf((rb[None, :].astype('f8') - a.r[:, None]) / np.sqrt(2) / rs)
    c.prove('softened radial weight', np.allclose(a.theta_r, th, atol=1e-4))
    for s in range(ns):
        q = np.arange(s * ng, (s + 1) * ng)
        br = a.m[q] < lim
        if np.min(np.abs(a.m[q] - lim)) > 1e-5:
            c.prove('numbers inside, sample by sample', np.allclose(a.nin[q], th[q][br].sum(axis=0)[None, :], rtol=1e-3) and np.allclose(a.nin_orig[q], ((a.r[q][:, None] <= rb[None, :]) & br[:, None]).sum(axis=0)[None, :], atol=0.1 if np.min(np.abs(a.r[q][:, None] - rb[None, :])) > 1e-5 else 2))
        c.prove('a sample is its block', k.select_maskgals_sample(maskgal_index=s) == s and k.maskgals.size == ng and np.array_equal(k.maskgals.r, a.r[q]) and np.array_equal(k.maskgals.m, a.m[q]))
    for _ in range(3):
        s = k.select_maskgals_sample()
        c.prove('otherwise one is chosen', 0 <= s < ns and np.array_equal(k.maskgals.r, a.r[s * ng:(s + 1) * ng]))
    c.prove('without a mask everything is seen', np.all(k.compute_radmask(np.arange(4.0), np.arange(4.0))) and k.compute_radmask(np.arange(4.0), np.arange(4.0)).size == 4 and c.raises(ValueError, lambda: k.compute_radmask(np.arange(4.0), np.arange(3.0)))[0])


def sky_points(np, r, nside, pix, n):
    """random positions on the sky, most of them inside the given (nested) pixels"""
    import hpgeom as hpg
    ra, dec = r.uniform(0, 360, n), np.degrees(np.arcsin(r.uniform(-1, 1, n)))
    if len(pix):
        q = r.random(n) < 0.8
        a, b = hpg.pixel_to_angle(nside, r.choice(pix, q.sum()))
        ra[q], dec[q] = a, b
    return ra, dec


def in_region(np, ra, dec, cf):
    """positions in the pixels of a job or surely within its border"""
    import hpgeom as hpg
    q = np.isin(hpg.angle_to_pixel(cf.d.nside, ra % 360.0, np.clip(dec, -90, 90), nest=False), cf.d.hpix)
    if cf.border > 0 and ra.size:
        a, b = hpg.boundaries(cf.d.nside, cf.d.hpix[0], step=64, nest=False)
        v, w = hpg.angle_to_vector(np.ravel(a), np.ravel(b)), hpg.angle_to_vector(ra % 360.0, np.clip(dec, -90, 90))
        q |= np.degrees(np.arccos(np.clip(w @ v.T, -1, 1))).min(axis=1) < 0.95 * cf.border
    return q


def coverage(np, r, nside, region=None):
    """some pixels (nested) with their covered fraction"""
    import hpgeom as hpg
    k = int(r.integers(1, 40))
    a, b = r.uniform(0, 360), r.uniform(-70, 70)
    pix = np.unique(hpg.angle_to_pixel(nside, (a + r.normal(0, 4, k)) % 360, np.clip(b + r.normal(0, 4, k), -89, 89)))
    if r.random() < 0.4:        # the poles
        pole = hpg.angle_to_pixel(nside, np.arange(8) * 90.0 % 360 + 45.0, np.repeat([89.9, -89.9], 4))
        pix = np.append(pix, np.setdiff1d(pole, pix))
    return pix, np.round(r.uniform(0.05, 1, pix.size) * 64) / 64


@contract('R15', [M + 'HPMask.__init__', M + 'HPMask.compute_radmask', M + 'convert_maskfile_to_healsparse'], kind='conc', bounded='up to 40 mask pixels, 60 positions', trials=60)
def footprint(c):
    import fitsio
    import hpgeom as hpg
    np, r = c.np, c.nrng
    m = c.mod('redmapper.mask')
    nside = 64
    pix, frac = coverage(np, r, nside)
    frac = np.where(r.random(pix.size) < 0.5, 1.0, np.where(r.random(pix.size) < 0.5, 0.0, frac)).astype('f4')
    nest = c.choice('nest', [True, False])
    np.random.seed(c.int('seed', lo=0, hi=100000))
    with tempfile.TemporaryDirectory() as d:
        f, hs = os.path.join(d, 'm.fit'), os.path.join(d, 'm.hs')
        h = fitsio.FITSHDR()
        h['nside'], h['nest'] = nside, nest
        t = np.zeros(pix.size, dtype=[('hpix', 'i8'), ('fracgood', 'f4')])
        t['hpix'], t['fracgood'] = pix if nest else hpg.nest_to_ring(nside, pix), frac
        fitsio.write(f, t, header=h)
        c.prove('the old format is reported', c.raises(RuntimeError, lambda: m.HPMask(cfg(maskfile=f), include_maskgals=False))[0])
        m.convert_maskfile_to_healsparse(f, hs, 8)
        t2 = t.copy()
        t2['fracgood'] = 0.3
        f2 = os.path.join(d, 'm2.fit')
        fitsio.write(f2, t2, header=h)
        c.prove('an existing file is not overwritten', c.raises((RuntimeError, OSError), lambda: m.convert_maskfile_to_healsparse(f2, hs, 8))[0])
        sub = c.choice('sub', [False, True])
        cf = cfg(maskfile=hs, mask_mode=3)
        if sub:
            own = np.unique(hpg.nest_to_ring(4, pix >> 8))
            cf.d = Ns(hpix=[int(hpg.nest_to_ring(4, pix[0] >> 8))], nside=4)
            cf.border = c.choice('border', [0.0, 5.0])
            if cf.border == 0 and own.size > 1:
                cf.d.hpix = [int(x) for x in own[:2]]
        k = m.get_mask(cf, include_maskgals=False)
        c.prove('mask galaxies are read unless they are not wanted', c.raises((RuntimeError, OSError), lambda: m.get_mask(cf))[0])
    n = c.size('n', min=1, max=60)
    ra, dec = sky_points(np, r, nside, pix, n)
    if sub:
        q = in_region(np, ra, dec, cf)
        ra, dec = ra[q], dec[q]
    ra = ra + r.choice([0.0, 360.0, -360.0], ra.size)
    off = r.random(ra.size) < 0.1
    dec[off] = r.choice([91.0, -90.5], off.sum())
    v = k.compute_radmask(ra, dec)
    look = dict(zip(pix.tolist(), frac.tolist()))
    p = hpg.angle_to_pixel(nside, ra % 360.0, np.clip(dec, -90, 90))
    fr = np.array([look.get(int(x), 0.0) for x in p]) * (np.abs(dec) < 90) if ra.size else np.zeros(0)
    c.prove('one answer per position', v.size == ra.size)
    c.prove('nothing is seen outside the footprint', not np.any(v[fr == 0]))
    c.prove('everything is seen in fully covered pixels', np.all(v[fr == 1]))
    c.prove('lengths have to agree', c.raises(ValueError, lambda: k.compute_radmask(np.arange(4.0), np.arange(3.0)))[0])
    for i in np.where((frac > 0.2) & (frac < 0.8))[0][:1]:
        if sub and int(hpg.nest_to_ring(4, pix[i] >> 8)) not in cf.d.hpix:
            continue
        a, b = hpg.pixel_to_angle(nside, pix[i])
        s = np.mean(k.compute_radmask(np.full(2000, a), np.full(2000, b)))
        c.prove('in partly covered pixels that fraction', abs(s - frac[i]) < 6 * np.sqrt(frac[i] * (1 - frac[i]) / 2000))


def depth_file(c, d, name='depth', nside=64, nest=True, w=0.0, flat=False, pix=None, deep=None, zp=22.5, nsig=10.0, nband=1, lim=(20, 23)):
    """a depth map file and its contents"""
    import fitsio
    import hpgeom as hpg
    np, r = c.np, c.nrng
    dm = c.mod('redmapper.depthmap')
    if pix is None:
        pix, frac = coverage(np, r, nside)
    else:
        frac = np.round(r.uniform(0.05, 1, pix.size) * 64) / 64
    if flat:
        frac[:] = 0.5
    t = np.zeros(pix.size, dtype=[('hpix', 'i8'), ('fracgood', 'f4'), ('exptime', 'f4'), ('limmag', 'f4'), ('m50', 'f4')])
    t['hpix'], t['fracgood'] = pix if nest else hpg.nest_to_ring(nside, pix), frac
    t['exptime'], t['limmag'], t['m50'] = r.uniform(50, 500, pix.size), r.uniform(lim[0], lim[1], pix.size), r.permutation(pix.size) * 0.05 + 19.5
    if deep is not None:
        t['fracgood'] = np.where(t['m50'] >= deep, 0.125, 1.0)
    h = fitsio.FITSHDR()
    h['nside'], h['nest'], h['NSIG'], h['ZP'], h['NBAND'], h['W'], h['EFF'] = nside, nest, nsig, zp, nband, w, 0.9
    f, hs = os.path.join(d, name + '.fit'), os.path.join(d, name + '.hs')
    fitsio.write(f, t, header=h)
    dm.convert_depthfile_to_healsparse(f, hs, 8)
    t['hpix'] = pix
    return hs, t, f


@contract('R15', [D + 'DepthMap.__init__', D + 'DepthMap.get_depth_values', D + 'DepthMap.get_fracgoods', D + 'DepthMap.calc_maskdepth', D + 'convert_depthfile_to_healsparse'], kind='conc', bounded='up to 40 depth pixels, 40 positions', trials=80)
def depth(c):
    import hpgeom as hpg
    np, r = c.np, c.nrng
    m = c.mod('redmapper.depthmap')
    nside = 64
    w = c.choice('w', [0.0, -1.0])
    with tempfile.TemporaryDirectory() as d:
        zp, ns = c.choice('zp', [22.5, 30.0]), c.choice('nsig', [10.0, 5.0])
        hs, t, old = depth_file(c, d, nest=c.choice('nest', [True, False]), w=w, zp=zp, nsig=ns, nband=2)
        c.prove('the old format is reported', c.raises(RuntimeError, lambda: m.DepthMap(cfg(depthfile=old)))[0])
        cf = cfg(depthfile=hs)
        sub = c.choice('sub', [False, True])
        if sub:
            own = np.unique(hpg.nest_to_ring(4, t['hpix'] >> 8))
            cf.d = Ns(hpix=[int(hpg.nest_to_ring(4, t['hpix'][0] >> 8))], nside=4)
            cf.border = c.choice('border', [0.0, 1.0, 5.0])
            if cf.border == 0 and own.size > 1:
                cf.d.hpix = [int(x) for x in own[:2]]
        dm = m.DepthMap(cf) if c.choice('arg', [True, False]) else m.DepthMap(cfg(**dict(cf.__dict__, depthfile=None)), depthfile=hs)
    c.prove('survey properties', dm.nsig == ns and dm.zp == zp and dm.w == w and dm.nband == 2 and dm.eff == 0.9)
    n = c.size('n', min=1, max=40)
    ra, dec = sky_points(np, r, nside, t['hpix'], n)
    if sub:
        q = in_region(np, ra, dec, cf)
        ra, dec = ra[q], dec[q]
    off = r.random(ra.size) < 0.1
    dec[off] = 90.5
    look = {int(x['hpix']): x for x in t}
    p = hpg.angle_to_pixel(nside, ra, np.clip(dec, -90, 90))
    hit = [look.get(int(x)) if abs(y) <= 90 else None for x, y in zip(p, dec)]
    l, e, mm = dm.get_depth_values(ra, dec)
    f = dm.get_fracgoods(ra, dec)
    for i, x in enumerate(hit):
        if x is None:
            c.prove('nothing is known outside the footprint', l[i] < 0 and e[i] < 0 and mm[i] < 0 and f[i] <= 0)
        else:
            c.prove('depth of the pixel of each position', l[i] == x['limmag'] and e[i] == x['exptime'] and mm[i] == x['m50'] and f[i] == x['fracgood'])
    c.prove('lengths have to agree', c.raises(ValueError, lambda: dm.get_depth_values(np.arange(4.0), np.arange(3.0)))[0] and c.raises(ValueError, lambda: dm.get_fracgoods(np.arange(4.0), np.arange(3.0)))[0])
    # around a cluster
    g = maskgals(c, n)
    a0, b0 = hpg.pixel_to_angle(nside, t['hpix'][0])
    sc = 1.0 / c.choice('size', [0.05, 1.5, 4.0])
    if c.choice('hole', [False, False, True]):
        a0, b0 = (a0 + 180) % 360, -b0
    if sub and (cf.border == 0 or sc < 1):
        return
    dm.calc_maskdepth(g, a0, b0, sc)
    ras, decs = a0 + g.x / sc / np.cos(np.radians(b0)), b0 + g.y / sc
    p = hpg.angle_to_pixel(nside, ras % 360, np.clip(decs, -90, 90))
    hit = [look.get(int(x)) if abs(y) < 90 else None for x, y in zip(p, decs)]
    ok = np.array([x is not None for x in hit])
    c.prove('survey properties are set', g.zp[0] == np.float32(zp) and g.nsig[0] == ns and np.all(g.w == w))
    for q in ('limmag', 'exptime', 'm50'):
        v = np.array([x[q] for x in hit if x is not None], dtype='f8')
        c.prove('each mask galaxy has the depth at its place', np.allclose(getattr(g, q)[ok], v, rtol=1e-6))
        if ok.any():
            fill = np.median(v) if ok.sum() >= 3 else np.mean(v)
            c.prove('typical depth where there is none', np.allclose(getattr(g, q)[~ok], fill, rtol=1e-6))
    if not ok.any():
        c.prove('a cluster outside is known to be bad', np.all(g.limmag == 1.0) and np.all(g.m50 == 0.0) and np.all(g.exptime == 1000.0))


@contract('R15', [D + 'DepthMap.calc_areas'], kind='conc', bounded='up to 40 depth pixels of equal coverage', trials=80)
def depth_area(c):
    import hpgeom as hpg
    np, r = c.np, c.nrng
    m = c.mod('redmapper.depthmap')
    w = c.choice('w', [0.0, 0.0, -1.0])
    with tempfile.TemporaryDirectory() as d:
        hs, t, old = depth_file(c, d, w=w, flat=True)
        cf = cfg(depthfile=hs)
        sub = c.choice('sub', [False, True])
        if sub:
            own = np.unique(hpg.nest_to_ring(4, t['hpix'] >> 8))
            cf.d = Ns(hpix=[int(x) for x in own[:c.choice('nreg', [1, 2])]], nside=4)
        dm = m.DepthMap(cf)
        cf.border = 1.0
        if sub and w >= 0:
            c.prove('areas with a border are refused', c.raises(RuntimeError, lambda: m.DepthMap(cf).calc_areas(np.array([20.0])))[0])
    mags = np.sort(r.uniform(19, 22, int(r.integers(1, 8))))
    if w < 0:
        a = dm.calc_areas(mags)
        c.prove('without depth the configured area', np.all(a == 11.0) and a.size == mags.size)
        return
    px = hpg.nside_to_pixel_area(64, degrees=True)
    q = np.ones(t.size, dtype=bool)
    if sub:
        q = np.isin(hpg.nest_to_ring(4, t['hpix'] >> 8), cf.d.hpix)
    if q.sum() < 2:
        return
    a = dm.calc_areas(mags)
    want = np.array([np.sum(t['fracgood'][q & (t['m50'] >= x)]) * px for x in mags])
    c.prove('area that reaches each magnitude, to two pixels', np.all(np.abs(a - want) <= 2 * px * 0.5 * 1.001))
    c.prove('all of the area for bright galaxies, never more', np.all(a <= np.sum(t['fracgood'][q]) * px * 1.000001) and np.allclose(a[mags < t['m50'][q].min()], np.sum(t['fracgood'][q]) * px))
    c.prove('never growing with magnitude', np.all(np.diff(a) <= 1e-12))


@contract('R15', [D + 'DepthMap.calc_areas'], kind='conc', bounded='20 depth pixels, covered less where they are deep', trials=3, finding='R15-depth-area')
def depth_area_unequal(c):
    import hpgeom as hpg
    np, r = c.np, c.nrng
    m = c.mod('redmapper.depthmap')
    with tempfile.TemporaryDirectory() as d:
        px = np.arange(40000, 40020)
        hs, t, old = depth_file(c, d, pix=px, deep=20.0)
        dm = m.DepthMap(cfg(depthfile=hs))
    mags = np.array([20.0])
    want = np.sum(t['fracgood'][t['m50'] >= 20.0]) * hpg.nside_to_pixel_area(64, degrees=True)
    c.prove('area that reaches each magnitude, to two pixels', abs(dm.calc_areas(mags)[0] - want) <= 2 * hpg.nside_to_pixel_area(64, degrees=True))


class Fine(Ns):
    """a red sequence for the volume limit: any monotonic characteristic magnitude"""
    def __init__(self, c):
        np, r = c.np, c.nrng
        Ns.__init__(self)
        self.z = np.arange(0.05, 0.7, 0.001)
        self.a, self.b = 16 + r.random(), 6 + 2 * r.random()
        self.c = np.outer(self.z, [2.0, 1.0, 0.5]) + 0.4
        self.slope = np.outer(np.ones(self.z.size), [-0.08, -0.15, -0.1])
        self.pivotmag = 16 + 6 * self.z

    def mstar(self, z):
        return self.a + self.b * z


@contract('R15', [V + 'VolumeLimitMask.__init__', V + 'VolumeLimitMask._build_mask', V + 'VolumeLimitMask._build_geometry_mask', V + 'VolumeLimitMask._read_mask', V + 'VolumeLimitMask.calc_zmax', V + 'VolumeLimitMask.get_areas',
                 V + 'VolumeLimitMaskFixed.get_areas', V + 'VolumeLimitMaskFixed.calc_zmax'], kind='conc', bounded='up to 40 depth pixels, 40 positions', trials=200, ctime=25)
def volume_limit(c):
    import hpgeom as hpg
    import fitsio
    np, r = c.np, c.nrng
    m = c.mod('redmapper.volumelimit')
    mk = c.mod('redmapper.mask')
    nside = 64
    zr = [0.1, 0.5]
    fx = Fine(c)
    c.patch(m, 'RedSequenceColorPar', lambda *a, **k: fx)
    lst = c.choice('lst', [0.2, 1.0])
    mode = c.choice('mode', ['depth', 'depth', 'bands', 'geometry'])
    with tempfile.TemporaryDirectory() as d:
        pix, _ = coverage(np, r, nside)
        hs, t, old = depth_file(c, d, pix=pix)
        out = os.path.join(d, 'v.hs')
        cf = cfg(depthfile=hs, maskfile=None, parfile='p', zrange=zr, vlim_depthfiles=[], vlim_bands=[], vlim_nsigs=[], bands=['g', 'r', 'i', 'z'], refmag=c.choice('refmag', ['i', 'r', 'z']), area_finebin=0.01)
        c.prove('a depth file is needed', c.raises(RuntimeError, lambda: m.VolumeLimitMask(cfg(**dict(cf.__dict__, depthfile=None)), lst, vlimfile=out))[0])
        c.prove('a mask is needed', c.raises(RuntimeError, lambda: m.VolumeLimitMask(cf, lst, vlimfile=out, use_geometry=True))[0])
        if mode == 'geometry':
            tt = t[['hpix', 'fracgood']]
            h = fitsio.FITSHDR()
            h['nside'], h['nest'] = nside, True
            fitsio.write(os.path.join(d, 'g.fit'), np.array(tt.tolist(), dtype=[('hpix', 'i8'), ('fracgood', 'f4')]), header=h)
            cf.maskfile = os.path.join(d, 'g.hs')
            mk.convert_maskfile_to_healsparse(os.path.join(d, 'g.fit'), cf.maskfile, 8)
        elif mode == 'bands':
            p2 = np.unique(np.append(pix[r.random(pix.size) < 0.8], pix[0]))
            band = c.choice('band', ['zr', 'z', 'r', 'g', 'gi', 'rg', 'iz'])
            ext = []
            for k, bd in enumerate(band):
                zp, nsg = c.choice('zp%d' % k, [22.5, 30.0]), c.choice('nsg%d' % k, [10.0, 5.0])
                hs2, t2, _ = depth_file(c, d, name='b%d' % k, pix=p2, zp=zp, nsig=nsg, lim=c.choice('lim%d' % k, [(20, 23), (17.5, 20)]))
                ext.append((hs2, t2, bd, zp, nsg, c.choice('nsig%d' % k, [5.0, 10.0, 3.0])))
            cf.vlim_depthfiles, cf.vlim_bands, cf.vlim_nsigs = [x[0] for x in ext], list(band), [x[5] for x in ext]
            c.prove('a missing depth file is reported', c.raises(RuntimeError, lambda: m.VolumeLimitMask(cfg(**dict(cf.__dict__, vlim_depthfiles=[hs2 + 'x'])), lst, vlimfile=out))[0])
        named = c.choice('named', [True, False])
        if not named:
            cf.redmapper_filename = lambda x, withversion=False, **k: os.path.join(d, x + ('_v' if withversion else '') + '.fit')
            ver = c.choice('ver', [True, False])
            v = m.VolumeLimitMask(cf, lst, use_geometry=mode == 'geometry', withversion=ver)
            out = os.path.join(d, 'vl%02d_vlim_zmask%s.fit' % (round(lst * 10), '_v' if ver else ''))
        else:
            v = m.VolumeLimitMask(cf, lst, vlimfile=out, use_geometry=mode == 'geometry')
        c.prove('the mask is stored under its name', os.path.isfile(out))
        again = m.VolumeLimitMask(cfg(**dict(cf.__dict__, depthfile=None)), lst, vlimfile=out)
        again2 = m.VolumeLimitMask(cfg(**dict(cf.__dict__, depthfile=None, maskfile=None)), lst, vlimfile=out, use_geometry=True)
        got = v.sparse_vlimmap.valid_pixels
        part = bord = None
        if got.size:            # (healsparse refuses a region without any pixel)
            reg = int(hpg.nest_to_ring(2, int(got[0]) >> 10))
            bcf = cfg(**dict(cf.__dict__, depthfile=None, d=Ns(hpix=[reg], nside=2), border=5.0))
            bord = m.VolumeLimitMask(bcf, lst, vlimfile=out)
            part = m.VolumeLimitMask(cfg(**dict(cf.__dict__, depthfile=None, d=Ns(hpix=[reg], nside=2))), lst, vlimfile=out)
        c.prove('the old format is reported', c.raises((RuntimeError, OSError), lambda: m.VolumeLimitMask(cf, lst, vlimfile=old))[0])
    n = c.size('n', min=1, max=40)
    ra, dec = sky_points(np, r, nside, pix, n)
    off = r.random(n) < 0.1
    dec[off] = r.choice([90.5, -91.0], off.sum())
    z, f = v.calc_zmax(ra, dec, get_fracgood=True)
    c.prove('the stored mask is used again', np.array_equal(again.calc_zmax(ra, dec), z) and np.array_equal(again2.calc_zmax(ra, dec), z) and np.array_equal(v.calc_zmax(ra, dec), z))
    if part is not None:
        q = hpg.angle_to_pixel(2, ra, np.clip(dec, -90, 90), nest=False) == reg
        c.prove('a part of the mask gives the same answers there', np.array_equal(part.calc_zmax(ra[q], dec[q]), z[q]))
        q = in_region(np, ra, dec, bcf)
        c.prove('and so does one with its border', np.array_equal(bord.calc_zmax(ra[q], dec[q]), z[q]))
        far = [int(x) for x in part.sparse_vlimmap.valid_pixels if int(hpg.nest_to_ring(2, int(x) >> 10)) != reg]
        c.prove('and covers nothing else', len(far) == 0)
    c.prove('lengths have to agree', c.raises(ValueError, lambda: v.calc_zmax(ra, dec[:-1]))[0])
    p = hpg.angle_to_pixel(nside, ra, np.clip(dec, -90, 90))
    look = {int(x['hpix']): x for x in t}
    zz = np.arange(zr[0] + 0.001, zr[1] + 1e-9, 0.001)
    ref = fx.mstar(zz) - 2.5 * np.log10(lst)

    def limit(depth, mag):
        if depth <= mag[0]:
            return zr[0] + 0.001
        return float(np.interp(depth, mag, zz))
    allz = {}
    for x in t:
        if mode == 'geometry':
            allz[int(x['hpix'])] = zr[1]
            continue
        e = limit(float(x['m50']), ref)
        if mode == 'bands':
            iz = np.clip(np.searchsorted(fx.z, zz), 0, fx.z.size - 1)
            col = fx.c[iz] + fx.slope[iz] * (ref - fx.pivotmag[iz])[:, None]
            for _, t2, bd, zp, nsg, want in ext:
                y = t2[t2['hpix'] == x['hpix']]
                if y.size == 0:
                    e = zr[0] + 0.001
                    continue
                y = y[0]
                ib, ir = 'griz'.index(bd), 'griz'.index(cf.refmag)
                mag = ref + col[:, ib:ir].sum(axis=1) - col[:, ir:ib].sum(axis=1)
                t_, fl = float(y['exptime']), 10 ** ((float(y['limmag']) - zp) / -2.5)
                sk = max(fl ** 2 * t_ / nsg ** 2 - fl, 0.001)
                n2 = want ** 2
                fm = (n2 + np.sqrt(n2 ** 2 + 4 * t_ * n2 * sk)) / (2 * t_)
                e = min(e, limit(zp - 2.5 * np.log10(fm), mag))
        allz[int(x['hpix'])] = e if e > zr[0] + 0.0025 else (None if e <= zr[0] + 0.001 else 'edge')
    for i in range(n):
        e = allz.get(int(p[i])) if abs(dec[i]) <= 90 else None
        if e == 'edge':
            continue
        if e is None:
            c.prove('no volume where nothing is seen', z[i] <= 0)
            if abs(dec[i]) > 90 or int(p[i]) not in look:
                c.prove('and no coverage', f[i] <= 0)
        else:
            c.prove('the redshift to which galaxies are bright enough, to a bin', abs(z[i] - e) <= 0.0021)
            c.prove('coverage of the pixel', f[i] == look[int(p[i])]['fracgood'])
    ar = v.get_areas()
    px = hpg.nside_to_pixel_area(nside, degrees=True)
    vp = {int(q): float(v.calc_zmax(*[np.array([s]) for s in hpg.pixel_to_angle(nside, int(q))])[0]) for q in t['hpix']}
    for k in range(ar.size):
        want = sum(float(x['fracgood']) for x in t if vp[int(x['hpix'])] > ar.z[k]) * px
        slack = sum(float(x['fracgood']) for x in t if abs(vp[int(x['hpix'])] - ar.z[k]) < 1e-6) * px
        c.prove('area at a redshift is that of the pixels that reach it', abs(ar.area[k] - want) <= slack + 1e-5)
    c.prove('on the redshift range', np.allclose(ar.z, np.arange(zr[0], zr[1], 0.01), atol=1e-6))
    fi = m.VolumeLimitMaskFixed(cf)
    c.prove('a fixed limit', fi.calc_zmax(ra, dec) == zr[1] and np.all(fi.get_areas().area == 11.0) and np.allclose(fi.get_areas().z, ar.z))


@contract('R15', [U + 'get_healsparse_subpix_indices'], kind='conc', bounded='sampled pixels and borders', trials=80)
def subregion(c):
    import hpgeom as hpg
    np, r = c.np, c.nrng
    u = c.mod('redmapper.utilities')
    ns, cov = c.choice('ns', [0, 2, 4, 8, 16]), c.choice('cov', [4, 8, 16])
    if ns == 0:
        c.prove('the whole sky', u.get_healsparse_subpix_indices(0, [0], 0.0, cov) is None)
        c.prove('something has to be asked for', c.raises(RuntimeError, lambda: u.get_healsparse_subpix_indices(4, [], 0.0, cov))[0])
        c.prove('a border only around one pixel', c.raises(NotImplementedError, lambda: u.get_healsparse_subpix_indices(4, [0, 1], 1.0, cov))[0])
        return
    border = c.choice('border', [0.0, 0.0, 0.5, 3.0])
    k = 1 if border > 0 else int(r.integers(1, 4))
    hp = sorted(r.choice(12 * ns * ns, k, replace=False).tolist())
    got = np.unique(u.get_healsparse_subpix_indices(ns, hp, border, cov))
    # dense points: those inside or within the border need their coverage pixel
    fine = 64
    a, b = hpg.pixel_to_angle(fine, np.arange(12 * fine * fine))
    inside = np.isin(hpg.angle_to_pixel(ns, a, b, nest=False), hp)
    cp = hpg.angle_to_pixel(cov, a, b)
    c.prove('every coverage pixel of the region', np.all(np.isin(np.unique(cp[inside]), got)))
    v = hpg.angle_to_vector(a, b)
    res = np.degrees(np.sqrt(4 * np.pi / (12 * fine * fine)))
    best = np.full(a.size, -1.0)
    for q in np.array_split(np.where(inside)[0], 8):
        if q.size:
            best = np.maximum(best, (v @ v[q].T).max(axis=1))
    dist = np.degrees(np.arccos(np.clip(best, -1, 1)))
    if border > 0:
        c.prove('and of its border', np.all(np.isin(np.unique(cp[dist < border - res]), got)))
    far = np.ones(12 * cov * cov, dtype=bool)
    far[np.unique(cp[dist < border + 3 * res])] = False
    c.prove('and nothing far from it', not np.any(far[got]))


@contract('R15', [M + 'Mask.gen_maskgals'], kind='conc', bounded='3000 mask galaxies', trials=4, ctime=40)
def mask_galaxy_distribution(c):
    np = c.np
    m = c.mod('redmapper.mask')
    u = c.mod('redmapper.utilities')
    N = 3000
    r0, be, al = c.choice('r0', [1.0, 0.7]), c.choice('beta', [0.2, 0.1]), c.choice('alpha', [-1.0, -0.7])
    cf = cfg(percolation_r0=r0, percolation_beta=be, maskgal_rad_stepsize=0.2, nmag=c.choice('nmag', [4, 5]), maskgal_ngals=N, maskgal_nsamples=1, chisq_max=20.0, lval_reference=0.2, maskgal_dmag_extra=0.3,
             calib_lumfunc_alpha=al, bkg_local_annuli=np.array([1.0, 3.0]), maskgal_zred_err=c.choice('ze', [0.02, 0.05]), rsig=0.05, mask_mode=0)
    np.random.seed(c.int('seed', lo=0, hi=100000))
    with tempfile.TemporaryDirectory() as d:
        cf.maskgalfile = os.path.join(d, 'mg.fit')
        m.get_mask(cf, include_maskgals=False).gen_maskgals(cf.maskgalfile)
        a = m.get_mask(cf).maskgals_all

    def follows(x, grid, pdf):
        cdf = np.cumsum(pdf)
        e = np.searchsorted(np.sort(x), grid + 1e-6) / float(N)
        return np.abs(e - cdf / cdf[-1]).max() < 0.06
    mr = np.ceil(10 * r0 * 3.0 ** be) / 10
    rr = np.arange(0.001, mr, 0.001)
    c.prove('radii follow the profile', follows(a.r, rr, u.nfw_pdf(rr, radfactor=True)))
    mm = np.arange(-2.5, -2.5 * np.log10(0.2) + 0.3, 0.002)
    c.prove('magnitudes the luminosity function', follows(a.m, mm, u.schechter_pdf(mm, alpha=al, mstar=0.0)))
    xx = np.arange(0.0, 20.0, 0.01)
    c.prove('chi-squared its distribution', follows(a.chisq, xx, u.chisq_pdf(xx + 1e-9, cf.nmag - 1)))
    c.prove('redshift offsets a Gaussian', abs(a.dzred.std() / cf.maskgal_zred_err - 1) < 0.08 and abs(a.dzred.mean()) < 0.1 * cf.maskgal_zred_err)
    c.prove('in every direction', all(abs(np.mean(np.exp(1j * k * np.arctan2(y, x)))) < 0.1 for k in (1, 2) for x, y in ((a.x, a.y), (a.x_uniform, a.y_uniform))))
    c.prove('the uniform positions fill the disk', np.abs(np.sort((a.r_uniform / 3.0) ** 2) - (np.arange(N) + 0.5) / N).max() < 0.05)
