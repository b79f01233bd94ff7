"""R05: background density look-ups and background generation"""
from rmv.run import contract
from contracts.stand import Ns as E, Log, FakeMp, recs

B = 'redmapper/background.py:'
CB = 'redmapper/color_background.py:'


def bkg(c, nm, nc, nz):
    m = c.mod('redmapper.background')
    rb = c.array('refmagbins', nm, sorted='inc', gen=(12, 20))
    cb = c.array('chisqbins', nc, sorted='inc', gen=(0, 5))
    zb = c.array('zbins', nz, sorted='inc', gen=(0.1, 0.3))
    sg = c.array('sigma_g', (nm, nc, nz), lo=0, gen=(0, 3), special=(0.0,))
    rs = c.float('refmagbinsize', lo=0, lo_open=True, gen=(0.01, 2))
    cs = c.float('chisqbinsize', lo=0, lo_open=True, gen=(0.01, 2))
    return c.bare(c.get(m, 'Background'), refmagbins=rb, chisqbins=cb, zbins=zb, sigma_g=sg, refmagbinsize=rs, chisqbinsize=cs,
                  zbinsize=0.001, lnchisqbins=cb, sigma_lng=sg, n=sg), rb, cb, zb, sg, rs, cs


@contract('R05', [B + 'Background.sigma_g_lookup'])
def chisq_lookup(c):
    nm, nc, nz = c.size('nm', min=1, max=5), c.size('nc', min=1, max=5), c.size('nz', min=2, max=5)
    b, rb, cb, zb, sg, rs, cs = bkg(c, nm, nc, nz)
    n = c.size('n', max=6)
    z = c.float('z', gen=(0.05, 0.4))
    chisq = c.array('chisq', n, gen=(-1, 8), special=[float(x) for x in cb] if not c.symbolic else ())
    mag = c.array('mag', n, gen=(11, 22), special=[float(x) for x in rb] if not c.symbolic else ())
    allow0 = c.choice('allow0', [False, True])
    j = c.int('j', lo=0, hi=nm - 1)
    k = c.int('k', lo=0, hi=nc - 1)
    l = c.int('l', lo=0, hi=nz - 1)
    c0, m0 = c.snapshot(chisq), c.snapshot(mag)
    s0 = c.snapshot(sg)
    r = b.sigma_g_lookup(z, chisq, mag, allow0=allow0)
    c.prove('one value per galaxy', r.size == n)
    zpos = (z - zb[0]) / (zb[1] - zb[0])
    nearest = c.Or(c.And(zpos > l - 0.5, zpos < l + 0.5), c.And(l == 0, zpos < 0.5), c.And(l == nz - 1, zpos > l - 0.5))
    for i in c.each(n):
        out = c.Or(chisq[i] < cb[0], chisq[i] > cb[nc - 1] + cs, mag[i] <= rb[0], mag[i] > rb[nm - 1] + rs)
        c.prove('infinite background outside the table', c.implies(out, r[i] == float('inf')))
        # (j, k) is the bin the galaxy falls into
        inm = c.And(mag[i] > rb[j], c.Or(c.And(j < nm - 1, mag[i] <= rb[c.ite(j < nm - 1, j + 1, j)]), c.And(j == nm - 1, mag[i] <= rb[j] + rs)))
        inc = c.And(c.Or(chisq[i] > cb[k], c.And(k == 0, chisq[i] == cb[0])),
                    c.Or(c.And(k < nc - 1, chisq[i] <= cb[c.ite(k < nc - 1, k + 1, k)]), c.And(k == nc - 1, chisq[i] <= cb[k] + cs)))
        v = sg[j, k, l]
        here = c.And(inm, inc, nearest)
        if allow0:
            c.prove('value of the bin the galaxy falls into', c.implies(here, c.same(r[i], v)))
        else:
            c.prove('value of the bin, or infinite when the bin is empty',
                    c.implies(here, c.same(r[i], c.ite(v == 0, float('inf'), v))))
        c.prove('never negative or undefined', r[i] >= 0)
        c.prove('inputs unchanged', c.And(c.same(chisq[i], c0[i]), c.same(mag[i], m0[i])))
    c.prove('table unchanged', c.same(b.sigma_g[j, k, l], s0[j, k, l]))


@contract('R05', [B + 'Background.sigma_g_lookup'])
def chisq_lookup_z(c):
    """the redshift may also be given per galaxy"""
    nm, nc, nz = c.size('nm', min=1, max=4), c.size('nc', min=1, max=4), c.size('nz', min=2, max=5)
    b, rb, cb, zb, sg, rs, cs = bkg(c, nm, nc, nz)
    n = c.size('n', max=6)
    z = c.array('z', n, gen=(0.05, 0.4))
    chisq = c.array('chisq', n, gen=(-1, 8))
    mag = c.array('mag', n, gen=(11, 22))
    j = c.int('j', lo=0, hi=nm - 1)
    k = c.int('k', lo=0, hi=nc - 1)
    l = c.int('l', lo=0, hi=nz - 1)
    r = b.sigma_g_lookup(z, chisq, mag)
    for i in c.each(n):
        zpos = (z[i] - zb[0]) / (zb[1] - zb[0])
        nearest = c.Or(c.And(zpos > l - 0.5, zpos < l + 0.5), c.And(l == 0, zpos < 0.5), c.And(l == nz - 1, zpos > l - 0.5))
        inm = c.And(mag[i] > rb[j], c.Or(c.And(j < nm - 1, mag[i] <= rb[c.ite(j < nm - 1, j + 1, j)]), c.And(j == nm - 1, mag[i] <= rb[j] + rs)))
        inc = c.And(chisq[i] > cb[k], c.Or(c.And(k < nc - 1, chisq[i] <= cb[c.ite(k < nc - 1, k + 1, k)]), c.And(k == nc - 1, chisq[i] <= cb[k] + cs)))
        v = sg[j, k, l]
        c.prove('value at the galaxy\'s own redshift', c.implies(c.And(inm, inc, nearest), c.same(r[i], c.ite(v == 0, float('inf'), v))))


@contract('R05', [B + 'ZredBackground.sigma_g_lookup'])
def zred_lookup(c):
    m = c.mod('redmapper.background')
    nm, nz = c.size('nm', min=1, max=5), c.size('nz', min=1, max=5)
    rb = c.array('refmagbins', nm, sorted='inc', gen=(12, 20))
    zb = c.array('zredbins', nz, sorted='inc', gen=(0.1, 0.3))
    sg = c.array('sigma_g', (nm, nz), lo=0, gen=(0, 3), special=(0.0,))
    n = c.size('n', max=6)
    z = c.array('zred', n, gen=(0.05, 0.4), special=[float(x) for x in zb] if not c.symbolic else ())
    mag = c.array('mag', n, gen=(11, 22), special=[float(x) for x in rb] if not c.symbolic else ())
    b = c.bare(c.get(m, 'ZredBackground'), refmagbins=rb, zredbins=zb, sigma_g=sg, refmagbinsize=0.01, zredbinsize=0.001)
    j = c.int('j', lo=0, hi=nm - 1)
    k = c.int('k', lo=0, hi=nz - 1)
    z0, m0, s0 = c.snapshot(z), c.snapshot(mag), c.snapshot(sg)
    r = b.sigma_g_lookup(z, mag)
    c.prove('one value per galaxy', r.size == n)
    for i in c.each(n):
        c.prove('infinite background below the table', c.implies(c.Or(z[i] < zb[0], mag[i] < rb[0]), r[i] == float('inf')))
        inm = c.And(mag[i] > rb[j], c.Or(j == nm - 1, mag[i] <= rb[c.ite(j < nm - 1, j + 1, j)]))
        inz = c.And(z[i] > zb[k], c.Or(k == nz - 1, z[i] <= zb[c.ite(k < nz - 1, k + 1, k)]))
        c.prove('value of the bin the galaxy falls into', c.implies(c.And(inm, inz), c.same(r[i], sg[j, k])))
        c.prove('never negative or undefined', r[i] >= 0)
        c.prove('inputs unchanged', c.And(c.same(z[i], z0[i]), c.same(mag[i], m0[i])))
    c.prove('table unchanged', c.same(b.sigma_g[j, k], s0[j, k]))


def colbkg(c, nm, nc):
    m = c.mod('redmapper.color_background')
    d = dict(refmagbins=c.array('refmagbins', nm, sorted='inc', gen=(12, 20)),
             colbins=c.array('colbins', nc, sorted='inc', gen=(0, 2)),
             refmagbinsize=c.float('refmagbinsize', lo=0, lo_open=True, gen=(0.01, 2)),
             colbinsize=c.float('colbinsize', lo=0, lo_open=True, gen=(0.01, 0.5)),
             sigma_g=c.array('sigma_g', (nm, nc), lo=0, gen=(0, 3), special=(0.0,)),
             bc=c.array('bc', (nm, nc), lo=0, gen=(0, 3)), n=c.array('nn', nm, lo=0, lo_open=True, gen=(0.1, 9)),
             colrange=[0., 2.])
    return m, d


@contract('R05', [CB + 'ColorBackground.sigma_g_diagonal', CB + 'ColorBackground.lookup_diagonal'])
def color_lookup(c):
    nm, nc = c.size('nm', min=1, max=5), c.size('nc', min=1, max=5)
    m, d = colbkg(c, nm, nc)
    rb, cb = d['refmagbins'], d['colbins']
    n = c.size('n', max=6)
    ci = c.choice('color', [0, 1, 3])
    col = c.array('col', n, gen=(-1, 4), special=[float(x) for x in cb] if not c.symbolic else ())
    mag = c.array('mag', n, gen=(11, 24), special=[float(x) for x in rb] if not c.symbolic else ())
    other = dict(d, sigma_g=d['sigma_g'] + 7.0, bc=d['bc'] + 7.0)
    b = c.bare(c.get(m, 'ColorBackground'), bkgs={101 * ci: d, 202: other})
    j = c.int('j', lo=0, hi=nm - 1)
    k = c.int('k', lo=0, hi=nc - 1)
    c0, m0, s0 = c.snapshot(col), c.snapshot(mag), c.snapshot(d['sigma_g'])
    r = b.sigma_g_diagonal(ci, col, mag)
    q = b.lookup_diagonal(ci, col, mag)
    c.prove('one value per galaxy', c.And(r.size == n, q.size == n))
    for i in c.each(n):
        cc, mm = col[i] - d['colbinsize'], mag[i] - d['refmagbinsize']
        over = c.Or(cc > cb[nc - 1], mm > rb[nm - 1])
        c.prove('infinite background above the table', c.implies(over, r[i] == float('inf')))
        inm = c.And(mm <= rb[j], c.Or(j == 0, mm > rb[c.ite(j > 0, j - 1, 0)]))
        inc = c.And(cc <= cb[k], c.Or(k == 0, cc > cb[c.ite(k > 0, k - 1, 0)]))
        v = d['sigma_g'][j, k]
        c.prove('density of the bin, or infinite when empty', c.implies(c.And(inm, inc), c.same(r[i], c.ite(v == 0, float('inf'), v))))
        c.prove('normalised density of the bin', c.implies(c.And(inm, inc), c.close(q[i], d['bc'][j, k] / d['n'][j])))
        c.prove('last bin beyond the table', c.implies(c.And(cc > cb[nc - 1], mm > rb[nm - 1]),
                                                       c.close(q[i], d['bc'][nm - 1, nc - 1] / d['n'][nm - 1])))
        c.prove('never negative', c.And(r[i] >= 0, q[i] >= 0))
        c.prove('inputs unchanged', c.And(c.same(col[i], c0[i]), c.same(mag[i], m0[i])))
    c.prove('table unchanged', c.same(d['sigma_g'][j, k], s0[j, k]))
    bad, e = c.raises(KeyError, lambda: b.lookup_diagonal(5, col, mag))
    c.prove('a missing colour is reported', bad)
    z = b.lookup_diagonal(5, col, mag, doRaise=False)
    c.prove('or gives one zero per galaxy', z.size == n)
    for i in c.each(n):
        c.prove('zero for a missing colour', z[i] == 0)


@contract('R05', [CB + 'ColorBackground.lookup_offdiag'])
def color_offdiag(c):
    m = c.mod('redmapper.color_background')
    nm, n1, n2 = c.size('nm', min=1, max=4), c.size('n1', min=1, max=4), c.size('n2', min=1, max=4)
    d = dict(refmagbins=c.array('refmagbins', nm, sorted='inc', gen=(12, 20)),
             col1bins=c.array('col1bins', n1, sorted='inc', gen=(0, 2)),
             col2bins=c.array('col2bins', n2, sorted='inc', gen=(0, 2)),
             refmagbinsize=c.float('refmagbinsize', lo=0, lo_open=True, gen=(0.01, 2)),
             col1binsize=c.float('col1binsize', lo=0, lo_open=True, gen=(0.01, 0.5)),
             col2binsize=c.float('col2binsize', lo=0, lo_open=True, gen=(0.01, 0.5)),
             bc=c.array('bc', (nm, n2, n1), lo=0, gen=(0, 3)), n=c.array('nn', nm, lo=0, lo_open=True, gen=(0.1, 9)))
    n = c.size('n', max=5)
    ca, cb_, mag = c.array('c1', n, gen=(-1, 4)), c.array('c2', n, gen=(-1, 4)), c.array('mag', n, gen=(11, 24))
    b = c.bare(c.get(m, 'ColorBackground'), bkgs={102: d})
    j = c.int('j', lo=0, hi=nm - 1)
    k = c.int('k', lo=0, hi=n1 - 1)
    l = c.int('l', lo=0, hi=n2 - 1)
    r = b.lookup_offdiag(1, 2, ca, cb_, mag)
    c.prove('one value per galaxy', r.size == n)

    def inb(x, bins, t, nn):
        return c.And(c.Or(t == nn - 1, x <= bins[t]), c.Or(t == 0, x > bins[c.ite(t > 0, t - 1, 0)]))
    for i in c.each(n):
        here = c.And(inb(mag[i] - d['refmagbinsize'], d['refmagbins'], j, nm),
                     inb(ca[i] - d['col1binsize'], d['col1bins'], k, n1),
                     inb(cb_[i] - d['col2binsize'], d['col2bins'], l, n2))
        c.prove('normalised density of the bin in both colours', c.implies(here, c.close(r[i], d['bc'][j, l, k] / d['n'][j])))
        c.prove('never negative', r[i] >= 0)
    w = b.lookup_offdiag(2, 1, cb_, ca, mag)
    for i in c.each(n):
        c.prove('the pair named the other way round has the same density', w[i] == r[i])
    bad, e = c.raises(KeyError, lambda: b.lookup_offdiag(3, 2, ca, cb_, mag))
    c.prove('a missing pair is reported', bad)
    z = b.lookup_offdiag(3, 2, ca, cb_, mag, doRaise=False)
    for i in c.each(n):
        c.prove('zero for a missing pair', z[i] == 0)


# ------------------------------------------------------------------------------------------ table construction (bounded)
@contract('R05', [B + 'Background.__init__'], kind='conc', bounded='three nested interpolations over file-sized tables', trials=40)
def table_build(c):
    np = c.np
    m = c.mod('redmapper.background')
    nm, nc, nl, nz = [c.int(k, lo=2, hi=5) for k in ('nm', 'nc', 'nl', 'nz')]
    mw, cw, zw = 0.2, c.choice('cw', [0.5, 1.0]), 0.02
    rb = 12 + mw * np.arange(nm)
    cb = cw * np.arange(nc)
    lb = -2 + 0.2 * np.arange(nl)
    zb = 0.1 + zw * np.arange(nz)
    neg = c.choice('negative', [False, True])
    sg = c.array('sigma_g', (nm, nc, nz), gen=(-0.3 if neg else 0.0, 3))
    sl = c.array('sigma_lng', (nm, nl, nz), gen=(-0.3 if neg else 0.0, 3))
    ob = E(refmagrange=np.array([12., 12 + mw * nm]), chisqrange=np.array([0., cw * nc]), zrange=np.array([0.1, 0.1 + zw * nz]),
           refmagbins=rb, chisqbins=cb, lnchisqbins=lb, zbins=zb, sigma_g=sg, sigma_lng=sl)
    s0, l0 = sg.copy(), sl.copy()
    c.patch(m, 'Entry', E(from_fits_file=lambda *a, **k: ob))
    b = m.Background('x')
    c.prove('table matches its axes', b.sigma_g.shape == (b.refmagbins.size, b.chisqbins.size, b.zbins.size))
    for x, lo, hi, w in ((b.refmagbins, 12., 12 + mw * nm, b.refmagbinsize), (b.chisqbins, 0., cw * nc, b.chisqbinsize), (b.zbins, 0.1, 0.1 + zw * nz, b.zbinsize)):
        c.prove('axes cover the tabulated range', x.size > 1 and abs(x[0] - lo) < 1e-6 and hi - 1e-6 <= x[-1] + w < hi + w + 1e-6 and np.allclose(np.diff(x), w))
    c.prove('nothing is tabulated beyond the chi-squared range', b.chisqbins[-1] + 0.5 * b.chisqbinsize < cw * nc)
    c.prove('the log bins are those of the file', np.allclose(b.lnchisqbins, lb))
    if not neg:
        def lin(t, axis, old, new):
            return np.apply_along_axis(lambda v: np.interp(new, old, v), axis, t)
        c.prove('densities are interpolated linearly between their nodes',
                np.allclose(b.sigma_g, lin(lin(lin(s0, 0, rb, b.refmagbins), 1, cb, b.chisqbins), 2, zb, b.zbins), atol=1e-6))
        c.prove('log densities are interpolated linearly between their nodes',
                np.allclose(b.sigma_lng, lin(lin(l0, 0, rb, b.refmagbins), 2, zb, b.zbins), atol=1e-6))
    c.prove('log table matches its axes', b.sigma_lng.shape == (b.refmagbins.size, nl, b.zbins.size))
    c.prove('densities are never negative', bool((b.sigma_g >= 0).all() and (b.sigma_lng >= 0).all()))
    c.prove('total per magnitude and redshift', np.allclose(b.n, b.sigma_g.sum(axis=1) * b.chisqbinsize))
    # exact at the nodes of the input table (clipped at zero)
    for (i, j, k) in [(c.int('i', lo=0, hi=nm - 1), c.int('j', lo=0, hi=nc - 1), c.int('k', lo=0, hi=nz - 1))]:
        ii, jj, kk = [int(np.argmin(np.abs(a - v))) for a, v in ((b.refmagbins, rb[i]), (b.chisqbins, cb[j]), (b.zbins, zb[k]))]
        c.prove('input densities kept at their own nodes', c.close(b.sigma_g[ii, jj, kk], max(0, s0[i, j, k]), 1e-5, 1e-6))
        q = c.int('q', lo=0, hi=nl - 1)
        c.prove('log densities kept at their own nodes', c.close(b.sigma_lng[ii, q, kk], max(0, sl[i, q, k]), 1e-5, 1e-6))
        # linear half-way between two redshift nodes
        if k + 1 < nz:
            k2 = int(np.argmin(np.abs(b.zbins - 0.5 * (zb[k] + zb[k + 1]))))
            w = (b.zbins[k2] - zb[k]) / zw
            c.prove('linear in redshift between nodes', c.close(b.sigma_g[ii, jj, k2],
                    (1 - w) * max(0, s0[i, j, k]) + w * max(0, s0[i, j, k + 1]), 1e-5, 1e-6))
    c.prove('never above the table', b.sigma_g.max() <= max(0, s0.max()) + 1e-9)


@contract('R05', [B + 'ZredBackground.__init__'], kind='conc', bounded='nested interpolations over file-sized tables', trials=40)
def zred_table_build(c):
    np = c.np
    m = c.mod('redmapper.background')
    nm, nz = [c.int(k, lo=2, hi=6) for k in ('nm', 'nz')]
    rb = 12 + 0.2 * np.arange(nm)
    zb = 0.1 + 0.02 * np.arange(nz)
    sg = c.array('sigma_g', (nm, nz), lo=0.05, gen=(0.05, 3))
    ob = E(refmagrange=np.array([12., 12 + .2 * nm]), zredrange=np.array([0.1, 0.1 + .02 * nz]), refmagbins=rb, zredbins=zb, sigma_g=sg)
    c.patch(m, 'Entry', E(from_fits_file=lambda *a, **k: ob))
    b = m.ZredBackground('x')
    c.prove('table matches its axes', b.sigma_g.shape == (b.refmagbins.size, b.zredbins.size))
    for x, lo, hi, w in ((b.refmagbins, 12., 12 + .2 * nm, b.refmagbinsize), (b.zredbins, 0.1, 0.1 + .02 * nz, b.zredbinsize)):
        c.prove('axes cover the tabulated range', x.size > 1 and abs(x[0] - lo) < 1e-6 and hi - 1e-6 <= x[-1] + w < hi + w + 1e-6 and np.allclose(np.diff(x), w))
    c.prove('the ranges are those of the file', np.allclose(b.zredrange, [0.1, 0.1 + .02 * nz]) and np.allclose(b.refmagrange, [12., 12 + .2 * nm]))
    c.prove('floored at the smallest tabulated density', b.sigma_g.min() >= sg.min() - 1e-12)
    i, k = c.int('i', lo=0, hi=nm - 1), c.int('k', lo=0, hi=nz - 1)
    ii, kk = int(np.argmin(np.abs(b.refmagbins - rb[i]))), int(np.argmin(np.abs(b.zredbins - zb[k])))
    c.prove('input densities kept at their own nodes', c.close(b.sigma_g[ii, kk], sg[i, k], 1e-5, 1e-6))


def sky(c, np, npix):
    """galaxies split over pixels; some pixels are empty"""
    cnt = [c.int('cnt%d' % p, lo=0, hi=4) for p in range(npix)]
    gals = []
    for p in range(npix):
        n = cnt[p]
        gals.append(c.mod('redmapper.galaxy').GalaxyCatalog(recs(
            np, n, refmag=c.array('mag%d' % p, n, gen=(11.7, 14.6)), chi=c.array('chi%d' % p, n, lo=0.01, gen=(0.01, 8) if p % 2 else (0.01, 0.6)),
            zred=c.array('zred%d' % p, n, gen=(0.08, 0.32)), chisq=c.array('chisq%d' % p, n, lo=0, gen=(0, 30)))))
    hpix = np.arange(10, 10 + npix)
    return cnt, gals, hpix


def existing(c, own, other):
    """a background file left by an earlier step: -> (path, clobber, may skip, whether to clobber, remove)"""
    import fitsio
    import numpy
    import os
    import tempfile
    state = c.choice('left behind', ['nothing', 'nothing', own, other, 'both'])
    clobber = c.choice('clobber', [True, True, False])
    d = tempfile.mkdtemp()
    fn = os.path.join(d, 'bkg.fit')
    for e in (other, own):
        if state in (e, 'both'):
            fitsio.write(fn, numpy.zeros(2, dtype=[('A', 'f4')]), extname=e)

    def gone():
        if os.path.exists(fn):
            os.unlink(fn)
        if os.path.exists(d):
            os.rmdir(d)
    return fn, clobber, (not clobber) and state in (own, 'both'), gone


def ciccount(np, x, y, nx, ny):
    """direct cloud-in-cell count, isolated"""
    f = np.zeros((ny, nx))
    for a, b in zip(x, y):
        px, py = a - 0.5, b - 0.5
        ix, iy = int(np.floor(px)), int(np.floor(py))
        for dx, wx in ((0, 1 - (px - ix)), (1, px - ix)):
            for dy, wy in ((0, 1 - (py - iy)), (1, py - iy)):
                if 0 <= ix + dx < nx and 0 <= iy + dy < ny:
                    f[iy + dy, ix + dx] += wx * wy
    return f


def with_depth(c, m, cfg):
    """a configuration with or without a depth map; returns the area of every magnitude bin"""
    np = c.np
    f = lambda x: cfg.area * (1.0 - 0.2 * (np.asarray(x) - 12.0))
    if not c.choice('depth', [False, True]):
        return lambda n: np.zeros(n) + cfg.area
    cfg.__dict__['depthfile'] = 'd.fit'
    c.patch(m, 'DepthMap', lambda config, **k: E(calc_areas=f))
    return lambda n: f(12. + 0.2 * np.arange(n))


@contract('R05', [B + 'BackgroundGenerator.run', B + 'BackgroundGenerator._worker'], kind='conc', trials=40,
          bounded='multiprocessing, file reading and cloud-in-cell scatter', ctime=14)
def generate(c):
    np = c.np
    m = c.mod('redmapper.background')
    npix = c.int('npix', lo=1, hi=4)
    cnt, gals, hpix = sky(c, np, npix)
    nproc = c.int('nproc', lo=1, hi=7)
    zlo = c.choice('zlo', [0.1, 0.2])
    nzb = c.int('nzb', lo=2, hi=8)
    sub = c.choice('sub', [False, True])
    limmag = c.choice('limmag', [13.5, 14.05])
    msoff = c.float('mstar', gen=(7.0, 12.0))
    deep = c.choice('deep', [False, True])
    flat = c.choice('flat', [False, True]) and not sub
    nat = c.int('natatime', lo=1, hi=6)
    if sum(cnt) == 0:
        c.assume(False)
    pick = [p for p in range(npix) if not sub or p % 2 == 0]
    master = E(nside=4, hpix=hpix, ngals=np.array(cnt))

    cfg = E()
    cfg.__dict__.update(bkgfile='/nonexistent/bkg.fit', limmag_catalog=limmag, bkg_refmagbinsize=0.2, chisq_max=6.0,
                        bkg_chisqbinsize=0.5, bkg_zredbinsize=0.05, wcen_zred_chisq_max=9.0, limmag_ref=limmag - 0.3, zrange=[zlo, zlo + 0.02 * nzb], bkg_zbinsize=0.02, depthfile=None, area=c.float('area', gen=(1, 9)),
                        calib_nproc=nproc, parfile='p', galfile='g', galfile_pixelized=not flat, nmag=5, logger=Log(),
                        d=E(hpix=hpix[pick] if sub else np.zeros(0, dtype='i8'), nside=4), cosmo=None)
    cfg.copy = lambda: cfg
    out = {}

    class Ent(object):
        def __init__(self, a):
            self.__dict__['a'] = a[0]

        def __getattr__(self, n):
            return self.__dict__['a'][n]

        def __setattr__(self, n, v):
            self.__dict__['a'][n] = v

        def to_fits_file(self, fn, **k):
            out['rec'], out['fn'] = self.__dict__['a'], fn
            out['k'] = k

        @classmethod
        def from_fits_file(cls, fn, **k):
            return master

    seen = []

    class RS(object):
        def __init__(self, parfile, zrange=None, fine=None):
            self.z = np.arange(zrange[0] - 0.02, zrange[1] + 0.03, 0.01)

        def mstar(self, z):
            return msoff + 4 * np.asarray(z)

        def calculate_chisq(self, g, z):
            seen.append((np.round(z, 5), g.size))
            return g.chi * (1 + z)

    class GC(object):
        @staticmethod
        def from_galfile(fn, nside=None, hpix=None, border=None, **k):
            p = int(np.asarray(hpix).ravel()[0]) - 10
            return gals[p]

        @staticmethod
        def from_fits_file(fn, rows=None, ext=1, **k):
            a = np.concatenate([g_._ndarray for g_ in gals])
            return c.mod('redmapper.galaxy').GalaxyCatalog(a if rows is None else a[rows])
    if flat:
        import fitsio
        c.patch(m, 'fitsio', E(read_header=lambda *a, **k: {'NAXIS2': sum(cnt)}, FITS=fitsio.FITS))
    c.patch(m, 'Entry', Ent)
    c.patch(m, 'RedSequenceColorPar', RS)
    c.patch(m, 'GalaxyCatalog', GC)
    c.patch(m, 'multiprocessing', FakeMp())
    h = E(pixel_to_angle=lambda ns, p, **k: (np.asarray(p), np.asarray(p)), angle_to_pixel=lambda ns, t, p, **k: np.asarray(t))
    c.patch(m, 'hpg', h)
    areas = with_depth(c, m, cfg)
    fn, clobber, kept, gone = existing(c, 'CHISQBKG', 'ZREDBKG')
    cfg.bkgfile = fn
    g = m.BackgroundGenerator(cfg)
    try:
        g.run(clobber=clobber, deepmode=deep, natatime=nat)
    finally:
        gone()
    c.prove('a table that is there is kept unless asked otherwise; one that is not is made', ('rec' in out) == (not kept))
    if kept:
        return
    rec = out['rec']
    sg, sl = rec['sigma_g'].astype('f8'), rec['sigma_lng'].astype('f8')
    nref = int(np.ceil((limmag - 12.) / 0.2))
    zb = zlo + 0.02 * np.arange(int(np.ceil((cfg.zrange[1] - cfg.zrange[0]) / 0.02)))
    c.prove('shape', sg.shape == (nref, 12, zb.size) and sl.shape == (nref, 40, zb.size))
    if sg.shape != (nref, 12, zb.size) or sl.shape != (nref, 40, zb.size):
        return
    mag = np.concatenate([gals[p].refmag for p in pick]).astype('f4')
    chi = np.concatenate([gals[p].chi for p in pick])
    for k, z in enumerate(zb):
        lim = msoff + 4 * (z + 0.02) - 2.5 * np.log10(0.01 if deep else 0.1)
        if lim >= limmag:
            lim = limmag - 0.01
        pos = min(max(int((lim - 12.) * nref / (limmag - 12.)), 0), nref - 1)
        lim = 12 + 0.2 * pos + 0.2
        ch = (chi * (1 + z)).astype('f4')
        if (np.abs(mag - lim) < 1e-4).any() or (np.abs(mag - 12.) < 1e-4).any() or (np.abs(ch - 6.) < 1e-3).any():
            continue
        use = (mag > 12.) & (mag < lim) & (ch < 6.0) & (mag < limmag)
        want = ciccount(np, ch[use] / 0.5, (mag[use] - 12.) * nref / (limmag - 12.), 12, nref) / (areas(nref)[:, None] * 0.2 * 0.5)
        c.prove('every redshift bin counts each eligible galaxy exactly once', np.allclose(sg[:, :, k], want, rtol=2e-3, atol=2e-3 * max(1, want.max())))
        use = (mag > 12.) & (mag < lim) & (mag < limmag) & (np.log(ch) >= -2)
        if (np.abs(np.log(ch) + 2) < 1e-4).any():
            continue
        want = ciccount(np, (np.log(ch[use]) + 2) / 0.2, (mag[use] - 12.) * nref / (limmag - 12.), 40, nref) / (areas(nref)[:, None] * 0.2 * 0.2)
        c.prove('same in log chi-squared', np.allclose(sl[:, :, k], want, rtol=2e-3, atol=2e-3 * max(1, want.max())))
    c.prove('area and axes recorded', np.allclose(rec['areas'], areas(nref)) and np.allclose(rec['zbins'], zb)
            and np.allclose(rec['refmagrange'], [12., limmag]) and np.allclose(rec['chisqrange'], [0, 6.])
            and np.allclose(rec['zrange'], cfg.zrange) and np.allclose(rec['refmagbins'], 12. + 0.2 * np.arange(nref))
            and np.allclose(rec['chisqbins'], 0.5 * np.arange(12)) and np.allclose(rec['lnchisqbins'], -2 + 0.2 * np.arange(40))
            and np.allclose(rec['lnchisqrange'], [-2., 6.]))
    c.prove('bin sizes recorded', np.allclose([rec['zbinsize'], rec['chisqbinsize'], rec['lnchisqbinsize'], rec['refmagbinsize']], [0.02, 0.5, 0.2, 0.2]))
    c.prove('the table goes into its own extension', out['k'].get('extname') == 'CHISQBKG' and out['fn'] == cfg.bkgfile and bool(out['k'].get('clobber')) == clobber)


@contract('R05', [B + 'ZredBackgroundGenerator.run'], kind='conc', trials=60, bounded='file reading and cloud-in-cell scatter')
def generate_zred(c):
    np = c.np
    m = c.mod('redmapper.background')
    npix = c.int('npix', lo=1, hi=4)
    cnt, gals, hpix = sky(c, np, npix)
    sub = c.choice('sub', [False, True])
    limmag = c.choice('limmag', [13.5, 14.05])
    if sum(cnt) == 0:
        c.assume(False)
    pick = [p for p in range(npix) if not sub or p % 2 == 0]
    master = E(nside=4, hpix=hpix, ngals=np.array(cnt))
    cmax = c.float('cmax', gen=(5, 25))
    import os
    cfg = E(bkgfile='/nonexistent/bkg.fit', zredfile=os.path.abspath(__file__), limmag_catalog=limmag, bkg_refmagbinsize=0.2,
            bkg_zredbinsize=0.05, bkg_zbinsize=0.02, bkg_chisqbinsize=0.5, limmag_ref=limmag - 0.3, zrange=[0.1, 0.3], depthfile=None, area=c.float('area', gen=(1, 9)), parfile='p', galfile='g',
            galfile_pixelized=True, nmag=5, logger=Log(), wcen_zred_chisq_max=cmax, chisq_max=2 * cmax,
            d=E(hpix=hpix[pick] if sub else np.zeros(0, dtype='i8'), nside=4))
    out = {}

    class Ent(object):
        def __init__(self, a):
            self.__dict__['a'] = a[0]

        def __getattr__(self, n):
            return self.__dict__['a'][n]

        def __setattr__(self, n, v):
            self.__dict__['a'][n] = v

        def to_fits_file(self, fn, **k):
            out['rec'], out['fn'], out['k'] = self.__dict__['a'], fn, k

        @classmethod
        def from_fits_file(cls, fn, **k):
            return master

    class RS(object):
        def __init__(self, parfile, zrange=None, fine=None):
            self.z = np.append(np.arange(0.1, 0.3001, 0.005), 1000.0)

    class GC(object):
        @staticmethod
        def from_galfile(fn, nside=None, hpix=None, **k):
            return gals[int(np.asarray(hpix).ravel()[0]) - 10]
    c.patch(m, 'Entry', Ent)
    c.patch(m, 'RedSequenceColorPar', RS)
    c.patch(m, 'GalaxyCatalog', GC)
    c.patch(m, 'hpg', E(pixel_to_angle=lambda ns, p, **k: (np.asarray(p), np.asarray(p)), angle_to_pixel=lambda ns, t, p, **k: np.asarray(t)))
    areas = with_depth(c, m, cfg)
    fn, clobber, kept, gone = existing(c, 'ZREDBKG', 'CHISQBKG')
    cfg.bkgfile = fn
    try:
        m.ZredBackgroundGenerator(cfg).run(clobber=clobber)
    finally:
        gone()
    c.prove('a table that is there is kept unless asked otherwise; one that is not is made', ('rec' in out) == (not kept))
    if kept:
        return
    rec = out['rec']
    nref = int(np.ceil((limmag - 12.) / 0.2))
    z = RS('').z
    zr = [z[0], z[-2] + (z[1] - z[0])]
    nz = int(np.ceil((zr[1] - zr[0]) / 0.05))
    mag = np.concatenate([gals[p].refmag for p in pick]).astype('f4')
    zred = np.concatenate([gals[p].zred for p in pick]).astype('f4')
    chi = np.concatenate([gals[p].chisq for p in pick])
    if (np.abs(zred[:, None] - np.array(zr)) < 1e-4).any() or (np.abs(mag[:, None] - np.array([12., limmag])) < 1e-4).any():
        return
    use = (chi < cmax) & (zred >= zr[0]) & (zred < zr[1]) & (mag > 12.) & (mag < limmag)
    f = ciccount(np, (zred[use] - zr[0]) * nz / (zr[1] - zr[0]), (mag[use] - 12.) * nref / (limmag - 12.), nz, nref)
    want = np.clip(f, 0.1, None) / (areas(nref)[:, None] * 0.2 * 0.05)
    c.prove('the table goes into its own extension', out['k'].get('extname') == 'ZREDBKG' and out['fn'] == cfg.bkgfile and bool(out['k'].get('clobber')) == clobber)
    c.prove('area and axes recorded', np.allclose(rec['areas'], areas(nref)) and np.allclose(rec['zredrange'], zr, atol=1e-5)
            and np.allclose(rec['refmagrange'], [12., limmag]) and np.allclose(rec['refmagbins'], 12. + 0.2 * np.arange(nref))
            and np.allclose(rec['zredbins'], zr[0] + 0.05 * np.arange(nz), atol=1e-5) and abs(rec['refmagbinsize'] - 0.2) < 1e-6
            and abs(rec['zredbinsize'] - 0.05) < 1e-6)
    c.prove('counts each eligible galaxy exactly once, floored', np.allclose(rec['sigma_g'], want, rtol=2e-3, atol=2e-3 * want.max()))


@contract('R05', [CB + 'ColorBackgroundGenerator.run', CB + 'ColorBackgroundGenerator.__init__', CB + 'ColorBackground.__init__',
                  CB + 'ColorBackground.get_colrange'], kind='conc', trials=50, ctime=20,
          bounded='files, cloud-in-cell scatter and nested interpolations')
def color_table(c):
    """the colour background of a catalogue, written and read back"""
    import os
    import tempfile
    np = c.np
    m = c.mod('redmapper.color_background')
    n = c.int('n', lo=4, hi=40)
    limmag = c.choice('limmag', [13.0, 13.02])
    many = c.choice('minrangecheck', [0, 0, 1])
    k1, k2 = c.array('k1', n, kind='i', lo=0, hi=6), c.array('k2', n, kind='i', lo=0, hi=5)
    f1, f2 = c.array('f1', n, gen=(0.05, 0.95)), c.array('f2', n, gen=(0.05, 0.95))
    f1, f2 = np.clip(f1, 0.05, 0.95), np.clip(f2, 0.05, 0.95)      # off the bin edges: the last bit decides there
    g1, g2 = c.choice('base1', [0.6, -0.4]), c.choice('base2', [1.1, 0.3])
    far = c.choice('far', [0, 0, 1])
    col1, col2 = g1 + 0.02 * (k1 + f1), g2 + 0.02 * (k2 + f2)
    ref = c.array('ref', n, gen=(11.6, 13.3))
    ref[np.abs(ref[:, None] - np.array([12.0, limmag, limmag - 0.5])).min(axis=1) < 1e-3] += 0.01
    ref[2:4] = 12.2
    if far and n > 2:
        col1[0], col2[1] = 9.0, -3.0
    mag = np.zeros((n, 3))
    mag[:, 1] = 15.0
    mag[:, 0] = 15.0 + col1
    mag[:, 2] = 15.0 - col2
    gals = c.mod('redmapper.galaxy').GalaxyCatalog(recs(np, n, refmag=ref, mag=mag, mag_err=np.zeros((n, 3)) + 0.1,
                                                        ra=np.zeros(n), dec=np.zeros(n)))
    bright = (ref < limmag - 0.5)
    rng_ = []
    for cc in (col1, col2):
        use = bright & (cc > -2) & (cc < 5)
        kk = np.floor((cc[use] + 2.0) / 0.02).astype(int)
        h = np.bincount(kk, minlength=350) if kk.size else np.zeros(350)
        good, = np.where(h > many)
        if good.size == 0:
            c.assume(False)
        rng_.append((-2 + 0.02 * good.min(), -2 + 0.02 * good.max() + 0.02))
    area = c.float('area', gen=(1, 9))
    deep = c.choice('depth', [False, True])

    def areaof(x):
        return area * (1 - 0.2 * (np.asarray(x) - 12.0)) if deep else np.zeros(np.size(x)) + area
    asked = []
    c.patch(m, 'DepthMap', lambda cf: E(calc_areas=areaof))

    class GC(object):
        @staticmethod
        def from_galfile(fn, **k):
            asked.append(k)
            return gals
    c.patch(m, 'GalaxyCatalog', GC)
    d = tempfile.mkdtemp()
    fn = os.path.join(d, 'cbkg.fit')
    cfg = E(bkgfile_color=fn, galfile='g', d=E(nside=4, hpix=np.array([3])), border=0.5, limmag_ref=limmag, nmag=3,
            depthfile='d' if deep else None, area=area, logger=Log())
    g = c.get(m, 'ColorBackgroundGenerator')(cfg, minrangecheck=many)
    g.run()
    c.prove('asks for the requested region', len(asked) == 1 and list(np.atleast_1d(asked[0]['hpix'])) == [3]
            and asked[0]['nside'] == 4 and asked[0]['border'] == 0.5)
    before = open(fn, 'rb').read()
    g.run()
    c.prove('an existing table is kept unless asked otherwise', open(fn, 'rb').read() == before and len(asked) == 1)
    b = m.ColorBackground(fn, usehdrarea=True)
    b1 = m.ColorBackground(fn)
    import fitsio
    with fitsio.FITS(fn) as ff:
        nbin = [ff['%02d_%02d_REF' % (i, i)].read()['COLBINS'].shape[-1] for i in range(2)]
    os.unlink(fn)
    os.rmdir(d)
    nref = int(np.ceil((limmag - 12.0) / 0.05 - 1e-9))
    nref2 = int(np.ceil((limmag - 12.0) / 0.05))
    cols = (col1, col2)
    nc = [int(np.ceil((r[1] - r[0]) / 0.02 - 1e-6)) for r in rng_]
    c.prove('one bin per 0.02 of colour', all(k <= a <= k + 1 for a, k in zip(nbin, nc)))     # +1: rounding of the range
    nc = nbin
    c.prove('one table per colour and pair of colours', sorted(b.bkgs) == [0, 1, 101])
    if nref != nref2:
        return
    for i in range(2):
        r = b.get_colrange(i)
        c.prove('range of the populated colours', np.allclose(r, rng_[i], atol=1e-5))
    inr = (ref >= 12.0) & (ref < limmag)
    pos = [(cc - r[0]) * k / (r[1] - r[0]) for cc, r, k in zip(cols, rng_, nc)]
    mpos = (ref - 12.0) * nref / (limmag - 12.0)
    fmag = 12.0 + 0.01 * np.arange(0, int(round((limmag - 12.0) / 0.01)))
    step = [int(round((12 + 0.05 * j - 12) / 0.01)) for j in range(nref)]
    for i in range(2):
        t, t1 = b.bkgs[101 * i], b1.bkgs[101 * i]
        use = inr & (cols[i] >= rng_[i][0]) & (cols[i] < rng_[i][1])
        w = ciccount(np, pos[i][use], mpos[use], nc[i], nref) / (0.05 * 0.02)
        tol = 2e-3 * max(1, w.max())
        c.prove('table matches its axes', t['bc'].shape == (t['refmagbins'].size, t['colbins'].size) == t['sigma_g'].shape)
        c.prove('axes', np.allclose(t['refmagbins'][:5], fmag[:5], atol=1e-4) and abs(t['colbins'][0] - rng_[i][0]) < 1e-4)
        for j in range(nref):
            got = t['bc'][step[j], ::2][:nc[i]]
            c.prove('each galaxy in range counted once', np.allclose(got, w[j, :got.size], atol=tol, rtol=2e-3))
            gs = t['sigma_g'][step[j], ::2][:nc[i]]
            c.prove('divided by the area at that magnitude', np.allclose(gs, w[j, :got.size] / areaof([fmag[step[j]]])[0], atol=tol, rtol=2e-3))
            c.prove('or by one square degree', np.allclose(t1['sigma_g'][step[j], ::2][:nc[i]], w[j, :got.size], atol=tol, rtol=2e-3))
            c.prove('normalisation of its own magnitude', abs(t['n'][step[j]] - w[j].sum() * 0.5) < tol * nc[i])
        q = c.int('q%d' % i, lo=0, hi=max(nc[i] - 2, 0))
        jj = c.int('j%d' % i, lo=0, hi=nref - 2)
        if nc[i] > 1:
            c.prove('linear between colours', 2 * q + 1 >= t['colbins'].size or abs(t['bc'][step[jj], 2 * q + 1] - 0.5 * (w[jj, q] + w[jj, q + 1])) < tol)
        c.prove('linear between magnitudes', 2 * q >= t['colbins'].size or abs(t['bc'][step[jj] + 2, 2 * q] - (0.6 * w[jj, q] + 0.4 * w[jj + 1, q])) < tol)
        c.prove('never negative', bool((t['bc'] >= 0).all() and (t['sigma_g'] >= 0).all()))
    use = inr & (col1 >= rng_[0][0]) & (col1 < rng_[0][1]) & (col2 >= rng_[1][0]) & (col2 < rng_[1][1])
    w = np.zeros((nref, nc[1], nc[0]))
    for a, bb, mm in zip(pos[0][use], pos[1][use], mpos[use]):
        one = ciccount(np, np.array([a]), np.array([bb]), nc[0], nc[1])
        pm = mm - 0.5
        im = int(np.floor(pm))
        for dm, wm in ((0, 1 - (pm - im)), (1, pm - im)):
            if 0 <= im + dm < nref:
                w[im + dm] += wm * one
    w /= 0.05 * 0.02 * 0.02
    t, t1 = b.bkgs[1], b1.bkgs[1]
    tol = 3e-3 * max(1, w.max())
    c.prove('pair table matches its axes', t['bc'].shape == (t['refmagbins'].size, t['col2bins'].size, t['col1bins'].size) == t['sigma_g'].shape)
    c.prove('pair axes', abs(t['col1bins'][0] - rng_[0][0]) < 1e-4 and abs(t['col2bins'][0] - rng_[1][0]) < 1e-4)
    for j in range(nref):
        got = t['bc'][step[j]][::2, ::2][:nc[1], :nc[0]]
        ww = w[j][:got.shape[0], :got.shape[1]]
        c.prove('each galaxy in range of both colours counted once', np.allclose(got, ww, atol=tol, rtol=3e-3))
        gs = t['sigma_g'][step[j]][::2, ::2][:nc[1], :nc[0]]
        c.prove('pair density divided by the area', np.allclose(gs, ww / areaof([fmag[step[j]]])[0], atol=tol, rtol=3e-3))
        c.prove('pair normalisation', abs(t['n'][step[j]] - t['bc'][step[j]].sum() * 1e-4) < 1e-3 * max(1, t['n'].max()))
