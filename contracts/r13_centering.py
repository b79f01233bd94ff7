"""R13: central candidates (centering.py)"""
from rmv.run import contract
from contracts.stand import Ns, Log

K = 'redmapper/centering.py:'
FIX = [('ra', 'f8', dict(lo=0.0, hi=360.0)), ('dec', 'f8', dict(lo=-80.0, hi=80.0)), ('refmag', 'f8', dict(lo=14.0, hi=24.0)), ('r', 'f8', dict(lo=0.0, hi=2.0)), ('pmem', 'f8', dict(lo=0.0, hi=1.0)),
       ('zred', 'f8', dict(lo=0.0, hi=1.0)), ('zred_e', 'f8', dict(lo=0.001, hi=0.2)), ('zspec', 'f8', dict(lo=-1.0, hi=1.0)), ('zspec_err', 'f8', dict(lo=0.0001, hi=0.001))]


@contract('R13', [K + 'CenteringBCG.find_center', K + 'Centering.__init__'])
def bcg(c):
    np = c.np
    m = c.mod('redmapper.centering')
    gm = c.mod('redmapper.galaxy')
    n = c.size('n', min=1, max=7)
    g = gm.GalaxyCatalog(c.rec('g', n, FIX))
    s = {k: c.snapshot(getattr(g, k)) for k in ('ra', 'dec', 'refmag', 'r', 'pmem', 'zred', 'zred_e', 'zspec', 'zspec_err')}
    spec = c.choice('spec', [False, True])
    z, rl = c.float('z', lo=0.05, hi=1.0), c.float('rl', lo=0.1, hi=2.0)
    cl = Ns(neighbors=g, redshift=z, r_lambda=rl, zredstr=None, cosmo=None, config=Ns(percolation_maxcen=3, centering_use_zspec=spec))
    ce = m.CenteringBCG(cl)
    c.prove('nothing is found before the search', c.And(ce.ngood == 0, ce.index[0] == -1, ce.index[2] == -1, ce.p_cen[0] == 0, ce.maxind == -1))
    for k in range(3):
        c.prove('unused slots are empty', c.And(ce.ra[k] == -400, ce.dec[k] == -400, ce.index[k] == -1, ce.p_cen[k] == 0, ce.q_cen[k] == 0, ce.p_fg[k] == 0, ce.p_sat[k] == 0))
    ok = ce.find_center()

    def cand(j):
        zz, ze = s['zred'][j], s['zred_e'][j]
        if spec:
            zz, ze = c.ite(s['zspec'][j] > 0, s['zspec'][j], zz), c.ite(s['zspec'][j] > 0, s['zspec_err'][j], ze)
        d = zz - z
        return c.And(s['r'][j] < rl, c.Or(s['pmem'][j] > 0.8, c.And(d < 2 * ze, d > -2 * ze)))
    if not ok:
        for j in c.each(n):
            c.prove('fails only when no neighbour qualifies', c.Not(cand(j)))
        c.prove('and then nothing is found', ce.ngood == 0)
        return
    c.cover('found')
    i = ce.index[0]
    c.prove('the centre is a neighbour', c.And(i >= 0, i < n, ce.maxind == i))
    c.prove('that qualifies', cand(i))
    for j in c.each(n):
        c.prove('no qualifying neighbour is brighter', c.implies(cand(j), s['refmag'][i] <= s['refmag'][j]))
    c.prove('its position is the centre', c.And(c.same(ce.ra[0], s['ra'][i]), c.same(ce.dec[0], s['dec'][i])))
    c.prove('it is the only candidate', c.And(ce.ngood == 1, ce.p_cen[0] == 1, ce.q_cen[0] == 1, ce.p_sat[0] == 0, ce.p_cen[1] == 0, ce.p_cen[2] == 0, ce.index[1] == -1, ce.index[2] == -1))


def sky(c, n):
    """a cluster of n galaxies"""
    np, r = c.np, c.nrng
    gm = c.mod('redmapper.galaxy')
    g = np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f8'), ('r', 'f8'), ('p', 'f8'), ('pmem', 'f8'), ('pfree', 'f8'), ('zred', 'f8'), ('zred_e', 'f8'), ('zred_chisq', 'f8'), ('zspec', 'f8'), ('zspec_err', 'f8')])
    scale = np.radians(1.0) * np.degrees(8.0)
    x, y = r.normal(0, 0.04, n), r.normal(0, 0.04, n)
    g['ra'], g['dec'] = 120 + x / np.cos(np.radians(20.0)), 20 + y
    g['r'] = np.hypot(x, y) * scale
    g['refmag'] = 18 + r.uniform(-2.5, 2, n)
    g['p'] = np.where(r.random(n) < 0.2, 0, r.uniform(0, 1, n))
    g['pfree'] = np.where(r.random(n) < 0.2, 0.05, r.uniform(0.1, 1, n))
    g['pmem'] = g['p'] * g['pfree'] * (g['r'] < 0.8)
    g['zred'], g['zred_e'] = 0.3 + r.normal(0, 0.05, n), r.uniform(0.01, 0.05, n)
    g['zred_chisq'] = r.uniform(0, 40, n) * (r.random(n) < 0.5)
    g['zspec'], g['zspec_err'] = np.where(r.random(n) < 0.4, 0.3 + r.normal(0, 0.01, n), -1), 0.001
    return gm.GalaxyCatalog(g), scale


@contract('R13', [K + 'CenteringWcenZred.find_center'], kind='conc', bounded='up to 14 neighbours', trials=300)
def wcen(c):
    np, r = c.np, c.nrng
    m = c.mod('redmapper.centering')
    n = c.size('n', min=1, max=14)
    g, scale = sky(c, n)
    far = c.choice('far', [False, False, False, True])
    if far:
        g.refmag[:] = 60.0
    a = {k: getattr(g, k).copy() for k in g.dtype.names}
    spec, uselum, corr = c.choice('spec', [False, True]), c.choice('lum', [True, False]), c.choice('corr', [False, True])
    maxcen = c.choice('maxcen', [1, 3, 5])
    lam, sc = c.float('lam', lo=5.0, hi=150.0), c.float('sc', lo=1.0, hi=2.0)
    cf = Ns(percolation_maxcen=maxcen, centering_use_zspec=spec, percolation_pbcg_cut=0.1, wcen_zred_chisq_max=20.0, wcen_Delta0=-1.5, wcen_Delta1=-0.4, wcen_pivot=30.0, wcen_sigma_m=0.5, wcen_rsoft=0.05,
            wcen_uselum=uselum, wcen_maxlambda=100.0, lnw_cen_sigma=0.5, lnw_cen_mean=0.3, lnw_sat_sigma=0.6, lnw_sat_mean=0.1, lnw_fg_sigma=0.7, lnw_fg_mean=0.0, lval_reference=0.2)
    sure = c.choice('sure', [False, False, False, True])
    bk, ls = (0.0, 0.0) if sure else (c.float('bk', lo=0.0, hi=3.0), 0.3)
    if sure:
        g.pfree[:] = 1.0
        a['pfree'][:] = 1.0
    cl = Ns(neighbors=g, redshift=0.3, r_lambda=0.8, Lambda=lam, scaleval=sc, mstar=18.0, mpc_scale=scale, zredstr=None, cosmo=None, config=cf,
            _calc_luminosity=lambda mx, idx=None: ls * np.exp(-0.5 * (g.refmag[idx] - 19) ** 2), calc_zred_bkg_density=lambda rr, z, mag: bk * rr * np.exp(-0.1 * (24 - mag)))
    zc = Ns(z=np.array([0.1, 0.5]), zred_uncorr=np.array([0.12, 0.5])) if corr else None
    ce = m.CenteringWcenZred(cl, zlambda_corr=zc)
    ok = ce.find_center()
    hz = a['zspec'] > 0
    z = np.where(spec & hz, a['zspec'], a['zred'])
    ze = np.where(spec & hz, a['zspec_err'], a['zred_e'])
    chi = np.where(spec & hz, 1.0, a['zred_chisq'])
    use = (a['r'] < 0.8) & (a['pfree'] >= 0.1) & (chi < 20) & ((a['pmem'] > 0) | (np.abs(0.3 - z) < 5 * ze))
    c.prove('fails exactly when no neighbour qualifies', bool(ok) == bool(use.any()))
    if not ok:
        c.prove('and then nothing is found', ce.ngood == 0 and np.all(ce.index == -1))
        return
    k = ce.ngood
    # probability of each galaxy by its own
    pcb = np.zeros(n)
    parts = {}
    lum = 10 ** ((18.0 - a['refmag']) / 2.5)
    ss = np.sqrt(min(lam, 100.0) / sc / 30.0)
    gs = lambda x, mu, s: np.exp(-0.5 * ((x - mu) / s) ** 2) / np.sqrt(2 * np.pi) / s
    zmod = np.interp(0.3, [0.1, 0.5], [0.12, 0.5]) if corr else 0.3
    edge = False
    for j in np.where(use)[0]:
        rd = [np.radians(v) for v in (a['ra'], a['dec'])]
        d = np.degrees(2 * np.arcsin(np.sqrt(np.sin((rd[1] - rd[1][j]) / 2) ** 2 + np.cos(rd[1]) * np.cos(rd[1][j]) * np.sin((rd[0] - rd[0][j]) / 2) ** 2))) * scale
        q = (a['p'] > 0) & (np.arange(n) != j)
        ps = np.sqrt(d ** 2 + 0.05 ** 2)
        edge |= bool(np.any(q & (np.abs(ps - 0.8) < 2e-3)))
        q &= ps < 0.8
        ww = 0.001
        if q.any():
            l_ = lum[q] if uselum else np.ones(q.sum())
            ww = np.log(np.sum(a['p'][q] * l_ / ps[q]) * 0.8 / np.sum(a['p'][q] * l_))
        gz = gs(z[j], zmod, ze[j])
        with np.errstate(all='ignore'):
            u = gs(a['refmag'][j], 18 - 1.5 - 0.4 * np.log(lam / 30.0), 0.5) * gz * gs(np.log(ww), 0.3, 0.5 / ss)
            us = ls * np.exp(-0.5 * (a['refmag'][j] - 19) ** 2) * gz * gs(np.log(ww), 0.1, 0.6 / ss)
            b = gs(np.log(ww), 0.0, 0.7 / ss) * bk * np.exp(-0.1 * (24 - a['refmag'][j])) / (2 * np.pi) * np.pi * 0.8 ** 2
        edge |= bool(0.5e-10 < u < 2e-10 or 0.5e-10 < us < 2e-10)
        u = 0.0 if u < 1e-10 else u
        us = 0.0 if us < 1e-10 else us
        with np.errstate(all='ignore'):
            v = min(a['pfree'][j] * u / (u + (lam / sc - 1) * us + b), 0.99999)
        pcb[j] = v if np.isfinite(v) else 0.0
        parts[j] = (us, b)
    if edge:
        return
    want = np.argsort(-pcb)[:min(maxcen, int((pcb > 0).sum()))]
    c.prove('number of candidates', k == want.size)
    if k == 0:
        c.prove('no candidate: surely missed', ce.q_miss == 1.0)
        return
    c.cover('candidates')
    ix = ce.index[:k]
    c.prove('the candidates are the most likely galaxies, best first', np.allclose(pcb[ix], pcb[want], rtol=2e-3, atol=1e-9) and len(set(ix.tolist())) == k and bool(use[ix].all()))
    c.prove('unused slots are empty', np.all(ce.index[k:] == -1) and np.all(ce.p_cen[k:] == 0) and np.all(ce.ra[k:] == -400))
    c.prove('positions are those of the candidates', np.array_equal(ce.ra[:k], a['ra'][ix]) and np.array_equal(ce.dec[:k], a['dec'][ix]) and ce.maxind == ix[0])
    c.prove('no galaxy is central beyond doubt', np.all(ce.p_c[:k] <= 0.99999 + 1e-9))
    c.prove('own probabilities', np.allclose(ce.p_c[:k], pcb[ix], rtol=2e-3, atol=1e-9))
    p = np.array([pcb[i] * np.prod([1 - pcb[j] for j in ix if j != i]) for i in ix])
    miss = np.prod(1 - pcb[ix])
    c.prove('probabilities of being the centre sum to one', abs(np.sum(ce.p_cen) - 1) < 1e-6 and np.all(ce.p_cen >= 0))
    c.prove('by the chance that it is central and no other is', np.allclose(ce.p_cen[:k], p / p.sum(), rtol=1e-2, atol=1e-6))
    c.prove('allowing for a missed centre', np.allclose(ce.q_cen[:k], p / (p.sum() + miss), rtol=1e-2, atol=1e-6) and np.sum(ce.q_cen) <= 1 + 1e-9)
    for i in range(k):
        us, b = parts[ix[i]]
        t = (lam - 1) * us + b
        c.prove('otherwise a satellite or in the foreground', abs(ce.p_sat[i] - ((1 - ce.p_cen[i]) * (lam - 1) * us / t if t > 0 else 0)) < 2e-3 and abs(ce.p_fg[i] - ((1 - ce.p_cen[i]) * b / t if t > 0 else 0)) < 2e-3)


@contract('R13', [K + 'CenteringRandom.find_center', K + 'CenteringRandomSatellite.find_center'], kind='conc', bounded='up to 14 neighbours', trials=200)
def random_centre(c):
    np, r = c.np, c.nrng
    m = c.mod('redmapper.centering')
    n = c.size('n', min=1, max=14)
    g, scale = sky(c, n)
    if not (g.pmem > 0).any():
        g.pmem[0] = 0.4
    a = {k: getattr(g, k).copy() for k in g.dtype.names}
    cf = Ns(percolation_maxcen=3, centering_use_zspec=False)
    cl = Ns(neighbors=g, redshift=0.3, r_lambda=0.8, ra=120.0, dec=20.0, mpc_scale=scale, zredstr=None, cosmo=None, config=cf)
    np.random.seed(c.int('seed', lo=0, hi=10000))
    which = c.choice('which', ['CenteringRandom', 'CenteringRandomSatellite'])
    ce = c.get(m, which)(cl)
    c.prove('always finds a centre', bool(ce.find_center()) and ce.ngood == 1)
    c.prove('which is certain', ce.p_cen[0] == 1 and ce.q_cen[0] == 1 and ce.p_sat[0] == 0 and ce.p_fg[0] == 0 and ce.p_c[0] == 1 and np.all(ce.p_cen[1:] == 0) and np.all(ce.index[1:] == -1))
    if which == 'CenteringRandom':
        d = np.hypot((ce.ra[0] - 120) * np.cos(np.radians(20.0)), ce.dec[0] - 20) * scale
        c.prove('inside the cluster', d <= 0.8 * 1.001)
        c.prove('on no galaxy', ce.index[0] == -1)
    else:
        i = ce.index[0]
        c.prove('on a member', 0 <= i < n and a['pmem'][i] > 0 and ce.maxind == i and ce.ra[0] == a['ra'][i] and ce.dec[0] == a['dec'][i])
    c.prove('memberships are not touched', np.array_equal(g.pmem, a['pmem']))


@contract('R13', [K + 'CenteringRandom.find_center', K + 'CenteringRandomSatellite.find_center'], kind='conc', bounded='1500 draws', trials=6, ctime=30)
def random_centres_distribution(c):
    np, r = c.np, c.nrng
    m = c.mod('redmapper.centering')
    # (the draw is resolved to one part in the number of neighbours)
    G = 400
    g, scale = sky(c, G)
    mem = r.permutation(G)[:7]
    g.pmem[:] = 0.0
    g.pmem[mem] = r.uniform(0.05, 1.0, 7)
    dec = c.choice('dec', [60.0, -60.0, 20.0])
    rl = c.float('rl', lo=0.4, hi=1.5)
    cl = Ns(neighbors=g, redshift=0.3, r_lambda=rl, ra=120.0, dec=dec, mpc_scale=scale, zredstr=None, cosmo=None, config=Ns(percolation_maxcen=3, centering_use_zspec=False))
    np.random.seed(c.int('seed', lo=0, hi=10000))
    N = 1500
    xy = np.zeros((N, 2))
    for k in range(N):
        ce = m.CenteringRandom(cl)
        ce.find_center()
        xy[k] = (ce.ra[0] - 120.0) * np.cos(np.radians(dec)) * scale / rl, (ce.dec[0] - dec) * scale / rl
    u = np.sort(np.sum(xy ** 2, axis=1))
    c.prove('uniform over the disk', np.abs(u - (np.arange(N) + 0.5) / N).max() < 0.06)
    c.prove('in every direction', np.all(np.abs(xy.mean(axis=0)) < 0.07) and np.all(np.abs(xy.std(axis=0) - 0.5) < 0.05))
    n = np.zeros(G)
    for k in range(N):
        ce = m.CenteringRandomSatellite(cl)
        ce.find_center()
        n[ce.index[0]] += 1
    p = g.pmem / g.pmem.sum()
    c.prove('members drawn in proportion to their probability', np.abs(n / N - p).max() < 0.07 and not n[g.pmem == 0].any())
