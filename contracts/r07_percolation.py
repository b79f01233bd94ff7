"""R07: cluster runners: percolation bookkeeping, members, ids (cluster_runner.py, run_percolation.py)"""
from rmv.run import contract
from contracts.stand import Ns, Log
from contracts.r03_cluster import World, GAL

K = 'redmapper/cluster_runner.py:'
KP = 'redmapper/run_percolation.py:'
MEM = [('MEM_MATCH_ID', 'i4'), ('ID', 'i8'), ('Z', 'f4'), ('RA', 'f8'), ('DEC', 'f8'), ('R', 'f4'), ('P', 'f4'), ('PFREE', 'f4'), ('PCOL', 'f4'), ('THETA_I', 'f4'), ('THETA_R', 'f4'),
       ('REFMAG', 'f4'), ('REFMAG_ERR', 'f4'), ('ZRED', 'f4'), ('ZRED_E', 'f4'), ('ZRED_CHISQ', 'f4'), ('CHISQ', 'f4'), ('EBV', 'f4'), ('ZSPEC', 'f4'),
       ('MAG', 'f4', 3), ('MAG_ERR', 'f4', 3)]


class Stop(Exception):
    pass


class One(object):
    """the clusters being processed: the loop body is run for one arbitrary cluster from an arbitrary state allowed by the invariant"""
    def __init__(self, before, cl, after):
        self.before, self.cl, self.after = before, cl, after
        self.size = 1

    def __iter__(self):
        self.before()
        yield self.cl
        self.after()


def world(c, n, k):
    """one cluster with k neighbours among n galaxies"""
    np = c.np
    w = World(c, 2)
    gm = c.mod('redmapper.galaxy')
    extra = [('id', 'i8', {}), ('ebv', 'f4', {}), ('zred', 'f4', {}), ('zred_e', 'f4', {})]
    w.cat = gm.GalaxyCatalog(c.rec('cat', n, [(f[0], f[1], dict(f[2])) for f in GAL if f[0] not in ('dist', 'pfree')] + extra))
    lo = c.int('lo', lo=0, hi=n - k)
    w.idx = lo + np.arange(k)
    w.lo, w.k = lo, k
    d = c.array('d', k, lo=0.0, hi=2.0)
    w.asked = []

    def match(ra, dec, rad):
        w.asked.append((ra, dec, rad))
        return w.idx, d
    w.cat.__dict__['match_one'] = match
    w.sn = {f: c.snapshot(getattr(w.cat, f)) for f in ('refmag', 'id', 'ra', 'zred')}
    return w


def apart(np, ra, dec, ra0, dec0):
    a, b, a0, b0 = (np.radians(np.asarray(x, dtype='f8')) for x in (ra, dec, ra0, dec0))
    h = np.sin((b - b0) / 2) ** 2 + np.cos(b) * np.cos(b0) * np.sin((a - a0) / 2) ** 2
    return np.degrees(2 * np.arcsin(np.sqrt(h)))


def own_values(np, mem, base, nb, sel, fields):
    return all(np.allclose(np.asarray(getattr(mem, f))[base:], np.asarray(getattr(nb, f))[sel], rtol=1e-5, atol=1e-6, equal_nan=True) for f in fields)


@contract('R07', [K + 'ClusterRunner.run'], assumes=['processing of one cluster by its contract (any richness, radius and memberships)'])
def one_cluster(c):
    np = c.np
    m = c.mod('redmapper.cluster_runner')
    n, k = c.size('n', min=2, max=7), c.size('k', min=2, max=5)
    c.assume(k <= n)
    w = world(c, n, k)
    cl = w.cl
    cl.mem_match_id = mid = c.int('mid', lo=1, hi=1000)
    # masking, members recorded, members recorded before, radius window for members, luminosity window for members, bad cluster
    T, F = True, False
    perc, rec, had, memr, meml, bad = c.choice('case', [(T, T, T, F, F, F), (T, T, F, T, F, F), (T, F, F, T, T, F), (F, T, T, T, T, F), (T, T, T, F, F, T), (F, F, F, F, F, T)])
    lam = c.float('lam', lo=1.0, hi=300.0)
    rl = c.float('rl', lo=0.1, hi=2.0)
    P = c.array('P', k, lo=0.0, hi=1.0)
    PM = c.array('PM', k, lo=0.0, hi=1.0)
    cand = c.array('cand', k, kind='i', lo=0, hi=1)
    pg0 = c.array('pg0', n, lo=0.0, hi=3.0)
    nmem = c.size('nmem', max=3)
    lmask = 0.3 if meml else 0.1
    S = c.get(m, 'ClusterRunner')
    seen = {}

    class R(S):
        def _setup(self):
            return True

        def _more_setup(self, *a, **kw):
            return True

        def _process_cluster(self, cluster):
            seen['pfree'] = c.snapshot(cluster.neighbors.pfree)
            seen['index'] = c.snapshot(cluster.neighbors.index)
            if bad:
                return True
            cluster.Lambda, cluster.r_lambda = lam, rl
            cluster.neighbors.p = P
            cluster.neighbors.pmem = PM
            cluster.neighbors.centering_cand = cand
            return False

        def _postprocess(self):
            pass

        def _cleanup(self):
            pass

    w.config.__dict__.update(logger=Log(), start_file_logging=lambda *a: None, bkg_local_compute=False, bkg_local_use=False, limmag_catalog=21.0,
                             percolation_memradius=1.5, percolation_memlum=0.1, member_dtype=MEM)
    mg = Ns(r=c.np.array([0.5, 0.5, 1.5]), mark=c.np.array([True, False, True]), exptime=c.np.array([1.0, 1.0, 1.0]), limmag=c.np.array([21.0, 21.0, 21.0]))
    mask = Ns(maskgals=mg, select_maskgals_sample=lambda *a: 3, set_radmask=lambda *a: None)
    run = c.bare(R, config=w.config, gals=w.cat, mask=mask, depthstr=Ns(calc_maskdepth=lambda *a: None), depthlim=None, read_gals=True,
                 use_maxmag_in_matching=False, do_percolation_masking=perc, doublerun=False, match_centers_to_galaxies=False, did_read_zreds=True,
                 do_correct_zlambda=False, zlambda_corr=None, do_pz=False, do_lam_plusminus=False, record_members=rec, use_memradius=memr, use_memlum=meml,
                 hpix_logstr='x', maxrad=c.float('maxrad', lo=0.1, hi=3.0), rmask_0=1.2, rmask_beta=0.0, rmask_gamma=0.0, rmask_zpivot=0.3, percolation_lmask=lmask,
                 limlum=0.1, min_lambda=-1.0)
    mem0 = c.rec('mem0', nmem, [('mem_match_id', 'i4', {}), ('id', 'i8', {}), ('p', 'f4', {})])
    om = c.snapshot(mem0['id'])

    def before():
        if perc:
            for g in c.each(n):
                c.prove('nothing is claimed before the first cluster', run.pgal[g] == 0)
            run.pgal[:] = pg0
        if had and rec:
            C = c.mod('redmapper.catalog').Catalog
            old = C.zeros(nmem, dtype=MEM)
            old.id[:] = mem0['id']
            run.members = old
        else:
            c.prove('no members before the first cluster', run.members is None)

    def after():
        seen['done'] = True
    run.cat = One(before, cl, after)
    run.run()
    c.prove('the search reaches the maximum radius', c.close(w.asked[0][2], run.maxrad / cl.mpc_scale))
    nb = cl.neighbors
    for j in c.each(k):
        g = w.lo + j
        c.prove('a neighbour is available as far as no cluster before claimed it', c.close(seen['pfree'][j], c.ite(pg0[g] < 1, 1 - pg0[g], 0.0) if perc else 1.0, rtol=1e-4, atol=1e-5))
    if bad:
        c.prove('a bad cluster is flagged', c.And(cl.Lambda == -1, cl.Lambda_e == -1, cl.z_lambda == -1, cl.z_lambda_e == -1, cl.scaleval == -1))
        if perc:
            for g in c.each(n):
                c.prove('and claims nothing', c.same(run.pgal[g], pg0[g]))
        c.prove('and has no members', run.members is None if not (had and rec) else run.members.size == nmem)
        return
    c.prove('the measured values are kept', c.And(c.same(cl.Lambda, lam), c.same(cl.r_lambda, rl)))
    inside = np.sum(mg.r < rl)
    c.prove('masked fraction is of the area inside the measured radius', c.close(cl.maskfrac, c.ite(rl > 1.5, 1.0 / 3.0, c.ite(rl > 0.5, 0.5, 1.0)), rtol=1e-5))
    if perc:
        rm = c.ite(rl > 1.2, rl, 1.2)
        c.prove('mask radius', c.close(cl.r_mask, rm))
        lim = w.mst - 2.5 * np.log10(lmask)
        for g in c.each(n):
            out = c.Or(g < w.lo, g >= w.lo + k)
            c.prove('galaxies that are no neighbours are not claimed', c.implies(out, c.same(run.pgal[g], pg0[g])))
        for j in c.each(k):
            g = nb.index[j]
            c.prove('indices of neighbours point to their galaxies', g == w.lo + j)
            hit = c.And(w.sn['refmag'][g] < lim, nb.r[j] < rm, P[j] > 0)
            c.prove('bright neighbours inside the mask radius are claimed by their probability, others not', c.close(run.pgal[g], c.ite(hit, pg0[g] + P[j], pg0[g]), rtol=1e-5))
            c.prove('claims never shrink', run.pgal[g] >= pg0[g] - 1e-6)
    if not rec:
        c.prove('members only when asked for', run.members is None)
        return
    mem = run.members
    base = nmem if had else 0
    for i in c.each(base):
        c.prove('earlier members stay', mem.id[i] == om[i])
    nw = mem.size - base
    c.prove('members are added', nw >= 0)
    pf = lambda j: (c.ite(pg0[w.lo + j] < 1, 1 - pg0[w.lo + j], 0.0) if perc else 1.0)

    def ok(j):
        if memr or meml:
            o = c.And(P[j] > 0.01)
            if memr:
                o = c.And(o, nb.r[j] < 1.5 * rl)
            if meml:
                o = c.And(o, w.sn['refmag'][w.lo + j] < w.mst - 2.5 * np.log10(0.1))
            return o
        return PM[j] > 0.01
    sel = np.array([bool(c.Or(c.And(ok(j), pf(j) > 0.01), cand[j] == 1)) for j in range(k)]) if not c.symbolic else None
    if not c.symbolic:
        near = any(abs(pf(j) - 0.01) < 1e-6 or abs(PM[j] - 0.01) < 1e-9 or abs(P[j] - 0.01) < 1e-9 for j in range(k))
        c.prove('members are exactly the selected neighbours', near or (nw == sel.sum() and list(mem.id[base:]) == list(w.sn['id'][w.lo:w.lo + k][sel])))
        if not near and nw == sel.sum():
            c.prove('with their own values', own_values(np, mem, base, nb, sel, ('ra', 'dec', 'r', 'p', 'pcol', 'theta_i', 'theta_r', 'refmag', 'refmag_err', 'zred', 'zred_e', 'chisq', 'ebv', 'mag', 'mag_err')))
            c.prove('and what was free of them', np.allclose(mem.pfree[base:], [pf(j) if ok(j) else 0.0 for j in range(k) if sel[j]], rtol=1e-4, atol=1e-5))
    for i in c.each(nw):
        q = base + i
        c.prove('members carry the id of their cluster and its redshift', c.And(mem.mem_match_id[q] == mid, c.close(mem.z[q], cl.redshift, rtol=1e-5)))
        c.prove('recorded free probability is a probability', c.And(mem.pfree[q] >= 0, mem.pfree[q] <= 1, mem.p[q] >= 0, mem.p[q] <= 1))


@contract('R07', [K + 'ClusterRunner.run', K + 'ClusterRunner._reset_bad_values'], maxpaths=800,
          assumes=['processing of one cluster by its contract', 'redshift correction by its contract (R14)'])
def after_processing(c):
    """what is measured around the processing of a cluster: depth, masked fraction, corrected redshift, derivatives"""
    np = c.np
    m = c.mod('redmapper.cluster_runner')
    n, k = c.size('n', min=2, max=7), c.size('k', min=2, max=5)
    c.assume(k <= n)
    w = world(c, n, k)
    cl = w.cl
    cl.ra, cl.dec = c.float('ra', lo=0.0, hi=360.0), c.float('dec', lo=-80.0, hi=80.0)
    lam, rl, lame = c.float('lam', lo=1.0, hi=300.0), c.float('rl', lo=0.1, hi=2.0), c.float('lame', lo=0.1, hi=30.0)
    corr, pz, pm, local, depth = c.choice('case', [(True, True, False, False, True), (True, False, True, False, True), (False, False, True, True, False), (False, True, False, True, True)])
    bad = c.choice('bad', ['no', 'masked', 'shallow'])
    zl, ze, zc, zce = (c.float(q, lo=0.05, hi=0.9) for q in ('zl', 'ze', 'zc', 'zce'))
    lm, lp, em, ep = c.float('lm', lo=-1.0, hi=300.0), c.float('lp', lo=-1.0, hi=300.0), c.float('em', lo=0.1, hi=30.0), c.float('ep', lo=0.1, hi=30.0)
    seen = []
    S = c.get(m, 'ClusterRunner')
    cl.__dict__['pzbins'], cl.__dict__['pz'] = 'bins', 'p'

    class R(S):
        def _setup(self):
            return True

        def _more_setup(self, *a, **kw):
            return True

        def _process_cluster(self, cluster):
            seen.append(('proc',))
            cluster.Lambda, cluster.Lambda_e, cluster.r_lambda, cluster.z_lambda, cluster.z_lambda_e = lam, lame, rl, zl, ze
            return False

        def _postprocess(self):
            pass

        def _cleanup(self):
            pass

    def rich(self, mask, **kw):
        seen.append(('rich', self, self.redshift))
        first = len([x for x in seen if x[0] == 'rich']) == 1
        self.Lambda_e = em if first else ep
        return lm if first else lp

    def fix(*a, **kw):
        seen.append(('fix', a, kw))
        return (zc, zce, 'bins2', 'p2') if kw.get('pzbins') is not None else (zc, zce)
    w.config.__dict__.update(logger=Log(), start_file_logging=lambda *a: None, bkg_local_compute=local, bkg_local_use=False, limmag_catalog=21.0,
                             percolation_memradius=1.5, percolation_memlum=0.1, member_dtype=MEM, zlambda_epsilon=0.005)
    lims = [0.5, 0.75, 23.0] if bad == 'shallow' else [20.0, 22.0, 23.0]
    mg = Ns(r=np.array([0.5, 0.5, 1.5]), mark=np.array([False, False, True]) if bad == 'masked' else np.array([True, False, True]), exptime=np.array([1.0, 3.0, 2.0]), limmag=np.array(lims))
    mask = Ns(maskgals=mg, select_maskgals_sample=lambda *a: 3, set_radmask=lambda x: seen.append(('mask', x)))

    def dd(which):
        return lambda g, *a: seen.append((which, g) + a)
    dstr, dlim = Ns(calc_maskdepth=dd('map')), Ns(calc_maskdepth=dd('lim'))
    run = c.bare(R, config=w.config, gals=w.cat, mask=mask, depthstr=dstr if depth else None, depthlim=dlim, read_gals=True,
                 use_maxmag_in_matching=False, do_percolation_masking=False, doublerun=False, match_centers_to_galaxies=False, did_read_zreds=True,
                 do_correct_zlambda=True, zlambda_corr=Ns(apply_correction=fix) if corr else None, do_pz=pz, do_lam_plusminus=pm, record_members=False, use_memradius=False, use_memlum=False,
                 hpix_logstr='x', maxrad=1.0, rmask_0=1.2, rmask_beta=0.0, rmask_gamma=0.0, rmask_zpivot=0.3, percolation_lmask=0.1, limlum=0.1, min_lambda=-1.0)
    cl.compute_bkg_local = lambda mk, d: (seen.append(('local', mk, d)), 7.5)[1]
    c.patch(w.m.Cluster, 'calc_richness', rich)
    nothing = lambda: None
    cl.dlambda_dz = cl.dlambda_dz2 = cl.dlambdavar_dz = cl.dlambdavar_dz2 = -50.0
    run.cat = One(nothing, cl, nothing)
    run.run()
    d = [x for x in seen if x[0] in ('map', 'lim')]
    c.prove('the depth is found once, for the mask galaxies', len(d) == 1 and d[0][1] is mg and d[0][0] == ('map' if depth else 'lim'))
    if depth:
        c.prove('depth around the cluster', c.And(c.close(d[0][2], cl.ra), c.close(d[0][3], cl.dec), c.close(d[0][4], cl.mpc_scale)))
    c.prove('the mask is placed once, on this cluster', [x[1] is cl for x in seen if x[0] == 'mask'] == [True])
    c.prove('depth recorded', c.And(c.close(cl.lim_limmag, lims[1]), c.close(cl.lim_exptime, 2.0), c.close(cl.lim_limmag_hard, 21.0)))
    if bad != 'no':
        c.prove('a masked cluster or one without depth is never processed', not any(x[0] in ('proc', 'fix', 'rich', 'local') for x in seen))
        c.prove('and flagged', c.And(cl.Lambda == -1, cl.Lambda_e == -1, cl.z_lambda == -1, cl.z_lambda_e == -1, cl.scaleval == -1))
        return
    c.prove('processed once', len([x for x in seen if x[0] == 'proc']) == 1)
    if local:
        c.prove('local background measured with the mask and depth in use', cl.bkg_local == 7.5 and [x[1:] for x in seen if x[0] == 'local'] == [(mask, dstr if depth else dlim)])
    else:
        c.prove('no local background unless asked for', not any(x[0] == 'local' for x in seen))
    f = [x for x in seen if x[0] == 'fix']
    if corr:
        c.prove('the redshift is corrected once', len(f) == 1)
        a, kw = f[0][1], f[0][2]
        got = dict(zip(('lam', 'zlam', 'zlam_e', 'pzbins', 'pzvals'), a), **kw)
        c.prove('with richness, redshift and error of the cluster', c.And(c.close(got['lam'], lam, rtol=1e-5), c.close(got['zlam'], zl, rtol=1e-5), c.close(got['zlam_e'], ze, rtol=1e-5)))
        c.prove('and its distribution when there is one', (got.get('pzbins'), got.get('pzvals')) == (('bins', 'p') if pz else (None, None)))
        c.prove('corrected redshift and error are kept', c.And(c.close(cl.z_lambda, zc, rtol=1e-5), c.close(cl.z_lambda_e, zce, rtol=1e-5)))
        if pz:
            c.prove('corrected bins are kept', cl.pzbins == 'bins2')
    else:
        c.prove('no correction', not f)
        c.prove('redshift kept', c.And(c.close(cl.z_lambda, zl, rtol=1e-5), c.close(cl.z_lambda_e, ze, rtol=1e-5)))
    c.prove('masked fraction is of the area inside the measured radius', c.close(cl.maskfrac, c.ite(rl > 1.5, 1.0 / 3.0, c.ite(rl > 0.5, 0.5, 1.0)), rtol=1e-5))
    rr = [x for x in seen if x[0] == 'rich']
    c.prove('richness kept', c.And(c.close(cl.Lambda, lam, rtol=1e-5), c.close(cl.Lambda_e, lame, rtol=1e-5)))
    if not pm:
        c.prove('no derivatives unless asked for', not rr)
        return
    z0 = zc if corr else zl
    c.prove('derivatives are measured on a copy on both sides', len(rr) == 2 and all(x[1] is not cl for x in rr))
    c.prove('at the redshift of the cluster', c.And(c.close(rr[0][2], z0 - 0.005, rtol=1e-4), c.close(rr[1][2], z0 + 0.005, rtol=1e-4)))
    if not c.And(lm > 0, lp > 0):
        c.prove('no derivatives without richness on both sides', c.And(cl.dlambda_dz == -50, cl.dlambda_dz2 == -50, cl.dlambdavar_dz == -50, cl.dlambdavar_dz2 == -50))
        return
    e = 0.005
    c.prove('first derivative of the log richness', c.close(cl.dlambda_dz, (np.log(lp) - np.log(lm)) / (2 * e), rtol=1e-3, atol=1e-3))
    c.prove('second derivative of the log richness', c.close(cl.dlambda_dz2, (np.log(lp) + np.log(lm) - 2 * np.log(lam)) / (e * e), rtol=1e-3, atol=1.0))
    c.prove('derivatives of the variance', c.And(c.close(cl.dlambdavar_dz, (ep * ep - em * em) / (2 * e), rtol=1e-3, atol=1.0),
                                                 c.close(cl.dlambdavar_dz2, (ep * ep + em * em - 2 * lame * lame) / (e * e), rtol=1e-3, atol=10.0)))


@contract('R07', [K + 'ClusterRunner._generate_mem_match_ids'], kind='conc', bounded='up to 6 clusters')
def ids(c):
    np = c.np
    m = c.mod('redmapper.cluster_runner')
    cm = c.mod('redmapper.catalog')
    n = c.size('n', min=1, max=6)
    kind = c.choice('kind', ['unset', 'unique', 'dup'])
    cat = cm.Catalog(np.zeros(n, dtype=[('mem_match_id', 'i4')]))
    v = c.nrng.permutation(50)[:n] + 1
    if kind == 'unique':
        cat.mem_match_id = v
    elif kind == 'dup':
        if n < 3:
            return
        v[0] = v[1]
        cat.mem_match_id = v
    run = c.bare(m.ClusterRunner, cat=cat)
    bad, _ = c.raises(RuntimeError, lambda: run._generate_mem_match_ids())
    c.prove('repeated ids are rejected', bad == (kind == 'dup'))
    if kind == 'unset':
        c.prove('missing ids are generated', np.array_equal(cat.mem_match_id, np.arange(n) + 1))
    elif kind == 'unique':
        c.prove('ids are kept', np.array_equal(cat.mem_match_id, v))


@contract('R07', [K + 'ClusterRunner._postprocess'], kind='conc', bounded='up to 6 clusters')
def final_cut(c):
    np = c.np
    m = c.mod('redmapper.cluster_runner')
    cl = c.mod('redmapper.cluster')
    cm = c.mod('redmapper.catalog')
    n = c.size('n', min=1, max=6)
    lam = np.round(c.nrng.uniform(-1, 10, n), 1)
    lmin = c.choice('lmin', [-1.0, 3.0, 5.0])
    if n > 1:
        lam[1] = lmin
    cat = cl.ClusterCatalog(np.zeros(n, dtype=[('mem_match_id', 'i4'), ('lambda', 'f4'), ('ra', 'f8')]))
    ids = c.nrng.permutation(50)[:n] + 1
    cat.mem_match_id, cat.Lambda, cat.ra = ids, lam, np.arange(n)
    has = c.choice('has', [True, False])
    mm = np.repeat(ids, c.nrng.integers(1, 4, n))
    mm = mm[c.nrng.permutation(mm.size)]
    mem = cm.Catalog(np.zeros(mm.size, dtype=[('mem_match_id', 'i4'), ('id', 'i8')]))
    mem.mem_match_id, mem.id = mm, np.arange(mm.size)
    run = c.bare(m.ClusterRunner, cat=cat, members=mem if has else None, min_lambda=lmin)
    run._postprocess()
    keep = lam.astype('f4') >= lmin
    c.prove('clusters above the richness cut, in order', np.array_equal(run.cat.mem_match_id, ids[keep]) and np.array_equal(run.cat.ra, np.arange(n)[keep]))
    if has:
        c.prove('with all of their members and no others', sorted(run.members.id.tolist()) == np.where(np.isin(mm, ids[keep]))[0].tolist())
        c.prove('still belonging to them', np.array_equal(run.members.mem_match_id, mm[run.members.id]))
    else:
        c.prove('no members', run.members is None)


@contract('R07', [K + 'ClusterRunner.run', K + 'ClusterRunner._postprocess'], kind='conc', bounded='up to 5 clusters sharing up to 12 galaxies', trials=150)
def sharing(c):
    """whole runs: what several overlapping clusters take of one galaxy"""
    np = c.np
    m = c.mod('redmapper.cluster_runner')
    clm = c.mod('redmapper.cluster')
    gm = c.mod('redmapper.galaxy')
    r = c.nrng
    n, nc = c.size('n', min=2, max=12), c.size('nc', min=1, max=5)
    w = World(c, 2)
    g = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 3), ('mag_err', 'f4', 3), ('ebv', 'f4'),
                           ('chisq', 'f4'), ('zred', 'f4'), ('zred_e', 'f4')])
    g['id'] = r.permutation(100)[:n]
    g['ra'], g['dec'] = 50 + r.uniform(-0.05, 0.05, n), 10 + r.uniform(-0.05, 0.05, n)
    g['refmag'] = w.mst + r.uniform(-2, 2, n)
    gals = gm.GalaxyCatalog(g)
    da = np.degrees(8.0)
    w.config.cosmo.Da = lambda a, z: da
    w.config.__dict__.update(logger=Log(), start_file_logging=lambda *a: None, bkg_local_compute=False, bkg_local_use=False, limmag_catalog=21.0,
                             percolation_memradius=None, percolation_memlum=None, member_dtype=MEM)
    cat = clm.ClusterCatalog(np.zeros(nc, dtype=[('mem_match_id', 'i4')]), r0=1.0, beta=0.2, zredstr=w.zredstr, config=w.config, bkg=w.bkg)
    cat.z = 0.3
    cat.mem_match_id = np.arange(nc) + 1
    cat.ra, cat.dec = 50 + r.uniform(-0.03, 0.03, nc), 10 + r.uniform(-0.03, 0.03, nc)
    lost = r.random(nc) < 0.15
    cat.dec[lost] = -40.0        # nothing around it
    badc = (r.random(nc) < 0.2) | lost
    pr = r.uniform(0, 1, (nc, n)) * (r.random((nc, n)) < 0.8)
    free = {}
    order = []
    double = c.choice('double', [False, True])

    class R(m.ClusterRunner):
        def _setup(self):
            return True

        def _more_setup(self, *a, **kw):
            return True

        def _doublerun_sort(self):
            self.cat = self.cat[np.argsort(self.cat.Lambda)[::-1]]

        def _process_cluster(self, cluster):
            k = cluster.mem_match_id - 1
            order.append(k)
            nb = cluster.neighbors
            free[k] = (nb.index.copy(), nb.pfree.copy())
            cluster.Lambda, cluster.r_lambda = 5.0 + k, 0.5
            if badc[k]:
                return True
            nb.p = pr[k][nb.index]
            nb.pmem = nb.p * nb.pfree * (nb.r < 1.0)
            return False

        def _cleanup(self):
            pass
    mg = Ns(r=np.array([0.1, 0.5, 0.9, 1.5]), mark=np.array([True, True, False, True]), exptime=np.ones(4), limmag=np.ones(4) * 21.0)
    run = c.bare(R, config=w.config, gals=gals, cat=cat, mask=Ns(maskgals=mg, select_maskgals_sample=lambda *a: 3, set_radmask=lambda *a: None),
                 depthstr=Ns(calc_maskdepth=lambda *a: None), depthlim=None, read_gals=True, use_maxmag_in_matching=True, do_percolation_masking=not double, doublerun=double,
                 match_centers_to_galaxies=False, did_read_zreds=True, do_correct_zlambda=False, zlambda_corr=None, do_pz=False, do_lam_plusminus=False,
                 record_members=not double, use_memradius=False, use_memlum=False, hpix_logstr='x', maxrad=1.5, rmask_0=1.0, rmask_beta=0.0, rmask_gamma=0.0, rmask_zpivot=0.3,
                 percolation_lmask=0.0001, limlum=0.00001, min_lambda=-0.5)
    run.run()
    if double:
        first = [k for k in range(nc) if not lost[k]]
        c.prove('a double run visits every cluster twice', order[:len(first)] == first and sorted(order[len(first):]) == first)
        order = order[len(first):]
    c.prove('clusters are processed when they have neighbours', sorted(order) == [k for k in range(nc) if not lost[k]])
    want = set()
    taken = np.zeros(n)
    share = np.zeros(n)
    for k in order:
        idx, f = free[k]
        c.prove('free probability is what earlier clusters left', np.allclose(f, np.clip(1 - taken[idx], 0, None), atol=1e-5))
        if not badc[k]:
            cut = np.degrees(1) * 0
            d = gals.match_one(cat.ra[cat.mem_match_id == k + 1], cat.dec[cat.mem_match_id == k + 1], 5.0)
            dist = dict(zip(d[0].tolist(), d[1].tolist()))
            scale = np.radians(1.0) * da
            for i, q in zip(idx, f):
                rr = max(1e-6, scale * dist[i])
                if rr < 1.0:
                    share[i] += pr[k][i] * q
                    taken[i] += pr[k][i]
                    if pr[k][i] * q > 0.011 and q > 0.011:
                        want.add((k + 1, int(g['id'][i])))
                    elif pr[k][i] * q > 0.009 and q > 0.009:
                        want.add(None)
    if None not in want:
        c.prove('the members are those of all clusters', want == (set() if run.members is None else set(zip(run.members.mem_match_id.tolist(), run.members.id.tolist()))))
    c.prove('no galaxy is given out more than once in total', np.all(share <= 1 + 1e-5))
    c.prove('bad clusters are removed with the cut', sorted(run.cat.mem_match_id.tolist()) == sorted((np.where(~badc)[0] + 1).tolist()))
    if run.members is not None:
        c.prove('no members of bad clusters', not np.any(np.isin(run.members.mem_match_id, np.where(badc)[0] + 1)))
        c.prove('no member twice in a cluster', len(set(zip(run.members.mem_match_id.tolist(), run.members.id.tolist()))) == run.members.size)


MAXCEN = 3
FULL = [('MAG', 'f4', 3), ('MAG_ERR', 'f4', 3), ('PZBINS', 'f4', 5), ('PZ', 'f4', 5), ('RA_CENT', 'f8', MAXCEN), ('DEC_CENT', 'f8', MAXCEN), ('ID_CENT', 'i8', MAXCEN),
        ('LAMBDA_CENT', 'f4', MAXCEN), ('ZLAMBDA_CENT', 'f4', MAXCEN), ('P_CEN', 'f4', MAXCEN), ('Q_CEN', 'f4', MAXCEN), ('P_FG', 'f4', MAXCEN), ('Q_MISS', 'f4'),
        ('P_SAT', 'f4', MAXCEN), ('P_C', 'f4', MAXCEN)]


class Clu(object):
    """a real cluster among n galaxies around one spot; richness, redshift and centring answer as told"""
    def __init__(self, c, n, m, spread=0.05):
        np = c.np
        r = c.nrng
        self.c = c
        clm, gm = c.mod('redmapper.cluster'), c.mod('redmapper.galaxy')
        w = self.w = World(c, 2, dtype=FULL)
        g = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 3), ('mag_err', 'f4', 3), ('ebv', 'f4'),
                               ('chisq', 'f4'), ('zred', 'f4'), ('zred_e', 'f4'), ('zred_chisq', 'f4')])
        g['id'] = r.permutation(100)[:n] + 1
        g['ra'], g['dec'] = 50 + r.uniform(-spread, spread, n), 10 + r.uniform(-spread, spread, n)
        for k in ('refmag', 'refmag_err', 'ebv', 'chisq', 'zred', 'zred_e', 'zred_chisq'):
            g[k] = r.uniform(0.1, 1, n)
        g['refmag'] += w.mst - 1.0
        g['mag'], g['mag_err'] = r.uniform(15, 20, (n, 3)), r.uniform(0.1, 1, (n, 3))
        self.g = g
        self.gals = gm.GalaxyCatalog(g.copy())
        da = np.degrees(8.0)
        w.config.cosmo.Da = lambda a, z: da
        self.da = da
        cl = self.cl = clm.Cluster(r0=1.0, beta=0.2, config=w.config, zredstr=w.zredstr, bkg=w.bkg)
        cl.ra, cl.dec = g['ra'][0] + (1e-4 if r.random() < 0.3 else 0.0), g['dec'][0]
        cl.redshift = 0.3
        cl.Lambda = 20.0
        cl.mem_match_id = 7
        cl.find_neighbors(5.0, self.gals, megaparsec=True)
        self.nb0 = cl.neighbors

    def rl(self, lam):
        return 1.0 * (lam / 100.0) ** 0.2


@contract('R07', [KP + 'RunPercolation._process_cluster'], kind='conc', bounded='up to 10 neighbours, up to 3 central candidates', trials=250)
def percolate_one(c):
    np = c.np
    r = c.nrng
    m = c.mod('redmapper.run_percolation')
    clm = c.mod('redmapper.cluster')
    n = c.size('n', min=2, max=10)
    W = Clu(c, n, m, spread=c.choice('spread', [0.05, 0.15]))
    cl, w = W.cl, W.w
    nb = cl.neighbors
    nb.pfree[:] = np.where(r.random(nb.size) < 0.15, 0.05, np.round(r.uniform(0.2, 1, nb.size), 2))
    ngood = min(c.size('ngood', min=0, max=MAXCEN), nb.size)
    ncent = r.permutation(nb.size)[:ngood]
    found = c.choice('found', [True, True, True, False])
    nogal = c.choice('nogal', [False, False, False, True])
    lams = [5.0 + 40 * r.random() if r.random() < 0.93 else 1.0 for _ in range(30)]
    zl = [0.3 + 0.02 * r.random() if r.random() < 0.95 else -1.0 for _ in range(10)]
    keepz = c.choice('keepz', [False, True])
    niter = c.size('niter', min=2, max=4)
    scale = c.choice('scale', [1.0, 1.5])
    pcen = np.sort(r.uniform(0, 1, ngood))[::-1]
    pcen = pcen / pcen.sum() if ngood else pcen
    pz = r.uniform(0, 1, 5)
    hist = []

    def richness(self, mask, index=None, calc_err=True, **k):
        lam = lams[len([h for h in hist if h[0] == 'lam']) % 30]
        ix = np.arange(self.neighbors.size) if index is None else index
        self.Lambda, self.scaleval, self.r_lambda = lam * scale, scale, W.rl(lam)
        self.neighbors.p[:] = 0.0
        self.neighbors.pmem[:] = 0.0
        rr = np.asarray(self.neighbors.r)
        p = np.linspace(0.2, 0.9, self.neighbors.size)
        self.neighbors.p[ix] = p[ix]
        self.neighbors.pmem[ix] = (p * self.neighbors.pfree * (rr < self.r_lambda))[ix]
        hist.append(('lam', self, self.redshift, float(self.ra), lam * scale, set(np.asarray(ix).tolist())))
        return self.Lambda
    c.patch(clm.Cluster, 'calc_richness', richness)

    class Z(object):
        niter = 3

        def __init__(self, cluster):
            self.cluster = cluster
            self.pzbins = self.pz = None

        def calc_zlambda(self, zin, mask, calc_err=False, calcpz=False, **k):
            z = zl[len([h for h in hist if h[0] == 'z']) % 10]
            hist.append(('z', self.cluster, zin, z, calcpz))
            if calcpz and z > 0:
                self.pzbins, self.pz = np.arange(5) * 0.01 + z, pz
            return z, (0.01 if z > 0 else -1.0)
    c.patch(m, 'Zlambda', Z)

    short = c.choice('short', [True, False])

    class Cent(object):
        def __init__(self, cluster, **k):
            self.ra, self.dec = np.zeros(MAXCEN) - 400, np.zeros(MAXCEN) - 400
            self.index = np.zeros(MAXCEN, dtype=np.int32) - 1
            self.maxind = -1
            self.p_cen, self.q_cen, self.p_fg, self.p_sat, self.p_c = (np.zeros(MAXCEN) for _ in range(5))
            self.q_miss, self.ngood = 0.25, 0
            self.cluster = cluster

        def find_center(self):
            hist.append(('cent', self.cluster.redshift))
            if not found:
                return False
            self.ngood = ngood
            if ngood:
                self.ra[:ngood], self.dec[:ngood] = self.cluster.neighbors.ra[ncent], self.cluster.neighbors.dec[ncent]
                if not nogal:
                    self.index[:ngood], self.maxind = ncent, ncent[0]
                if ngood == 1 and short:      # CenteringBCG gives the one position only
                    self.ra, self.dec = self.ra[:1].copy(), self.dec[:1].copy()
                self.p_cen[:ngood] = pcen
                self.q_cen[:ngood], self.p_sat[:ngood], self.p_fg[:ngood], self.p_c[:ngood] = pcen / 2, pcen / 3, pcen / 4, pcen / 5
            return True
    c.patch(m, 'CenteringBCG', Cent)
    w.config.__dict__.update(logger=Log(), centerclass='CenteringBCG', percolation_pbcg_cut=0.1, percolation_minlambda=3.0, percolation_niter=niter, wcen_uselum=c.choice('lum', [True, False]), wcen_rsoft=0.05)
    setm = []
    run = c.bare(m.RunPercolation, config=w.config, gals=W.gals, mask=Ns(maskgals=Ns(), set_radmask=lambda x: setm.append(float(x.ra))), depthstr=Ns(calc_maskdepth=lambda *a: setm.append(a[1:3])), depthlim=None,
                 specseed=False, keepz=keepz, maxiter=niter, r0=1.0, beta=0.2, rmask_0=1.0, rmask_beta=0.0, rmask_gamma=0.0, rmask_zpivot=0.3, did_read_zreds=True)
    pf0 = nb.pfree.copy()
    id0 = nb.id.copy()
    near = np.argmin(nb.r)
    bad = run._process_cluster(cl)
    if bad:
        c.prove('a bad cluster is flagged in the catalogue', cl.Lambda == -1 and cl.Lambda_e == -1 and cl.scaleval == -1 and cl.z_lambda == -1 and cl.z_lambda_e == -1)
        return
    c.cover('a cluster that survives')
    c.prove('a used-up seed is not a cluster', pf0[near] >= 0.1)
    c.prove('a cluster without centre is not a cluster', found and ngood > 0)
    c.prove('a used-up centre is not a cluster', nogal or pf0[ncent[0]] >= 0.1)
    mine = [h for h in hist if h[0] == 'lam' and h[1] is cl]
    zs = [h for h in hist if h[0] == 'z' and h[1] is cl]
    c.prove('no step of a surviving cluster failed', all(h[4] / scale >= 3.0 for h in mine) and all(h[3] > 0 for h in zs))
    c.prove('the richness is the last one measured', abs(cl.Lambda - mine[-1][4]) < 1e-4)
    zp = [h for h in zs if h[4]]
    c.prove('the redshift is measured once with p(z)', len(zp) == 1 and abs(cl.z_lambda - zp[0][3]) < 1e-6 and np.allclose(cl.pz, pz) and np.allclose(cl.pzbins, zp[0][3] + np.arange(5) * 0.01))
    if keepz:
        c.prove('the input redshift is kept', abs(cl.redshift - 0.3) < 1e-9 and len(zs) == 1)
    else:
        c.prove('the cluster ends at its redshift', abs(cl.redshift - zp[0][3]) < 1e-9)
        c.prove('and its richness is measured there', abs(mine[-1][2] - zp[0][3]) < 1e-9)
    c.prove('the richness is measured around the new centre', abs(mine[-1][3] - cl.ra) < 1e-12 and abs(cl.ra - nb.ra[ncent[0]]) < 1e-12 and abs(cl.dec - nb.dec[ncent[0]]) < 1e-12)
    dd = apart(np, nb.ra, nb.dec, cl.ra, cl.dec)
    c.prove('distances are from the new centre', np.allclose(nb.dist, dd, atol=2e-5))
    c.prove('the mask is placed around the new centre', setm and setm[0] == float(cl.ra) and setm[1][0] == float(cl.ra))
    if not nogal:
        b = ncent[0]
        c.prove('the central galaxy is the first candidate', np.array_equal(cl.mag, nb.mag[b]) and np.array_equal(cl.mag_err, nb.mag_err[b]) and cl.refmag == nb.refmag[b] and cl.refmag_err == nb.refmag_err[b] and
                cl.ebv_mean == nb.ebv[b] and cl.zred == nb.zred[b] and cl.zred_e == nb.zred_e[b] and abs(cl.zred_chisq - nb.zred_chisq[b]) < 1e-6)
        c.prove('candidates are recorded by id', np.array_equal(cl.id_cent[:ngood], id0[ncent]) and not np.any(cl.id_cent[ngood:] > 0))
        c.prove('exactly the candidates are marked', np.array_equal(np.where(nb.centering_cand == 1)[0], np.sort(ncent)))
    c.prove('candidates are recorded', cl.ncent_good == ngood and np.allclose(cl.ra_cent[:ngood], nb.ra[ncent]) and np.allclose(cl.dec_cent[:ngood], nb.dec[ncent]) and np.allclose(cl.p_cen[:ngood], pcen) and
            np.allclose(cl.q_cen[:ngood], pcen / 2) and np.allclose(cl.p_sat[:ngood], pcen / 3) and np.allclose(cl.p_fg[:ngood], pcen / 4) and np.allclose(cl.p_c[:ngood], pcen / 5) and cl.q_miss == 0.25)
    c.prove('unused slots stay empty', np.all(cl.ra_cent[ngood:] == -400) and np.all(cl.dec_cent[ngood:] == -400) and not np.any(cl.p_cen[ngood:]))
    others = [h for h in hist if h[0] == 'lam' and h[1] is not cl]
    want = [float(cl.Lambda)] + [h[4] for h in others]
    c.prove('every candidate is measured around its own position', len(others) == ngood - 1 and all(abs(h[3] - nb.ra[q]) < 1e-12 for h, q in zip(others, ncent[1:])))
    for h, q in zip(others, ncent[1:]):
        dq = W.da * np.radians(1.0) * apart(np, nb.ra, nb.dec, nb.ra[q], nb.dec[q])
        c.prove('from all the neighbours around it', set(np.where(dq < cl.r_lambda - 1e-3)[0].tolist()) <= h[5])
    c.prove('richness of the candidates', np.allclose(cl.lambda_cent[:ngood], want, rtol=1e-5) and abs(cl.zlambda_cent[0] - cl.z_lambda) < 1e-6)
    lc = float(np.sum(pcen * np.array(want)))
    c.prove('mean richness over candidates', abs(cl.lambda_c - lc) < 1e-3 and min(want) - 1e-3 <= cl.lambda_c <= max(want) + 1e-3)
    c.prove('spread over candidates', abs(cl.lambda_ce - np.sqrt(max(0.0, np.sum(pcen * np.array(want) ** 2) - lc ** 2))) < 2e-2 * max(1, cl.lambda_ce))
    c.prove('what is free is not touched', np.array_equal(nb.pfree, pf0))
    u = (nb.r > nb.r.min()) & (nb.r < cl.r_lambda) & (nb.p > 0)
    ll = 10 ** ((cl.mstar - nb.refmag[u]) / 2.5) if w.config.wcen_uselum else np.ones(u.sum())
    c.prove('connectivity', abs(cl.w - np.log(np.sum(nb.p[u] * ll / np.sqrt(nb.r[u] ** 2 + 0.05 ** 2)) * cl.r_lambda / np.sum(nb.p[u] * ll))) < 1e-4)


class Sky(object):
    """a written cluster catalogue standing in for the input file"""
    def __init__(self, c, n, w):
        np, r = c.np, c.nrng
        clm = c.mod('redmapper.cluster')
        a = np.zeros(n, dtype=w.config.cluster_dtype)
        a['Z'] = np.round(r.uniform(0.02, 0.68, n), 2)
        a['LAMBDA'] = np.where(r.random(n) < 0.3, 3.0, np.round(r.uniform(-1, 30, n)))
        a['LNLIKE'] = np.where(r.random(n) < 0.15, np.nan, r.permutation(n) - n / 2.0)
        a['REFMAG'] = w.mst + r.uniform(-2, 4, n)
        a['MEM_MATCH_ID'] = r.permutation(200)[:n] + 1
        a['RA'], a['DEC'] = r.uniform(0, 360, n), r.uniform(-60, 60, n)
        self.a = a
        self.opened = []
        w.config.zrange = [0.1, 0.6]
        w.config.__dict__.update(logger=Log(), catfile='cat.fit', calib_zrange_cushion=0.05)
        w.zredstr.mstar = lambda z: w.mst + 0.0 * z
        sky = self

        def from_catfile(cls, name, **k):
            sky.opened.append((name, k))
            return cls(sky.a.copy(), **k)
        c.patch(clm.ClusterCatalog, 'from_catfile', classmethod(from_catfile))


@contract('R07', [KP + 'RunPercolation._more_setup'], kind='conc', bounded='up to 8 input clusters', trials=200)
def percolation_input(c):
    np = c.np
    m = c.mod('redmapper.run_percolation')
    n = c.size('n', min=1, max=8)
    w = World(c, 2, dtype=FULL)
    sky = Sky(c, n, w)
    a = sky.a
    kw = dict(keepz=c.choice('keepz', [False, True]), keepid=c.choice('keepid', [False, True]), cleaninput=c.choice('clean', [False, True]))
    memlum, lmask = c.choice('memlum', [None, 0.05, 0.15, 0.5]), c.choice('lmask', [-1.0, 0.02, 0.3])
    lval = 0.2
    memrad = c.choice('memrad', [None, 0.8, 1.5])
    w.config.__dict__.update(percolation_minlambda=3.0, percolation_memradius=memrad, lval_reference=lval, percolation_memlum=memlum, percolation_lmask=lmask, percolation_niter=2)
    inm = c.nrng.random(n) < 0.7
    pos = {float(x): bool(y) for x, y in zip(a['RA'], inm)}
    asked = []

    def radmask(ra, dec):
        asked.append((ra, dec))
        return np.array([pos[float(x)] for x in ra])
    run = c.bare(m.RunPercolation, config=w.config, zredstr=w.zredstr, bkg=w.bkg, zredbkg=None, cosmo=w.config.cosmo, r0=0.9, beta=0.15, limlum=0.1, hpix_logstr='x', cat=None,
                 mask=Ns(compute_radmask=radmask))
    ok = run._more_setup(**kw)
    lo, hi = (0.1, 0.6) if not kw['keepz'] else (0.05, 0.65)
    z = a['z'] if 'z' in a.dtype.names else a['Z']
    f = {k.lower(): a[k] for k in a.dtype.names}
    use = (f['z'] > lo) & (f['z'] < hi) & np.isfinite(f['lnlike']) & (f['lambda'] > 3.0) & (f['refmag'] < w.mst - 2.5 * np.log10(0.1))
    if kw['keepz'] and np.any((np.abs(f['z'] - lo) < 1e-4) | (np.abs(f['z'] - hi) < 1e-4)):
        return
    if np.any((np.abs(f['z'] - 0.1) < 1e-4) | (np.abs(f['z'] - 0.6) < 1e-4)):
        return
    if kw['cleaninput']:
        use &= inm
    idx = np.where(use)[0]
    c.prove('usable inputs are needed', bool(ok) == (idx.size > 0) and (run.cat is None) == (idx.size == 0))
    c.prove('the configured catalogue is read with the configured radius', sky.opened[0][0] == 'cat.fit' and sky.opened[0][1].get('r0') == 0.9 and sky.opened[0][1].get('beta') == 0.15)
    c.prove('the configuration is not changed', w.config.zrange == [0.1, 0.6])
    if not ok:
        return
    c.cover('inputs used')
    o = idx[np.argsort(f['mem_match_id'][idx])] if kw['keepid'] else idx[np.argsort(-f['lnlike'][idx])]
    c.prove('exactly the usable inputs, most likely first (or by id)', run.cat.size == o.size and np.allclose(run.cat.ra, f['ra'][o]))
    c.prove('rows stay together', np.allclose(run.cat.z, f['z'][o]) and np.allclose(run.cat.Lambda, f['lambda'][o]) and np.allclose(run.cat.dec, f['dec'][o]))
    if kw['keepid']:
        c.prove('ids are kept', np.array_equal(run.cat.mem_match_id, f['mem_match_id'][o]))
    else:
        c.prove('ids are the rank', np.array_equal(run.cat.mem_match_id, np.arange(o.size) + 1))
    c.prove('original positions are remembered', np.allclose(run.cat.ra_orig, f['ra'][o]) and np.allclose(run.cat.dec_orig, f['dec'][o]))
    c.prove('percolation, members and redshift corrections are on', run.do_percolation_masking and run.record_members and run.do_correct_zlambda and run.do_pz and run.do_lam_plusminus)
    need = [0.1] + ([memlum] if memlum and memlum < lval else []) + ([lmask] if lmask > 0 else [])
    c.prove('neighbours reach the faintest luminosity that is used', abs(run.limlum - min(need)) < 1e-12)
    c.prove('radius window only when it is larger than the cluster', bool(run.use_memradius) == (memrad is not None and memrad > 1))
    c.prove('cut and iterations as configured', run.min_lambda == 3.0 and run.maxiter == 2)


@contract('R07', [K + 'ClusterRunner._setup'], kind='conc', bounded='sampled settings', trials=150)
def runner_setup(c):
    np = c.np
    r = c.nrng
    m = c.mod('redmapper.cluster_runner')
    fl = c.float
    r0, beta = fl('r0', lo=0.1, hi=2.0), c.choice('b', [0.0, 0.2, 0.4])
    rm0, rmb = fl('rm0', lo=0.1, hi=8.0), c.choice('rmb', [0.0, 0.2, 0.4])
    own = c.choice('own', [True, False])
    local = c.choice('local', [False, True])
    lmask = c.choice('lmask', [-1.0, 0.1])
    lval = c.choice('lval', [0.2, 0.1, 0.05])
    mode = c.choice('mode', ['percolation', 'likelihoods'])
    temp = c.choice('temp', [False, True])
    cutb, cutx = c.choice('cutb', [True, False]), c.choice('cutx', [True, False])
    zfile = c.choice('zf', ['z.fit', None])
    readz, reqz = c.choice('readz', [True, False]), c.choice('reqz', [False, True])
    depth = c.choice('depth', [True, False])
    readg = c.choice('readg', [True, True, True, False])
    n = c.size('n', min=0, max=6)
    gm = c.mod('redmapper.galaxy')
    g = np.zeros(n, dtype=[('refmag', 'f4'), ('refmag_err', 'f4'), ('chisq', 'f4'), ('id', 'i8')])
    g['refmag'], g['chisq'], g['id'] = np.where(r.random(n) < 0.3, r.choice([11.95, 12.05, 23.85, 23.95, 24.05], n), r.uniform(10, 26, n)), r.uniform(0, 40, n), np.arange(n)
    calls = []

    def galfile(name, **k):
        calls.append((name, k))
        x = g
        if 'refmag_range' in k and k.get('use_tempfile'):
            x = x[(x['refmag'] > k['refmag_range'][0]) & (x['refmag'] < k['refmag_range'][1])]
            if k.get('zredfile') is not None:
                x = x[x['chisq'] < k.get('chisq_max', 1e100)]
        return gm.GalaxyCatalog(x.copy())
    c.patch(m.GalaxyCatalog, 'from_galfile', staticmethod(galfile))
    bins = np.arange(12.0, 24.0, 0.1)
    c.patch(m, 'Background', lambda f: Ns(refmagbins=bins, file=f))
    c.patch(m, 'ZredBackground', lambda f: 'zb')
    c.patch(m, 'RedSequenceColorPar', lambda f, **k: 'rs')
    c.patch(m, 'get_mask', lambda cf: 'mask')

    def dm(cf):
        if not depth:
            raise ValueError('none')
        return 'depth'
    c.patch(m, 'DepthMap', dm)
    c.patch(m, 'DepthLim', lambda *a: 'lim')

    def zc(**k):
        raise IOError('none')
    c.patch(m, 'ZlambdaCorrectionPar', zc)
    cf = Ns(d=Ns(hpix=[3, 4], nside=8), percolation_rmask_0=rm0, percolation_rmask_beta=rmb, percolation_rmask_gamma=0.1, percolation_rmask_zpivot=0.3, percolation_lmask=lmask,
            lval_reference=lval, bkg_local_compute=local, bkg_local_use=False, bkg_local_annuli=[2.0, 3.5], bkgfile='b', bkgfile_color='cb', parfile='p', zlambdafile='x', zlambda_pivot=30.0,
            cosmo='cosmo', zredfile=zfile, galfile='gal.fit', border=0.2, centering_use_zspec=False, use_tempfiles_to_conserve_memory=temp, chisq_max=20.0, logger=Log())
    setattr(cf, mode + '_r0', r0)
    setattr(cf, mode + '_beta', beta)
    run = c.bare(m.ClusterRunner, config=cf, runmode=mode, use_rmask_settings=not own, use_colorbkg=False, zredbkg_required=False, use_parfile=True, read_gals=readg, read_zreds=readz,
                 zreds_required=reqz, cutgals_bkgrange=cutb, cutgals_chisqmax=cutx, did_read_zreds=False)
    box = []
    bad, _ = c.raises(RuntimeError, lambda: box.append(run._setup()))
    must = (not readg and not depth) or (reqz and (not readz or zfile is None))
    c.prove('impossible set-ups are rejected', bad == must)
    if bad:
        return
    z = zfile if readz else None
    keep = np.ones(n, dtype=bool)
    if cutb:
        keep &= (g['refmag'] > 12.0) & (g['refmag'] < bins[-1] + 0.1)
    if cutx and z is not None:
        keep &= g['chisq'] < 20.0
    if np.any(np.abs(g['refmag'] - bins[-1] - 0.1) < 1e-3):
        return
    if not readg:
        c.prove('no galaxies are read when they are not needed', run.gals is None and not calls)
    else:
        c.prove('the galaxies of the region and its border are read, with their redshifts', calls[0][0] == 'gal.fit' and calls[0][1]['nside'] == 8 and list(calls[0][1]['hpix']) == [3, 4] and
                calls[0][1]['border'] == 0.2 and calls[0][1]['zredfile'] == z)
        c.prove('usable galaxies are needed', bool(box[0]) == bool(keep.any()))
        c.prove('exactly the galaxies in range', np.array_equal(run.gals.id, np.where(keep)[0]))
        c.prove('it is known whether redshifts were read', run.did_read_zreds == (z is not None))
        if not box[0]:
            return
    a0, ab = (r0, beta) if own else (rm0, rmb)
    for lam in (20.0, 100.0, 300.0):
        c.prove('the search radius covers the cluster radius', run.maxrad >= r0 * (lam / 100.0) ** beta - 1e-9)
        # (a fixed cluster radius with a richness-dependent mask radius is not sized by the runner)
        c.prove('the search radius covers the mask radius', beta == 0 and ab != 0 or run.maxrad >= a0 * (lam / 100.0) ** ab - 1e-9)
    if local:
        c.prove('the search radius covers the local background', run.maxrad >= 3.5)
    c.prove('settings', run.r0 == r0 and run.beta == beta and run.rmask_0 == a0 and run.rmask_beta == ab and run.percolation_lmask == (lval if lmask < 0 else lmask))
    c.prove('neighbours reach the luminosity limit', run.limlum <= max(lval - 0.1, 0.01) + 1e-12)
    c.prove('options start switched off', not (run.do_percolation_masking or run.do_lam_plusminus or run.use_memradius or run.use_memlum or run.match_centers_to_galaxies or run.record_members or
                                               run.doublerun or run.do_correct_zlambda or run.do_pz) and run.min_lambda == -1.0)


@contract('R07', [K + 'ClusterRunner.run'], kind='conc', bounded='up to 8 clusters and 8 galaxies', trials=80)
def centre_galaxies(c):
    """a catalogue of positions takes the magnitudes of the galaxies at those positions"""
    np, r = c.np, c.nrng
    m = c.mod('redmapper.cluster_runner')
    clm, gm = c.mod('redmapper.cluster'), c.mod('redmapper.galaxy')
    nc, n = c.size('nc', min=1, max=8), c.size('n', min=1, max=8)
    on = c.choice('on', [True, True, False])
    w = World(c, 2, dtype=[('MAG', 'f4', 3), ('MAG_ERR', 'f4', 3)])
    g = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 3), ('mag_err', 'f4', 3)])
    g['ra'], g['dec'] = r.permutation(40)[:n] * 0.01 + 50, r.uniform(-1, 1, n)
    for f in ('refmag', 'refmag_err'):
        g[f] = r.uniform(0.1, 20, n)
    g['mag'], g['mag_err'] = r.uniform(15, 20, (n, 3)), r.uniform(0.1, 1, (n, 3))
    a = np.zeros(nc, dtype=w.config.cluster_dtype)
    which = np.where(r.random(nc) < 0.75, r.integers(0, n, nc), -1)
    a['RA'] = np.where(which >= 0, g['ra'][which] + 1e-5, 80.0 + np.arange(nc))
    a['DEC'] = np.where(which >= 0, g['dec'][which], 0.0)
    a['REFMAG'], a['REFMAG_ERR'], a['MAG'], a['MAG_ERR'] = -7.0, -8.0, -9.0, -10.0
    cat = clm.ClusterCatalog(a.copy(), r0=1.0, beta=0.2, zredstr=w.zredstr, config=w.config, bkg=w.bkg)

    class R(m.ClusterRunner):
        def _setup(self):
            return True

        def _more_setup(self, *a, **kw):
            return True

        def _process_cluster(self, cluster):
            return True

        def _postprocess(self):
            pass

        def _cleanup(self):
            pass
    w.config.__dict__.update(logger=Log(), start_file_logging=lambda *a: None, bkg_local_compute=False, bkg_local_use=False, limmag_catalog=21.0)
    cat.z = 0.3
    mg = Ns(r=np.array([0.1, 1.5]), mark=np.array([True, True]), exptime=np.ones(2), limmag=np.ones(2) * 21.0)
    run = c.bare(R, config=w.config, gals=gm.GalaxyCatalog(g.copy()), cat=cat, mask=Ns(maskgals=mg, select_maskgals_sample=lambda *a: 3, set_radmask=lambda *a: None),
                 depthstr=Ns(calc_maskdepth=lambda *a: None), depthlim=None, read_gals=False, use_maxmag_in_matching=False, do_percolation_masking=False, doublerun=False,
                 match_centers_to_galaxies=on, did_read_zreds=False, do_correct_zlambda=False, zlambda_corr=None, do_pz=False, do_lam_plusminus=False, record_members=False,
                 use_memradius=False, use_memlum=False, hpix_logstr='x', maxrad=1.0, limlum=0.1, min_lambda=-1.0)
    run.run()
    for k in range(nc):
        i = which[k]
        if on and i >= 0:
            c.prove('a position takes the magnitudes of its galaxy', cat.refmag[k] == g['refmag'][i] and cat.refmag_err[k] == g['refmag_err'][i] and
                    np.array_equal(cat.mag[k], g['mag'][i]) and np.array_equal(cat.mag_err[k], g['mag_err'][i]))
        else:
            c.prove('and keeps its own without one', cat.refmag[k] == -7 and cat.refmag_err[k] == -8 and np.all(cat.mag[k] == -9) and np.all(cat.mag_err[k] == -10))


@contract('R07', [K + 'ClusterRunner.output', K + 'ClusterRunner.filename'], kind='conc', bounded='up to 6 clusters and 12 members in real files', trials=40)
def catalogue_files(c):
    """what a run writes: its clusters, and with them its members, under the names asked for"""
    import os
    import tempfile
    import fitsio
    np, r = c.np, c.nrng
    m = c.mod('redmapper.cluster_runner')
    clm, cm = c.mod('redmapper.cluster'), c.mod('redmapper.catalog')
    nc, nm = c.size('nc', min=1, max=6), c.size('nm', min=1, max=12)
    w = World(c, 2)
    a = np.zeros(nc, dtype=w.config.cluster_dtype)
    a['MEM_MATCH_ID'], a['LAMBDA'] = r.permutation(50)[:nc], r.uniform(1, 100, nc)
    b = np.zeros(nm, dtype=MEM)
    b['MEM_MATCH_ID'], b['ID'], b['P'] = r.choice(a['MEM_MATCH_ID'], nm), r.permutation(99)[:nm], r.random(nm)
    va, vb = {q: a[q].copy() for q in ('MEM_MATCH_ID', 'LAMBDA')}, {q: b[q].copy() for q in ('MEM_MATCH_ID', 'ID', 'P')}
    has = c.choice('has', ['both', 'both', 'clusters', 'none'])
    save = c.choice('save', [True, True, False])
    ver, base = c.choice('ver', [True, False]), c.choice('base', [None, 'other'])
    old, clob = c.choice('old', [(False, False), (False, True), (True, True)])    # (fitsio adds a table to an existing file that may not be overwritten)
    typ = c.choice('typ', ['final', 'zscan'])
    with tempfile.TemporaryDirectory() as d:
        def name(kind, withversion=False, outbase=None, **k):
            return os.path.join(d, '%s_%s_%s.fit' % (outbase or 'base', 'v' if withversion else 'n', kind))
        w.config.__dict__.update(logger=Log(), redmapper_filename=name, d=Ns(outbase='base'))
        run = c.bare(m.ClusterRunner, config=w.config, filetype=typ, _filename=None, cat=clm.ClusterCatalog(a.copy()) if has != 'none' else None,
                     members=cm.Catalog(b.copy()) if has == 'both' else None)
        c.prove('before it is written the file has its usual name', run.filename == name(typ + '_catalog'))
        cf, mf = name(typ + '_catalog', ver, base), name(typ + '_catalog_members', ver, base)
        if old:
            fitsio.write(cf, np.zeros(1, dtype=[('x', 'i4')]))
            fitsio.write(mf, np.zeros(1, dtype=[('x', 'i4')]))
        run.output(savemembers=save, withversion=ver, clobber=clob, outbase=base)
        c.prove('afterwards the name of the file written', run.filename == cf)
        wrote = [has != 'none', has == 'both' and save]
        here = sorted(os.listdir(d))
        want = sorted(os.path.basename(f) for f, o in ((cf, wrote[0] or old), (mf, wrote[1] or old)) if o)
        c.prove('no other files', here == want)
        for f, o, x in ((cf, wrote[0], va), (mf, wrote[1], vb)):
            if o:
                y = fitsio.read(f, ext=1, upper=True)
                c.prove('all rows are written as they are', y.size == x['MEM_MATCH_ID'].size and all(np.array_equal(y[q], x[q]) for q in x))
            elif old:
                c.prove('files that are not ours stay', fitsio.read(f, ext=1).dtype.names == ('x',))
