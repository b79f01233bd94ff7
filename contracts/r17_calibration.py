"""R17: the redMaGiC calibration fits the galaxies that could be selected, to the density in the volume they live in"""
from rmv.run import contract, StubMissing
from contracts.stand import Ns, Log, recs, differently
from contracts.r16_calibration import Cat
from contracts.r16_redsequence import bound, need, same

RF = 'redmapper/redmagic/redmagic_calibrate.py:'


class Fit2(object):
    """stands for the parameter fitter: keeps what it is given, answers values of its own"""
    def __init__(self, c, real):
        self.real, self.made, self.r = real, [], c.nrng

    def __call__(self, *a, **k):
        import numpy as np
        d = bound(self.real.__init__, a, k)
        one = Ns(args={n: (np.array(v) if isinstance(v, (np.ndarray, list)) else v) for n, v in d.items()}, calls=[])
        self.made.append(one)

        def fit(*fa, **fk):
            q = bound(self.real.fit, fa, fk)
            out = self.r.uniform(1, 20, one.args['nodes'].size)
            one.calls.append(('c', q, out.copy()))
            return out

        def fbe(*fa, **fk):
            q = bound(self.real.fit_bias_eratio, fa, fk)
            nc = one.args['corrnodes'].size
            out = self.r.uniform(-0.01, 0.01, nc), self.r.uniform(0.8, 1.2, nc)
            one.calls.append(('b', q, (out[0].copy(), out[1].copy())))
            return out
        one.fit, one.fit_bias_eratio = fit, fbe
        return one


class Fig(str):
    def savefig(self, *a, **k):
        pass


@contract('R17', [RF + 'RedmagicCalibrator.run'], kind='conc', bounded='up to 250 galaxies, up to 2 selections, fits answer random values', trials=40, ctime=30)
def calibration(c):
    import numpy as np
    m = c.mod('redmapper.redmagic.redmagic_calibrate')
    r = c.nrng
    n, nrun = int(r.integers(150, 250)), int(r.integers(1, 3))
    z = r.uniform(0.15, 0.65, n)
    mst = lambda x: 17.0 + 5.0 * np.asarray(x, dtype='f8')
    f = lambda x: np.asarray(x).astype('f4')
    mock = bool(r.integers(2))
    dec = np.linspace(-30, 30, n)[r.permutation(n)]
    cols = dict(id=r.permutation(n) * 3 + 11, ra=r.uniform(10, 350, n), dec=dec, refmag=f(mst(z) + r.uniform(-1.5, 2.0, n)), chisq=f(r.uniform(0, 25, n)), zred_uncorr=f(z), zred_uncorr_e=f(r.uniform(0.01, 0.03, n)),
                zred_samp=f(z[:, None] + r.normal(0, 0.01, (n, 2))), zred=f(z + 0.5), zred_e=f(z))
    if mock:
        cols['ztrue'] = f(z + r.normal(0, 0.01, n))
    g = recs(np, n, **cols)
    keep = g.copy()
    names = list(c.choice('names', [['highdens', 'highlum'], ['hd', 'highlum']]))[:nrun]
    etas = np.array([0.5, 1.0])[:nrun]
    const, after, app = bool(r.integers(2)), bool(r.integers(2)), bool(r.integers(2))
    zmx = np.array([0.55, 0.6])[:nrun]
    which = str(r.choice(['depth', 'mask', 'none']))
    gone = bool(r.integers(2))
    cl = recs(np, 20, mem_match_id=r.permutation(20) + 1, z_lambda_e=f(r.uniform(0.001, 0.02, 20)))
    who = r.choice(n, 60, replace=False)
    mem = recs(np, 70, mem_match_id=r.integers(1, 21, 70), id=np.concatenate([g['id'][who], 5 + 3 * n + np.arange(10) * 3]), p=f(r.uniform(0, 1, 70)), z=f(r.uniform(0.2, 0.6, 70)))
    sp = r.choice(n, 40, replace=False)
    off = np.where(r.integers(2, size=40) == 0, 1.0, 8.0) / 3600.0
    spec = recs(np, 40, ra=g['ra'][sp], dec=g['dec'][sp] + off, z=f(r.uniform(0.2, 0.6, 40)), z_err=f(r.uniform(0, 0.002, 40)))
    told = []
    conf = Ns(logger=Log(), galfile_pixelized=True, zredfile='zred', catfile='cat', specfile='spec', galfile='gal', parfile='par', depthfile='depth' if which == 'depth' else 'gone' if gone else None,
              maskfile='mask' if which != 'none' else 'gone' if gone else None, d=Ns(nside=4, hpix=[5]), border=0.5, vlim_lstar=0.2, calib_pcut=0.3, chisq_max=15.0, redmagic_mock_truthspec=mock, zred_nsamp=2, redmagic_etas=etas, redmagic_names=names, redmagic_n0s=np.array([10.0, 4.0])[:nrun],
              redmagic_zrange=np.array([0.2, 0.6]), redmagic_zmaxes=zmx, redmagic_calib_redshift_buffer=0.02, redmagic_calib_zbinsize=0.03, redmagic_calib_chisqcut=20.0, calib_spec_max_zerr=0.001, calib_corr_pcut=0.6,
              redmagic_calib_nodesize=0.1, redmagic_calib_corr_nodesize=0.15, redmagic_run_afterburner=after, redmagic_apply_afterburner_zsamp=app, redmagic_calib_fractrain=0.7, redmagic_use_constchi=const,
              redmagic_constchis=np.array([7.0, 9.0])[:nrun], cosmo=Ns(V=lambda a, b: 1e6 * (b ** 3 - a ** 3)), redmapper_filename=lambda *a, **k: '/scratch/' + a[0], plotpath='', configfile=str(r.choice(['x_cal.yml', 'x.yml'])),
              outpath='/scratch', hpix=[3], nside=2, area=7.0, output_yaml=lambda fn: told.append((fn, list(conf.hpix), conf.nside, conf.area)), redmagicfile=None)

    class FakeOs(object):
        def __init__(self, o):
            self.path = Ns(isfile=lambda p: p in ('zred', 'cat', 'depth', 'mask', 'spec'), join=o.path.join, basename=o.path.basename, dirname=o.path.dirname, splitext=o.path.splitext)
    c.patch(m, 'os', FakeOs(m.os))
    az = np.arange(0.1, 0.8, 0.01).astype('f4')
    lims = {}

    def mask(kind, eta):
        k = float(eta)
        return Ns(vlimfile='vlim_mask_with_a_long_file_name_%.2f' % k, get_areas=lambda: Ns(z=az, area=f(1000.0 / (1 + k) * (1.2 - az))), calc_zmax=lambda ra, de, **kk: f(0.3 + 0.2 * k + np.asarray(de) * 0.001 + np.asarray(ra) * 1e-4), kind=kind, eta=k)

    class Vl(object):
        def __new__(cls, conf_, vlim_lstar, use_geometry=False, **k):
            o = object.__new__(cls)
            o.__dict__.update(mask('mask' if use_geometry else 'depth', vlim_lstar).__dict__)
            return o

        def __init__(self, *a, **k):
            pass

    class Vf(object):
        def __init__(self, conf_):
            self.__dict__.update(mask('none', etas[len(lims) % nrun]).__dict__)
            lims[len(lims)] = self
    c.patch(m, 'VolumeLimitMask', Vl)
    c.patch(m, 'VolumeLimitMaskFixed', Vf)
    asked = []

    class GC(object):
        @staticmethod
        def from_galfile(fn, **k):
            asked.append((fn, k))
            return realg(g.copy())
    realg = m.GalaxyCatalog
    c.patch(m, 'GalaxyCatalog', GC)
    c.patch(m, 'Catalog', Cat(m.Catalog, {'spec': spec, 'cat': cl}))
    c.patch(m, 'read_members', lambda fn, **k: m.Catalog(mem.copy()) if fn == 'cat' else differently())
    c.patch(m, 'RedSequenceColorPar', lambda *a, **k: Ns(mstar=mst))
    F = Fit2(c, m.RedmagicParameterFitter)
    c.patch(m, 'RedmagicParameterFitter', F)
    out, sel, picked, nz, plots = [], [], [], [], []

    def tff(self, fn, clobber=False, header=None, extname=None, **k):
        if clobber:
            del out[:]
        out.append((fn, extname, np.array(self._ndarray)))
    c.patch(m.Entry, 'to_fits_file', tff)

    class Sel(object):
        def __init__(self, conf_, vlim_masks=None):
            self.v = vlim_masks

        def select_redmagic_galaxies(self, gals, mode, return_indices=False, **k):
            ix = np.arange(0, gals.size, 3)
            sel.append((mode, self.v, gals))
            s = realg(gals._ndarray[ix].copy())
            s.zredmagic = s.zred_uncorr - 0.013
            s.zredmagic_e = s.zred_uncorr_e * 1.7
            picked.append((np.array(s.id), np.array(s.zredmagic), np.array(s.zredmagic_e)))
            return (s, ix) if return_indices else s
    c.patch(m, 'RedmagicSelector', Sel)
    c.patch(m, 'NzPlot', lambda *a, **k: Ns(plot_redmagic_catalog=lambda gg, name, eta, n0, areas, **kk: nz.append((np.array(gg.id), np.array(gg.zredmagic), np.array(gg.zredmagic_e), name, float(eta), float(n0), np.array(areas.area)))))
    c.patch(m, 'SpecPlot', lambda *a, **k: Ns(plot_values=lambda a, b, e, **kk: (plots.append((np.array(a), np.array(b), np.array(e))), Fig('no such figure'))[1]))
    ran = []
    c.patch(m, 'RunRedmagicTask', lambda fn, *a, **k: Ns(run=lambda *b, **kk: ran.append(fn)))
    cal = c.bare(m.RedmagicCalibrator, config=conf)
    do = bool(r.integers(2))
    # candidates
    ms = mst(g['zred_uncorr'])
    nb = int(np.ceil((0.58 - 0.22) / 0.03))
    hi = 0.22 + 0.03 * nb + 0.05 + 0.02
    cand = (g['zred_uncorr'] > 0.15) & (g['zred_uncorr'] < hi) & (g['chisq'] < 20.0) & (g['refmag'] < ms - 2.5 * np.log10(max(etas.min() - 0.05, 0.1)))
    zc, ze = np.full(n, -1.0), np.full(n, -1.0)
    for k in range(70):
        if mem['p'][k] > 0.6:
            j = np.where(g['id'] == mem['id'][k])[0]
            zc[j], ze[j] = mem['z'][k], cl['z_lambda_e'][cl['mem_match_id'] == mem['mem_match_id'][k]][0]
    zs = np.zeros(n)
    if mock:
        zs = g['ztrue']
    else:
        for k in range(40):
            if spec['z_err'][k] < 0.001 and off[k] < 3. / 3600:
                zs[sp[k]] = spec['z'][k]
    starts = []
    for i in range(nrun):
        eta = float(etas[i])
        P = np.where(cand & (g['refmag'] < ms - 2.5 * np.log10(max(eta - 0.05, 0.1))))[0]
        nbin = int(np.ceil((zmx[i] - 0.02 - 0.22) / 0.03))
        nd = m.make_nodes([0.22, 0.22 + nbin * 0.03], 0.1)
        st = []
        for j, x in enumerate(nd):
            a, b = (x, x + 0.03) if j == 0 else (x - 0.03, x) if j == nd.size - 1 else (x - 0.015, x + 0.015)
            ch = np.sort(g['chisq'][P][(g['zred_uncorr'][P] > a) & (g['zred_uncorr'][P] < b)])
            vol = 1e6 * ((x + 0.015) ** 3 - (x - 0.015) ** 3) * (1000.0 / (1 + eta) * (1.2 - az[np.searchsorted(az, x)])) / 41252.961
            wanted = float(conf.redmagic_n0s[i]) * 1e-4 * vol
            if ch.size == 0 or abs(wanted - round(wanted)) < 1e-3:
                # a redshift node without any candidate, or a tie
                if not const:
                    return
                continue
            st.append(ch[min(int(np.ceil(wanted)), ch.size - 1)])
        starts.append(np.array(st))
    c.get(cal, 'run')(do_run=do)
    c.prove('galaxies of the requested region with their redshifts', len(asked) == 1 and asked[0][0] == 'gal' and asked[0][1].get('zredfile') == 'zred' and bool(asked[0][1].get('truth', False)) == mock and asked[0][1].get('border') == 0.5 and asked[0][1].get('nside') == 4 and list(asked[0][1].get('hpix', [])) == [5])
    c.prove('every selection is fitted once', len(F.made) == nrun and [o[1] for o in out] == names and all(o[0] == conf.redmagicfile for o in out))
    for i, o in enumerate(F.made):
        a = o.args
        eta = float(etas[i])
        poss = cand & (g['refmag'] < ms - 2.5 * np.log10(max(eta - 0.05, 0.1)))
        P = np.where(poss)[0]
        lo, up = 0.22, zmx[i] - 0.02
        nbin = int(np.ceil((up - lo) / 0.03))
        cz = [lo, lo + nbin * 0.03]
        nd, cn, zz, zze, ch, mm, zca, zce, rm, zsm, zmax, et, n0, vol, zrg, zb, mc, ab, aa, cc = need(a, 'nodes', 'corrnodes', 'z', 'z_err', 'chisq', 'mstar', 'zcal', 'zcal_err', 'refmag', 'zsamp', 'zmax', 'etamin', 'n0',
                                                                                                   'volume', 'zrange', 'zbinsize', 'maxchi', 'ab_use', 'ab_apply', 'constchi')
        c.prove('fitted to the galaxies that could be selected', same(np, zz, g['zred_uncorr'][P]))
        c.prove('each with its own values', same(np, zze, g['zred_uncorr_e'][P]) and same(np, ch, g['chisq'][P]) and same(np, mm, ms[P]) and same(np, rm, g['refmag'][P]) and same(np, zsm, g['zred_samp'][P, 0]))
        c.prove('and the redshift of the cluster it is a likely member of', same(np, zca, zc[P]) and same(np, zce, ze[P]))
        c.prove('and the volume limit of this selection', same(np, zmax, 0.3 + 0.2 * eta + g['dec'][P] * 0.001 + g['ra'][P] * 1e-4))
        c.prove('limits of this selection', et == eta and n0 == conf.redmagic_n0s[i] and mc == 20.0 and zb == 0.03 and bool(aa) == app and (cc == conf.redmagic_constchis[i] if const else cc is None))
        c.prove('redshift range of whole bins', same(np, zrg, cz) and same(np, nd, m.make_nodes(cz, 0.1)) and same(np, cn, m.make_nodes(cz, 0.15)))
        zbin = lo + 0.03 * (np.arange(nbin) + 0.5)
        ar = np.array([1000.0 / (1 + eta) * (1.2 - az[np.searchsorted(az, q)]) for q in zbin])
        c.prove('volume of each bin in the area of this selection', same(np, vol, 1e6 * ((zbin + 0.015) ** 3 - (zbin - 0.015) ** 3) * ar / 41252.961, rtol=1e-3))
        tr = np.where(zc[P] > 0)[0]
        ab = np.asarray(ab)
        c.prove('trained on a fraction of the galaxies in clusters', ab.size == int(0.7 * tr.size) and np.unique(ab).size == ab.size and np.all(np.isin(ab, tr)))
        o3 = out[i][2]
        cv = [q[2] for q in o.calls if q[0] == 'c']
        bv = [q for q in o.calls if q[0] == 'b']
        c.prove('a fixed cut is not fitted', not (const and cv))
        c.prove('the cut is the last fitted one', same(np, o3['cmax'], np.full(nd.size, conf.redmagic_constchis[i]) if const else cv[-1]))
        if after:
            c.prove('the redshift correction belongs to the final cut', len(bv) > 0 and o.calls[-1][0] == 'b' and same(np, need(o.calls[-1][1], 'cmaxpars' if 'cmaxpars' in o.calls[-1][1] else list(o.calls[-1][1])[0])[0], o3['cmax']))
            c.prove('and is kept', same(np, o3['bias'], bv[-1][2][0]) and same(np, o3['eratio'], bv[-1][2][1]))
        else:
            c.prove('no correction', not bv and np.all(o3['bias'] == 0) and np.all(o3['eratio'] == 1))
        c.prove('the parameter file has the selection', np.allclose(o3['zrange'], [0.2, zmx[i]]) and np.allclose(o3['cost_zrange'], cz) and same(np, o3['nodes'], nd) and same(np, o3['corrnodes'], cn) and
                o3['etamin'] == eta and o3['n0'] == conf.redmagic_n0s[i] and np.allclose(o3['maxchi'], 20.0) and np.allclose(o3['buffer'], 0.02) and bool(o3['run_afterburner']) == after and
                bool(o3['apply_afterburner']) == app and bytes(o3['name'].item()).decode() == names[i] and bytes(o3['vmaskfile'].item()).decode() == ('' if which == 'none' else 'vlim_mask_with_a_long_file_name_%.2f' % eta))
        if not const:
            q0 = o.calls[0]
            c.prove('started from the density asked for', q0[0] == 'c' and same(np, need(q0[1], 'p0_cval')[0], starts[i]))
        for q, w in zip(o.calls, o.calls[1:]):
            if w[0] == 'c':
                c.prove('a cut is fitted with the correction found last', q[0] == 'b' and bool(w[1].get('afterburner')) and w[1].get('biaspars') is not None and w[1].get('eratiopars') is not None and same(np, w[1]['biaspars'], q[2][0]) and same(np, w[1]['eratiopars'], q[2][1]))
        c.prove('which is only used if it is wanted', after or all(not q[1].get('afterburner') for q in o.calls if q[0] == 'c'))
        if len(sel) > i:
            mode, v, gg = sel[i]
            c.prove('selected with the volume limits used for the fit', mode == names[i] and (v is None or (list(v) == names and all(v[q].kind == which and abs(v[q].eta - e) < 1e-9 for q, e in zip(names, etas)))))
            c.prove('calibration galaxies carry their spectra', same(np, gg.zspec, zs[cand]))
    c.prove('what is plotted is what was selected', len(nz) == nrun and all(np.array_equal(a[0], b[0]) and np.allclose(a[1], b[1]) and np.allclose(a[2], b[2]) for a, b in zip(nz, picked)))
    c.prove('with the parameters of the selection', all(a[3] == nm and a[4] == e and a[5] == n0 and np.allclose(a[6], 1000.0 / (1 + e) * (1.2 - az), rtol=1e-4) for a, nm, e, n0 in zip(nz, names, etas, conf.redmagic_n0s)))
    wantp = []
    for b in picked:
        ix = np.array([int(np.where(g['id'] == q)[0][0]) for q in b[0]], dtype=int)
        for v in (zs, zc):
            ok = np.asarray(v)[ix] > 0
            if ok.sum() > 10:
                wantp.append((np.asarray(v)[ix][ok], b[1][ok], b[2][ok]))
    c.prove('and compared to spectra and clusters where there are any', len(wantp) == len(plots) and all(same(np, x, y) for a, b in zip(wantp, plots) for x, y in zip(a, b)))
    if not told:
        raise StubMissing('configuration written differently')
    c.prove('the run configuration covers the whole sky', told == [('/scratch/' + ('x_run.yml' if 'cal' in conf.configfile else 'x_run.yaml'), [], 0, None)])
    c.prove('and is run if asked', ran == ([told[0][0]] if do else []))
