"""R16: the red-sequence calibration feeds its fits with the right galaxies and keeps what they answer"""
import inspect

from rmv.run import contract, StubMissing
from contracts.stand import Ns, Log, recs, differently

RS = 'redmapper/calibration/redsequencecal.py:RedSequenceCalibrator.'


def bound(fn, a, k):
    """arguments of a call by the names of the real parameters, defaults filled in"""
    try:
        b = inspect.signature(fn).bind(None, *a, **k)
    except TypeError as e:
        differently(str(e))
    b.apply_defaults()
    d = dict(b.arguments)
    d.pop('self', None)
    return d


def need(d, *names):
    for n in names:
        if n not in d:
            raise StubMissing('argument ' + n)
    return [d[n] for n in names]


class Fitters(object):
    """stands for a fitter class: keeps what it is given, answers values of its own"""
    def __init__(self, c, real, answer):
        self.real, self.answer, self.made = real, answer, []
        self.r = c.nrng

    def __call__(self, *a, **k):
        d = bound(self.real.__init__, a, k)
        import numpy as np
        one = Ns(args={n: (np.array(v) if isinstance(v, np.ndarray) else v) for n, v in d.items()}, fits=[])
        if isinstance(d.get('lupcorrs'), np.ndarray):
            one._lupcorrs = np.array(d['lupcorrs'])
        self.made.append(one)

        def fit(*fa, **fk):
            q = bound(self.real.fit, fa, fk)
            q['_lup'] = np.array(one._lupcorrs) if '_lupcorrs' in one.__dict__ else None
            out = self.answer(one, {n: (np.array(v) if isinstance(v, np.ndarray) else v) for n, v in q.items()})
            one.fits.append((q, out))
            return out
        one.fit = fit
        return one


def galaxies(c, np, m, n, nb, b=None):
    """training galaxies with colours around a red sequence"""
    r = c.nrng
    z = r.uniform(0.1, 0.6, n)
    mag = np.cumsum(np.column_stack([r.uniform(20, 22, n)] + [-(0.4 + z * (q + 1) + r.normal(0, 0.15, n)) for q in range(nb - 1)]), axis=1)
    g = recs(np, n, z=z.astype('f4'), mag=mag.astype('f4'), mag_err=r.uniform(0.01, 0.2, (n, nb)).astype('f4'), refmag=mag[:, -1].astype('f4'), refmag_err=r.uniform(0.01, 0.05, n).astype('f4'),
             p=r.uniform(0, 1, n).astype('f4'), pcol=r.uniform(0, 1, n).astype('f4'), id=np.arange(n))
    from redmapper.galaxy import GalaxyCatalog
    return GalaxyCatalog(g)


def same(np, a, b, rtol=1e-5, atol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


@contract('R16', [RS + '_calc_corrections'], kind='conc', bounded='up to 60 galaxies, fits answer random values', trials=60)
def redshift_corrections(c):
    import numpy as np
    m = c.mod('redmapper.calibration.redsequencecal')
    r = c.nrng
    n = int(r.integers(20, 60))
    g = galaxies(c, np, m, n, 3)
    g.add_fields([('zred', 'f4'), ('zred_e', 'f4'), ('lkhd', 'f4')])
    g.zred = g.z + r.normal(0, 0.02, n)
    g.zred_e = r.uniform(0.005, 0.03, n)
    g.lkhd = r.permutation(n) * 0.2 - 8.0
    keep = g._ndarray.copy()
    mode2, nosl, pcol = bool(r.integers(2)), bool(r.integers(2)), bool(r.integers(2))
    nodes, snodes, pz = np.array([0.1, 0.2, 0.35, 0.6]), np.array([0.1, 0.3, 0.6]), np.array([0.1, 0.25, 0.45, 0.6])
    piv = r.uniform(15, 18, 4)
    dt = [(k, 'f8', (4 if 'slope' not in k and '_r' not in k else 3,)) for k in ('corr', 'corr2', 'corr_slope', 'corr2_slope', 'corr_r', 'corr2_r')]
    p = Ns(corr_z=nodes, corr_slope_z=snodes, pivotmag_z=pz, pivotmag=piv, **{k: np.full(s, -7.0) for k, _, s in dt})

    def answer(one, q):
        out = []
        for f, s in (('fit_mean', 4), ('fit_slope', 3), ('fit_r', 3), ('fit_bkg', 3)):
            if need(q, f)[0]:
                out.append(r.uniform(-1, 1, s))
        return tuple(out)
    F = Fitters(c, m.CorrectionFitter, answer)
    c.patch(m, 'CorrectionFitter', F)
    cal = c.bare(m.RedSequenceCalibrator, config=Ns(logger=Log(), calib_use_pcol=pcol, calib_corr_nocorrslope=nosl), pars=p)
    c.get(cal, '_calc_corrections')(g, mode2=mode2)
    c.prove('the galaxies are left alone', np.array_equal(keep, g._ndarray))
    c.prove('one set of data', len(F.made) == 1)
    a = F.made[0].args
    x, y, e, sn, pr, dm, w, mn = need(a, 'redshifts', 'dzs', 'dz_errs', 'slope_nodes', 'probs', 'dmags', 'ws', 'mean_nodes')
    th = np.sort(g.lkhd)[int(0.05 * n)]
    d = np.abs(g.z - g.zred) - 2 * g.zred_e
    if np.min(np.abs(d)) < 1e-5:
        return
    use = np.where((g.lkhd > th) & (d < 0))[0]
    c.prove('fitted to the likely galaxies within two sigma', np.asarray(x).size == use.size)
    c.prove('as a function of true redshift, or of measured redshift in the second mode', same(np, x, (g.zred if mode2 else g.z)[use]))
    c.prove('offset of true from measured redshift, with its error', same(np, y, (g.z - g.zred)[use]) and same(np, e, g.zred_e[use]))
    c.prove('nodes', same(np, mn, nodes) and same(np, sn, snodes))
    c.prove('with the membership probability asked for', same(np, pr, np.clip((g.pcol if pcol else g.p)[use], None, 0.99)))
    spl = m.CubicSpline(pz, piv)
    c.prove('magnitudes relative to the pivot', same(np, dm, g.refmag[use] - spl(g.z)[use], atol=1e-4))
    c.prove('weighted down towards the likelihood threshold', same(np, w, 1. / (np.exp((th - g.lkhd[use]) / 0.2) + 1.0), rtol=1e-3))
    last = {'fit_mean': None, 'fit_slope': np.zeros(3), 'fit_r': None}
    for q, out in F.made[0].fits:
        k = 0
        for f in ('fit_mean', 'fit_slope', 'fit_r', 'fit_bkg'):
            if q[f]:
                last[f] = out[k]
                k += 1
    lastq = F.made[0].fits[-1][0]
    c.prove('all of it is fitted together at the end', lastq['fit_mean'] and lastq['fit_r'] and lastq['fit_bkg'] and lastq['fit_slope'] == (not nosl))
    c.prove('without slopes none is fitted', not nosl or not any(q['fit_slope'] for q, _ in F.made[0].fits))
    mine, other = ('corr2', 'corr') if mode2 else ('corr', 'corr2')
    c.prove('the answer is kept as the correction of this mode', same(np, getattr(p, mine), last['fit_mean']) and same(np, getattr(p, mine + '_slope'), last['fit_slope']) and
            same(np, getattr(p, mine + '_r'), last['fit_r']))
    c.prove('the other mode is left alone', all((getattr(p, other + s) == -7.0).all() for s in ('', '_slope', '_r')))
    q0 = F.made[0].fits[0][0]
    p0m, p0b = need(q0, 'p0_mean', 'p0_bkg')
    edges = lambda nd: np.concatenate([[nd[0]], (nd[1:] + nd[:-1]) / 2., [nd[-1]]])
    ed, v = edges(nodes), 0.0
    for i in range(4):
        u = (g.z > ed[i]) & (g.z < ed[i + 1])
        v = np.median((g.z - g.zred)[u]) if u.sum() >= 3 else v
        c.prove('offsets start from the median around each node', abs(p0m[i] - v) < 1e-5)


@contract('R16', [RS + '_calc_pivotmags', RS + '_calc_medcols'], kind='conc', bounded='up to 60 galaxies of 2 to 5 bands, fits answer random values', trials=50)
def medians(c):
    import numpy as np
    m = c.mod('redmapper.calibration.redsequencecal')
    r = c.nrng
    n, nb = int(r.integers(20, 60)), int(r.integers(2, 6))
    g = galaxies(c, np, m, n, nb)
    keep = g._ndarray.copy()
    nodes = np.array([0.1, 0.25, 0.4, 0.6])
    ans = lambda one, q: r.uniform(0.05, 1, 4)
    F = Fitters(c, m.MedZFitter, ans)
    c.patch(m, 'MedZFitter', F)
    lref = float(r.choice([0.05, 0.1, 0.2, 0.5]))
    fer = bool(r.integers(2))
    p = Ns(pivotmag_z=nodes, pivotmag=None, minrefmag=None, maxrefmag=None, medcol=np.zeros((4, nb - 1)), medcol_width=np.zeros((4, nb - 1)), medcol_err_ratio=np.zeros(nb - 1))
    cal = c.bare(m.RedSequenceCalibrator, config=Ns(logger=Log(), lval_reference=lref, nmag=nb, calib_fit_err_ratio=fer), pars=p, zredstr=Ns(mstar=lambda z: 16.0 + 5 * np.asarray(z)))
    c.get(cal, '_calc_pivotmags')(g)
    c.prove('one fit', len(F.made) == 1 and len(F.made[0].fits) == 1)
    zn, zz, vv = need(F.made[0].args, 'z_nodes', 'redshifts', 'values')
    c.prove('the pivot is the median magnitude with redshift', same(np, zn, nodes) and same(np, zz, g.z) and same(np, vv, g.refmag) and same(np, p.pivotmag, F.made[0].fits[0][1]))
    ms = 16.0 + 5 * nodes
    c.prove('magnitude range of the model', same(np, p.minrefmag, ms - 2.5 * np.log10(30.0)) and same(np, p.maxrefmag, ms - 2.5 * np.log10(max(lref - 0.1, 0.001))))
    del F.made[:]
    c.get(cal, '_calc_medcols')(g)
    col = keep['mag'][:, :-1] - keep['mag'][:, 1:]
    err = np.sqrt(keep['mag_err'][:, :-1] ** 2 + keep['mag_err'][:, 1:] ** 2)
    c.prove('two fits of each colour', len(F.made) == 2 * (nb - 1))
    for j in range(nb - 1):
        mine = [o for o in F.made if same(np, need(o.args, 'values')[0], col[:, j], atol=1e-5)]
        c.prove('the median of every colour is fitted', len(mine) == 1 and same(np, mine[0].args['redshifts'], g.z) and same(np, mine[0].args['z_nodes'], nodes))
        mv = mine[0].fits[-1][1]
        med = m.CubicSpline(nodes, mv)(g.z)
        ws = [o for o in F.made if o is not mine[0] and same(np, o.args['values'], np.abs(col[:, j] - med), atol=1e-4)]
        c.prove('and the median distance from it', len(ws) == 1 and same(np, ws[0].args['redshifts'], g.z) and same(np, ws[0].args['z_nodes'], nodes))
        c.prove('widths stay positive', need(ws[0].fits[-1][0], 'min_val')[0] == 0.01)
        c.prove('kept per colour', same(np, p.medcol[:, j], mv) and same(np, p.medcol_width[:, j], 1.4826 * ws[0].fits[-1][1]))
        if not fer:
            c.prove('no error ratio', p.medcol_err_ratio[j] == 1.0)
        else:
            rat = np.arange(0.5, 10.0, 0.1)
            sp = []
            for q in rat:
                pu = (col[:, j] - med) / np.sqrt((q * err[:, j]) ** 2 + p.medcol_width[0, j] ** 2)
                sp.append(abs(1.4826 * np.median(np.abs(pu - np.median(pu))) - 1.0))
            k = int(np.argmin(np.abs(rat - p.medcol_err_ratio[j])))
            c.prove('error ratio whose pulls are closest to one', abs(rat[k] - p.medcol_err_ratio[j]) < 1e-5 and sp[k] <= min(sp) + 1e-4)
    c.prove('the galaxies are left alone', np.array_equal(keep, g._ndarray))


@contract('R16', [RS + '_calc_diagonal_pars'], kind='conc', bounded='up to 60 galaxies of 2 to 5 bands, fits answer random values', trials=60)
def one_colour_at_a_time(c):
    import numpy as np
    m = c.mod('redmapper.calibration.redsequencecal')
    r = c.nrng
    n, nb = int(r.integers(25, 60)), int(r.integers(2, 6))
    ref = int(r.integers(0, nb))
    g = galaxies(c, np, m, n, nb)
    keep = g._ndarray.copy()
    pn, cn = np.array([0.1, 0.25, 0.4, 0.6]), np.array([0.1, 0.3, 0.6])
    fer, lup, pcol = bool(r.integers(2)), bool(r.integers(2)), bool(r.integers(2))
    col = keep['mag'][:, :-1] - keep['mag'][:, 1:]
    zt, ct, st, sl = [['%s%02d' % (t, j) for j in range(nb - 1)] for t in ('z', 'c', 'zs', 'slope')]
    arr = {}
    for j in range(nb - 1):
        k = int(r.integers(4, 6))
        arr[zt[j]] = np.linspace(0.1, 0.6, k)
        arr[st[j]] = np.array([0.1, 0.35, 0.6]) if r.integers(2) else np.linspace(0.1, 0.6, k)
        arr[ct[j]], arr[sl[j]] = np.zeros(k), np.zeros(arr[st[j]].size)
    mc = np.column_stack([np.interp(pn, np.sort(g.z), np.full(n, np.median(col[:, j]))) + (pn - 0.35) * (j + 1) for j in range(nb - 1)])
    mw = r.uniform(0.05, 0.2, (4, nb - 1))
    nsig = float(r.choice([1.0, 2.0, 3.0]))
    p = Ns(_ndarray=arr, pivotmag_z=pn, pivotmag=r.uniform(15, 18, 4), covmat_z=cn, medcol=mc.copy(), medcol_width=mw.copy(), medcol_err_ratio=r.uniform(0.8, 2, nb - 1),
           mag_err_ratio_int=np.full(nb, -3.0), mag_err_ratio_slope=np.full(nb, -3.0), mag_err_ratio_pivot=20.0, sigma=np.zeros((nb - 1, nb - 1, 3)), covmat_amp=np.zeros((nb - 1, nb - 1, 3)))
    b = r.uniform(1e-11, 1e-10, nb)
    asked = []

    def look(k, cc, mm, doRaise=True):
        asked.append(int(k))
        return 0.1 + 0.3 * k + 0.01 * np.asarray(cc) + 0.001 * np.asarray(mm)

    def answer(one, q):
        out = []
        nm, ns = one.args['mean_nodes'].size, one.args['slope_nodes'].size
        for f, s in (('fit_mean', nm), ('fit_slope', ns), ('fit_scatter', cn.size)):
            if need(q, f)[0]:
                v = r.uniform(0.02, 0.3, s)
                if f == 'fit_scatter' and q.get('err_ratio_pars') is not None:
                    v = np.append(v, r.uniform(0.5, 2, 2))
                out.append(v)
        return tuple(out)
    F = Fitters(c, m.RedSequenceFitter, answer)
    E = Fitters(c, m.ErrorBinFitter, lambda one, q: r.uniform(0.5, 2.0, 2))
    c.patch(m, 'RedSequenceFitter', F)
    c.patch(m, 'ErrorBinFitter', E)
    conf = Ns(logger=Log(), nmag=nb, ref_ind=ref, calib_use_pcol=pcol, calib_color_nsig=nsig, calib_err_ratio_pivot=20.0, calib_fit_err_ratio=fer, b=b)
    cal = c.bare(m.RedSequenceCalibrator, config=conf, pars=p, ztag=zt, ctag=ct, zstag=st, stag=sl, do_lupcorr=lup, bkg=Ns(lookup_diagonal=look), lupzp=22.5, bnmgy=b * 1e9)
    c.get(cal, '_calc_diagonal_pars')(g, doRaise=False)
    c.prove('the galaxies are left alone', np.array_equal(keep, g._ndarray))
    c.prove('each colour once', sorted(asked) == list(range(nb - 1)) and len(F.made) == nb - 1)
    # outwards from the reference band
    order = list(range(ref, nb - 1)) + list(range(ref - 1, -1, -1))
    c.prove('from the reference band outwards', asked == order or not (lup or fer))
    piv = m.CubicSpline(pn, p.pivotmag)(g.z)
    dm = g.refmag - piv
    der = g.refmag - 20.0
    ri, rs = np.full(nb, np.nan), np.full(nb, np.nan)      # ratios known so far
    model, lups = np.zeros((n, nb)), np.zeros((n, nb))

    def aslup(mm, q):
        return 2.5 * np.log10(1.0 / b[q]) - np.arcsinh(0.5 * 10. ** ((mm - 22.5) / -2.5) / (b[q] * 1e9)) / (0.4 * np.log(10.0))
    model[:, ref] = g.mag[:, ref]
    lups[:, ref] = aslup(model[:, ref], ref)
    for q, j in enumerate(asked):
        one = F.made[q]
        a = one.args
        med, sc = m.CubicSpline(pn, mc[:, j])(g.z), m.CubicSpline(pn, mw[:, j])(g.z)
        dd = np.abs(col[:, j] - med) - nsig * sc
        if np.min(np.abs(dd)) < 1e-5:
            return
        u = np.where(dd < 0)[0]
        z, cc, me, dmg, tr, pr, bk, snd, cnd, mnd, smax, dr, lc0 = need(a, 'redshifts', 'colors', 'mag_errs', 'dmags', 'trunc', 'probs', 'bkgs', 'slope_nodes', 'scatter_nodes', 'mean_nodes', 'scatter_max', 'dmags_err_ratio', 'lupcorrs')
        c.prove('fitted to the galaxies around the median colour', same(np, z, g.z[u]) and same(np, cc, col[u, j], atol=1e-5))
        c.prove('truncated there', same(np, tr, nsig * sc[u]))
        c.prove('with their own probability, magnitude and background', same(np, pr, (keep['pcol'] if pcol else keep['p'])[u]) and same(np, dmg, dm[u], atol=1e-4) and
                same(np, bk, 0.1 + 0.3 * j + 0.01 * col[u, j] + 0.001 * keep['refmag'][u]))
        c.prove('nodes of this colour', same(np, mnd, arr[zt[j]]) and same(np, snd, arr[st[j]]) and same(np, cnd, cn))
        c.prove('scatter below the total width', same(np, smax, m.CubicSpline(pn, mw[:, j])(cn)))
        er = keep['mag_err'][:, j:j + 2].astype('f8')
        sign, mind = (-1, j + 1) if j >= ref else (1, j)
        if fer:
            c.prove('error ratios relative to their pivot', same(np, dr, der[u]))
            if q > 0:
                known = 0 if sign < 0 else 1
                er[:, known] *= ri[j + known] + rs[j + known] * der
                ind = [1 - known]
            else:
                ind = [0, 1]
        c.prove('errors of the two bands, scaled where their ratio is known', same(np, me, er[u], rtol=1e-4))
        c0 = one.fits[0][0]['p0_mean'], one.fits[0][0]['p0_slope']
        if lup:
            def corr(cv, sv):
                mm = model.copy()
                ll = lups.copy()
                mm[:, mind] = mm[:, mind + sign] + sign * (m.CubicSpline(arr[zt[j]], cv)(g.z) + m.CubicSpline(arr[st[j]], sv)(g.z) * dm)
                ll[:, mind] = aslup(mm[:, mind], mind)
                return mm, ll, (ll[:, j] - ll[:, j + 1]) - (mm[:, j] - mm[:, j + 1])
            c.prove('asinh correction of the starting colours', same(np, lc0, corr(*c0)[2][u], atol=1e-4))
        else:
            c.prove('no asinh correction', not np.any(lc0))
        final = one.fits[-1]
        c.prove('all together at the end', final[0]['fit_mean'] and final[0]['fit_slope'] and final[0]['fit_scatter'])
        cv, sv, sg = final[1]
        if lup:
            first = one.fits[0][1][0]
            model, lups, lc = corr(first, c0[1])
            c.prove('asinh correction follows the fitted colours', same(np, final[0]['_lup'], lc[u], atol=1e-4))
        if fer:
            sg = sg[:-2]
            c.prove('fits know which errors are free', list(final[0]['fit_err_ratio_ind']) == ind)
            e = E.made[q]
            dc, dmm, e0, e1, s2 = need(e.args, 'delta_col', 'delta_mag', 'err_0', 'err_1', 'sigint2')
            gm, gs, gg = m.CubicSpline(arr[zt[j]], cv)(g.z), m.CubicSpline(arr[st[j]], sv)(g.z), np.clip(m.CubicSpline(cn, sg)(g.z), 0.001, None)
            c.prove('error ratio from the residuals of the model', same(np, dc, col[:, j] - (gm + gs * dm), atol=1e-4) and same(np, dmm, der) and same(np, s2, gg ** 2, atol=1e-5))
            c.prove('with the errors of the two bands', same(np, e0, er[:, 0], rtol=1e-4) and same(np, e1, er[:, 1], rtol=1e-4))
            si = need(e.fits[-1][0], 'scale_indices')[0]
            c.prove('for the errors that are free', list(si) == ind)
            for t in ind:
                ri[j + t], rs[j + t] = e.fits[-1][1]
        else:
            ri[j:j + 2], rs[j:j + 2] = 1.0, 0.0
        c.prove('colours and slopes at the nodes', same(np, arr[ct[j]], cv) and same(np, arr[sl[j]], sv))
        c.prove('scatter and its variance', same(np, p.sigma[j, j], sg) and same(np, p.covmat_amp[j, j], sg ** 2))
    c.prove('an error ratio for each band', same(np, p.mag_err_ratio_int, ri) and same(np, p.mag_err_ratio_slope, rs))
    off = ~np.eye(nb - 1, dtype=bool)
    c.prove('nothing off the diagonal', not p.sigma[off].any() and not p.covmat_amp[off].any())


@contract('R16', [RS + 'save_pars', RS + '_calc_zreds'], kind='conc', bounded='sampled settings', trials=80)
def parameter_file(c):
    import numpy as np
    m = c.mod('redmapper.calibration.redsequencecal')
    r = c.nrng
    nb = int(r.integers(2, 6))
    tmpl = 'templ' if r.integers(2) else None
    zmax = float(r.choice([0.5, 0.8, 2.0]))
    zr = [float(r.choice([0.05, 0.1, 0.3])), float(r.choice([0.4, 0.6]))]
    b = r.uniform(1, 2, nb) * float(r.integers(2))
    conf = Ns(logger=Log(), nmag=nb, mstar_survey='sdss', mstar_band='i03', limmag_catalog=21.5, zrange=zr, calib_lumfunc_alpha=-1.1, zredc_binsize_fine=0.002, zredc_binsize_coarse=0.007,
              ref_ind=int(r.integers(0, nb)), bands=list('griz1')[:nb], calib_redgal_template=tmpl, b=b, parfile='par.fit', zred_nsamp=4)
    out = []
    asked = []
    c.patch(m, 'RedGalInitialColors', lambda f: (asked.append(f), Ns(zmax=zmax))[1])
    pars = Ns(to_fits_file=lambda filename, clobber=False, header=None, extname=None, indices=None: out.append((filename, clobber, header, indices)))
    cal = c.bare(m.RedSequenceCalibrator, config=conf, pars=pars)
    clob = bool(r.integers(2))
    c.get(cal, 'save_pars')('some.fit', clobber=clob)
    c.prove('written once, under its name, replacing a file only when asked', len(out) == 1 and out[0][0] == 'some.fit' and bool(out[0][1]) == clob and out[0][3] is None)
    h = out[0][2]
    c.prove('number of colours and reference band', h['NCOL'] == nb - 1 and h['REF_IND'] == conf.ref_ind)
    c.prove('settings of the model', h['MSTARSUR'].strip() == 'sdss' and h['MSTARBAN'].strip() == 'i03' and h['LIMMAG'] == 21.5 and h['ALPHA'] == -1.1)
    c.prove('redshift bins', h['ZBINFINE'] == 0.002 and h['ZBINCOAR'] == 0.007 and h['LOWZMODE'] == 0)
    c.prove('redshift range with its cushion, inside the template', abs(h['ZRANGE0'] - max(zr[0] - 0.1, 0.01)) < 1e-9 and abs(h['ZRANGE1'] - (zr[1] + 0.25 if tmpl is None else min(zr[1] + 0.25, zmax))) < 1e-9)
    c.prove('bands', h['BANDS'].strip() == ','.join(conf.bands))
    c.prove('template', (tmpl is None and 'TEMPLATE' not in h) or (tmpl is not None and h['TEMPLATE'].strip() == tmpl and set(asked) == {tmpl}))
    for q in range(nb):
        k = 'BVALUE%d' % (q + 1)
        c.prove('asinh softening of every band, if any', (k in h and abs(h[k] - b[q]) < 1e-9) if b[0] > 0 else k not in h)
    # redshifts of the training galaxies
    log = []
    do = bool(r.integers(2))
    c.patch(m, 'RedSequenceColorPar', lambda f, *a, **k: (log.append(('par', f, a, k)), Ns(tag='model'))[1])

    def zc(zredstr, sigint=0.001, do_correction=True, use_photoerr=True, zrange=None, **k):
        log.append(('zred', zredstr.tag, bool(do_correction), zrange))
        return Ns(compute_zreds=lambda galaxies: log.append(('run', galaxies)))
    c.patch(m, 'ZredColor', zc)
    g = Ns(add_zred_fields=lambda n: log.append(('fields', n)))
    c.get(cal, '_calc_zreds')(g, do_correction=do)
    c.prove('with the model of the parameter file', ('par', 'par.fit') in [x[:2] for x in log])
    c.prove('corrected if asked', [x for x in log if x[0] == 'zred'] == [('zred', 'model', do, None)])
    c.prove('for these galaxies, with their fields', [x[1] for x in log if x[0] == 'run'] == [g] and [x[1] for x in log if x[0] == 'fields'] == [4] and log.index(('fields', 4)) < len(log) - 1)


@contract('R16', [RS + 'run'], kind='conc', bounded='up to 40 galaxies of 2 to 5 bands, steps by their own contracts', trials=60)
def red_sequence_steps(c):
    import numpy as np
    m = c.mod('redmapper.calibration.redsequencecal')
    r = c.nrng
    n, nb = int(r.integers(1, 40)), int(r.integers(2, 6))
    g = galaxies(c, np, m, n, nb)
    pcol, lup = bool(r.integers(2)), bool(r.integers(2))
    zr = [0.15, 0.55]
    b = np.full(nb, 1e-10) if lup else np.zeros(nb)
    conf = Ns(logger=Log(), centering_use_zspec=bool(r.integers(2)), calib_use_pcol=pcol, zrange=zr, calib_pcut=0.3, calib_color_pcut=0.7, nmag=nb, calib_pivotmag_nodesize=0.1, calib_covmat_nodesize=0.15,
              calib_corr_nodesize=0.05, calib_corr_slope_nodesize=0.1, calib_err_ratio_pivot=19.5, calib_color_nodesizes=r.choice([0.05, 0.1], nb - 1), calib_slope_nodesizes=r.choice([0.1, 0.2], nb - 1),
              calib_color_maxnodes=np.where(r.integers(2, size=nb - 1), 0.4, -1.0), bkgfile_color='bkgcol.fit', b=b, parfile='par.fit', outpath='/out/x.fit.d')
    read, log, out = [], [], {}
    f0 = '/in/y.fit.d/mems.fit_a.fit'
    GC = m.GalaxyCatalog

    class G(GC):
        @classmethod
        def from_galfile(cls, filename, **k):
            read.append((filename, k.get('zspec')))
            return GC(g._ndarray.copy())
    c.patch(m, 'GalaxyCatalog', G)
    c.patch(GC, 'to_fits_file', lambda self, filename, clobber=False, header=None, extname=None, indices=None: out.update({filename: self._ndarray.copy()}))
    c.patch(m, 'RedSequenceColorPar', lambda f, **k: Ns(f=f))
    c.patch(m, 'ColorBackground', lambda f, *a, **k: Ns(f=f))
    cal = c.bare(m.RedSequenceCalibrator, config=conf, _galfile=f0)
    st = lambda nm: (lambda *a, **k: log.append((nm, a, k)))

    def piv(gals):
        log.append(('piv', gals))
        cal.pars.pivotmag = 3.0 * np.ones(cal.pars.pivotmag_z.size)
    cal._calc_pivotmags = piv
    cal._calc_medcols = lambda gals: log.append(('med', gals, cal.pars.pivotmag[0]))
    cal._calc_diagonal_pars = lambda gals, doRaise=True: log.append(('diag', gals, doRaise))
    cal._calc_offdiagonal_pars = lambda gals, doRaise=True: log.append(('off', gals, doRaise))
    cal._calc_volume_factor = lambda zref: log.append(('vol', zref))
    cal.save_pars = lambda filename, clobber=False: log.append(('save', filename, clobber))

    def zreds(gals, do_correction=True):
        log.append(('zreds', gals, do_correction))
        gals.add_fields([('zred', 'f4')]) if 'zred' not in gals.dtype.names else None
        gals.zred = gals.z + (2.0 if do_correction else 1.0)
    cal._calc_zreds = zreds
    cal._calc_corrections = lambda gals, mode2=False: log.append(('corr', gals, mode2))
    cal._make_diagnostic_plots = lambda gals: log.append(('plot', gals))
    pr = (g.pcol if pcol else g.p)
    use = (g.z > zr[0]) & (g.z < zr[1]) & (pr > 0.3)
    dr = bool(r.integers(2))
    bad, _ = c.raises(RuntimeError, lambda: cal.run(doRaise=dr))
    c.prove('refused exactly without any galaxy', bad == (not use.any()))
    c.prove('galaxies of the file given', read == [(f0, conf.centering_use_zspec)])
    if bad:
        c.prove('and nothing done', not log and not out)
        return
    ids = np.sort(g.id[use])
    cids = np.sort(g.id[use & (pr > 0.7)])
    steps = [x[0] for x in log if x[0] != 'plot']
    c.prove('every step', sorted(steps) == sorted(['piv', 'med', 'diag', 'off', 'vol', 'save', 'zreds', 'corr', 'corr', 'save', 'zreds']))
    at = lambda nm, k=0: [i for i, x in enumerate(log) if x[0] == nm][k]
    c.prove('each on the result of the one before', at('piv') < at('med') < at('diag') < at('off') < at('save') < at('zreds') < at('corr') and at('corr', 1) < at('save', 1) < at('zreds', 1) and at('vol') < at('save'))
    for x in log:
        if x[0] in ('piv', 'med'):
            c.prove('pivot and medians from the probable members', np.array_equal(np.sort(x[1].id), cids))
        elif x[0] in ('diag', 'off', 'zreds', 'corr'):
            c.prove('fits from the members in the redshift range', np.array_equal(np.sort(x[1].id), ids))
        if x[0] in ('diag', 'off'):
            c.prove('background problems raised only when asked', x[2] == dr)
    c.prove('redshifts first without corrections, then with', [x[2] for x in log if x[0] == 'zreds'] == [False, True])
    c.prove('one correction of each mode', sorted(x[2] for x in log if x[0] == 'corr') == [False, True])
    c.prove('corrections added to the same file', [x[1] for x in log if x[0] == 'save'] == ['par.fit', 'par.fit'] and log[at('save', 1)][2])
    c.prove('volumes relative to the highest redshift', [x[1] for x in log if x[0] == 'vol'] == [zr[1]])
    c.prove('galaxies and redshifts kept', list(out) == ['/out/x.fit.d/mems.fit_a_zreds.fit'] and np.array_equal(np.sort(list(out.values())[0]['id']), ids) and np.allclose(list(out.values())[0]['zred'] - list(out.values())[0]['z'], 2.0, atol=1e-4))
    p = cal.pars
    mk = m.make_nodes
    ok = lambda a, size, **k: same(np, a, mk(zr, size, **k))
    c.prove('nodes of every table', ok(p.pivotmag_z, 0.1) and ok(p.covmat_z, 0.15) and ok(p.corr_z, 0.05) and ok(p.corr_slope_z, 0.1) and ok(p.volume_factor_z, 0.01))
    for j in range(nb - 1):
        zt, zs = p._ndarray['z%02d' % j], p._ndarray['zs%02d' % j]
        c.prove('nodes of every colour', ok(zt, conf.calib_color_nodesizes[j], maxnode=conf.calib_color_maxnodes[j]) and ok(zs, conf.calib_slope_nodesizes[j], maxnode=conf.calib_color_maxnodes[j]))
        c.prove('values at every node', p._ndarray['c%02d' % j].size == zt.size and p._ndarray['slope%02d' % j].size == zs.size)
    c.prove('tables of the right size', p.medcol.shape == (p.pivotmag_z.size, nb - 1) and p.covmat_amp.shape == (nb - 1, nb - 1, p.covmat_z.size) and p.corr.size == p.corr_z.size and p.corr2_r.size == p.corr_slope_z.size and
            abs(p.mag_err_ratio_pivot - 19.5) < 1e-6 and p.mag_err_ratio_int.size == nb)
    c.prove('background file', cal.bkg.f == 'bkgcol.fit')
    c.prove('asinh corrections with softening only', bool(cal.do_lupcorr) == lup and (not lup or same(np, cal.bnmgy, b * 1e9)))
