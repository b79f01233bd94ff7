"""R06: the red-sequence model tables and their lookups"""
from rmv.run import contract
from rmv import arr
from contracts.stand import Gals

RS = 'redmapper/redsequence.py:RedSequenceColorPar.'
ASM = ['compute_chisq is used through its contract (R04): only what it is handed is checked here']


def bare(c, k):
    m = c.mod('redmapper.redsequence')
    return m, c.bare(c.get(m, 'RedSequenceColorPar'), **k)


def index_contract(c, meth, iname, sname):
    nz = c.size('nz', min=2, max=8)
    zi_ = c.array('grid', nz, kind='i', sorted='inc', lo=0, gen=(5, 40), special=(7, 8, 9, 10))
    sc = c.choice('scale', [100, 1000, 20])
    m, rs = bare(c, {iname: zi_, sname: sc})
    n = c.size('n', min=1, max=5)
    z = c.array('z', n, lo=0, gen=(0, 45. / sc), special=[float(x) / sc for x in zi_] if not c.symbolic else ())
    k = c.int('k', lo=0, hi=nz - 1)
    z0 = c.snapshot(z)
    r = getattr(rs, meth)(z)
    ra = c.np.atleast_1d(r)
    c.prove('one index per value', ra.size == n)
    for i in c.each(n):
        q = ra[i]
        c.prove('index inside the table', c.implies(z[i] * sc < zi_[nz - 1], c.And(q >= 0, q < nz)))
        c.prove('a grid value maps to its own row', c.implies(c.close(z[i] * sc, zi_[k]), q == k))
        c.prove('nearest grid value',
                c.implies(c.And(z[i] * sc > zi_[k] - 0.4999, z[i] * sc < zi_[k] + 0.4999), q == k))
        c.prove('input unchanged', c.same(z[i], z0[i]))


@contract('R06', [RS + 'zindex'])
def zindex(c):
    index_contract(c, 'zindex', 'zinteger', 'zbinscale')


@contract('R06', [RS + 'refmagindex'])
def refmagindex(c):
    index_contract(c, 'refmagindex', 'refmaginteger', 'refmagbinscale')


@contract('R06', [RS + 'lumrefmagindex'])
def lumrefmagindex(c):
    index_contract(c, 'lumrefmagindex', 'lumrefmaginteger', 'refmagbinscale')


@contract('R06', [RS + 'zindex', RS + 'mstar'])
def scalars(c):
    """a single value gives a plain number"""
    nz = c.size('nz', min=2, max=8)
    zi_ = c.array('grid', nz, kind='i', sorted='inc', lo=0, gen=(5, 40))
    ms = c.array('ms', nz, gen=(15, 22))
    m, rs = bare(c, dict(zinteger=zi_, zbinscale=1000, _mstar=ms))
    z = c.float('z', lo=0, gen=(0, 0.04))
    c.assume(z * 1000 < zi_[nz - 1])
    k = c.int('k', lo=0, hi=nz - 1)
    r = rs.zindex(z)
    c.prove('plain number for a plain redshift', not hasattr(r, 'shape') or r.shape == ())
    near = c.And(z * 1000 > zi_[k] - 0.4999, z * 1000 < zi_[k] + 0.4999)
    c.prove('nearest row', c.implies(near, r == k))
    c.prove('characteristic magnitude of the nearest row', c.implies(near, c.same(rs.mstar(z), ms[k])))


def tables(c, nz, nm, ncol):
    t = dict(covmat=c.array('covmat', (ncol, ncol, nz)), c=c.array('c', (nz, ncol)), slope=c.array('slope', (nz, ncol)),
             pivotmag=c.array('pivotmag', nz), lupcorr=c.array('lupcorr', (nm, nz, ncol)),
             mag_err_ratio_intercept=c.array('mi', ncol + 1), mag_err_ratio_slope=c.array('ms', ncol + 1),
             mag_err_ratio_pivot=c.float('mp', gen=(18, 22)), nmag=ncol + 1, ncol=ncol,
             zinteger=c.array('zgrid', nz, kind='i', sorted='inc', lo=0, gen=(5, 40)), zbinscale=1000,
             refmaginteger=c.array('mgrid', nm, kind='i', sorted='inc', lo=0, gen=(1500, 2200)), refmagbinscale=100)
    return t


def near(c, name, n, k, grid, scale):
    """values within half a step of the grid rows k"""
    if c.symbolic:
        g = lambda idx: grid.at((arr.ix(k.at((idx[0],))),))
        return c.array(name, n, elem=lambda idx, v: c.And(v * scale > g(idx) - 0.49, v * scale < g(idx) + 0.49))
    off = c.array(name + '#off', n, gen=(-0.48, 0.48))
    return (grid[k] + off) / float(scale)


def recorder(c, m, n):
    out = {}

    def compute_chisq(covmat, c, slope, pivotmag, refmag, magerr, color, refmagerr=None, lupcorr=None, calc_chisq=True, calc_lkhd=False):
        out.update(covmat=covmat, c=c, slope=slope, pivotmag=pivotmag, refmag=refmag, magerr=magerr, color=color,
                   refmagerr=refmagerr, lupcorr=lupcorr, calc_chisq=calc_chisq, calc_lkhd=calc_lkhd)
        return 'result'
    c.patch(m, 'compute_chisq', compute_chisq)
    return out


def pick(a, i, nd):
    """value for galaxy/redshift i; the array may carry no such axis when it is common to all"""
    if not hasattr(a, 'shape'):
        return a
    if len(a.shape) == nd:
        return a
    return a[..., i] if nd == 2 else a[i]


def one(a, i):
    return pick(a, i, 0)


@contract('R06', [RS + 'calculate_chisq', RS + 'zindex', RS + 'refmagindex'], assumes=ASM, budget=120)
def bind_galaxies(c):
    """many galaxies at one redshift or at one redshift each"""
    ncol = c.choice('ncol', [1, 2, 4])
    nz, nm = c.size('nz', min=2, max=6), c.size('nm', min=2, max=6)
    t = tables(c, nz, nm, ncol)
    m, rs = bare(c, t)
    n = c.size('n', min=1, max=5)
    kz = c.array('kz', n, kind='i', lo=0, hi=nz - 1)
    km = c.array('km', n, kind='i', lo=0, hi=nm - 1)
    mag, zz = near(c, 'mag', n, km, t['refmaginteger'], 100), near(c, 'z', n, kz, t['zinteger'], 1000)
    g = Gals(n, refmag=mag, galcol=c.array('col', (n, ncol)), mag_err=c.array('err', (n, ncol + 1), lo=0),
             refmag_err=c.array('rerr', n, lo=0))
    lk = c.choice('lkhd', [False, True])
    asidx = c.choice('asindex', [False, True])
    many = c.choice('many', [True, False])
    z = (kz if many else kz[0]) if asidx else (zz if many else zz[0])
    e0, m0, c0 = c.snapshot(g.mag_err), c.snapshot(g.refmag), c.snapshot(g.galcol)
    o = recorder(c, m, n)
    r = rs.calculate_chisq(g, z, calc_lkhd=lk, z_is_index=asidx)
    c.prove('returns what the chi-squared routine computed', r == 'result')
    c.prove('asks for what was requested', bool(o['calc_lkhd']) == lk and bool(o['calc_chisq']) == (not lk))
    given = all(o[q] is not None for q in ('covmat', 'c', 'slope', 'pivotmag', 'refmag', 'magerr', 'color', 'refmagerr', 'lupcorr'))
    c.prove('every part of the model is passed on', given)
    if not given:
        return
    for i in c.each(n):
        q = kz[i] if many else kz[0]
        cm, cc, sl, pv = pick(o['covmat'], i, 2), pick(o['c'], i, 1), pick(o['slope'], i, 1), pick(o['pivotmag'], i, 0)
        lc = o['lupcorr'][i] if len(o['lupcorr'].shape) == 2 else o['lupcorr']
        c.prove('own magnitude', c.same(one(o['refmag'], i), m0[i]))
        c.prove('own reference error', c.same(one(o['refmagerr'], i), g.refmag_err[i]))
        c.prove('pivot of the redshift row', c.same(pv, t['pivotmag'][q]))
        for j in range(ncol):
            c.prove('own colours', c.same(o['color'][i, j], c0[i, j]))
            c.prove('colour model of the redshift row', c.And(c.same(cc[j], t['c'][q, j]), c.same(sl[j], t['slope'][q, j])))
            c.prove('luptitude correction at the galaxy magnitude and redshift row', c.same(lc[j], t['lupcorr'][km[i], q, j]))
            for k in range(ncol):
                c.prove('covariance of the redshift row', c.same(cm[j, k], t['covmat'][j, k, q]))
        for j in range(ncol + 1):
            f = t['mag_err_ratio_intercept'][j] + t['mag_err_ratio_slope'][j] * (m0[i] - t['mag_err_ratio_pivot'])
            c.prove('errors scaled by the calibrated ratio of the band', c.close(o['magerr'][i, j], e0[i, j] * f))
            c.prove('the catalogue is not modified', c.same(g.mag_err[i, j], e0[i, j]))


@contract('R06', [RS + 'calculate_chisq_redshifts'], assumes=ASM, budget=120)
def bind_redshifts(c):
    """one galaxy at many redshifts"""
    ncol = c.choice('ncol', [1, 2, 4])
    nz, nm = c.size('nz', min=2, max=6), c.size('nm', min=2, max=6)
    t = tables(c, nz, nm, ncol)
    m, rs = bare(c, t)
    n = c.size('n', min=2, max=5)
    kz = c.array('kz', n, kind='i', lo=0, hi=nz - 1)
    kk = c.array('kk', 1, kind='i', lo=0, hi=nm - 1)
    km = kk[0]
    mag = near(c, 'mag', 1, kk, t['refmaginteger'], 100)[0]
    zz = near(c, 'z', n, kz, t['zinteger'], 1000)
    lk = c.choice('lkhd', [False, True])
    asidx = c.choice('asindex', [False, True])
    g = Gals(1, refmag=mag, galcol=c.array('col', ncol), mag_err=c.array('err', ncol + 1, lo=0), refmag_err=c.float('rerr', lo=0))
    e0 = c.snapshot(g.mag_err)
    o = recorder(c, m, n)
    r = rs.calculate_chisq_redshifts(g, kz if asidx else zz, calc_lkhd=lk, z_is_index=asidx)
    c.prove('returns what the chi-squared routine computed', r == 'result')
    c.prove('asks for what was requested', bool(o['calc_lkhd']) == lk and bool(o['calc_chisq']) == (not lk))
    given = all(o[q] is not None for q in ('covmat', 'c', 'slope', 'pivotmag', 'refmag', 'magerr', 'color', 'refmagerr', 'lupcorr'))
    c.prove('every part of the model is passed on', given)
    if not given:
        return
    for i in c.each(n):
        q = kz[i]
        c.prove('own magnitude', c.same(one(o['refmag'], i), mag))
        c.prove('own reference error', c.same(one(o['refmagerr'], i), g.refmag_err))
        c.prove('pivot of the redshift row', c.same(one(o['pivotmag'], i), t['pivotmag'][q]))
        cm, cc, sl = pick(o['covmat'], i, 2), pick(o['c'], i, 1), pick(o['slope'], i, 1)
        lc = o['lupcorr'][i]
        for j in range(ncol):
            col = o['color'][i, j] if len(o['color'].shape) == 2 else o['color'][j]
            c.prove('own colours', c.same(col, g.galcol[j]))
            c.prove('colour model of the redshift row', c.And(c.same(cc[j], t['c'][q, j]), c.same(sl[j], t['slope'][q, j])))
            c.prove('luptitude correction at the galaxy magnitude and redshift row', c.same(lc[j], t['lupcorr'][km, q, j]))
            for k in range(ncol):
                c.prove('covariance of the redshift row', c.same(cm[j, k], t['covmat'][j, k, q]))
        for j in range(ncol + 1):
            f = t['mag_err_ratio_intercept'][j] + t['mag_err_ratio_slope'][j] * (mag - t['mag_err_ratio_pivot'])
            me = o['magerr'][i, j] if len(o['magerr'].shape) == 2 else o['magerr'][j]
            c.prove('errors scaled by the calibrated ratio of the band', c.close(me, e0[j] * f))
            c.prove('the galaxy is not modified', c.same(g.mag_err[j], e0[j]))


@contract('R06', [RS + '__init__'], kind='conc', bounded='spline construction over parameter files', trials=90, ctime=25)
def model_tables(c):
    np = c.np
    m = c.mod('redmapper.redsequence')
    u = c.mod('redmapper.utilities')
    ncol = c.int('ncol', lo=1, hi=4)
    nn = c.int('nn', lo=4, hi=7)
    zlo, zhi = 0.1, c.choice('zhi', [0.3, 0.4])
    nodes = np.linspace(zlo + c.choice('lowgap', [0.0, 0.03]), zhi - c.choice('highgap', [0.0, 0.04]), nn)
    new = c.choice('newnames', [True, False])
    pn, rn = ('PIVOTMAG', 'REFMAG') if new else ('REFMAG', 'IMAG')
    f = {}
    f[pn + '_Z'] = nodes
    f[pn] = c.array('pivot', nn, gen=(16, 20))
    f['MAX' + rn] = c.array('maxm', nn, gen=(19, 21))
    f['MIN' + rn] = c.array('minm', nn, gen=(14, 16))
    # each quantity has its own nodes
    covn = np.linspace(zlo, zhi, nn) + 0.001
    f['COVMAT_Z'] = covn
    sg = c.array('sigma', (ncol, ncol, nn), gen=(-1.4, 1.4))
    for j in range(ncol):
        sg[j, j] = c.array('sig%d' % j, nn, gen=(-0.01, 0.1))
    f['SIGMA'] = sg
    for k in ('CORR', 'CORR2'):
        f[k] = c.array(k, nn, gen=(-.1, .1))
        f[k + '_SLOPE'] = c.array(k + 's', nn, gen=(-.1, .1))
        f[k + '_R'] = c.array(k + 'r', nn, gen=(-.1, 1.5))
    cn, sn, vn = nodes + 0.002, nodes - 0.004, nodes + 0.006
    f['CORR_Z'], f['CORR_SLOPE_Z'] = cn, sn
    f['VOLUME_FACTOR_Z'] = vn
    f['VOLUME_FACTOR'] = c.array('vf', nn, gen=(.5, 1.5))
    for j in range(ncol):
        for a, off in (('Z', 0.001), ('ZS', -0.003)):
            f['%s%02d' % (a, j)] = nodes + off * (j + 1)
        f['C%02d' % j] = c.array('c%d' % j, nn, gen=(0, 2))
        f['SLOPE%02d' % j] = c.array('s%d' % j, nn, gen=(-.1, .1))
    ratio = c.choice('errors rescaled', [True, False])
    if ratio:
        f['MAG_ERR_RATIO_INT'] = c.array('mint', ncol + 1, gen=(0.5, 1.5))
        f['MAG_ERR_RATIO_SLOPE'] = c.array('mslope', ncol + 1, gen=(-0.1, 0.1))
        f['MAG_ERR_RATIO_PIVOT'] = np.array(c.float('mpivot', gen=(18, 22)))
    pars = np.zeros(1, dtype=[(k, 'f8', v.shape) for k, v in f.items()])
    for k, v in f.items():
        pars[k][0] = v
    lup = c.choice('lup', [True, False])
    ref = c.int('ref', lo=0, hi=ncol)
    lowz = c.choice('lowz', [0, 0, 1])
    alpha = c.choice('alpha', [-1.0, -0.7])
    hdr = dict(LIMMAG=13.5, ZRANGE0=zlo, ZRANGE1=zhi, ALPHA=alpha, MSTARSUR='sdss', MSTARBAN='i03', NCOL=ncol, ZBINFINE=0.001,
               ZBINCOAR=0.005, LOWZMODE=lowz, BANDS='g,r,i,z,y')
    hdr[c.choice('refname', ['REF_IND', 'I_IND'])] = ref
    bv = 1e-6 * np.arange(1, ncol + 2)
    some = c.choice('bvalue', ['positive', 'positive', 'one zero', 'one missing'])
    if lup:
        for i in range(ncol + 1):
            hdr['BVALUE%d' % (i + 1)] = bv[i]
        if some == 'one zero':
            hdr['BVALUE1'] = 0.0
        elif some == 'one missing':
            del hdr['BVALUE%d' % (ncol + 1)]
    lup = lup and some == 'positive'
    # the template colours, where there are any
    tmpl = c.choice('template', [None, 'commas', 'letters'])
    names = ['g', 'r', 'i', 'z', 'y'] if tmpl == 'letters' else ['gs', 'r', 'i1', 'zz', 'y']
    lost = c.choice('colour without template', [None, 0, 1])

    class RG(object):
        def __init__(self, fn):
            self.fn = fn

        def __call__(self, b1, b2, z):
            if (b1, b2) not in zip(names[:-1], names[1:]):
                raise KeyError((b1, b2))
            j = names.index(b1)
            if j == lost:
                raise ValueError('no such template colour')
            return 0.3 * (j + 1) + (2 + j) * np.asarray(z) ** 2
    if tmpl is not None:
        hdr['TEMPLATE'] = 'some template'
        hdr['BANDS'] = (',' if tmpl == 'commas' else '').join(names[:ncol + 1]) + '  '
    c.patch(m, 'RedGalInitialColors', RG)

    class F(object):
        @staticmethod
        def read(fn, **k):
            return pars.copy(), dict(hdr)
    c.patch(m, 'fitsio', F)
    minsig = c.choice('minsig', [0.01, 0.03])
    fine = c.choice('fine', [False, True])
    rs = m.RedSequenceColorPar('x', minsig=minsig, fine=fine)
    nz = rs.z.size
    step = 0.001 if fine else 0.005
    c.prove('redshift grid', nz == int(round((zhi - zlo) / step)) + 1 and np.allclose(rs.z[:-1], zlo + step * np.arange(nz - 1)) and rs.z[-1] > 100)
    c.prove('every grid redshift maps to its own row', (np.atleast_1d(rs.zindex(rs.z[:-1])) == np.arange(nz - 1)).all())
    c.prove('beyond the grid is the overflow row', rs.zindex(np.array([zhi + 1.0, 5.0])).tolist() == [nz - 1, nz - 1])
    c.prove('every grid magnitude maps to its own row', (rs.refmagindex(rs.refmagbins[:-1]) == np.arange(rs.refmagbins.size - 1)).all())
    c.prove('every luminosity grid magnitude maps to its own row',
            (rs.lumrefmagindex(rs.lumrefmagbins[:-1]) == np.arange(rs.lumrefmagbins.size - 1)).all())
    for j in range(ncol):
        c.prove('scatter at least the minimum', (rs.sigma[j, j] >= minsig).all())
        c.prove('variance is the squared scatter', np.allclose(rs.covmat[j, j], rs.sigma[j, j] ** 2))
        for k in range(ncol):
            if k != j:
                c.prove('correlations below one', (np.abs(rs.sigma[j, k]) <= 0.99).all())
                c.prove('symmetric', np.allclose(rs.covmat[j, k], rs.covmat[k, j]) and np.allclose(rs.sigma[j, k], rs.sigma[k, j]))
                c.prove('covariance is correlation times scatters', np.allclose(rs.covmat[j, k], rs.sigma[j, k] * rs.sigma[j, j] * rs.sigma[k, k]))
    c.prove('radial exponents at least one half', (rs.corr_r >= 0.5).all() and (rs.corr2_r >= 0.5).all())
    # the model on its grid is the spline through its nodes
    k = c.int('node', lo=0, hi=nn - 2)
    q = int(np.argmin(np.abs(rs.z[:-1] - nodes[k])))
    zq = rs.z[q]
    zz = rs.z[:-1]
    ex = (zz < nodes[0]) | (zz > nodes[-1])
    c.prove('extrapolated rows are those outside the nodes', (rs.extrapolated[:-1] == ex).all())

    def spl(n_, v):
        return u.CubicSpline(n_, v)(zz)

    def agree(a, n_, v, rows=slice(None)):
        return np.allclose(np.asarray(a)[:-1][rows], spl(n_, v)[rows], rtol=1e-7, atol=1e-9)
    rows = ~ex if tmpl is not None else slice(None)
    ok, = np.where(~ex)
    for j in range(ncol):
        crow = rows if j != lost else slice(None)
        c.prove('colour follows its nodes', agree(rs.c[:, j], f['Z%02d' % j], f['C%02d' % j], crow))
        c.prove('slope follows its nodes', agree(rs.slope[:, j], f['ZS%02d' % j], f['SLOPE%02d' % j], rows))
        c.prove('scatter follows its nodes', np.allclose(rs.sigma[j, j, :-1], np.clip(spl(covn, sg[j, j]), minsig, None), rtol=1e-7))
        for k2 in range(j + 1, ncol):
            c.prove('correlation follows its nodes', np.allclose(rs.sigma[j, k2, :-1], np.clip(spl(covn, sg[j, k2]), -0.99, 0.99), rtol=1e-7))
        if tmpl is not None:
            for end, side in ((ok[0], zz < nodes[0]), (ok[-1], zz > nodes[-1])):
                c.prove('slope beyond the nodes is that of the last row within', np.allclose(rs.slope[:-1, j][side], rs.slope[end, j]))
                if j != lost:
                    t = RG('')(names[j], names[j + 1], zz)
                    c.prove('colour beyond the nodes follows the template', np.allclose(rs.c[:-1, j][side], (t - t[end] + rs.c[end, j])[side]))
    c.prove('pivot follows its nodes', agree(rs.pivotmag, nodes, f[pn], rows))
    if tmpl is not None:
        for end, side in ((ok[0], zz < nodes[0]), (ok[-1], zz > nodes[-1])):
            c.prove('pivot beyond the nodes is that of the last row within', np.allclose(rs.pivotmag[:-1][side], rs.pivotmag[end]))
    c.prove('calibration corrections follow their nodes', agree(rs.corr, cn, f['CORR']) and agree(rs.corr2, cn, f['CORR2'])
            and agree(rs.corr_slope, sn, f['CORR_SLOPE']) and agree(rs.corr2_slope, sn, f['CORR2_SLOPE'])
            and agree(rs.volume_factor, vn, f['VOLUME_FACTOR']))
    for a, b in ((rs.corr_r, f['CORR_R']), (rs.corr2_r, f['CORR2_R'])):
        c.prove('radial exponents follow their nodes', np.allclose(a[:-1], np.clip(spl(sn, b), 0.5, None) if b[0] > 0 else 1.0))
    c.prove('magnitude range follows its nodes', agree(rs.maxrefmag, nodes, f['MAX' + rn]) and agree(rs.minrefmag, nodes, f['MIN' + rn]))
    c.prove('magnitude grids', abs(rs.refmagbins[0] - (10. if lowz else 12.)) < 1e-6 and abs(rs.lumrefmagbins[0] - (10. if lowz else 12.)) < 1e-6
            and abs(rs.refmagbins[-2] - 13.5) < 0.0201 and abs(rs.lumrefmagbins[-2] - (float(np.atleast_1d(u.MStar('sdss', 'i03')(zhi))[0]) + 2.5)) < 0.0201)
    c.prove('a magnitude beyond the grid is in the overflow row', rs.refmagindex(np.array([40.0, 900.0])).tolist() == [rs.refmagbins.size - 1] * 2
            and rs.lumrefmagindex(np.array([40.0, 900.0])).tolist() == [rs.lumrefmagbins.size - 1] * 2)
    ms = u.MStar('sdss', 'i03')
    c.prove('characteristic magnitude of the row', c.close(rs.mstar(zq), float(np.atleast_1d(ms(zq))[0]), 1e-5))
    pdf = u.schechter_pdf(rs.lumrefmagbins[:-1], alpha=alpha, mstar=rs._mstar[q])
    c.prove('luminosity normalisation is the running integral', np.allclose(rs.lumnorm[:-1, q], 0.01 * np.cumsum(pdf), rtol=1e-6))
    if lup:
        i = c.int('mi', lo=0, hi=rs.refmagbins.size - 2)
        mags = [0.0] * (ncol + 1)
        mags[ref] = rs.refmagbins[i]
        pred = lambda j: rs.c[q, j] + rs.slope[q, j] * (rs.refmagbins[i] - rs.pivotmag[q])
        for j in range(ref + 1, ncol + 1):
            mags[j] = mags[j - 1] - pred(j - 1)
        for j in range(ref - 1, -1, -1):
            mags[j] = mags[j + 1] + pred(j)
        lups = [2.5 * np.log10(1 / bv[j]) - np.arcsinh(0.5 * 10 ** ((mags[j] - 22.5) / -2.5) / (1e9 * bv[j])) / (0.4 * np.log(10.))
                for j in range(ncol + 1)]
        for j in range(ncol):
            c.prove('luptitude correction is luptitude colour minus magnitude colour',
                    c.close(rs.lupcorr[i, q, j], (lups[j] - lups[j + 1]) - (mags[j] - mags[j + 1]), 1e-5, 1e-6))
    else:
        c.prove('no luptitude correction without softening values', (rs.lupcorr == 0).all())
    c.prove('what the model was made for is kept', rs.ncol == ncol and rs.nmag == ncol + 1 and rs.alpha == alpha and rs.limmag == 13.5
            and rs.mstar_survey == 'sdss' and rs.mstar_band == 'i03')
    c.prove('error rescaling of the file, or none', (np.allclose(rs.mag_err_ratio_intercept, f['MAG_ERR_RATIO_INT'])
            and np.allclose(rs.mag_err_ratio_slope, f['MAG_ERR_RATIO_SLOPE']) and abs(rs.mag_err_ratio_pivot - f['MAG_ERR_RATIO_PIVOT']) < 1e-9)
            if ratio else bool((rs.mag_err_ratio_intercept == 1).all() and (rs.mag_err_ratio_slope == 0).all()))
    # without a file there are the grids only
    class Cf(object):
        limmag_catalog, limmag_ref, zrange, calib_lumfunc_alpha, mstar_survey, mstar_band = 13.4, 13.1, [0.15, 0.25], -0.8, 'sdss', 'i03'
        nmag, calib_redgal_template, bands = ncol + 1, None, names[:ncol + 1]
    r3 = m.RedSequenceColorPar(None, config=Cf())
    c.prove('without a file, the configured ranges', np.allclose(r3.z[:-1], 0.15 + 0.001 * np.arange(100)) and r3.limmag == 13.4
            and abs(r3.refmagbins[-2] - 13.4) < 0.0201 and r3.alpha == -0.8 and r3.ncol == ncol)
    r4 = m.RedSequenceColorPar(None, config=Cf(), zrange=[0.2, 0.22], limmag=13.2)
    c.prove('or the requested ones', np.allclose(r4.z[:-1], 0.2 + 0.001 * np.arange(20)) and r4.limmag == 13.2)
    c.prove('one of them is needed', c.raises(ValueError, lambda: m.RedSequenceColorPar(None))[0])
    # a restricted range gives the same rows
    r2 = m.RedSequenceColorPar('x', minsig=minsig, fine=fine, zrange=np.array([zlo + 10 * step, zhi - 5 * step]))
    z2 = rs.z[12]
    a, b = rs.zindex(z2), r2.zindex(z2)
    c.prove('the model at a redshift does not depend on the requested range',
            (tmpl is not None and rs.extrapolated[a]) or np.allclose(rs.c[a], r2.c[b]) and np.allclose(rs.covmat[:, :, a], r2.covmat[:, :, b]) and np.allclose(rs._mstar[a], r2._mstar[b], atol=1e-5))
