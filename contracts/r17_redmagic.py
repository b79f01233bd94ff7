"""R17: selection of redMaGiC galaxies, and random points"""
import os

from rmv.run import contract, StubMissing
from contracts.stand import Ns, Log, Gals, recs

S = 'redmapper/redmagic/redmagic_selector.py:'
RM = 'redmapper/redmagic/redmagic_randoms.py:'
RT = 'redmapper/redmagic/redmagictask.py:'
RF = 'redmapper/redmagic/redmagic_calibrate.py:'
R = 'redmapper/randoms.py:'


class Spl(object):
    """a spline is any function of redshift, known by what it was made of"""
    def __init__(self, tab):
        self.tab = tab

    def __call__(self, x, y, fixextrap=False):
        for k, f in self.tab:
            if y is k:
                return f
        raise StubMissing('spline of something else')


@contract('R17', [S + 'RedmagicSelector.select_redmagic_galaxies'], assumes=['CubicSpline, mstar and calc_zmax by their contracts (R12, R06, R15)'])
def selection(c):
    np = c.np
    m = c.mod('redmapper.redmagic.redmagic_selector')
    n = c.size('n', max=7)
    nmag, ns = 3, 2
    g = Gals(n)
    cols = dict(zred_uncorr=(0.05, 1.2), zred_uncorr_e=(0.001, 0.2), chisq=(0.0, 40.0), refmag=(14.0, 26.0), refmag_err=(0.001, 1.0), ra=(0.0, 360.0), dec=(-90.0, 90.0))
    A = {}
    for k, (lo, hi) in cols.items():
        A[k] = c.array(k, n, lo=lo, hi=hi)
        setattr(g, k, A[k])
    g.id = c.array('id', n, kind='i', lo=0)
    g.mag, g.mag_err = c.array('mag', (n, nmag), lo=10.0, hi=30.0), c.array('mag_err', (n, nmag), lo=0.001, hi=1.0)
    samp = c.array('samp', (n, ns), lo=0.0, hi=1.5)
    g.zred_samp = samp
    sp = c.choice('spec', ['zspec', 'ztrue'])
    zs = c.array('zs', n, lo=-1.0, hi=1.5)
    setattr(g, sp, zs)
    names = ['id', 'zred_uncorr', sp]
    g.__dict__['dtype'] = Ns(names=tuple(names))
    z0, z1 = c.float('z0', lo=0.1, hi=0.4), c.float('z1', lo=0.5, hi=1.0)
    eta, lc, zc, buf = c.float('eta', lo=0.2, hi=2.0), c.float('lc', lo=0.0, hi=0.1), c.float('zc', lo=0.0, hi=0.1), c.float('buf', lo=0.0, hi=0.1)
    mx = c.float('maxchi', lo=1.0, hi=30.0)
    after, app = c.choice('after', [0, 1]), c.choice('app', [0, 1])
    cmax, bias, erat = np.zeros(3), np.zeros(2), np.zeros(2)
    cal = Ns(cost_zrange=np.array([z0, z1]), lstar_cushion=lc, z_cushion=zc, buffer=buf, etamin=eta, maxchi=mx, nodes=np.zeros(3), cmax=cmax, corrnodes=np.zeros(2), bias=bias, eratio=erat, run_afterburner=after, apply_afterburner=app)
    fc, fb, fe = c.func('cmaxf', 1, lo=-5.0, hi=50.0), c.func('biasf', 1, lo=-0.1, hi=0.1), c.func('eratf', 1, lo=0.5, hi=1.5)
    fm = c.func('mstarf', 1, lo=15.0, hi=25.0)
    fz = c.func('zmaxf', 2, lo=-1.0, hi=1.5)
    c.patch(m, 'CubicSpline', Spl([(cmax, fc), (bias, fb), (erat, fe)]))
    mk = {}

    class Cat(Gals):
        pass

    def catalogue(arr):
        o = Cat(arr.size)
        for k in arr.dtype.names:
            setattr(o, k, arr[k])
        return o
    c.patch(m, 'GalaxyCatalog', catalogue)
    sel = c.bare(m.RedmagicSelector, config=Ns(nmag=nmag, zred_nsamp=ns, logger=Log(), specfile='none'), calib_data={'high': cal}, modes=['high'], zredstr=Ns(mstar=fm), vlim_masks={'high': Ns(calc_zmax=lambda ra, dec, **k: fz(ra, dec))}, spec=None)
    before = dict((k, c.snapshot(v)) for k, v in list(A.items()) + [('samp', samp)])
    mode = c.choice('mode', ['high', b'high', 'other'])
    if mode == 'other':
        c.prove('an unknown selection is rejected', c.raises(RuntimeError, lambda: sel.select_redmagic_galaxies(g, mode))[0])
        return
    if c.choice('ind', [True, False]):
        out, ind = sel.select_redmagic_galaxies(g, mode, return_indices=True)
    else:
        out, ind = sel.select_redmagic_galaxies(g, mode), None
    z = before['zred_uncorr']
    L10 = np.log10

    zc_ = z - fb(z) if after else z
    want, = np.where((z > z0 - zc - buf) & (z < z1 + zc + buf) & (before['chisq'] < np.clip(fc(z), 0.1, mx)) & (before['chisq'] < mx) & (before['refmag'] < fm(z) - 2.5 * L10(np.clip(eta - lc, 0.1, None))) &
                     (before['refmag'] < fm(zc_) - 2.5 * L10(eta)) & (zc_ < fz(A['ra'], A['dec'])))
    c.prove('as many rows as galaxies chosen', out.size == want.size)
    for k in before:
        now = g.zred_samp if k == 'samp' else getattr(g, k)
        for i in c.each(n):
            for q in range(ns if k == 'samp' else 1):
                c.prove('the galaxies given are not changed', c.same(before[k][i, q], now[i, q]) if k == 'samp' else c.same(before[k][i], now[i]))
    if ind is not None:
        c.prove('exactly the galaxies that meet every cut are chosen', ind.size == want.size)
        for j in c.each(ind.size, 'jx'):
            i = ind[j]
            c.prove('exactly the galaxies that meet every cut are chosen', i == want[j])
            c.prove('ids, positions and photometry are those of the galaxy', c.And(out.id[j] == g.id[i], c.close(out.ra[j], A['ra'][i]), c.close(out.dec[j], A['dec'][i]), c.close(out.refmag[j], before['refmag'][i], rtol=1e-6), c.close(out.refmag_err[j], A['refmag_err'][i], rtol=1e-6), c.close(out.chisq[j], before['chisq'][i], rtol=1e-6)))
            for q in range(nmag):
                c.prove('in every band', c.And(c.close(out.mag[j, q], g.mag[i, q], rtol=1e-6), c.close(out.mag_err[j, q], g.mag_err[i, q], rtol=1e-6)))
            c.prove('redshift and error are corrected', c.And(c.close(out.zredmagic[j], zc_[i], rtol=1e-5, atol=1e-6), c.close(out.zredmagic_e[j], before['zred_uncorr_e'][i] * (fe(z[i]) if after else 1.0), rtol=1e-5)))
            for q in range(ns):
                c.prove('samples are shifted with the redshift if asked for', c.close(out.zredmagic_samp[j, q], before['samp'][i, q] - (fb(z[i]) if after and app else 0.0), rtol=1e-5, atol=1e-6))
            c.prove('true redshifts are kept', c.close(out.zspec[j], zs[i], rtol=1e-5))
            if not c.symbolic:
                c.prove('luminosity in units of L*', c.close(out.lum[j], 10 ** ((fm(zc_[i]) - before['refmag'][i]) / 2.5), rtol=1e-3))


@contract('R17', [S + 'RedmagicSelector.__init__'], kind='conc', bounded='up to 4 selections in a real calibration file', trials=60)
def selector_setup(c):
    """the selections of a calibration file, each with its own parameters and volume limit"""
    import tempfile
    import fitsio
    np, r = c.np, c.nrng
    m = c.mod('redmapper.redmagic.redmagic_selector')
    made = []

    class Conf(object):
        pass

    class VM(object):
        def __init__(self, config, *a, **k):
            got = dict(zip(('vlim_lstar', 'vlimfile', 'use_geometry'), a), **k)
            self.lstar, self.file, self.geometry, self.config = got.get('vlim_lstar'), got.get('vlimfile'), got.get('use_geometry', False), config

    class VF(object):
        def __init__(self, config):
            self.config = config
    opened = []

    def conf(x):
        opened.append(x)
        return cf
    c.patch(m, 'VolumeLimitMask', VM)
    c.patch(m, 'VolumeLimitMaskFixed', VF)
    c.patch(m, 'RedSequenceColorPar', lambda p, **k: ('par', p, k.get('fine')))
    cf = Conf()
    cf.parfile, cf.vlim_lstar, cf.logger = 'par.fit', 9.0, Log()
    named = c.choice('named', [False, True])
    if named:
        class Conf2(Conf):
            def __new__(cls, x):
                opened.append(x)
                return cf
        c.patch(m, 'Configuration', Conf2)
    else:
        c.patch(m, 'Configuration', Conf)
    n = c.size('n', min=1, max=4)
    names = ['high' + 'x' * i for i in r.permutation(n)]
    with tempfile.TemporaryDirectory() as d:
        cf.redmagicfile = os.path.join(d, 'cal.fit')
        tab = {}
        lost = None
        for k, nm in enumerate(names):
            vf = str(r.choice(['', '/elsewhere/vl_%s.hs' % nm, 'vl_%s.hs' % nm, './sub/vl_%s.hs' % nm]))
            t = np.zeros(1, dtype=[('NAME', 'S%d' % (len(nm) + 1)), ('ETAMIN', 'f8'), ('N0', 'f8'), ('MAXCHI', 'f4'), ('NODES', 'f8', 2 + k), ('VMASKFILE', 'S%d' % (len(vf) + 1))])
            t['NAME'], t['ETAMIN'], t['N0'], t['NODES'], t['VMASKFILE'] = nm, 0.5 + k, 10.0 * k, r.random(2 + k), vf
            fitsio.write(cf.redmagicfile, t, extname=nm)
            tab[nm] = (t, vf)
            if vf:
                if lost is None and r.random() < 0.15:
                    lost = vf
                else:
                    open(os.path.join(d, os.path.basename(vf)), 'w').close()
        given = c.choice('given', [None, dict((nm, 'mask of ' + nm) for nm in reversed(names))])
        bad, sel = c.raises(RuntimeError, lambda: m.RedmagicSelector('c.yml' if named else cf, **({} if given is None else dict(vlim_masks=given))))
        c.prove('a missing volume limit file is reported', bad == (lost is not None and given is None))
        if bad:
            return
        c.prove('the configuration is the one given', sel.config is cf and opened == (['c.yml'] if named else []))
        c.prove('every selection of the file is there', list(sel.modes) == names and sel.n_modes == n)
        c.prove('the red sequence is that of the configuration', sel.zredstr == ('par', 'par.fit', True))
        for nm in names:
            t, vf = tab[nm]
            cal = sel.calib_data[nm]
            c.prove('with its own parameters', abs(cal.etamin - t['ETAMIN'][0]) < 1e-9 and abs(cal.n0 - t['N0'][0]) < 1e-9 and np.allclose(cal.nodes, t['NODES'][0]))
            mk = sel.vlim_masks[nm] if nm in sel.vlim_masks else None
            if given is not None:
                c.prove('with the volume limits given', mk == 'mask of ' + nm)
            elif vf == '':
                c.prove('a selection without volume limit has a fixed one', isinstance(mk, VF))
            else:
                c.prove('every other its own: file beside the calibration and luminosity', isinstance(mk, VM) and mk.file == os.path.join(d, os.path.basename(vf)) and abs(mk.lstar - t['ETAMIN'][0]) < 1e-9)


@contract('R17', [S + 'RedmagicSelector.select_redmagic_galaxies'], kind='conc', bounded='up to 40 galaxies, 3 nodes', trials=120, assumes=['CubicSpline by its contract (R12)'])
def selection_outside(c):
    """galaxies beyond the nodes, spectra from a file, missing samples"""
    import tempfile
    import fitsio
    np, r = c.np, c.nrng
    m, gm, u = c.mod('redmapper.redmagic.redmagic_selector'), c.mod('redmapper.galaxy'), c.mod('redmapper.utilities')
    n, nmag, ns = c.size('n', min=1, max=40), 3, c.choice('ns', [2, 4])
    src = c.choice('src', ['file', 'zspec', 'ztrue', 'both'])
    dt = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', nmag), ('mag_err', 'f4', nmag), ('zred_uncorr', 'f4'), ('zred_uncorr_e', 'f4'), ('chisq', 'f4')]
    hassamp = c.choice('samp', [True, True, False])
    if hassamp:
        dt += [('zred_samp', 'f4', ns)]
    dt += [(k, 'f4') for k in ('zspec', 'ztrue') if src in (k, 'both')]
    g = np.zeros(n, dtype=dt)
    g['id'], g['ra'], g['dec'] = r.permutation(999)[:n], 10 + 0.05 * r.permutation(n), r.uniform(-20, 20, n)
    g['refmag'], g['refmag_err'], g['mag'], g['mag_err'] = r.uniform(17, 22, n), r.uniform(0.1, 1, n), r.uniform(15, 22, (n, nmag)), r.uniform(0.1, 1, (n, nmag))
    g['zred_uncorr'], g['zred_uncorr_e'], g['chisq'] = r.uniform(0.1, 0.9, n), r.uniform(0.001, 0.01, n), r.uniform(0, 12, n)
    if hassamp and ns == 1:
        g['zred_samp'] = (g['zred_uncorr'] + r.normal(0, 0.01, n)).reshape(g['zred_samp'].shape)
    elif hassamp:
        g['zred_samp'] = g['zred_uncorr'][:, None] + r.normal(0, 0.01, (n, ns))
    for k in ('zspec', 'ztrue'):
        if k in g.dtype.names:
            g[k] = r.uniform(0, 1, n)
    g0 = g.copy()
    cal = Ns(cost_zrange=np.array([0.3, 0.6]), zrange=np.array([0.25, 0.65]), lstar_cushion=0.05, z_cushion=0.1, buffer=0.05, etamin=c.choice('eta', [0.12, 0.5, 1.0]), maxchi=c.choice('mx', [5.0, 20.0]), nodes=np.array([0.3, 0.45, 0.6]), cmax=r.uniform(-5, 20, 3),
             corrnodes=np.array([0.3, 0.5, 0.6]), bias=r.normal(0, 0.03, 3), eratio=r.uniform(0.5, 1.5, 3), run_afterburner=c.choice('run', [0, 1]), apply_afterburner=c.choice('app', [0, 1]))
    other = Ns(cost_zrange=np.array([0.2, 0.5]), zrange=np.array([0.2, 0.5]), lstar_cushion=0.0, z_cushion=0.05, buffer=0.0, etamin=0.8, maxchi=10.0, nodes=np.array([0.2, 0.5]), cmax=np.array([2.0, 9.0]),
               corrnodes=np.array([0.2, 0.5]), bias=np.array([0.02, -0.04]), eratio=np.array([1.2, 0.7]), run_afterburner=1 - cal.run_afterburner, apply_afterburner=1)
    ms = lambda z: 18.0 + 5.0 * np.asarray(z, dtype='f8')
    zm = lambda ra, dec, **k: 0.45 + 0.3 * ((np.floor(np.asarray(ra) * 20) % 2) == 0) + 0.001 * np.asarray(dec)
    with tempfile.TemporaryDirectory() as d:
        sf = os.path.join(d, 's.fit')
        k = r.integers(0, n, 12)
        off = r.permutation(np.array([0.0, 0.3, 0.6, 0.9, 1.2, 1.5, 1.8, 2.1, 2.5, 4.0, 20.0, 60.0]))
        sp = np.zeros(12, dtype=[('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('Z_ERR', 'f4')])
        sp['RA'], sp['DEC'], sp['Z'], sp['Z_ERR'] = g['ra'][k], g['dec'][k] + off / 3600.0, 0.01 + 0.05 * np.arange(12), r.choice([0.0005, 0.0005, 0.005], 12)
        fitsio.write(sf, sp)
        sel = c.bare(m.RedmagicSelector, config=Ns(nmag=nmag, zred_nsamp=ns, logger=Log(), specfile=sf), calib_data={'low': other, 'high': cal}, modes=['low', 'high'], zredstr=Ns(mstar=ms),
                     vlim_masks={'low': Ns(calc_zmax=lambda ra, dec, **k: 1.2 - zm(ra, dec)), 'high': Ns(calc_zmax=zm)}, spec=None)
        # twice: the second answer must be that of the first
        gal = gm.GalaxyCatalog(g)
        out, ind = sel.select_redmagic_galaxies(gal, 'high', return_indices=True)
        out2 = sel.select_redmagic_galaxies(gal, 'high')
    z = g0['zred_uncorr'].astype('f8')
    S3 = lambda x, y: u.CubicSpline(x, y, fixextrap=True)(g0['zred_uncorr'])
    zc = z - (S3(cal.corrnodes, cal.bias) if cal.run_afterburner else 0.0)
    ee = g0['zred_uncorr_e'] * (S3(cal.corrnodes, cal.eratio) if cal.run_afterburner else 1.0)
    cm = np.clip(S3(cal.nodes, cal.cmax), 0.1, cal.maxchi)
    tests = [z - 0.15, 0.75 - z, cm - g0['chisq'], ms(z) - 2.5 * np.log10(max(cal.etamin - 0.05, 0.1)) - g0['refmag'], ms(zc) - 2.5 * np.log10(cal.etamin) - g0['refmag'], zm(g0['ra'], g0['dec']) - zc]
    if any(np.any(np.abs(t) < 1e-4) for t in tests):
        return
    want = np.flatnonzero(np.all([t > 0 for t in tests], axis=0))
    ok = np.array_equal(np.asarray(ind), want) and out.size == want.size and out2.size == want.size
    c.prove('exactly the galaxies that meet every cut are chosen, beyond the nodes too', ok)
    if not ok or want.size == 0:
        return
    c.prove('redshift and error are corrected, beyond the nodes too', np.allclose(out.zredmagic, zc[want], atol=1e-5) and np.allclose(out.zredmagic_e, ee[want], rtol=1e-4))
    c.prove('luminosity in units of L*', np.allclose(out.lum, 10 ** ((ms(zc[want]) - g0['refmag'][want]) / 2.5), rtol=1e-3))
    sh = (zc - z)[want] if cal.run_afterburner and cal.apply_afterburner else np.zeros(want.size)
    got = np.asarray(out.zredmagic_samp).reshape(want.size, ns)
    if hassamp:
        c.prove('every sample is shifted with the redshift if asked for', np.allclose(got, g0['zred_samp'].reshape(n, ns)[want] + sh[:, None], atol=1e-5))
    else:
        c.prove('missing samples are drawn about the redshift', np.all(np.abs(got - (z[want] + sh)[:, None]) < 8 * g0['zred_uncorr_e'][want][:, None]))
    if src == 'file':
        good = sp[sp['Z_ERR'] < 0.001]
        zs = []
        for i in want:
            dist = np.hypot((good['RA'] - g0['ra'][i]) * np.cos(np.radians(g0['dec'][i])), good['DEC'] - g0['dec'][i]) * 3600.0
            zs.append(float(good['Z'][np.argmin(dist)]) if dist.size and dist.min() < 3.0 else -1.0)
    else:
        zs = g0['ztrue' if src in ('ztrue', 'both') else 'zspec'][want]
    c.prove('spectroscopic redshifts are the true ones if known, else those of the nearest spectrum, -1 without one', np.allclose(out.zspec, zs, atol=1e-5))
    c.prove('the galaxies given are not changed, and the answer is the same again', all(np.array_equal(g0[f], gal._ndarray[f]) for f in g0.dtype.names) and np.array_equal(out2.id, out.id) and
            np.array_equal(out2.zspec, out.zspec) and np.array_equal(out2.zredmagic, out.zredmagic) and np.array_equal(out2.lum, out.lum))
    c.prove('ids, positions and photometry are those of the galaxy', all(np.allclose(getattr(out, f), g0[f][want]) for f in ('id', 'ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'chisq')))


class Sky2(object):
    """a volume limit mask over a flat sky: limit and good fraction are functions of position"""
    sparse_vlimmap = 'map'

    def __init__(self, np, top=0.7):
        self.np, self.top = np, top

    def calc_zmax(self, ra, dec, get_fracgood=False):
        np = self.np
        z = self.top - 0.5 * ((np.floor(np.asarray(ra) * 100) % 3) / 2.0)
        f = ((np.floor(np.asarray(dec) * 100) % 4) > 0) * 1.0
        return (z, f) if get_fracgood else z


class Hs(object):
    limit = None
    def __init__(self, np, calls):
        self.np, self.calls = np, calls

    def make_uniform_randoms(self, m, n, rng=None):
        self.calls.append((m, n))
        if self.limit is not None and len(self.calls) > self.limit:
            raise RuntimeError('does not end')
        return rng.uniform(0.0, 360.0, int(n)), rng.uniform(-60.0, 60.0, int(n))


@contract('R17', [RM + 'RedmagicGenerateRandoms.generate_randoms', RM + 'RedmagicGenerateRandoms.__init__'], kind='conc', bounded='up to 25000 random points', trials=30, ctime=40)
def redmagic_points(c):
    import fitsio
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.redmagic.redmagic_randoms')
    calls = []
    hs = Hs(np, calls)
    c.patch(m, 'healsparse', hs)
    mask = Sky2(np, top=c.choice('top', [0.7, 0.45]))
    zs = r.uniform(0.1, 0.9, c.choice('nz', [1, 5, 60, 60])).astype('f4')
    inside = c.choice('inside', [False, True])
    if inside:
        zs = (0.1 + (mask.top - 0.15) * (zs - 0.1) / 0.8).astype('f4')
    if zs.min() > mask.top:
        zs[0] = 0.2
    big = 4000 if inside and zs.size == 60 else c.choice('nr', [600, 4000] if inside else [1, 7, 60, 600])
    k = c.choice('how', ['object', 'object', 'object', 'wrong mask', 'wrong cat', 'files'])
    vm = c.mod('redmapper.volumelimit')
    gal = c.mod('redmapper.galaxy').GalaxyCatalog(recs(np, zs.size, zredmagic=zs))
    vmo = c.bare(vm.VolumeLimitMask)
    if k == 'wrong mask':
        c.prove('anything else is rejected as mask', c.raises(RuntimeError, lambda: m.RedmagicGenerateRandoms(Ns(), 3, gal))[0])
        return
    if k == 'wrong cat':
        c.prove('anything else is rejected as catalogue', c.raises(RuntimeError, lambda: m.RedmagicGenerateRandoms(Ns(), vmo, 3))[0])
        return
    if k == 'files':
        class V(vm.VolumeLimitMask):
            def __init__(self, config, lstar, vlimfile=None, **kw):
                self.vlimfile = vlimfile
        c.patch(m, 'VolumeLimitMask', V)
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'g.fit')
            fitsio.write(f, recs(np, zs.size, ZREDMAGIC=zs))
            o = m.RedmagicGenerateRandoms(Ns(), 'mask.fit', f)
        c.prove('files are read', o.vlim_mask.vlimfile == 'mask.fit' and np.array_equal(np.sort(o.redmagic_cat.zredmagic), np.sort(zs)))
        return
    hs.limit = 300 + 20 * big
    g = m.RedmagicGenerateRandoms(Ns(), vmo, gal)
    g.vlim_mask = mask
    rng = np.random.RandomState(int(r.integers(1 << 30)))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'r.fit')
        old = c.choice('old', [False, True])
        clob = c.choice('clob', [False, True])
        if old:
            fitsio.write(f, np.zeros(1, dtype=[('stale', 'i4')]))
        rs, _ = c.raises(RuntimeError, lambda: g.generate_randoms(big, f, clobber=clob, rng=rng))
        c.prove('an existing file is only replaced if asked for', rs == (old and not clob))
        if rs:
            c.prove('and kept otherwise', 'stale' in fitsio.read(f, ext=1).dtype.names and not calls)
            return
        o = fitsio.read(f, ext=1, lower=True)
    c.prove('as many points as asked for', o.size == big)
    zm, fg = mask.calc_zmax(o['ra'], o['dec'], get_fracgood=True)
    c.prove('every point is below the limit at its own position', np.all(o['z'] < zm + 1e-6))
    c.prove('with a redshift of the galaxies', np.all(np.isin(o['z'], zs)))
    c.prove('in the good part of the sky', np.all(fg > 0))
    c.prove('positions are drawn once each', np.unique(o['ra']).size == o.size and np.all((o['ra'] >= 0) & (o['ra'] < 360) & (np.abs(o['dec']) <= 60)))
    c.prove('with unit weight', np.all(o['weight'] == 1.0))
    if big >= 600 and zs.size >= 60:
        low = zs[zs < mask.top - 0.5]
        c.prove('all galaxies contribute redshifts', low.size == 0 or np.isin(low, o['z']).mean() > 0.5)
    if big >= 4000 and zs.size >= 60 and zs.max() < mask.top - 0.02:
        # a redshift too high for one place is kept for the next: the limit does not change the distribution
        c.prove('redshifts are distributed as those of the galaxies', abs(np.mean(o['z'] > np.median(zs)) - 0.5) < 0.05)


@contract('R17', [R + 'GenerateRandoms.generate_randoms', R + 'GenerateRandoms.__init__', R + 'RandomCatalogMaker.__init__', R + 'RandomCatalogMaker.append_randoms', R + 'RandomCatalog.from_randfile'], kind='conc', bounded='up to 25000 random points', trials=24, ctime=40)
def cluster_points(c):
    import fitsio
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.randoms')
    calls = []
    hs = Hs(np, calls)
    c.patch(m, 'healsparse', hs)
    mask = Sky2(np, top=c.choice('top', [0.7, 0.45]))
    nc = c.choice('nc', [1, 5, 60])
    cat = Ns(size=nc, z_lambda=r.uniform(0.1, 0.9, nc).astype('f4'), Lambda=r.uniform(5, 100, nc).astype('f4'), mem_match_id=r.permutation(nc) + 10)
    if cat.z_lambda.min() > mask.top:
        cat.z_lambda[0] = 0.2
    inside = c.choice('inside', [False, True, True])
    if inside:
        cat.z_lambda = (0.1 + (mask.top - 0.15) * (cat.z_lambda - 0.1) / 0.8).astype('f4')
    big = c.choice('nr', [600, 4000, 4000] if inside else [2, 40])
    hs.limit = 300 + 20 * big
    if nc == 1 and big == 4000:
        cat.z_lambda[0] = mask.top - 0.05
    with tempfile.TemporaryDirectory() as d:
        cf = Ns(randfile=os.path.join(d, 'rand_master_table.fit'), vlim_lstar=0.2, galfile_nside=8, logger=Log(), catfile='none')
        if c.choice('bad', [None, None, 'none', 'name']) == 'none':
            cf.randfile = None
            c.prove('a file name is needed', c.raises(RuntimeError, lambda: m.GenerateRandoms(cf, vlim_mask=mask, redmapper_cat=cat))[0])
            return
        if c.choice('bad2', [None, None, 'name']) == 'name':
            cf.randfile = os.path.join(d, 'rand.fit')
            g = m.GenerateRandoms(cf, vlim_mask=mask, redmapper_cat=cat)
            c.prove('a name that can be understood is needed', c.raises(RuntimeError, lambda: g.generate_randoms(3))[0])
            return
        if c.choice('given', [True, False]):
            g = m.GenerateRandoms(cf, vlim_mask=mask, redmapper_cat=cat)
        else:
            made, vl = [], c.choice('vl', [None, 0.4])
            c.patch(m, 'VolumeLimitMask', lambda cfx, l, **k: (made.append(l), mask)[1])
            c.patch(m, 'ClusterCatalog', Ns(from_fits_file=lambda x, **k: (made.append(x), cat)[1]))
            g = m.GenerateRandoms(cf, vlim_lstar=vl)
            c.prove('mask and clusters are those of the configuration', made == [vl or 0.2, 'none'])
        g.generate_randoms(big, rng=np.random.RandomState(int(r.integers(1 << 30))))
        tab = fitsio.read(cf.randfile, ext=1, lower=True)
        c.prove('in pixels like the galaxies', tab['nside'][0] == 8)
        if tab['hpix'].size < 2:
            return
        o = m.RandomCatalog.from_randfile(cf.randfile)
        if big >= 600:
            part, bord = [m.RandomCatalog.from_randfile(cf.randfile, nside=8, hpix=[int(tab['hpix'][0][0])], border=b) for b in (0.0, 3.0)]
            G = c.mod('redmapper.galaxy').GalaxyCatalog.from_galfile
            c.prove('a part of the sky is read with its border', np.array_equal(part.id, G(cf.randfile, nside=8, hpix=[int(tab['hpix'][0][0])]).id) and np.array_equal(bord.id, G(cf.randfile, nside=8, hpix=[int(tab['hpix'][0][0])], border=3.0).id) and set(part.id) <= set(bord.id))
    c.prove('as many points as asked for', o.size == big)
    c.prove('numbered from one', np.array_equal(np.sort(o.id), np.arange(1, big + 1)))
    zm, fg = mask.calc_zmax(o.ra, o.dec, get_fracgood=True)
    c.prove('every point is below the limit at its own position', np.all(o.z < zm + 1e-6) and np.all(o.z > 0))
    by = dict((int(i), q) for q, i in enumerate(cat.mem_match_id))
    src = np.array([by.get(int(i), -1) for i in o.id_input])
    c.prove('redshift, richness and id are those of one cluster', np.all(src >= 0) and np.array_equal(o.z, cat.z_lambda[src]) and np.array_equal(o.Lambda, cat.Lambda[src]))
    c.prove('in the good part of the sky', np.all(fg > 0))
    c.prove('positions are drawn once each', np.unique(o.ra).size == o.size)
    if inside and nc == 60 and big == 4000:
        c.prove('redshifts are distributed as those of the clusters', abs(np.mean(o.z > np.median(cat.z_lambda)) - 0.5) < 0.05)
    for nm in ('galcol', 'galcol_err', 'add_zred_fields'):
        c.prove('random points have no photometry', c.raises(NotImplementedError, lambda: getattr(o, nm))[0])
    c.prove('nor is a galaxy file read as one', c.raises(NotImplementedError, lambda: m.RandomCatalog.from_galfile('x'))[0])


@contract('R17', [R + 'RandomWeigher.weight_randoms', R + 'RandomWeigher.__init__'], kind='conc', bounded='up to 60 random points of up to 6 clusters', trials=60)
def weights(c):
    import fitsio
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.randoms')
    nc = c.size('nc', min=1, max=6)
    n = c.size('n', min=1, max=60)
    scale = c.choice('scale', [False, True])
    lams = r.choice([4.0, 6.0, 20.0, 25.0, 40.0], nc)
    cat = Ns(size=nc, mem_match_id=r.permutation(nc) + 3, Lambda=lams.copy(), scaleval=r.choice([1.0, 1.5], nc))
    own = r.integers(0, nc, n)
    q = np.zeros(n, dtype=[('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('LAMBDA_IN', 'f4'), ('MASKFRAC', 'f4'), ('SCALEVAL', 'f4'), ('ID_INPUT', 'i4')])
    q['RA'], q['DEC'] = np.arange(n) * 1.5, r.uniform(-10, 10, n)
    q['Z'] = r.uniform(0.15, 0.65, n)
    q['LAMBDA_IN'], q['SCALEVAL'] = lams[own] * r.choice([1.0, 1.0, 0.8, 1.3], n), r.choice([1.0, 1.5], n) if scale else 1.0
    q['MASKFRAC'] = r.choice([0.0, 0.0, 0.1, 0.25, 0.5], n)
    q['ID_INPUT'] = cat.mem_match_id[own]
    foreign = c.choice('foreign', [False, False, True])
    if foreign:
        q['ID_INPUT'][0] = 999
        q['Z'][0] = 0.3
    area = c.mod('redmapper.catalog').Catalog(recs(np, 40, z=np.linspace(0.1, 0.7, 40), area=np.linspace(900.0, 100.0, 40)))
    a0 = area.area.copy()
    zr = c.choice('zr', [None, (0.2, 0.5)])
    lb = c.choice('lb', [None, (5.0, 25.0)])
    mn = c.choice('mn', [5.0, 19.0])
    with tempfile.TemporaryDirectory() as d:
        cf = Ns(zrange=np.array([0.1, 0.7]), select_scaleval=scale, max_maskfrac=0.25, area_nodesize=0.15, area_coarsebin=0.02, vlim_lstar=0.2, catfile='x', logger=Log())
        cf.redmapper_filename = lambda name, withversion=False, **k: os.path.join(d, ('v1_' if withversion else '') + name + '.fit')
        f = os.path.join(d, 'in.fit')
        fitsio.write(f, q)
        fit = c.choice('fit', ['real', 'told'])
        data = []

        class Told(object):
            def __init__(self, nodes, x, y):
                data.append((np.array(nodes), np.array(x), np.array(y)))

            def fit(self, p0, **k):
                return np.linspace(0.9, 0.3, len(p0))
        if fit == 'told':
            c.patch(m, 'MedZFitter', Told)
        given = c.choice('given', [True, False])
        vl = c.choice('vl', [None, 0.4])
        made = []
        if given:
            w = m.RandomWeigher(cf, f, vlim_mask=Ns(get_areas=lambda: area), vlim_lstar=vl, redmapper_cat=cat)
        else:
            c.patch(m, 'VolumeLimitMask', lambda cfx, l, **k: (made.append(l), Ns(get_areas=lambda: area))[1])
            c.patch(m, 'ClusterCatalog', Ns(from_fits_file=lambda x, **k: (made.append(x), cat)[1]))
            w = m.RandomWeigher(cf, f, vlim_lstar=vl)
            c.prove('mask and clusters are those of the configuration', made == [vl or 0.2, 'x'])
        z0, z1 = zr or (0.1, 0.7)
        l0, l1 = lb or (0.0, 1000.0)
        inz = (q['Z'] > np.float32(z0)) & (q['Z'] < np.float32(z1))
        lam, sc = cat.Lambda[own], cat.scaleval[own]
        true = inz & ((lam / sc if scale else lam) > mn) & (lam > l0) & (lam <= l1)
        good = true & ((q['LAMBDA_IN'] / q['SCALEVAL'] if scale else q['LAMBDA_IN']) > mn) & (q['LAMBDA_IN'] > l0) & (q['LAMBDA_IN'] <= l1) & (q['MASKFRAC'] < 0.25)
        rs, ret = c.raises(RuntimeError, lambda: w.weight_randoms(mn, zrange=zr, lambdabin=lb))
        c.prove('ids that belong to no cluster and empty selections are reported', rs == (bool(foreign) or not inz.any() or not true.any()))
        if rs:
            return
        if not good.any():
            return
        c.prove('file names tell the cuts', 'z%03d-%03d' % (int(z0 * 100), int(z1 * 100)) in ret[0] and 'lgt%03d' % int(mn) in ret[0] and ('vl04' if vl else 'vl02') in ret[0] and ret[0] != ret[1] and all('v1_' in os.path.basename(x) for x in ret))
        o = fitsio.read(ret[0], ext=1, lower=True)
        ar = fitsio.read(ret[1], ext=1, lower=True)
    c.prove('exactly the usable points', np.array_equal(np.sort(o['ra']), np.sort(q['RA'][good])))
    by = dict((float(a), i) for i, a in enumerate(q['RA']))
    src = np.array([by[float(a)] for a in o['ra']])
    c.prove('with their own values', np.array_equal(o['dec'], q['DEC'][src]) and np.array_equal(o['ztrue'], q['Z'][src]) and np.array_equal(o['lambda_in'], q['LAMBDA_IN'][src]) and np.array_equal(o['avg_lambdaout'], q['LAMBDA_IN'][src]))
    for k in np.unique(own[good]):
        c.prove('the usable points of a cluster stand for all of its points', np.allclose(o['weight'][own[src] == k], (true & (own == k)).sum() / (good & (own == k)).sum(), rtol=1e-5))
    if fit == 'told':
        nodes, x, y = data[0]
        c.prove('over the whole redshift range', np.allclose(nodes, c.mod('redmapper.utilities').make_nodes(cf.zrange, 0.15)))
        edges = np.arange(0.1, 0.7, 0.02)
        for j in range(len(y)):
            al, gg = np.sum(true & (q['Z'] < edges[j + 1])), np.sum(good & (q['Z'] < edges[j + 1]))
            edge = np.any(np.abs(q['Z'] - edges[j + 1]) < 1e-6)
            c.prove('the area is scaled by the fraction of usable points below each redshift', edge or np.isclose(y[j], gg / al if al else 0.0))
        corr = np.clip(m.CubicSpline(nodes, np.linspace(0.9, 0.3, nodes.size))(area.z), 0, 1)
        c.prove('the area is the whole one times the fitted fraction', np.allclose(ar['area'], a0 * corr, rtol=1e-5))
    c.prove('the area is only ever reduced', np.all((ar['area'] >= 0) & (ar['area'] <= a0 * (1 + 1e-6))) and np.array_equal(ar['z'], area.z))


@contract('R17', [R + 'RandomCatalogMaker.split_randoms'], kind='conc', bounded='up to 20 random points', trials=20)
def split_points(c):
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.randoms')
    n = c.size('n', min=2, max=20)
    q = recs(np, n, id=r.permutation(n) + 1, ra=r.uniform(0, 350, n), dec=r.uniform(-80, 80, n), z=r.uniform(0.1, 0.8, n))
    q['ra'][0], q['dec'][0], q['ra'][1], q['dec'][1] = 10.0, 10.0, 200.0, -40.0
    with tempfile.TemporaryDirectory() as d:
        mk = m.RandomCatalogMaker(os.path.join(d, 'rr'), {}, nside=4)
        mk.split_randoms(q)
        o = m.RandomCatalog.from_randfile(os.path.join(d, 'rr_master_table.fit'))
        st, s2 = np.argsort(o.id), np.argsort(q['id'])
        c.prove('every point comes back', o.size == n and np.array_equal(o.id[st], q['id'][s2]) and np.allclose(o.ra[st], q['ra'][s2]) and np.allclose(o.z[st], q['z'][s2]))
        c.prove('a finished catalogue is not split again', c.raises(RuntimeError, lambda: mk.split_randoms(q))[0])
        c.prove('nor is an existing one overwritten', c.raises(RuntimeError, lambda: m.RandomCatalogMaker(os.path.join(d, 'rr'), {}, nside=4).split_randoms(q))[0])


@contract('R17', [RT + 'RunRedmagicTask.run'], kind='conc', bounded='up to 30 galaxies in at least two pixels, up to 3 selections', trials=150)
def task(c):
    import fitsio
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.redmagic.redmagictask')
    gm = c.mod('redmapper.galaxy')
    vm = c.mod('redmapper.volumelimit')
    n = c.size('n', min=2, max=30)
    truth = c.choice('truth', [False, True])
    dt = [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', (3,)), ('mag_err', 'f4', (3,)), ('ebv', 'f4')]
    if truth:
        dt += [('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')]
    g = np.zeros(n, dtype=dt)
    g['id'], g['ra'], g['dec'], g['refmag'] = r.permutation(n) + 100, r.uniform(10, 60, n), r.uniform(-20, 20, n), r.permutation(n) + 14.0
    g['refmag_err'], g['mag_err'], g['mag'] = 0.1, 0.1, 17.0
    g['ra'][0], g['dec'][0], g['ra'][1], g['dec'][1] = 12.0, -18.0, 58.0, 18.0
    if truth:
        g['ztrue'] = r.uniform(0.1, 0.9, n)
    modes = c.choice('modes', [['high'], ['high', 'low'], ['low', 'none', 'high']])
    asked = c.choice('asked', [None, None, modes[:1], modes[-1:], modes[::-1]])
    fixed = c.choice('fixed', [False, True])
    nran = c.choice('nran', [None, 0, 5])
    spec = lambda i: np.where(np.asarray(i) % 3 == 0, -1.0, 0.2 + 0.001 * np.asarray(i)).astype('f4') if specs else np.zeros(np.size(i), 'f4') - 1.0
    specs = c.choice('specs', [True, False])
    pick = {'low': lambda i: i % 2 == 0, 'high': lambda i: i > 0, 'none': lambda i: i < 0}
    drawn, nz, sp = [], [], []
    saw = []

    class Msk(object):
        def __init__(self, k):
            self.k = k

        def get_areas(self):
            return 'areas ' + self.k

    class Sel(object):
        def __init__(self, config):
            self.modes = dict((k, None) for k in modes).keys()
            self.calib_data = dict((k, Ns(etamin=0.5 + 0.5 * i, n0=float(10 * i + 2), zrange=np.array([0.1, 0.5 + 0.1 * i]))) for i, k in enumerate(modes))
            self.vlim_masks = dict((k, c.bare(vm.VolumeLimitMaskFixed) if fixed and k == 'high' else Msk(k)) for k in modes)
            for k, v in self.vlim_masks.items():
                if not isinstance(v, Msk):
                    v.get_areas = lambda k=k: 'areas ' + k

        def select_redmagic_galaxies(self, gals, mode, return_indices=False):
            u, = np.where(pick[mode](gals.id))
            saw.append(np.asarray(gals.ztrue).copy() if 'ztrue' in gals.dtype.names else None)
            o = np.zeros(u.size, dtype=[('id', 'i8'), ('zspec', 'f4'), ('zredmagic', 'f4'), ('zredmagic_e', 'f4')])
            o['id'] = gals.id[u]
            o['zspec'], o['zredmagic'], o['zredmagic_e'] = spec(o['id']), 0.3 + 0.001 * o['id'], 0.01 + 0.0001 * o['id']
            return gm.GalaxyCatalog(o)

    class Gen(object):
        def __init__(self, config, mask, cat):
            self.a = (mask.k if isinstance(mask, Msk) else mask, sorted(cat.id.tolist()))

        def generate_randoms(self, k, f, clobber=False, rng=None):
            drawn.append(self.a + (k, f, clobber, rng))

    class Nz(object):
        def __init__(self, config, **k):
            pass

        def plot_redmagic_catalog(self, cat, name, eta, n0, areastr, zrange=None, **k):
            nz.append((sorted(np.asarray(cat.id).tolist()), name, eta, n0, areastr, None if zrange is None else list(zrange)))

    class Spec(object):
        def __init__(self, config, **k):
            pass

        def plot_values(self, zs, zp, ze, **k):
            sp.append((np.array(zs), np.array(zp), np.array(ze)))
            return Ns(savefig=lambda f, **kk: None)
    c.patch(m, 'RedmagicSelector', Sel)
    c.patch(m, 'RedmagicGenerateRandoms', Gen)
    c.patch(m, 'NzPlot', Nz)
    c.patch(m, 'SpecPlot', Spec)
    plots = c.choice('plots', [False, True])
    if plots:
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        close, plt.close = plt.close, lambda *a: None
    use = modes if asked is None else asked
    try:
        with tempfile.TemporaryDirectory() as d:
            mk = gm.GalaxyCatalogMaker(os.path.join(d, 'gal'), dict(LIM_REF=100.0, REF_IND=0, AREA=100.0, NMAG=3, MODE=0, ZP=22.5, B=np.zeros(3), U_IND=0), nside=8, **({'ingest_truth': True} if truth else {}))
            mk.append_galaxies(g)
            mk.finalize_catalog()
            # the area of interest of the configuration is not that of the selection: it runs on the whole file
            cf = Ns(galfile=os.path.join(d, 'gal_master_table.fit'), zredfile=None, galfile_pixelized=True, has_truth=truth, logger=Log(), start_file_logging=lambda *a: None, stop_file_logging=lambda *a: None,
                    border=20.0, nside=2, hpix=[3], galfile_nside=8, redmagic_names=['high', 'low', 'other'], redmagic_calib_zbinsize=0.02, plotpath='plots', d=Ns(nside=2, hpix=[3]))
            cf.redmapper_filename = lambda name, withversion=False, **k: os.path.join(d, 'out_%s%s.fit' % ('v1_' if withversion else '', name))
            if fitsio.read(cf.galfile, ext=1, lower=True)['hpix'].size < 2:
                return
            t = c.bare(m.RunRedmagicTask, config=cf)
            cf.galfile_pixelized = False
            c.prove('only for pixelised galaxies', c.raises(ValueError, lambda: t.run(do_plots=False))[0])
            cf.galfile_pixelized = True
            old, clob = c.choice('old', [False, True]), c.choice('clob', [False, True])
            path = lambda k: os.path.join(d, 'out_v1_redmagic_%s.fit' % k)
            if old:
                fitsio.write(path(use[-1]), np.zeros(1, dtype=[('stale', 'i4')]))
            rng = c.choice('rng', [None, np.random.RandomState(3)])
            rs, _ = c.raises(RuntimeError, lambda: t.run(modes=asked, do_plots=plots, clobber=clob, n_randoms=nran, rng=rng))
            c.prove('existing files are only replaced if asked for', rs == (old and not clob))
            if rs:
                c.prove('and nothing is written', not any(os.path.exists(path(k)) for k in modes if k != use[-1]) and 'stale' in fitsio.read(path(use[-1]), ext=1).dtype.names and not drawn)
                return
            for k in modes:
                there = os.path.isfile(path(k))
                c.prove('one file for each selection asked for', there == (k in use))
                if not there:
                    continue
                o = fitsio.read(path(k), ext=1, lower=True)
                want = np.sort(g['id'][pick[k](g['id'])])
                ok = 'id' in o.dtype.names and np.array_equal(np.sort(o['id']), want)
                c.prove('every selected galaxy of every pixel, each once', ok)
                c.prove('with its own values', not ok or np.allclose(o['zredmagic'], 0.3 + 0.001 * o['id'], atol=1e-6) and np.allclose(o['zspec'], spec(o['id']), atol=1e-6))
            c.prove('true redshifts are available to the selection if there are any', all((x is not None) == truth for x in saw))
            wr = [] if nran == 0 else [k for k in use if not (fixed and k == 'high')]
            num = lambda k: int(np.sum(pick[k](g['id'])))
            c.prove('random points for every selection with a mask, as many as asked for', [x[0] for x in drawn] == wr and
                    all(x[2] == (10 * len(x[1]) if nran is None else nran) and len(x[1]) == num(k) and 'v1' in os.path.basename(x[3]) and k in os.path.basename(x[3]) and x[4] == clob for x, k in zip(drawn, wr)))
            c.prove('with the random numbers given', rng is None or all(x[5] is rng for x in drawn))
            c.prove('no random points in the file of a selection', len(set(x[3] for x in drawn)) == len(drawn) and not any(x[3] == path(k) for x in drawn for k in modes))
            if plots:
                c.prove('the density of each selection is plotted with its own parameters', nz == [(sorted(g['id'][pick[k](g['id'])].tolist()), k, 0.5 + 0.5 * modes.index(k), 10.0 * modes.index(k) + 2, 'areas ' + k, [0.1, 0.5 + 0.1 * modes.index(k)]) for k in use])
                c.prove('redshifts are compared to spectra where there are any', len(sp) == sum(bool(np.any(spec(g['id'][pick[k](g['id'])]) > 0)) for k in use) and all(np.all(x[0] > 0) and np.allclose(x[1], x[0] + 0.1, atol=1e-5) and np.allclose(x[2], 0.01 + 0.1 * (x[1] - 0.3), atol=1e-5) for x in sp))
            else:
                c.prove('no plots unless asked for', not nz and not sp)
    finally:
        if plots:
            plt.close = close


@contract('R17', [RF + 'RedmagicParameterFitter.__call__', RF + 'RedmagicParameterFitter.__init__'], kind='conc', bounded='up to 60 galaxies', trials=150)
def cost(c):
    np, r = c.np, c.nrng
    m = c.mod('redmapper.redmagic.redmagic_calibrate')
    n = c.size('n', min=1, max=60)
    z0, nb, bs = 0.2, 4, 0.05
    zr = [z0, z0 + nb * bs]
    nodes, corr = np.array([0.2, 0.3, 0.4]), np.array([0.2, 0.4])
    z = r.uniform(0.18, 0.42, n)
    zs = z + r.normal(0, 0.01, n)
    chi, ref = r.uniform(0, 20, n), r.uniform(17, 21, n)
    zmx = r.uniform(0.2, 0.6, n) if c.choice('zm', [True, False]) else np.array([0.35])
    vol = r.uniform(100.0, 1000.0, nb)
    red = Ns(mstar=lambda x: 18.0 + 2 * np.asarray(x))
    a = dict(nodes=nodes, corrnodes=corr, z=z, z_err=np.full(n, 0.02), chisq=chi, mstar=red.mstar(z), zcal=z.copy(), zcal_err=np.full(n, 0.01), refmag=ref, zsamp=zs)
    odd = c.choice('odd', [None, None, None, 'z_err', 'chisq', 'mstar', 'zcal', 'zcal_err', 'refmag', 'zsamp', 'zrange'])
    kw = dict(zmax=zmx, etamin=0.5, n0=10.0, volume=vol, zrange=zr, zbinsize=bs, zredstr=red, maxchi=12.0, ab_use=np.arange(n))
    if odd == 'zrange':
        kw['zrange'] = [0.1, 0.2, 0.3]
    elif odd:
        a[odd] = np.append(a[odd], 1.0) if c.choice('longer', [True, False]) else a[odd][:-1]
    if odd:
        c.prove('lengths that do not fit are rejected', c.raises(ValueError, lambda: m.RedmagicParameterFitter(*a.values(), **kw))[0])
        return
    f = m.RedmagicParameterFitter(*a.values(), **kw)
    p = r.uniform(0.05, 15.0, 3)
    p[0] = c.choice('low', [p[0], 0.07, -0.1])
    zc = z
    if c.choice('corrected', [False, True]):
        fm = m.scipy.optimize.fmin
        m.scipy.optimize.fmin = lambda fn, p0, **k: p0
        try:
            b = np.array([0.02, -0.03])
            f.fit(np.ones(3), afterburner=True, biaspars=b, eratiopars=np.ones(2))
        finally:
            m.scipy.optimize.fmin = fm
        zc, zs = z - m.CubicSpline(corr, b)(z), zs - m.CubicSpline(corr, b)(z)
    cm = np.clip(m.CubicSpline(nodes, p)(z), 0.1, 12.0)
    gd = (chi < cm) & (ref < red.mstar(zc) - 2.5 * np.log10(0.5)) & (zc < zmx)
    if gd.any() and not np.any((zs[gd] > z0) & (zs[gd] < zr[1] - 2e-4)):
        # esutil refuses a histogram without entries
        return
    v = f(p)
    if not gd.any():
        c.prove('no galaxy is the worst', v >= 1e10)
        return
    k = np.floor((zs[gd] - z0) / bs).astype(int)
    ok = (zs[gd] >= z0) & (zs[gd] <= zr[1] - 1e-4)
    if np.any(np.abs((zs[gd] - z0) / bs - np.round((zs[gd] - z0) / bs)) < 1e-6) or np.any(np.abs(zs[gd] - zr[1]) < 2e-4):
        return
    h = np.bincount(k[ok], minlength=nb)
    den = h / vol
    err = np.sqrt(10.0 * 1e-4 * vol) / vol
    t = np.sum(((den - 1e-3) / err) ** 2) + (1e4 if (p < 0.1).any() else 0.0)
    c.prove('deviation of the selected density from the wanted one', abs(v - t) < 1e-6 * max(1.0, t))


@contract('R17', [RF + 'RedmagicParameterFitter.fit', RF + 'RedmagicParameterFitter.fit_bias_eratio'], kind='conc', bounded='up to 60 galaxies', trials=40)
def fits(c):
    np, r = c.np, c.nrng
    m = c.mod('redmapper.redmagic.redmagic_calibrate')
    n = c.choice('n', [12, 60])
    nodes, corr = np.array([0.2, 0.3, 0.4]), np.array([0.2, 0.4])
    z = r.uniform(0.2, 0.4, n)
    zs = z + r.normal(0, 0.01, n)
    bias = c.choice('bias', [0.0, 0.02])
    red = Ns(mstar=lambda x: 18.0 + 2 * np.asarray(x))
    f = m.RedmagicParameterFitter(nodes, corr, z, np.full(n, 0.02), r.uniform(0, 5, n), red.mstar(z), z - bias, np.full(n, 0.01), np.full(n, 17.0), zs, np.array([2.0]), 0.5, 10.0, np.full(4, 500.0), [0.2, 0.4], 0.05, red, maxchi=12.0,
                                  ab_use=None if c.choice('noab', [False, False, True]) else np.arange(n))
    if f._ab_use is None:
        c.prove('the afterburner needs its galaxies', c.raises(RuntimeError, lambda: f.fit(np.ones(3), afterburner=True, biaspars=np.zeros(2), eratiopars=np.ones(2)))[0])
        return
    for q in (dict(), dict(biaspars=np.zeros(2)), dict(eratiopars=np.ones(2))):
        c.prove('and its parameters', c.raises(RuntimeError, lambda: f.fit(np.ones(3), afterburner=True, **q))[0])
    seen = []
    c.patch(m.scipy.optimize, 'fmin', lambda fn, p0, **k: (seen.append((fn._zredmagic.copy(), fn._zredmagic_e.copy(), fn._zredmagic_samp.copy(), fn._mstar.copy())), p0)[1])
    b, e = np.array([0.01, 0.03]), np.array([0.8, 1.2])
    sb, se = m.CubicSpline(corr, b)(z), m.CubicSpline(corr, e)(z)
    for k in range(2):
        f.fit(np.ones(3), afterburner=True, biaspars=b, eratiopars=e)
        c.prove('redshifts, errors and samples are corrected from the originals, not from earlier corrections', np.allclose(seen[-1][0], z - sb) and np.allclose(seen[-1][1], 0.02 * se) and np.allclose(seen[-1][2], zs - sb) and np.allclose(seen[-1][3], red.mstar(z - sb)))
    f.fit(np.ones(3))
    c.prove('and restored without correction', np.allclose(seen[-1][0], z) and np.allclose(seen[-1][1], 0.02) and np.allclose(seen[-1][2], zs) and np.allclose(seen[-1][3], red.mstar(z)))
    c.restore()
    pb, pe = f.fit_bias_eratio(np.full(3, 12.0), np.zeros(2), np.ones(2))
    c.prove('a constant bias is found', np.allclose(m.CubicSpline(corr, pb)(z), bias, atol=2e-3))
    c.prove('error ratios stay in their range', np.all((pe >= 0.5 - 1e-9) & (pe <= 1.5 + 1e-9)))


@contract('R17', [RF + 'RedmagicParameterFitter.fit_bias_eratio'], kind='conc', bounded='up to 60 galaxies', trials=80)
def afterburner(c):
    """the correction is fitted to exactly the calibration galaxies that pass the selection"""
    np, r = c.np, c.nrng
    m = c.mod('redmapper.redmagic.redmagic_calibrate')
    n = c.choice('n', [6, 60])
    nodes, corr = np.array([0.2, 0.3, 0.4]), np.array([0.2, 0.4])
    z = r.uniform(0.2, 0.4, n)
    zcal, zerr, chi, ref = z + r.normal(0, 0.02, n), r.uniform(0.01, 0.05, n), r.uniform(0, 20, n), r.uniform(17, 21, n)
    red = Ns(mstar=lambda x: 18.0 + 2 * np.asarray(x))
    zmx = r.uniform(0.2, 0.5, n) if c.choice('zm', [True, False]) else np.array([0.33])
    use = np.sort(r.permutation(n)[:int(r.integers(1, n + 1))])
    cv = r.uniform(0.05, 15.0, 3)
    eta = c.choice('eta', [0.5, 1.0])
    f = m.RedmagicParameterFitter(nodes, corr, z, zerr, chi, red.mstar(z), zcal, np.full(n, 0.01), ref, z.copy(), zmx, eta, 10.0, np.full(4, 500.0), [0.2, 0.4], 0.05, red, maxchi=12.0, ab_use=use)
    seen = []
    b, e = np.array([0.01, 0.03]), np.array([0.8, 1.2])

    class Med(object):
        def __init__(self, nodes, x, y):
            seen.append((np.array(nodes), np.array(x), np.array(y)))

        def fit(self, p0, **k):
            seen[-1] += (np.array(p0),)
            return b if len(seen) == 1 else e
    c.patch(m, 'MedZFitter', Med)
    zc = z
    if c.choice('corrected', [False, True]):
        fm = m.scipy.optimize.fmin
        m.scipy.optimize.fmin = lambda fn, p0, **k: p0
        try:
            f.fit(np.ones(3), afterburner=True, biaspars=np.array([0.04, -0.03]), eratiopars=np.array([1.3, 0.6]))
        finally:
            m.scipy.optimize.fmin = fm
        zc = z - m.CubicSpline(corr, np.array([0.04, -0.03]))(z)
    pb, pe = f.fit_bias_eratio(cv, np.array([0.1, 0.2]), np.array([0.3, 0.4]))
    cm = np.clip(m.CubicSpline(nodes, cv)(z), 0.1, 12.0)
    ok = (chi < cm) & (ref < red.mstar(zc) - 2.5 * np.log10(eta)) & (zc < zmx)
    u = np.array([i for i in use if ok[i]], dtype=int)
    c.prove('bias is that of the selected calibration galaxies', np.array_equal(seen[0][1], z[u]) and np.allclose(seen[0][2], z[u] - zcal[u]) and np.array_equal(seen[0][0], corr) and np.array_equal(seen[0][3], [0.1, 0.2]))
    dm = m.CubicSpline(corr, b)(z[u]) if u.size else np.zeros(0)
    c.prove('the error ratio is the robust scatter about it in units of the errors', np.array_equal(seen[1][1], z[u]) and np.allclose(seen[1][2], 1.4826 * np.abs(z[u] - zcal[u] - dm) / zerr[u]) and np.array_equal(seen[1][3], [0.3, 0.4]))
    c.prove('both are returned', np.array_equal(pb, b) and np.array_equal(pe, e))
