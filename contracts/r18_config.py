"""R18: every configuration value is the one given, its default otherwise, and inconsistent configurations are refused"""
import os
import math
import shutil
import tempfile
from rmv.run import contract
from contracts.stand import Ns, Log

C = 'redmapper/configuration.py:'


@contract('R18', [C + 'ConfigField.__init__', C + 'ConfigField.__set__', C + 'ConfigField.__get__', C + 'ConfigField.reset', C + 'ConfigField.set_length', C + 'ConfigField.validate'])
def field(c):
    m = c.mod('redmapper.configuration')
    kind = c.choice('kind', ['array', 'scalar', 'array of one', 'list'])
    req = c.choice('required', [True, False])
    start = c.choice('start', ['none', 'default', 'value'])
    then = c.choice('then', ['keep', 'set', 'set, reset'])
    n1, n2, L = c.size('n1', min=1), c.size('n2', min=1), c.int('length', lo=0)
    fixed = c.choice('fixed', [True, False])
    if kind == 'array':
        a1, a2 = c.array('a1', n1), c.array('a2', n2)
    elif kind == 'list':
        a1, a2 = ('a', 'b', 'c'), ('d', 'e')
        n1, n2 = 3, 2
    else:
        a1, a2 = c.float('a1'), c.float('a2')
        n1 = n2 = 1
    kw = dict(isArray=kind.startswith('array'), required=req)
    if kind == 'list':
        kw['isList'] = True
    if start == 'default':
        kw['default'] = a1
    elif start == 'value':
        kw['value'] = a1

    class T(object):
        x = m.ConfigField(**kw)
    t = T()
    d = T.__dict__['x']
    if then != 'keep':
        t.x = a2
    if then == 'set, reset':
        d.reset()
    if fixed:
        d.set_length(L)
    want = dict(keep=a1 if start != 'none' else None, set=a2)
    want = want.get(then, a1 if start == 'default' else None)
    got = t.x
    if want is None:
        c.prove('without a value there is none', got is None)
    elif kind == 'list':
        n = n1 if want is a1 else n2
        c.prove('a list is a list of the values last set', isinstance(got, list) and got == list(want))
    elif kind == 'array of one':
        n = 1
        flat = hasattr(got, 'shape') and len(got.shape) == 1
        c.prove('an array variable is an array', flat)
        if not flat:
            return
        c.prove('an array of one', got.shape[0] == 1)
        c.prove('of the one value last set', got[0] == want)
    elif kind == 'array':
        n = n1 if want is a1 else n2
        flat = hasattr(got, 'shape') and len(got.shape) == 1
        c.prove('an array variable is an array', flat)
        if not flat:
            return
        c.prove('the value is the last one set, the default after a reset: length', got.shape[0] == n)
        for i in c.each(n):
            c.prove('the value is the last one set, the default after a reset', got[i] == want[i])
    else:
        c.prove('the value is the last one set, the default after a reset', got == want)
    bad, _ = c.raises(ValueError, lambda: d.validate('x'))
    if want is None:
        c.prove('an unset value is refused exactly if required', bad == req)
    elif kind != 'scalar' and fixed:
        c.prove('an array is refused exactly if its length is wrong', c.Iff(bad, n != L))
    else:
        c.prove('a set value without required length is accepted', not bad)


class Dic(dict):
    pass


ARRS = {'calib_colormem_colormodes': 'z1', 'calib_colormem_sigint': 'z1', 'calib_color_nodesizes': 'n1', 'calib_slope_nodesizes': 'n1', 'calib_color_maxnodes': 'n1', 'calib_covmat_maxnodes': 'n1'}


class FakeOs(object):
    """every path is there, nothing is made"""
    def __init__(self, there=True):
        self.made = []
        self.there = there
        self.path = self
        self.sep = '/'

    dirname = staticmethod(os.path.dirname)
    basename = staticmethod(os.path.basename)
    join = staticmethod(os.path.join)
    abspath = staticmethod(lambda p: '/abs/' + p)

    def exists(self, p):
        return self.there

    isdir = isfile = exists

    def makedirs(self, p, **k):
        self.made.append(p)

    mkdir = makedirs


class FakeLogging(object):
    INFO = 20

    def basicConfig(self, **k):
        pass

    def getLogger(self, *a):
        return Log()


def make(c, conf, stats, wcen=None, outpath=None):
    """a Configuration of the given yaml content and galaxy file statistics"""
    m = c.mod('redmapper.configuration')
    c.patch(m, 'read_yaml', lambda f: dict(conf))
    c.patch(m, 'os', FakeOs())
    c.patch(m, 'logging', FakeLogging())
    c.patch(m, 'Cosmo', lambda *a, **k: 'cosmo')
    c.patch(m.Configuration, '_galfile_stats', lambda self: dict(stats))
    c.patch(m.Configuration, '_wcen_vals', lambda self: wcen)
    kw = {} if outpath is None else dict(outpath=outpath)
    return c.raises((ValueError, RuntimeError), lambda: m.Configuration('dir/conf.yml', **kw))


def base(c, nmag):
    conf = dict(galfile='g.fit', outbase='base', refmag='i', zrange=c.array('zrange', 2, lo=0.0, hi=2.0))
    for k, v in ARRS.items():
        conf[k] = c.array(k, 2 if v == 'z1' else nmag - 1)
    stats = dict(area=c.float('garea', lo=-200.0, hi=50000.0), galfile_pixelized=True, survey_mode=1, limmag_ref=c.float('limref', lo=15.0, hi=30.0), nmag=nmag, zeropoint=22.5, ref_ind=1, b=None,
                 galfile_nside=8, bands=['g', 'i', 'z'], galfile_has_truth=c.bool('hastruth'), galfile_has_zspec=c.bool('haszspec'))
    return conf, stats


@contract('R18', [C + 'Configuration.__init__', C + 'Configuration.validate', C + 'Configuration._reset_vars', C + 'Configuration._set_vars_from_dict', C + 'Configuration._set_lengths', C + 'Configuration.set_wcen_vals', C + 'ConfigField.validate'],
          maxpaths=4000, assumes=['the statistics of the galaxy file by the contract galaxy_file', 'the centring values by the contract wcen_file'])
def accept(c):
    nmag = c.size('nmag', min=2, max=6)
    what = c.choice('what', ['sub-region', 'truth', 'mask', 'annuli'])
    conf, stats = base(c, nmag)
    if what == 'sub-region':
        setarea, depth = c.choice('setarea', [True, False]), c.choice('depth', [True, False])
        conf['nside'] = c.int('nside', lo=0, hi=64)
        npix = c.size('npix', min=1, max=3)
        if c.choice('pix', [True, False]):
            conf['hpix'] = c.array('hpix', npix, kind='i', lo=0)
            some = True
        else:
            some = False
        if setarea:
            conf['area'] = c.float('carea', lo=0.0, hi=50000.0)
        if depth:
            conf['depthfile'] = 'depth.hs'
        bad, cf = make(c, conf, stats)
        c.prove('a sub-region without area and depth map is refused, nothing else', c.Iff(bad, c.And(not setarea, not depth, conf['nside'] > 0, some)))
        if bad:
            return
        near = c.And(stats['area'] - 1e-3 <= conf['area'], conf['area'] <= stats['area'] + 1e-3) if setarea else True
        c.prove('the area is that of the configuration unless it agrees with the galaxy file', c.ite(near, cf.area == stats['area'], cf.area == conf.get('area', 0.0)))
        c.prove('the area of the galaxy file is kept', cf.galfile_area == stats['area'])
    elif what == 'truth':
        nul = c.choice('null', [True, False])
        if nul:
            conf['calib_niter'] = None
        conf['has_truth'], conf['centering_use_zspec'] = c.bool('truth'), c.bool('zspec')
        setcat = c.choice('setcat', [True, False])
        if setcat:
            conf['limmag_catalog'] = c.float('limcat', lo=15.0, hi=30.0)
        wcen = c.choice('wcen', [None, dict(wcen_Delta0=c.float('delta0'), lnw_fg_mean=c.float('fgmean'))])
        bad, cf = make(c, conf, stats, wcen=wcen)
        c.prove('truth and spectroscopic centring need the columns, nothing else is refused',
                c.Iff(bad, c.Or(c.And(conf['has_truth'], c.Not(stats['galfile_has_truth'])), c.And(conf['centering_use_zspec'], c.Not(stats['galfile_has_zspec'])))))
        if bad:
            return
        c.prove('the catalogue limit is the one given, that of the galaxy file otherwise', cf.limmag_catalog == (conf['limmag_catalog'] if setcat else stats['limmag_ref']))
        c.prove('the limit of the galaxy file is its own', cf.limmag_ref == stats['limmag_ref'])
        c.prove('the part of a run is the whole run at first', c.And(cf.d.outbase == 'base', cf.d.nside == cf.nside, len(cf.d.hpix) == len(cf.hpix)))
        c.prove('the centring values are those of the file, the defaults without one', c.And(cf.wcen_Delta0 == (wcen['wcen_Delta0'] if wcen else 0.0), cf.lnw_fg_mean == (wcen['lnw_fg_mean'] if wcen else -9999.0)))
        c.prove('the path of the configuration is absolute', cf.configpath == '/abs/dir')
        if nul:
            c.prove('an empty value is a value', cf.calib_niter is None)
    elif what == 'mask':
        mode = c.int('mode', lo=0, hi=9)
        mask = c.choice('maskfile', [True, False])
        conf['mask_mode'] = mode
        if mask:
            conf['maskfile'] = 'mask.hs'
        band = c.choice('band', ['none', 'i', 'y', 'iy', 'yi', 'zi'])
        if band != 'none':
            conf['vlim_bands'], conf['vlim_depthfiles'], conf['vlim_nsigs'] = list(band), ['d.hs', 'e.hs'][:len(band)], [10.0, 5.0][:len(band)]
        bad, cf = make(c, conf, stats)
        c.prove('a mask without mask mode and unknown bands are refused, nothing else', c.Iff(bad, c.Or(c.And(mask, mode == 0), 'y' in band)))
    else:
        lo, hi = c.float('lo', lo=-5.0, hi=5.0), c.float('hi', lo=-5.0, hi=5.0)
        conf['bkg_local_annuli'] = [lo, hi]
        rz = c.choice('rz', ['none', 'two'])
        if rz == 'two':
            conf['redmagic_zrange'] = c.array('rzr', 2, lo=-1.0, hi=2.0)
        bad, cf = make(c, conf, stats)
        c.prove('an annulus that ends before it starts is refused, nothing else', c.Iff(bad, hi <= lo))
        if bad:
            return
        neg = c.Or(conf['redmagic_zrange'][0] < 0.0, conf['redmagic_zrange'][1] < 0.0) if rz == 'two' else True
        for i in range(2):
            c.prove('the redMaGiC range is the one given, the whole range if none or negative', c.ite(neg, cf.redmagic_zrange[i] == conf['zrange'][i], cf.redmagic_zrange[i] == (conf['redmagic_zrange'][i] if rz == 'two' else 0.0)))
            c.prove('the range is the one given', cf.zrange[i] == conf['zrange'][i])


@contract('R18', [C + 'Configuration.__init__', C + 'Configuration.validate', C + 'Configuration._set_lengths', C + 'ConfigField.set_length', C + 'ConfigField.validate'],
          maxpaths=4000, assumes=['the statistics of the galaxy file by the contract galaxy_file'])
def lengths(c):
    nmag = c.size('nmag', min=2, max=8)
    conf, stats = base(c, nmag)
    names = sorted(ARRS) + ['zrange', 'bkg_local_annuli', 'redmagic_zrange', 'redmagic_n0s', 'redmagic_etas', 'redmagic_zmaxes', 'vlim_nsigs', 'vlim_bands', 'calib_colormem_zbounds']
    k = c.choice('field', names)
    n = c.size('n', min=1, max=8)
    if k in ARRS:
        want = 2 if ARRS[k] == 'z1' else nmag - 1
    elif k == 'calib_colormem_zbounds':
        want = 1
    elif k.startswith('redmagic_') and k != 'redmagic_zrange':
        conf.update(redmagic_names=['a', 'b', 'c'], redmagic_n0s=[1.0, 2.0, 3.0], redmagic_etas=[1.0, 2.0, 3.0], redmagic_zmaxes=[0.9, 0.9, 0.9])
        want = 3
    elif k.startswith('vlim_'):
        conf.update(vlim_depthfiles=['a', 'b'], vlim_bands=['g', 'z'], vlim_nsigs=[5.0, 10.0])
        want = 2
    else:
        want = 2
    if k == 'vlim_bands':
        n = c.choice('nb', [1, 2, 3])
        conf[k] = ['g', 'i', 'z'][:n]
    elif k == 'bkg_local_annuli':
        n = c.choice('na', [2, 3, 4])
        conf[k] = [1.0, 2.0, 3.0, 4.0][:n]
    else:
        if k in ('zrange', 'redmagic_zrange'):
            c.assume(n >= 2)
        conf[k] = c.array('v', n, lo=0.1, hi=1.0)
    bad, cf = make(c, conf, stats)
    c.prove('a value of the wrong length is refused, nothing else', c.Iff(bad, n != want))
    if not bad:
        c.prove('no record has more magnitudes than the galaxies', [x[2] for x in cf.cluster_dtype if x[0] in ('MAG', 'MAG_ERR')] == [nmag, nmag] and [x[2] for x in cf.member_dtype if x[0] in ('MAG', 'MAG_ERR')] == [nmag, nmag])


@contract('R18', [C + 'Configuration.compute_border', C + 'Configuration.zrange_cushioned'], assumes=['Cosmo.Da of esutil'])
def derived(c):
    m = c.mod('redmapper.configuration')
    r0, beta, cush = c.float('r0', lo=0.1, hi=5.0), c.float('beta', lo=0.0, hi=1.0), c.float('cush', lo=0.0, hi=0.5)
    zr = c.array('zr', 2, lo=0.01, hi=2.0)
    da = c.func('Da', 2, lo=1.0, hi=3000.0)
    cf = c.bare(m.Configuration)
    cf.percolation_rmask_0, cf.percolation_rmask_beta, cf.calib_zrange_cushion, cf.zrange = r0, beta, cush, zr
    cf.cosmo = Ns(Da=da)
    z0, z1 = zr[0], zr[1]
    got = cf.compute_border()
    need = r0 * (300.0 / 100.0) ** beta / (c.np.radians(1.0) * da(0, z0))
    c.prove('the border is three times (and a margin of 5%) the radius on the sky of the largest cluster at the lowest redshift', c.close(got, 3.15 * need))
    zc = cf.zrange_cushioned
    c.prove('the cushion widens the range below, not under 0.05', c.close(zc[0], c.ite(z0 - cush < 0.05, 0.05, z0 - cush)))
    c.prove('the cushion widens the range above', c.close(zc[1], z1 + cush))
    c.prove('the range itself is not changed', c.And(cf.zrange[0] == z0, cf.zrange[1] == z1))


@contract('R18', [C + 'Configuration.redmapper_filename'])
def names(c):
    m = c.mod('redmapper.configuration')
    cf = c.bare(m.Configuration)
    cf.outpath, cf.version = '/out', '1.2.3'
    cf.d = Ns(outbase='pix', hpix=[3], nside=4)
    ver, ob, ft = c.choice('ver', [True, False]), c.choice('outbase', [None, 'other']), c.choice('type', [None, 'hs'])
    paths = c.choice('paths', ['none', 'list', 'tuple', 'string'])
    kw = {}
    if ver:
        kw['withversion'] = True
    if ob:
        kw['outbase'] = ob
    if ft:
        kw['filetype'] = ft
    if paths != 'none':
        kw['paths'] = dict(list=['a', 'b'], tuple=('a', 'b'), string='ab')[paths]
    bad, f = c.raises(ValueError, lambda: cf.redmapper_filename('cat', **kw))
    c.prove('paths must be a list', bad == (paths == 'string'))
    if not bad:
        want = '/out/' + ('a/b/' if paths in ('list', 'tuple') else '') + (ob or 'pix') + ('_redmapper_v1.2.3' if ver else '') + '_cat.' + (ft or 'fit')
        c.prove('the file is named for the run, pixel and version it belongs to', f == want)
        c.prove('naming a file changes nothing', cf.d.outbase == 'pix' and cf.outpath == '/out')


MODES = {'SDSS': 0, 'DES': 1, 'LSST': 2}


def galfile(c, fn):
    """a galaxy file, or the table of a pixelised one, with everything told in its header"""
    import numpy as np
    import fitsio
    r = c.nrng
    d = tempfile.mkdtemp()
    pixel = bool(r.integers(2))
    wrong = str(r.choice(['', '', '', '', '', 'mode', 'band', 'noarea', 'fits']))
    nmag = int(r.integers(2, 6))
    bands = list(r.permutation(list('ugrizy'))[:nmag])
    ref = str(bands[r.integers(nmag)])
    mode = str(r.choice(list(MODES)))
    survey = MODES[mode]
    if wrong == 'mode':
        mode = str(r.choice(['XYZ', 'DESX', 'LSST2', 'sdss', 'D']))
    refind = int(r.integers(nmag))      # the table may name another reference
    area, lim, zp = float(r.uniform(1, 5000)), float(r.uniform(18, 26)), float(r.uniform(20, 30))
    nside = int(2 ** r.integers(1, 6))
    truth, zspec = bool(r.integers(2)), bool(r.integers(2))
    b = r.uniform(0, 1e-9, nmag) if r.integers(2) else None
    cols = [('RA', 'f8'), ('DEC', 'f8')] + ([('ZTRUE', 'f4')] if truth else []) + ([('ZSPEC', 'f4')] if zspec else [])
    f = os.path.join(d, 'g.fit')
    if not pixel:
        hdr = dict(PIXELS=0, FITS=int(wrong != 'fits'), MODE=mode, AREA=area, LIM_REF=lim, NMAG=nmag, ZP=zp)
        if wrong == 'noarea':
            del hdr['AREA']
        first = r.integers(2)
        if first:
            hdr['REF_IND'] = refind
        for i in r.permutation(nmag):
            if wrong != 'band' or i == bands.index(ref):
                hdr[bands[i].upper() + '_IND'] = int(i)
        hdr['REF_IND'] = refind
        fitsio.write(f, np.zeros(3, cols), header=hdr, clobber=True)
        b, nside = None, 0
    else:
        told = bool(r.integers(2))
        dt = [('nside', 'i4'), ('mode', 'a%d' % len(mode)), ('area', 'f8'), ('lim_ref', 'f8'), ('nmag', 'i4'), ('zeropoint', 'f8'), ('hpix', 'i4', 2), ('filenames', 'a8', 2)] \
            + [(x + '_ind', 'i2') for x in r.permutation(bands + ['ref']) if wrong != 'band' or x in ('ref', ref)] + ([('b', 'f8', nmag)] if b is not None else []) + ([('has_truth', '?'), ('has_zspec', '?')] if told else [])
        t = np.zeros(1, dt)
        t['nside'], t['mode'], t['area'], t['lim_ref'], t['nmag'], t['zeropoint'], t['ref_ind'] = nside, mode, area, lim, nmag, zp, refind
        t['hpix'][0], t['filenames'][0] = [3, 4], ['p3.fit', 'p4.fit']
        for i, x in enumerate(bands):
            if x + '_ind' in t.dtype.names:
                t[x + '_ind'] = i
        if b is not None:
            t['b'] = b
        if told:
            t['has_truth'], t['has_zspec'] = truth, zspec
        fitsio.write(f, t, header=dict(PIXELS=1, FITS=int(wrong != 'fits')), clobber=True)
        for x in ('p3.fit', 'p4.fit'):
            fitsio.write(os.path.join(d, x), np.zeros(2, cols), clobber=True)
    return d, f, dict(galfile_pixelized=pixel, nmag=nmag, bands=bands, refmag=ref, ref_ind=bands.index(ref), survey_mode=survey, area=area if wrong != 'noarea' or pixel else None, limmag_ref=lim, zeropoint=zp, galfile_nside=nside,
                      galfile_has_truth=truth, galfile_has_zspec=zspec, b=b), wrong in ('mode', 'band', 'fits')


COLUMNS = [('MAG', 'f', 4, 'nmag'), ('MAG_ERR', 'f', 4, 'nmag'), ('PZBINS', 'f', 4, 'npz'), ('PZ', 'f', 4, 'npz'), ('RA_CENT', 'f', 8, 'ncen'), ('DEC_CENT', 'f', 8, 'ncen'), ('ID_CENT', 'i', 8, 'ncen'),
           ('LAMBDA_CENT', 'f', 4, 'ncen'), ('ZLAMBDA_CENT', 'f', 4, 'ncen'), ('P_CEN', 'f', 4, 'ncen'), ('Q_CEN', 'f', 4, 'ncen'), ('P_FG', 'f', 4, 'ncen'), ('Q_MISS', 'f', 4, None), ('P_SAT', 'f', 4, 'ncen'), ('P_C', 'f', 4, 'ncen'),
           ('RA', 'f', 8, None), ('DEC', 'f', 8, None), ('MEM_MATCH_ID', 'i', 4, None), ('LAMBDA', 'f', 4, None), ('Z_LAMBDA', 'f', 4, None)]


class Racing(object):
    class Path(object):
        def exists(self, p):
            return os.path.exists(p) and not os.path.isdir(p)

        isdir = exists

        def __getattr__(self, k):
            return getattr(os.path, k)
    path = Path()

    def __getattr__(self, k):
        return getattr(os, k)


def same(np, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, np.ndarray)) or isinstance(b, (list, np.ndarray)):
        a, b = np.atleast_1d(a), np.atleast_1d(b)
        return a.shape == b.shape and all(same(np, x, y) for x, y in zip(a.tolist(), b.tolist()))
    if isinstance(a, (str, bool, np.bool_)) or isinstance(b, (str, bool, np.bool_)):
        return a == b
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b), 1e-30)


def write_yaml(f, conf):
    import yaml
    with open(f, 'w') as s:
        yaml.dump(conf, s)


def fields(m):
    return [k for k, v in vars(m.Configuration).items() if isinstance(v, m.ConfigField)]


def values(c, m, t):
    """a value of its own for a random choice of fields"""
    r = c.nrng
    nmag = t['nmag']
    skip = set(t) | {'galfile', 'outbase', 'outpath', 'plotpath', 'zrange', 'has_truth', 'centering_use_zspec', 'maskfile', 'mask_mode', 'redmagic_zrange', 'hpix', 'nside', 'wcenfile', 'version', 'area', 'printlogging',
                     'calib_colormem_zbounds', 'bkg_local_annuli', 'limmag_catalog', 'specfile_train'}
    skip |= set(k for k in fields(m) if k.startswith('vlim_') or (k.startswith('redmagic_') and k[-1] == 's'))
    out = {}
    for k in fields(m):
        if k in skip or r.random() < 0.5:
            continue
        v = vars(m.Configuration)[k]
        d = v._default
        if k in ARRS:
            continue
        if v._isArray:
            out[k] = [float(x) for x in r.uniform(0, 1, len(d) if d is not None else 2)]
        elif v._isList:
            out[k] = [float(x) for x in r.uniform(0, 1, 2)]
        elif isinstance(d, bool):
            out[k] = bool(r.integers(2))
        elif isinstance(d, int):
            out[k] = int(r.integers(1, 50))
        elif isinstance(d, float):
            out[k] = float(r.uniform(0.01, 50))
        else:
            out[k] = 'v%d' % r.integers(1000)
    zb = int(r.integers(1, 4))
    if zb > 1:
        out['calib_colormem_zbounds'] = [float(x) for x in r.uniform(0, 1, zb - 1)]
    else:
        zb = 2
    for k, v in ARRS.items():
        out[k] = [float(x) for x in r.uniform(0, 1, zb if v == 'z1' else nmag - 1)]
    return out


@contract('R18', [C + 'Configuration.__init__', C + 'Configuration._galfile_stats', C + 'Configuration._set_vars_from_dict', C + 'Configuration._reset_vars', C + 'read_yaml', C + 'Configuration.output_yaml', C + 'DuplicatableConfig.__init__'],
          kind='conc', bounded='galaxy files of up to 5 bands, half of all keys set', trials=60)
def galaxy_file(c):
    import numpy as np
    m = c.mod('redmapper.configuration')
    r = c.nrng
    dirs = []
    try:
        for turn in range(2):      # the second configuration must not inherit anything
            d, f, t, wrong = galfile(c, 'g')
            dirs.append(d)
            conf = values(c, m, t)
            conf.update(galfile=f, outbase='_o%d_' % turn, refmag=t['refmag'], zrange=[0.1, 0.4], outpath=os.path.join(d, 'out'), plotpath='pp')
            if r.integers(2):
                conf['specfile_train'] = 'train.fit'
            if r.integers(2):
                conf['limmag_catalog'] = 19.25
            sub = int(r.integers(3))
            if sub:
                conf.update(nside=4, hpix=[7, 9][:sub], area=17.5)
            if t['area'] is None:
                del t['area']
                conf.setdefault('area', 21.0)
            raced = bool(r.integers(2))
            if raced:
                # another process makes the directories at the same time: not there when looked for, there when made
                os.makedirs(os.path.join(conf['outpath'], 'pp'))
                c.patch(m, 'os', Racing())
            unknown = r.random() < 0.15
            if unknown:
                conf['no_such_key'] = 3
            y = os.path.join(d, 'c.yml')
            write_yaml(y, conf)
            bad, cf = c.raises((AttributeError, ValueError), lambda: m.Configuration(y))
            c.prove('an unknown key and a galaxy file that cannot be understood are refused, nothing else', bad == (unknown or wrong))
            if raced:
                c.patch(m, 'os', os)
            if bad:
                continue
            derive = {'limmag_catalog': conf.get('limmag_catalog', t['limmag_ref']), 'specfile_train': conf.get('specfile_train', conf.get('specfile')), 'redmagic_zrange': conf['zrange']}
            for k in fields(m):
                got = getattr(cf, k)
                if k in derive:
                    c.prove('a value not given is derived from the one it stands for', same(np, got, derive[k]))
                elif k in conf:
                    c.prove('every given value reaches its field: %s' % k, same(np, got, conf[k]))
                elif k in t:
                    c.prove('every value of the galaxy file reaches its field: %s' % k, same(np, got, t[k]))
                else:
                    c.prove('a value not given is the default: %s' % k, same(np, got, vars(m.Configuration)[k]._default))
            c.prove('the log is named for the pixel if there is one', cf.logger.name == ('redmapper-7' if sub == 1 else 'redmapper'))
            sizes = dict((x[0], np.dtype([x])) for x in cf.cluster_dtype)
            for k, kind, size, n in COLUMNS:
                n = dict(nmag=t['nmag'], npz=cf.npzbins, ncen=cf.percolation_maxcen).get(n)
                x = sizes[k][0] if k in sizes else None
                c.prove('the catalogue has a column for every quantity, wide enough: %s' % k, x is not None and x.base.kind == kind and x.base.itemsize >= size and x.shape in ([()] if n is None else [(n,), ()] if n == 1 else [(n,)]))
            c.prove('output and plot directories are made', os.path.isdir(conf['outpath']) and os.path.isdir(os.path.join(conf['outpath'], 'pp')))
            c.prove('the own copies start from the run', cf.d.outbase == conf['outbase'] and same(np, list(cf.d.hpix), conf.get('hpix', [])) and cf.d.nside == conf.get('nside', 0))
            c.prove('the configuration knows its file', cf.configfile == 'c.yml' and os.path.samefile(cf.configpath, d))
            before = dict((k, getattr(cf, k)) for k in fields(m))
            o = os.path.join(d, 'again.yml')
            cf.output_yaml(o)
            over = bool(r.integers(2))
            kw = dict(outpath=os.path.join(d, 'out2')) if over else {}
            cf2 = m.Configuration(o, **kw)
            for k in fields(m):
                c.prove('a written configuration reads back the same: %s' % k, same(np, getattr(cf2, k), kw['outpath'] if over and k == 'outpath' else before[k]))
    finally:
        for d in dirs:
            shutil.rmtree(d)


@contract('R18', [C + 'Configuration._wcen_vals', C + 'Configuration.set_wcen_vals', C + 'Configuration.check_files'], kind='conc', bounded='one centring model', trials=40)
def wcen_file(c):
    import numpy as np
    import fitsio
    m = c.mod('redmapper.configuration')
    r = c.nrng
    d = tempfile.mkdtemp()
    try:
        cols = ['delta0', 'delta1', 'sigma_m', 'pivot', 'lnw_fg_mean', 'lnw_fg_sigma', 'lnw_sat_mean', 'lnw_sat_sigma', 'lnw_cen_mean', 'lnw_cen_sigma']
        phi = bool(r.integers(2))
        allc = cols + (['phi1_mmstar_m', 'phi1_mmstar_slope', 'phi1_msig_m', 'phi1_msig_slope'] if phi else [])
        w = np.zeros(1, [(k.upper(), 'f8') for k in allc])
        for k in allc:
            w[k.upper()] = r.uniform(-10, 10)
        f = os.path.join(d, 'w.fit')
        there = bool(r.integers(2))
        if there:
            fitsio.write(f, w, clobber=True)
        cf = c.bare(m.Configuration)
        cf._reset_vars()
        cf.wcenfile = c.choice('file', [None, f])
        old = dict((k, getattr(cf, k)) for k in fields(m))
        cf.set_wcen_vals()
        name = dict(delta0='wcen_Delta0', delta1='wcen_Delta1', sigma_m='wcen_sigma_m', pivot='wcen_pivot')
        new = dict((name.get(k, k), float(w[k.upper()][0])) for k in allc) if there and cf.wcenfile is not None else {}
        for k in old:
            c.prove('each centring value is its own column of the file, all else is kept: %s' % k, same(np, getattr(cf, k), new.get(k, old[k])))
        for k in ('zredfile', 'bkgfile', 'parfile', 'zlambdafile', 'randfile'):
            for x in (False, True):
                g = os.path.join(d, 'f_' + k)
                if x:
                    open(g, 'w').close()
                setattr(cf, k, g)
                bad, _ = c.raises(ValueError, lambda: cf.check_files(**{'check_' + k: True}))
                c.prove('a needed file is refused exactly if it is missing', bad == (not x))
                bad, _ = c.raises(ValueError, lambda: cf.check_files())
                c.prove('files that are not needed are not looked for', not bad)
                if x:
                    os.unlink(g)
        exts = [e for e in ('CHISQBKG', 'ZREDBKG') if r.integers(2)] + ['OTHER']
        g = os.path.join(d, 'b.fit')
        for e in r.permutation(exts):
            fitsio.write(g, np.zeros(1, [('X', 'f4')]), extname=str(e))
        cf.bkgfile = g
        bad, _ = c.raises(ValueError, lambda: cf.check_files(check_bkgfile=True, check_bkgfile_components=True))
        c.prove('a background without one of its tables is refused, no other', bad == (len(exts) < 3))
    finally:
        shutil.rmtree(d)


@contract('R18', [C + 'Configuration.start_file_logging', C + 'Configuration.stop_file_logging', C + 'Configuration.copy'], kind='conc', bounded='three calls', trials=30)
def log_files(c):
    import logging
    m = c.mod('redmapper.configuration')
    cf = c.bare(m.Configuration)
    to_console, hp = c.choice('console', [True, False]), int(c.nrng.integers(0, 3000))
    name = c.choice('name', [None, 'here/log1.log'])
    with tempfile.TemporaryDirectory() as d:
        cf.outpath, cf.logpath, cf.printlogging = d, 'logs', to_console
        cf.d = Ns(outbase='pix', hpix=[hp], nside=4)
        cf._file_logging_started = False
        cf.logger = logging.Logger('t%d' % hp)
        extra = c.choice('extra', [0, 1, 2])
        if not to_console:
            for _ in range(extra):
                cf.logger.addHandler(logging.NullHandler())
        cf.start_file_logging(filename=name)
        cf.start_file_logging(filename=name)
        cf.logger.info('hello')
        want = os.path.join(d, 'logs', 'log1.log' if name else 'redmapper_pix_%04d.log' % hp)
        found = [os.path.join(a, f) for a, b, ff in os.walk(d) for f in ff]
        c.prove('the log goes to one file, or to none if only the console is wanted', found == ([] if to_console else [want]))
        if not to_console:
            cf.stop_file_logging()
            cf.logger.info('after')
            c.prove('each message once, none after the log is stopped', open(want).read() == 'hello\n')
        c.prove('no handler is left', to_console or cf.logger.handlers == [])
        cp = cf.copy()
        cp.d = Ns(outbase='other', hpix=[1], nside=4)
        c.prove('the part of a copy is its own', cf.d.outbase == 'pix' and cf.d.hpix == [hp] and cp.outpath == d)
