"""R09: galaxy catalogues on disk (galaxy.py): splitting into pixel files and reading back"""
from rmv.run import contract
from contracts.stand import Ns

K = 'redmapper/galaxy.py:'


def info(nmag, **k):
    d = dict(LIM_REF=22.0, REF_IND=1, AREA=10.0, NMAG=nmag, MODE='DES', ZP=22.5, G_IND=0, R_IND=1)
    d.update(k)
    return d


def make(c, m, n, nmag, truth=False, zspec=False, spread=None, shuffle=True):
    """n galaxies in a few clumps on the sky"""
    np, r = c.np, c.nrng
    g = np.zeros(n, dtype=m.GalaxyCatalogMaker.get_galaxy_dtype(nmag, truth=truth, zspec=zspec))
    g['id'] = r.permutation(10 * n)[:n] + 1
    spread = spread or r.choice([0.5, 3.0, 40.0])
    g['ra'] = (r.uniform(0, 360) + r.uniform(-spread, spread, n)) % 360.0
    g['dec'] = np.clip(r.uniform(-70, 70) + r.uniform(-spread, spread, n), -90, 90)
    g['refmag'] = r.uniform(16, 22, n)
    g['refmag_err'] = r.uniform(0.01, 0.1, n)
    g['mag'] = r.uniform(15, 24, (n, nmag))
    g['mag_err'] = r.uniform(0.01, 0.3, (n, nmag))
    g['ebv'] = r.uniform(0, 0.1, n)
    for f in ('ztrue', 'm200', 'zspec', 'zspec_err'):
        if f in g.dtype.names:
            g[f] = r.uniform(0, 1, n)
    return g


def occupied(np, nside, g):
    import hpgeom as hpg
    return hpg.angle_to_pixel(nside, g['ra'], g['dec'], nest=False)


def two_pixels(c, nside, g):
    """at least two table pixels occupied (see the finding for one)"""
    np = c.np
    if len(set(occupied(np, nside, g).tolist())) < 2:
        g['ra'][0] = (g['ra'][0] + 100.0) % 360.0


def same_rows(np, a, b, names):
    """same set of rows, keyed on the id"""
    if a['id'].size != b['id'].size:
        return False
    i, j = np.argsort(a['id'], kind='stable'), np.argsort(b['id'], kind='stable')
    return all(np.array_equal(np.asarray(a[f])[i], np.asarray(b[f])[j]) for f in names)


def cols(np, cat, names):
    return {f: np.asarray(getattr(cat, f)) for f in names}


@contract('R09', [K + 'GalaxyCatalog.galcol', K + 'GalaxyCatalog.galcol_err', K + 'Galaxy.galcol'])
def colors(c):
    np = c.np
    m = c.mod('redmapper.galaxy')
    n, nm = c.size('n', min=2, max=5), c.choice('nm', [2, 3, 4, 5])
    rec = c.rec('g', n, [('id', 'i8', {}), ('mag', 'f4', dict(shape=nm)), ('mag_err', 'f4', dict(shape=nm, lo=0))])
    g = c.get(m, 'GalaxyCatalog')(rec)
    if not c.symbolic:
        one = g[int(c.nrng.integers(n))]
        k = [j for j in range(n) if g.id[j] == one.id][0] if len(set(g.id.tolist())) == n else None
        c.prove('a single galaxy has the same colours', k is None or (len(one.galcol) == nm - 1 and np.allclose(one.galcol, g.galcol[k])))
    col, err = g.galcol, g.galcol_err
    c.prove('one colour per pair of neighbouring bands', c.And(col.shape[0] == n, col.shape[1] == nm - 1, err.shape[0] == n, err.shape[1] == nm - 1))
    for i in c.each(n):
        for j in range(nm - 1):
            c.prove('colour is bluer minus redder band', c.close(col[i, j], g.mag[i, j] - g.mag[i, j + 1]))
            c.prove('colour error combines both bands', c.And(err[i, j] >= 0, c.close(err[i, j] * err[i, j], g.mag_err[i, j] ** 2 + g.mag_err[i, j + 1] ** 2, rtol=1e-5)))


@contract('R09', [K + 'GalaxyCatalogMaker.append_galaxies', K + 'GalaxyCatalogMaker.finalize_catalog', K + 'GalaxyCatalogMaker.split_galaxies',
                  K + 'GalaxyCatalog.from_galfile', K + 'get_subpixel_indices'], kind='conc', bounded='real FITS files, up to 60 galaxies', trials=60)
def split_and_read(c):
    import os
    import tempfile
    import fitsio
    import hpgeom as hpg
    np = c.np
    m = c.mod('redmapper.galaxy')
    n, nmag = c.size('n', min=3, max=60), c.choice('nmag', [3, 4, 5])
    nside = c.choice('nside', [2, 4, 8, 32])
    truth, zspec = c.choice('truth', [False, True]), c.choice('zspec', [False, True])
    uniq = c.choice('uniq', [False, True])
    parallel = c.choice('parallel', [False, True])
    nchunk = c.choice('nchunk', [1, 2, 4])
    g = make(c, m, n, nmag, truth, zspec)
    two_pixels(c, nside, g)
    g0 = g.copy()
    names = list(g.dtype.names)
    inds = {'%s_IND' % f: q for q, f in enumerate('UGRIZY') if c.choice('with ' + f, [False, True])}
    lref, area, mode, zp = c.float('lim', gen=(20, 24)), c.float('area', gen=(1, 99)), c.choice('mode', ['SDSS', 'DES', 'LSST']), c.choice('zp', [22.5, 30.0])
    rind = c.int('refind', lo=0, hi=nmag - 1)
    info_ = dict(LIM_REF=lref, REF_IND=rind, AREA=area, NMAG=nmag, MODE=mode, ZP=zp, **inds)
    bb = 1e-10 * np.arange(1, nmag + 1)
    if c.choice('softened', [False, True]):
        info_['B'] = bb
    else:
        bb = np.zeros(nmag)
    base = c.choice('base', ['gal', 'gal_0000001_x', 'a.b'])
    with tempfile.TemporaryDirectory() as d:
        ob = os.path.join(d, 'sub', base)
        kw = dict(nside=nside, ingest_truth=truth, ingest_zspec=zspec, generate_unique_ids=uniq, parallel=parallel)
        if uniq:
            g['id'] = 7
        masked = c.choice('masked', [False, False, True])
        if masked:
            lim = float(np.median(g['dec']))
            full = g
            hide = lambda ra, dec: ~((np.asarray(dec) > lim) & (np.asarray(ra) == full['ra'][np.argmax(full['dec'])]))
            wants = []
            c.patch(m, 'get_mask', lambda cf, include_maskgals=True: wants.append((cf.maskfile, cf.mask_mode, include_maskgals)) or Ns(compute_radmask=hide))
            kw.update(maskfile='the mask', mask_mode=3)
        mk = m.GalaxyCatalogMaker(ob, info_, **kw)
        if masked:
            c.prove('the mask asked for, without mask galaxies', len(wants) == 1 and tuple(wants[0]) == ('the mask', 3, False))
        if nchunk == 1:
            mk.split_galaxies(g)
        else:
            cuts = np.sort(c.nrng.integers(0, n + 1, nchunk - 1))
            parts = [p for p in np.split(np.arange(n), cuts) if p.size > 0]
            mks = [mk] + ([m.GalaxyCatalogMaker(ob, info_, **kw)] if parallel else [])
            for k, p in enumerate(parts):
                mks[k % len(mks)].append_galaxies(g[p])
            for x in mks:
                x.finalize_catalog()
        c.prove('the input galaxies are not modified', uniq or np.array_equal(g, g0))
        if masked:
            g = g[hide(g['ra'], g['dec'])]
            c.prove('something is masked', g.size < n)
            n = g.size
            if len(set(occupied(np, nside, g).tolist())) < 2:
                return
        bad, _ = c.raises(RuntimeError, lambda: mk.append_galaxies(g))
        c.prove('no galaxies can be added to a finished catalogue', bad)
        bad, _ = c.raises(RuntimeError, lambda: m.GalaxyCatalogMaker(ob, info_, **kw))
        c.prove('a finished catalogue is not overwritten', bad)
        fn = ob + '_master_table.fit'
        c.prove('no lock files or other files remain', sorted(os.listdir(os.path.dirname(ob))) == sorted(
            [base + '_master_table.fit'] + ['%s_%07d.fit' % (base, p) for p in set(occupied(np, nside, g).tolist())]))
        tab = m.Entry.from_fits_file(fn, ext=1)
        pix = occupied(np, nside, g)
        up = np.unique(pix)
        c.prove('the table lists every occupied pixel once, with its galaxy count', np.array_equal(tab.hpix, up) and
                np.array_equal(tab.ngals, [np.sum(pix == p) for p in up]) and tab.nside == nside)
        ra, dec = hpg.pixel_to_angle(nside, up, nest=False)
        c.prove('and the pixel positions', np.allclose(tab.ra_pix, ra) and np.allclose(tab.dec_pix, dec))
        c.prove('and the survey description', tab.nmag == nmag and tab.ref_ind == rind and abs(tab.lim_ref - lref) < 1e-4 and abs(tab.area - area) < 1e-4 and
                abs(tab.zeropoint - zp) < 1e-4 and bool(tab.has_truth) == truth and bool(tab.has_zspec) == zspec and tab.mode in (mode, mode.encode()))
        c.prove('and the bands that are there', all((f.lower() in tab.dtype.names) == (f in inds) and (f not in inds or getattr(tab, f.lower()) == inds[f])
                                                    for f in ('U_IND', 'G_IND', 'R_IND', 'I_IND', 'Z_IND', 'Y_IND')))
        c.prove('and the softening values', np.allclose(np.asarray(tab.b)[:nmag], bb, rtol=1e-5, atol=1e-16))
        hd = fitsio.read_header(fn, ext=1)
        c.prove('and its kind', hd['PIXELS'] == 1 and hd['FITS'] == 1)
        allids = []
        for p in up:
            f = fitsio.read(os.path.join(os.path.dirname(ob), '%s_%07d.fit' % (base, p)), ext=1, lower=True)
            s = g[pix == p]
            allids += f['id'].tolist()
            if uniq:
                c.prove('each pixel file holds its galaxies', np.array_equal(f['ra'], s['ra']) and np.array_equal(f['mag'], s['mag']))
            else:
                c.prove('each pixel file holds exactly its galaxies', same_rows(np, f, s, names))
        c.prove('ids are unique', len(set(allids)) == n)
        if uniq:
            c.prove('generated ids count from one', sorted(allids) == list(range(1, n + 1)))
        if truth:
            cat = m.GalaxyCatalog.from_galfile(fn, truth=True, zspec=zspec)
        else:
            cat = m.GalaxyCatalog.from_galfile(fn)
        nm = [f for f in names if f != 'id' or not uniq]
        o1, o2 = np.lexsort((cat.dec, cat.ra)), np.lexsort((g['dec'], g['ra']))
        c.prove('reading everything returns every galaxy once', cat.size == n and all(np.array_equal(np.asarray(getattr(cat, f))[o1], g[f][o2]) for f in nm))
        if not truth:
            bad, _ = c.raises(RuntimeError, lambda: m.GalaxyCatalog.from_galfile(fn, truth=True))
            c.prove('truth values that are not there are an error', bad)
        else:
            cat = m.GalaxyCatalog.from_galfile(fn)
            c.prove('truth columns are left out unless asked for', not any(x in cat.dtype.names for x in ('ztrue', 'm200', 'central', 'halo_id')))
        if not zspec:
            bad, _ = c.raises(RuntimeError, lambda: m.GalaxyCatalog.from_galfile(fn, zspec=True))
            c.prove('spectroscopic redshifts that are not there are an error', bad)


@contract('R09', [K + 'GalaxyCatalog.from_galfile', K + 'get_subpixel_indices'], kind='conc', bounded='real FITS files, up to 150 galaxies', trials=60, ctime=30)
def read_region(c):
    import os
    import tempfile
    import fitsio
    import hpgeom as hpg
    np = c.np
    m = c.mod('redmapper.galaxy')
    n, nmag = c.size('n', min=5, max=150), 3
    nside = c.choice('nside', [4, 8, 16])
    sub = c.choice('sub', [s for s in (1, 2, 4, 8) if s <= nside])
    g = make(c, m, n, nmag, spread=c.choice('spread', [5.0, 12.0]))
    two_pixels(c, nside, g)
    g['refmag'][c.nrng.random(n) < 0.1] = 20.0
    zz = c.choice('zred', [False, True])
    tmp = c.choice('tmp', [False, True])
    border = c.choice('border', [0.0, 0.0, 0.5, 2.0])
    mr = c.choice('mr', [None, [17.0, 20.0]])
    cm = c.choice('cm', [None, 10.0])
    big = occupied(np, sub, g)
    if border > 0:
        # many of them just inside or outside the border of the first one's pixel
        import hpgeom.healpy_compat as hpc
        bb = hpc.boundaries(sub, int(big[0]), step=64)
        bra, bdec = hpg.vector_to_angle(np.ascontiguousarray(bb.T))
        for i in range(1, n // 2):
            q, th, dd = int(c.nrng.integers(bra.size)), c.nrng.uniform(0, 2 * np.pi), border * c.nrng.uniform(0.85, 1.0)
            if abs(bdec[q]) < 60:
                g['ra'][i] = (bra[q] + dd * np.cos(th) / np.cos(np.radians(bdec[q]))) % 360.0
                g['dec'][i] = bdec[q] + dd * np.sin(th)
    g['refmag'][c.nrng.random(n) < 0.1] = 17.0
    pix = occupied(np, nside, g)
    big = occupied(np, sub, g)
    with tempfile.TemporaryDirectory() as d:
        ob = os.path.join(d, 'gal')
        m.GalaxyCatalogMaker(ob, info(nmag), nside=nside).split_galaxies(g)
        fn = ob + '_master_table.fit'
        tdir = os.path.join(d, 'scratch')
        os.makedirs(tdir)
        c.patch(m, 'tempfile', Ns(mkstemp=lambda suffix=None, **k: tempfile.mkstemp(suffix=suffix, dir=tdir)))
        tab = m.Entry.from_fits_file(fn, ext=1)
        kw, missing = {}, []
        zall = {}
        if zz:
            zd = os.path.join(d, 'z')
            os.makedirs(zd)
            drop = c.choice('drop', [0, 0, 1]) if len(set(pix.tolist())) > 2 else 0
            t = fitsio.read(fn, ext=1)
            for k, p in enumerate(tab.hpix):
                f = fitsio.read(os.path.join(d, 'gal_%07d.fit' % p), ext=1, lower=True)
                zc = np.zeros(f.size, dtype=[('ZRED', 'f4'), ('CHISQ', 'f4')])
                zc['ZRED'] = (f['id'] % 97) / 100.0
                zc['CHISQ'] = f['id'] % 23
                if k < drop:
                    missing.append(p)
                    continue
                fitsio.write(os.path.join(zd, 'gal_zreds_%07d.fit' % p), zc)
            t2 = np.zeros(1, dtype=[('NSIDE', 'i2'), ('FILENAMES', 'S30', (tab.hpix.size,)), ('HPIX', 'i4', (tab.hpix.size,))])
            t2['NSIDE'] = nside
            t2['HPIX'][0] = tab.hpix
            for k, p in enumerate(tab.hpix):
                t2['FILENAMES'][0, k] = 'gal_zreds_%07d.fit' % p
            h = fitsio.FITSHDR()
            h['PIXELS'] = 1
            zf = os.path.join(zd, 'gal_zreds_master.fit')
            fitsio.write(zf, t2, header=h)
            kw['zredfile'] = zf
        have = ~np.isin(pix, missing)
        if tmp:
            kw['use_tempfile'] = True
            if mr is not None:
                kw['refmag_range'] = mr
            if cm is not None:
                kw['chisq_max'] = cm
        mode = c.choice('mode', ['all', 'one', 'several'] if border == 0 else ['one'])
        want = have.copy()
        if mode == 'one':
            hp = [int(big[0] if border > 0 and have[0] else c.nrng.choice(np.unique(big[have])))]
            kw.update(hpix=hp if c.choice('aslist', [True, False]) else hp[0], nside=sub, border=border)
        elif mode == 'several':
            ub = np.unique(big[have])
            hp = [int(x) for x in c.nrng.permutation(ub)[:max(1, ub.size - 1)]]
            kw.update(hpix=hp, nside=sub)
        if mode != 'all':
            want &= np.isin(big, hp)
        cut = np.ones(n, dtype=bool)
        if tmp and mr is not None:
            cut &= (g['refmag'] > np.float32(mr[0])) & (g['refmag'] < np.float32(mr[1]))
        if tmp and cm is not None and zz:
            cut &= (g['id'] % 23) < cm
        cat = m.GalaxyCatalog.from_galfile(fn, **kw)
        got = np.asarray(cat.id).tolist() if cat.size > 0 else []
        c.prove('no temporary file is left', os.listdir(tdir) == [])
        c.prove('no galaxy twice', len(set(got)) == len(got))
        need = set(g['id'][want & cut].tolist())
        c.prove('every galaxy of the region that passes the cuts', need <= set(got))
        if mode != 'all' and border > 0:
            # pixels of the wide border are complete inside it; nothing far outside
            import hpgeom.healpy_compat as hpc
            b = hpc.boundaries(sub, hp[0], step=64)
            dist = np.degrees(np.arccos(np.clip(np.max(hpg.angle_to_vector(g['ra'], g['dec']) @ b, axis=1), -1, 1)))
            dist[np.isin(big, hp)] = 0
            near = have & cut & (dist < border - 0.02)
            c.prove('every galaxy within the border', set(g['id'][near].tolist()) <= set(got))
            far = ~(have & cut & (dist < border + 0.35))
            c.prove('nothing beyond the border', not (set(g['id'][far].tolist()) & set(got)))
        else:
            c.prove('and no other', set(got) == need)
        i = np.searchsorted(np.sort(g['id']), got)
        src = g[np.argsort(g['id'])][i]
        c.prove('with their own values', all(np.array_equal(np.asarray(getattr(cat, f)), src[f]) for f in g.dtype.names) if got else True)
        if zz and got:
            c.prove('and their own redshifts', np.allclose(cat.zred, (src['id'] % 97) / 100.0) and np.array_equal(cat.chisq, src['id'] % 23))


@contract('R09', [K + 'GalaxyCatalog.from_galfile'], kind='conc', bounded='real FITS files', trials=20)
def read_rejects(c):
    import os
    import tempfile
    import fitsio
    np = c.np
    m = c.mod('redmapper.galaxy')
    n = c.size('n', min=4, max=20)
    g = make(c, m, n, 3, spread=40.0)
    two_pixels(c, 4, g)
    with tempfile.TemporaryDirectory() as d:
        ob = os.path.join(d, 'gal')
        m.GalaxyCatalogMaker(ob, info(3), nside=4).split_galaxies(g)
        fn = ob + '_master_table.fit'
        R = m.GalaxyCatalog.from_galfile
        for k, e in ((dict(hpix=[0], nside=None), ValueError), (dict(border=-1.0), ValueError), (dict(hpix=[48], nside=2), ValueError),
                     (dict(hpix=[-1], nside=2), ValueError), (dict(hpix=[1, 2], nside=2, border=1.0), NotImplementedError), (dict(hpix=[1], nside=8), ValueError)):
            bad, _ = c.raises(e, lambda: R(fn, **k))
            c.prove('impossible request %s is rejected' % sorted(k), bad)
        t2 = np.zeros(1, dtype=[('NSIDE', 'i2'), ('FILENAMES', 'S30', (2,)), ('HPIX', 'i4', (2,))])
        t2['FILENAMES'][0] = ['nothing_1.fit', 'nothing_2.fit']
        zf = os.path.join(d, 'zmaster.fit')
        tab = m.Entry.from_fits_file(fn, ext=1)
        if tab.hpix.size == 2:
            fitsio.write(zf, t2, header={'PIXELS': 1})
            c.prove('split redshifts of which none is there are rejected', c.raises(ValueError, lambda: R(fn, zredfile=zf))[0])
        c.patch(m, 'make_lockfile', lambda *a, **k: False)
        os.makedirs(os.path.join(d, 'par'))
        mk = m.GalaxyCatalogMaker(os.path.join(d, 'par', 'gal'), info(3), nside=4, parallel=True)
        c.prove('without a lock nothing is added', c.raises(RuntimeError, lambda: mk.append_galaxies(g))[0] and os.listdir(os.path.join(d, 'par')) == [])
        flat, z = os.path.join(d, 'flat.fit'), os.path.join(d, 'zflat.fit')
        fitsio.write(flat, g)
        fitsio.write(z, np.zeros(n, dtype=[('zred', 'f4')]))
        cat = R(flat)
        c.prove('an unsplit file is read as is', np.array_equal(cat.id, g['id']) and np.array_equal(cat.mag, g['mag']))
        zc = np.zeros(n, dtype=[('zred', 'f4')])
        zc['zred'] = np.arange(n)
        fitsio.write(z, zc, clobber=True)
        cat = R(flat, zredfile=z)
        c.prove('with its redshifts', np.array_equal(cat.id, g['id']) and np.array_equal(cat.zred, np.arange(n)))
        fitsio.write(z, zc[:-1], clobber=True)
        bad, _ = c.raises(ValueError, lambda: R(flat, zredfile=z))
        c.prove('redshifts of a different length are rejected', bad)
        bad, _ = c.raises(ValueError, lambda: R(fn, zredfile=z))
        c.prove('unsplit redshifts for split galaxies are rejected', bad)


@contract('R09', [K + 'GalaxyCatalogMaker._check_galaxies', K + 'GalaxyCatalogMaker.__init__', K + 'GalaxyCatalogMaker.append_galaxies'],
          kind='conc', bounded='real files, up to 20 galaxies', trials=80)
def ingest_rejects(c):
    import os
    import tempfile
    np = c.np
    m = c.mod('redmapper.galaxy')
    n, nmag = c.size('n', min=2, max=20), 3
    g = make(c, m, n, nmag, spread=40.0)
    two_pixels(c, 4, g)
    k = int(c.nrng.integers(n))
    what = c.choice('what', ['ok', 'okb', 'ra-', 'ra+', 'dec-', 'dec+', 'nan', 'inf', 'mag90', 'err90', 'mag0', 'err0', 'dup', 'missing', 'nmag', 'kind', 'edges'])
    b = None
    ok = False
    if what == 'ok':
        ok = True
    elif what == 'edges':
        g['ra'][k] = c.nrng.choice([0.0, 360.0])
        g['dec'][k] = c.nrng.choice([-90.0, 90.0])
        ok = True
    elif what == 'okb':
        b = np.array([1e-10] * nmag)
        g['mag_err'][k, 1] = 95.0
        ok = True
    elif what in ('ra-', 'ra+'):
        g['ra'][k] = -0.001 if what == 'ra-' else 360.001
    elif what in ('dec-', 'dec+'):
        g['dec'][k] = -90.001 if what == 'dec-' else 90.001
    elif what in ('nan', 'inf'):
        f = c.nrng.choice(['ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'ebv'])
        v = g[f]
        v[k if v.ndim == 1 else (k, int(c.nrng.integers(nmag)))] = np.nan if what == 'nan' else -np.inf
    elif what in ('mag90', 'mag0'):
        g['mag'][k, int(c.nrng.integers(nmag))] = 90.0 if what == 'mag90' else 0.0
    elif what in ('err90', 'err0'):
        g['mag_err'][k, int(c.nrng.integers(nmag))] = 90.0 if what == 'err90' else 0.0
    elif what == 'dup':
        g['id'][k] = g['id'][(k + 1) % n]
    elif what == 'missing':
        f = str(c.nrng.choice([x for x in g.dtype.names]))
        g = np.array(g[[x for x in g.dtype.names if x != f]].tolist(), dtype=[dt for dt in g.dtype.descr if dt[0] != f])
    elif what == 'nmag':
        h = np.zeros(n, dtype=m.GalaxyCatalogMaker.get_galaxy_dtype(nmag + 1))
        for f in h.dtype.names:
            h[f] = g[f] if h[f].ndim == 1 else np.repeat(g[f][:, :1], nmag + 1, axis=1)
        g = h
    elif what == 'kind':
        g = g.astype([(f, ('i8' if f == 'ebv' else g.dtype[f])) for f in g.dtype.names])
    with tempfile.TemporaryDirectory() as d:
        ob = os.path.join(d, 'gal')
        kw = {} if b is None else dict(B=b)
        mk = m.GalaxyCatalogMaker(ob, info(nmag, **kw), nside=4)
        bad, _ = c.raises(RuntimeError, lambda: mk.split_galaxies(g))
        c.prove('unusable galaxies are rejected, usable ones accepted (%s)' % what, bad == (not ok))
        if bad:
            c.prove('nothing is written for a rejected catalogue', os.listdir(d) == [])
        bad, _ = c.raises(RuntimeError, lambda: m.GalaxyCatalogMaker('nopath', info(nmag)))
        c.prove('a path is required', bad)
        # duplicates over separate appends are found at the end
        ob = os.path.join(d, 'two', 'gal')
        g = make(c, m, n, nmag, spread=40.0)
        two_pixels(c, 4, g)
        h = make(c, m, n, nmag, spread=40.0)
        dup = c.choice('dup', [True, False])
        h['id'] = g['id'].max() + 1 + np.arange(n)
        if dup:
            h['id'][0] = g['id'][0]
        mk = m.GalaxyCatalogMaker(ob, info(nmag), nside=4)
        mk.append_galaxies(g)
        mk.append_galaxies(h)
        bad, _ = c.raises(RuntimeError, lambda: mk.finalize_catalog())
        c.prove('ids are unique over all appended galaxies', bad == dup)


@contract('R09', [K + 'GalaxyCatalogMaker._check_galaxies'])
def accepted(c):
    np = c.np
    m = c.mod('redmapper.galaxy')
    n, nmag = c.size('n', min=2, max=5), c.choice('nmag', [2, 3])
    f = dict(ext=True, special=(0.0, 90.0, -1.0, 50.0, 360.0, 361.0, -91.0))
    q = dict(lo=0.1, hi=60.0)
    which = c.choice('which', ['pos', 'mag', 'other'])
    w = lambda k: dict(f) if which == k else dict(q)
    gals = c.rec('g', n, [('id', 'i8', {}), ('ra', 'f8', w('pos')), ('dec', 'f8', w('pos')), ('refmag', 'f4', w('other')), ('refmag_err', 'f4', w('other')),
                          ('mag', 'f4', dict(shape=nmag, **w('mag'))), ('mag_err', 'f4', dict(shape=nmag, **w('mag'))), ('ebv', 'f4', w('other'))])
    lup = c.choice('lup', [False, True])
    mk = c.bare(c.get(m, 'GalaxyCatalogMaker'), nmag=nmag, ingest_truth=False, ingest_zspec=False, generate_unique_ids=True,
                b=np.array([1e-10 if lup else 0.0] * nmag))
    bad, _ = c.raises(RuntimeError, lambda: mk._check_galaxies(gals))
    if not bad:
        for i in c.each(n):
            g = lambda k: gals[k][i]
            c.prove('accepted galaxies are finite', c.And(*[c.isfinite(g(k)) for k in ('ra', 'dec', 'refmag', 'refmag_err', 'ebv')]))
            c.prove('accepted positions are on the sky', c.And(g('ra') >= 0, g('ra') <= 360, g('dec') >= -90, g('dec') <= 90))
            for j in range(nmag):
                a, e = gals['mag'][i, j], gals['mag_err'][i, j]
                c.prove('accepted magnitudes are usable', c.And(c.isfinite(a), a > 0, a < 90, c.isfinite(e), e > 0, e < 90 if not lup else True))
    elif which == 'pos':
        ok = lambda a, lo, hi: np.isfinite(a) & (a >= lo) & (a <= hi)
        c.prove('good positions are not rejected', c.Not(np.all(ok(gals['ra'], 0, 360) & ok(gals['dec'], -90, 90))))
    elif which == 'mag':
        ok = np.isfinite(gals['mag']) & (gals['mag'] > 0) & (gals['mag'] < 90) & np.isfinite(gals['mag_err']) & (gals['mag_err'] > 0)
        if not lup:
            ok = ok & (gals['mag_err'] < 90)
        c.prove('good magnitudes are not rejected', c.Not(np.all(ok.flatten())))


@contract('R09', [K + 'get_subpixel_indices'], kind='conc', bounded='up to 200 table pixels', trials=60)
def subpixels(c):
    import hpgeom as hpg
    np = c.np
    m = c.mod('redmapper.galaxy')
    nt = c.choice('nt', [4, 8, 16])
    npix = 12 * nt * nt
    hp = np.sort(c.nrng.choice(npix, size=min(npix, int(c.nrng.integers(1, 200))), replace=False))
    t = Ns(nside=nt, hpix=hp, filenames=np.array(['f%d' % p for p in hp]))
    sub = c.choice('sub', [s for s in (1, 2, 4, 8, 16) if s <= nt])
    k = c.int('k', lo=1, hi=5)
    req = c.nrng.choice(12 * sub * sub, size=k, replace=False)
    par = hpg.nest_to_ring(sub, hpg.ring_to_nest(nt, hp) // (nt // sub) ** 2)
    got = np.sort(m.get_subpixel_indices(t, hpix=list(req), nside=sub))
    c.prove('exactly the table pixels inside the requested pixels', np.array_equal(got, np.where(np.isin(par, req))[0]))
    c.prove('all of them when no pixel is requested', np.array_equal(m.get_subpixel_indices(t), np.arange(hp.size)))
    b = c.choice('border', [0.5, 2.0])
    got = m.get_subpixel_indices(t, hpix=[int(req[0])], nside=sub, border=b)
    c.prove('with a border no table pixel twice', len(set(got.tolist())) == got.size)
    c.prove('with a border at least the pixels inside', set(np.where(par == req[0])[0].tolist()) <= set(got.tolist()))
    # any table pixel holding a point within the border
    ra, dec = c.nrng.uniform(0, 360, 3000), np.degrees(np.arcsin(c.nrng.uniform(-1, 1, 3000)))
    import hpgeom.healpy_compat as hpc
    v = hpg.angle_to_vector(ra, dec)
    bd = hpc.boundaries(sub, int(req[0]), step=32).T
    dist = np.degrees(np.arccos(np.clip(np.max(v @ bd.T, axis=1), -1, 1)))
    pts = hpg.angle_to_pixel(nt, ra, dec, nest=False)[dist < b * 0.98]
    c.prove('and every table pixel reaching into the border', set(np.where(np.isin(hp, pts))[0].tolist()) <= set(got.tolist()))
    far = np.unique(hpg.angle_to_pixel(nt, ra, dec, nest=False)[dist < b + 8 * 60.0 / nt])
    near = set(np.where(np.isin(hp, far))[0].tolist()) | set(np.where(par == req[0])[0].tolist())
    bad, _ = c.raises(NotImplementedError, lambda: m.get_subpixel_indices(t, hpix=[0, 1], nside=sub, border=b))
    c.prove('no border around a pixel list', bad)


@contract('R09', [K + 'GalaxyCatalog.match_one', K + 'GalaxyCatalog.match_many', K + 'GalaxyCatalog.add_zred_fields'], kind='conc', bounded='up to 60 galaxies', trials=60)
def matching(c):
    np = c.np
    m = c.mod('redmapper.galaxy')
    n = c.size('n', min=1, max=60)
    g = make(c, m, n, 3, spread=c.nrng.choice([0.5, 3.0]))
    cat = m.GalaxyCatalog(g.copy())
    import hpgeom as hpg
    v = hpg.angle_to_vector(g['ra'], g['dec'])
    def oracle(ra, dec):
        w = hpg.angle_to_vector(ra, dec)
        return np.degrees(2 * np.arcsin(np.clip(np.sqrt(np.sum((v - w) ** 2, axis=1)) / 2, 0, 1)))
    i = int(c.nrng.integers(n))
    rad = float(c.nrng.uniform(0.1, 1.0))
    if c.choice('many first', [False, True]):
        a, b, dd = cat.match_many(g['ra'][[i, i]], g['dec'][[i, i]], rad, maxmatch=1)
        c.prove('the nearest one of each', sorted(a.tolist()) == [0, 1] and np.all(dd < 1e-6))
    d = oracle(g['ra'][i] + 0.01, g['dec'][i])
    idx, dist = cat.match_one(g['ra'][i] + 0.01, g['dec'][i], rad)
    edge = np.abs(d - rad) < 1e-6
    c.prove('every galaxy within the radius, and no other', set(np.where((d < rad) & ~edge)[0]) <= set(idx.tolist()) <= set(np.where((d < rad) | edge)[0]))
    c.prove('each once', len(set(idx.tolist())) == len(idx))
    c.prove('with its distance', np.allclose(dist, d[idx], atol=1e-6))
    rr = c.nrng.uniform(0.05, 1.0, 4)
    jj = c.nrng.integers(0, n, 4)
    a, b, dd = cat.match_many(g['ra'][jj], g['dec'][jj], rr)
    for q in range(4):
        dq = oracle(g['ra'][jj[q]], g['dec'][jj[q]])
        s = b[a == q]
        eq = np.abs(dq - rr[q]) < 1e-6
        c.prove('every pair within its own radius', set(np.where((dq < rr[q]) & ~eq)[0]) <= set(s.tolist()) <= set(np.where((dq < rr[q]) | eq)[0]))
        c.prove('with the pair distances', np.allclose(dd[a == q], dq[s], atol=1e-6))
    part = c.choice('part', [0, 1, 3])
    zf = m.zred_extra_dtype(4)
    have = [zf[q] for q in c.nrng.permutation(len(zf))[:{0: 0, 1: len(zf) - 1, 3: 3}[part]]]
    if have:
        cat.add_fields(have)
        keep = have[0][0]
        setattr(cat, keep, np.ones(np.asarray(getattr(cat, keep)).shape))
    cat.add_zred_fields(4)
    c.prove('existing redshift fields keep their values', not have or np.all(np.asarray(getattr(cat, keep)) == 1))
    c.prove('all redshift fields are there', all(f[0].lower() in cat.dtype.names for f in zf) and len(set(cat.dtype.names)) == len(cat.dtype.names))
    c.prove('redshift fields are added and nothing changes', cat.zred_samp.shape == (n, 4) and np.array_equal(cat.id, g['id']) and np.array_equal(cat.mag, g['mag']))
    z = c.nrng.random(n)
    cat.zred = z
    cat.add_zred_fields(4)
    c.prove('once only', np.array_equal(cat.zred, z.astype('f4')))


@contract('R09', [K + 'GalaxyCatalog.from_galfile'], kind='conc', finding='R09-one-pixel', trials=1)
def one_pixel(c):
    import os
    import tempfile
    np = c.np
    m = c.mod('redmapper.galaxy')
    g = make(c, m, 4, 3, spread=0.001)
    g['ra'], g['dec'] = 50.0, 10.0
    with tempfile.TemporaryDirectory() as d:
        ob = os.path.join(d, 'gal')
        m.GalaxyCatalogMaker(ob, info(3), nside=4).split_galaxies(g)
        cat = m.GalaxyCatalog.from_galfile(ob + '_master_table.fit')
        c.prove('a catalogue in one pixel can be read back', cat.size == 4)
