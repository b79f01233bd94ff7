"""R11: splitting a run into pixels, running the stages of a pixel, and putting the pixel catalogues together again"""
import os

from rmv.run import contract
from contracts.stand import Ns, Log, FakeMp

RR = 'redmapper/redmapper_run.py:'
PC = 'redmapper/pipeline/redmapperconsolidatetask.py:'
PT = 'redmapper/pipeline/redmappertask.py:'
PZ = 'redmapper/pipeline/zredtask.py:'
U = 'redmapper/utilities.py:'


class Files(object):
    """os.path over a set of names: whether a file is there is told, everything else is the real os.path"""
    def __init__(self, there):
        self.there = there          # name -> truth value

    def isfile(self, f):
        return self.there.get(f, False)

    exists = isfile

    def __getattr__(self, k):
        return getattr(os.path, k)


class Os(object):
    def __init__(self, there):
        self.path = Files(there)

    def __getattr__(self, k):
        return getattr(os, k)


STAGES = ('firstpass', 'like', 'percolation')


class Pipe(object):
    """the stages of a pixel answer as told: file there or not, and no catalogue, an empty one or some clusters"""
    def __init__(self, c, m, names, base):
        self.c, self.log = c, []
        self.names = names
        self.there = {}
        self.present = {}
        self.out = {}
        for s in names:
            self.present[s] = self.there['%s_%s.fit' % (base, s)] = c.bool('there_' + s)
            self.out[s] = c.choice('out_' + s, ['some', 'none', 'empty'])
        pipe = self
        for s, cls in names.items():
            c.patch(m, cls, self.stage(s))
        c.patch(m, 'os', Os(self.there))

    def stage(pipe, s):
        class Stage(object):
            def __init__(self, config, **k):
                self.config, self.kw = config, k
                self.cat = None
                self.members = None
                pipe.log.append(('make', s, config.__dict__.get('catfile'), list(config.d.hpix), config.d.nside, config.d.outbase, k, config.__dict__.get('border'), config.__dict__.get('cosmo')))

            @property
            def filename(self):
                return '%s_%s.fit' % (self.config.d.outbase, s)

            def run(self, **k):
                pipe.log.append(('run', s, k))
                self.cat = {'some': Ns(size=3), 'none': None, 'empty': Ns(size=0)}[pipe.out[s]]

            def output(self, savemembers=True, withversion=True, clobber=False, outbase=None):
                pipe.log.append(('output', s, savemembers, withversion, clobber))
        return Stage

    def did(self, kind, s):
        return [e for e in self.log if e[0] == kind and e[1] == s]


def config(c, **k):
    cf = Ns(logger=Log(), d=Ns(outbase='base', nside=4, hpix=[]), cosmo='cosmo', start_file_logging=lambda *a, **k: None, stop_file_logging=lambda *a, **k: None)
    cf.__dict__.update(k)

    def copy():
        n = Ns(**cf.__dict__)
        n.d = Ns(**cf.d.__dict__)
        n.copy = lambda: n
        return n
    cf.copy = copy
    return cf


@contract('R11', [RR + 'RedmapperRun._worker'], maxpaths=4000, assumes=['each stage by its contract (R07, R10)'])
def stages(c):
    m = c.mod('redmapper.redmapper_run')
    cf = config(c)
    keepz, clean, spec = c.choice('keepz', [True, False]), c.choice('clean', [True, False]), c.choice('spec', [True, False])
    check = c.bool('check')
    c.patch(m, 'Cosmo', lambda **k: ('cosmo', k.get('H0'), k.get('omega_l'), k.get('omega_m')))
    p = Pipe(c, m, dict(firstpass='RunFirstPass', like='RunLikelihoods', percolation='RunPercolation'), 'base_4_00017')
    run = c.bare(m.RedmapperRun, config=cf, _H0=70.0, _omega_l=0.7, _omega_m=0.3, specmode=spec, check=check, keepz=keepz, cleaninput=clean)
    ret = run._worker(17)
    done = 0
    alive = True
    for i, s in enumerate(STAGES):
        if not alive:
            c.prove('nothing runs after a stage without clusters', not p.did('make', s) and not p.did('run', s))
            continue
        mk = p.did('make', s)
        c.prove('every stage works on the pixel it was given', len(mk) >= 1 and all(e[3] == [17] and e[4] == 4 and e[5] == 'base_4_00017' for e in mk))
        c.prove('with the cosmology of the run', all(e[8] == ('cosmo', 70.0, 0.7, 0.3) for e in mk))
        if i:
            c.prove('every stage starts from the file of the stage before', all(e[2] == 'base_4_00017_%s.fit' % STAGES[i - 1] for e in mk))
        if i == 0:
            c.prove('spectroscopic mode is handed on', all(e[6].get('specmode') == spec for e in mk))
        ran = p.did('run', s)
        skip = c.And(p.present[s], check)
        c.prove('a stage is skipped exactly if its file is there and files are checked', c.Iff(skip, len(ran) == 0))
        if not ran:
            done += 1
            continue
        c.prove('a stage runs once with the options asked for', len(ran) == 1 and ran[0][2].get('keepz') == keepz and ('cleaninput' not in ran[0][2] or (s == 'firstpass' and ran[0][2]['cleaninput'] == clean))
                and (s != 'firstpass' or ran[0][2].get('cleaninput', False) == clean))
        outp = p.did('output', s)
        if p.out[s] != 'some':
            alive = False
            c.prove('no catalogue is written without clusters', len(outp) == 0)
        else:
            c.prove('the catalogue is written, with members after percolation', len(outp) == 1 and outp[0][3] is False and outp[0][4] is True and (outp[0][2] is True if s == 'percolation' else True))
            done += 1
    c.prove('the files of the completed stages are reported', tuple(ret) == (17,) + tuple('base_4_00017_%s.fit' % s if i < done else None for i, s in enumerate(STAGES)))
    c.prove('the configuration of the whole run is not changed', cf.d.outbase == 'base' and cf.d.hpix == [] and cf.d.nside == 4 and 'catfile' not in cf.__dict__)


@contract('R11', [RR + 'RedmapperRun._percolation_only_worker'], assumes=['each stage by its contract (R07, R10)'])
def percolation_stage(c):
    m = c.mod('redmapper.redmapper_run')
    cf = config(c, catfile='like.fit')
    keepz, clean = c.choice('keepz', [True, False]), c.choice('clean', [True, False])
    check = c.bool('check')
    c.patch(m, 'Cosmo', lambda **k: ('cosmo', k.get('H0'), k.get('omega_l'), k.get('omega_m')))
    p = Pipe(c, m, dict(percolation='RunPercolation'), 'base_00017')
    run = c.bare(m.RedmapperRun, config=cf, _H0=70.0, _omega_l=0.7, _omega_m=0.3, specmode=False, check=check, keepz=keepz, cleaninput=clean)
    ret = run._percolation_only_worker(17)
    s = 'percolation'
    mk, ran, outp = p.did('make', s), p.did('run', s), p.did('output', s)
    c.prove('it works on the pixel it was given', len(mk) >= 1 and all(e[3] == [17] and e[2] == 'like.fit' for e in mk))
    c.prove('with the cosmology of the run', all(e[8] == ('cosmo', 70.0, 0.7, 0.3) for e in mk))
    base = mk[0][5]
    c.prove('under a name of this pixel', '17' in base and base.startswith('base') and all(e[5] == base for e in mk))
    there = p.there.get('%s_%s.fit' % (base, s), False)
    c.prove('skipped exactly if its file is there and files are checked', c.Iff(c.And(there, check), len(ran) == 0))
    if ran:
        c.prove('with the options asked for', len(ran) == 1 and ran[0][2].get('keepz') == keepz and ran[0][2].get('cleaninput', False) == clean)
        if p.out[s] != 'some':
            c.prove('no catalogue without clusters', not outp and tuple(ret) == (17, None, None, None))
            return
        c.prove('written with members', len(outp) == 1 and outp[0][2] is True and outp[0][3] is False and outp[0][4] is True)
    c.prove('the file is reported', tuple(ret) == (17, None, None, '%s_%s.fit' % (base, s)))
    c.prove('the configuration of the whole run is not changed', cf.d.outbase == 'base' and cf.d.hpix == [] and cf.d.nside == 4)


@contract('R11', [PT + 'RunRedmapperPixelTask.run', PT + 'RuncatPixelTask.run', PT + 'RunZmaskPixelTask.run', PT + 'RunZScanPixelTask.run'], assumes=['each stage by its contract (R07, R10)'])
def pixel_task(c):
    m = c.mod('redmapper.pipeline.redmappertask')
    kind = c.choice('kind', ['run', 'runcat', 'zmask', 'zscan'])
    pixelized = c.bool('pixelized')
    asked = []
    cf = config(c, outbase='base', galfile_pixelized=pixelized, runcat_percolation_masking=True, compute_border=lambda: 0.25, border=0.0, d=Ns(outbase='stale', nside=1, hpix=[2]))

    def check_files(**k):
        asked.append(k)
    cf.check_files = check_files
    names = {'run': dict(firstpass='RunFirstPass', like='RunLikelihoods', percolation='RunPercolation'), 'runcat': dict(runcat='RunCatalog'), 'zmask': dict(zmask='RunRandomsZmask'), 'zscan': dict(zscan='RunZScan')}[kind]
    p = Pipe(c, m, names, 'base_4_00017')
    p.out = dict((s, 'some') for s in p.out)
    cls = c.get(m, dict(run='RunRedmapperPixelTask', runcat='RuncatPixelTask', zmask='RunZmaskPixelTask', zscan='RunZScanPixelTask')[kind])
    t = c.bare(cls, config=cf, pixel=17, nside=4)
    r, _ = c.raises(ValueError, t.run)
    c.prove('only pixelised galaxies can be run', c.Iff(r, c.Not(pixelized)))
    if r:
        c.prove('and then nothing runs', not p.log)
        return
    c.prove('the calibration files are looked for first', len(asked) >= 1)
    prev = None
    for s in names:
        mk, ran, outp = p.did('make', s), p.did('run', s), p.did('output', s)
        c.prove('every stage works on its pixel with a border', len(mk) == 1 and mk[0][3] == [17] and mk[0][4] == 4 and mk[0][5] == 'base_4_00017' and mk[0][7] == 0.25)
        if prev:
            c.prove('and starts from the stage before', mk[0][2] == 'base_4_00017_%s.fit' % prev)
        c.prove('a stage runs exactly if its file is not there yet', c.Iff(p.present[s], len(ran) == 0) if not isinstance(p.present[s], bool) else (len(ran) == (0 if p.present[s] else 1)))
        c.prove('and is written where it is looked for', len(outp) == len(ran) and all(e[3] is False for e in outp))
        if s in ('percolation', 'runcat', 'zscan'):
            c.prove('with its members', all(e[2] is True for e in outp))
        if s == 'runcat' and ran:
            c.prove('with the masking asked for', ran[0][2].get('do_percolation_masking') is True)
        prev = s


@contract('R11', [RR + 'RedmapperRun.run'], kind='conc', bounded='up to 4 pixels', trials=200)
def whole_run(c):
    np = c.np
    m = c.mod('redmapper.redmapper_run')
    n = c.size('n', min=0, max=4)
    spec, keepz, only, check, conslike, cons = [c.choice(k, [True, False]) for k in ('spec', 'keepz', 'only', 'check', 'conslike', 'cons')]
    cf = config(c, seedfile='orig', calib_run_nproc=2, d=Ns(outbase='base', nside=c.choice('nside', [0, 2]), hpix=[]))
    n0 = cf.d.nside
    c.patch(m, 'multiprocessing', FakeMp())
    pix = [int(x) for x in c.nrng.permutation(40)[:n]]
    told = {}
    for q in pix:
        k = 3 if only else c.rng.randint(0, 3)
        told[q] = (q, None, None, 'p%d' % q if c.rng.random() < 0.7 else None) if only else (q,) + tuple('f%d_%d' % (j, q) if j < k else None for j in range(3))
    run = c.bare(m.RedmapperRun, config=cf, _H0=70.0, _omega_l=0.7, _omega_m=0.3)
    seen = []

    def worker(which):
        def f(q):
            seen.append((which, q, cf.d.nside, cf.seedfile))
            return told[q]
        return f
    run._worker, run._percolation_only_worker = worker('all'), worker('only')
    run._get_pixel_splits = lambda: (8, pix)
    calls = []

    def consolidate(hpixels, filenames, filetype, members=False, check=True):
        calls.append((list(hpixels), list(filenames), filetype, members, check, cf.d.nside))
        return 'file_' + filetype
    run._consolidate = consolidate
    seed = c.choice('seed', [None, 'mine'])
    r, v = c.raises(RuntimeError, lambda: run.run(specmode=spec, seedfile=seed, check=check, percolation_only=only, consolidate_like=conslike, keepz=keepz, consolidate=cons))
    c.prove('options that exclude each other are rejected', r == ((spec and not keepz) or (only and spec)))
    if r:
        c.prove('before anything runs', not seen and not calls)
        return
    c.prove('every pixel is run once, with the pixelisation and seeds asked for', sorted(q for _, q, _, _ in seen) == sorted(pix) and all(w == ('only' if only else 'all') and ns == 8 and s == (seed or 'orig') for w, _, ns, s in seen))
    perc = [(q, told[q][3]) for q in pix if told[q][3] is not None]
    like = [(q, told[q][2]) for q in pix if told[q][2] is not None]
    fin = [x for x in calls if x[2] == 'final']
    lk = [x for x in calls if x[2] == 'like']
    c.prove('the pixels with a final catalogue are put together', (len(fin) == 1 and sorted(zip(fin[0][0], fin[0][1])) == sorted(perc) and fin[0][3] is True and fin[0][4] == check and fin[0][5] == 8) if cons else not fin)
    c.prove('and those with likelihoods if asked for', (len(lk) == 1 and sorted(zip(lk[0][0], lk[0][1])) == sorted(like) and lk[0][5] == 8 and lk[0][3] is False and lk[0][4] == check) if conslike else not lk)
    c.prove('seeds and pixelisation are restored', cf.seedfile == 'orig' and cf.d.nside == n0)
    want = 'file_final' if cons else None
    c.prove('the file names are returned', v == ((want, 'file_like') if conslike else want))


def sky(np, r, nside, pix, n):
    """positions inside ring pixel pix"""
    import hpgeom as hpg
    ra, dec = hpg.pixel_to_angle(nside, np.full(n, pix), nest=False)
    ra = ra + r.uniform(-1, 1, n) * 0.05
    dec = dec + r.uniform(-1, 1, n) * 0.05
    assert np.all(hpg.angle_to_pixel(nside, ra, dec, nest=False) == pix)
    return ra, dec


@contract('R11', [RR + 'RedmapperRun._get_pixel_splits', RR + 'RedmapperRun._get_subpixels'], kind='conc', bounded='up to 30 galaxy table pixels', trials=150)
def pixel_split(c):
    import fitsio
    import hpgeom as hpg
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.redmapper_run')
    nt = c.choice('nt', [4, 8, 16])
    k = c.size('k', min=1, max=30)
    tp = np.sort(r.choice(hpg.nside_to_npixel(nt), size=k, replace=False)) if c.choice('spread', [True, False]) else np.sort(r.permutation(np.unique(np.clip(np.arange(k) * 3 + r.integers(0, 600), 0, 767)))[:k])
    tp = tp[tp < hpg.nside_to_npixel(nt)]
    k = tp.size
    if k == 0:
        return
    tab = np.zeros(1, dtype=[('NSIDE', 'i2'), ('HPIX', 'i4', (k,)), ('NGALS', 'i4', (k,))]) if k > 1 else np.zeros(1, dtype=[('NSIDE', 'i2'), ('HPIX', 'i4', (1,)), ('NGALS', 'i4', (1,))])
    tab['NSIDE'], tab['HPIX'] = nt, tp
    sub = c.choice('sub', [False, True])
    nside = c.choice('nside', [1, 2, 4]) if sub else c.choice('ns0', [0, 0, 2])
    ra, dec = hpg.pixel_to_angle(nt, tp, nest=False)
    hp = []
    if sub:
        own = np.unique(hpg.angle_to_pixel(nside, ra, dec, nest=False))
        hp = [int(x) for x in r.permutation(own)[:r.integers(1, 4)]]
    cf = config(c, calib_run_nproc=c.choice('np', [1, 2, 4, 9]), calib_run_min_nside=c.choice('mn', [1, 2]), d=Ns(outbase='b', nside=nside, hpix=hp))
    with tempfile.TemporaryDirectory() as d:
        cf.galfile = os.path.join(d, 'g.fit')
        fitsio.write(cf.galfile, tab)
        run = c.bare(m.RedmapperRun, config=cf, _H0=70.0, _omega_l=0.7, _omega_m=0.3)
        ns, px = run._get_pixel_splits()
    px = np.atleast_1d(px)
    ns = int(ns)
    c.prove('a valid pixelisation', ns >= 1 and (ns & (ns - 1)) == 0 and np.unique(px).size == px.size and np.all((px >= 0) & (px < hpg.nside_to_npixel(ns))))
    inside = np.ones(k, dtype=bool) if not sub else np.isin(hpg.angle_to_pixel(nside, ra, dec, nest=False), hp)
    if sub:
        c.prove('no coarser than the region asked for', ns >= nside)
    lo = max(1, nside) if cf.calib_run_nproc == 1 else max(cf.calib_run_min_nside, nside if sub else 1)
    c.prove('no finer than the galaxy table unless asked for', ns <= max(nt, lo))
    c.prove('no more parts than two for each process unless they cannot be larger', px.size <= 2 * cf.calib_run_nproc or ns == lo)
    want = np.unique(hpg.angle_to_pixel(ns, ra[inside], dec[inside], nest=False))
    c.prove('every galaxy pixel of the region is run exactly once and no other', np.array_equal(np.sort(px), want))


def cluster_file(np, r, n, ra, dec):
    a = np.zeros(n, dtype=[('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('LAMBDA', 'f4'), ('Z_LAMBDA', 'f4'), ('MASKFRAC', 'f4'), ('SCALEVAL', 'f4'), ('LNLAMLIKE', 'f8'), ('LNLIKE', 'f8'), ('CG_SPEC_Z', 'f4'), ('TAG', 'i4')])
    a['MEM_MATCH_ID'] = r.permutation(n) + 1
    a['RA'], a['DEC'] = ra, dec
    a['LAMBDA'] = r.choice([4.0, 8.0, 21.0, 30.0, 20.0], n)
    a['Z_LAMBDA'] = r.uniform(0.1, 0.8, n)
    a['MASKFRAC'] = r.choice([0.0, 0.1, 0.1, 0.9], n)
    a['SCALEVAL'] = r.choice([1.0, 1.2, 3.0], n)
    a['LNLAMLIKE'] = r.permutation(n) - 50.0 + r.random(n) * 40
    a['LNLIKE'] = r.permutation(n) - 50.0 + r.random(n) * 40
    a['CG_SPEC_Z'] = 0.5
    return a


def member_file(np, r, cat):
    ids = np.repeat(cat['MEM_MATCH_ID'], r.integers(1, 4, cat.size))
    ids = r.permutation(ids)
    if ids.size == 0:
        ids = cat['MEM_MATCH_ID'][:1]
    a = np.zeros(ids.size, dtype=[('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('DEC', 'f8'), ('ZSPEC', 'f4'), ('OWNER', 'i4'), ('TAG', 'i4')])
    a['MEM_MATCH_ID'] = ids
    a['ZSPEC'] = 0.25
    idx = dict((i, j) for j, i in enumerate(cat['MEM_MATCH_ID']))
    own = [idx[i] for i in ids]
    a['OWNER'] = cat['TAG'][own]
    a['RA'], a['DEC'] = cat['RA'][own], cat['DEC'][own]
    return a


def split_files(c, np, r, d, base, kind, nside=4):
    """pixel catalogues with some clusters of the border of each, every cluster and member with a tag of its own"""
    import fitsio
    np_ = c.size('np', min=1, max=4)
    pix = r.choice([0, 5, 33, 70, 150, 191], np_, replace=False)
    cats, mems = [], []
    tag = 0
    mtag = 0
    for p in pix:
        n = int(r.integers(1, 7))
        ra, dec = sky(np, r, nside, p, n)
        out = r.random(n) < 0.2
        if out.any():
            ra[out], dec[out] = sky(np, r, nside, 100, int(out.sum()))
        cat = cluster_file(np, r, n, ra, dec)
        cat['TAG'] = np.arange(n) + tag
        tag += n
        mem = member_file(np, r, cat)
        mem['TAG'] = np.arange(mem.size) + mtag
        mtag += mem.size
        f = os.path.join(d, '%s_%d_%05d_%s.fit' % (base, nside, p, kind))
        fitsio.write(f, cat, clobber=True)
        fitsio.write(f[:-4] + '_members.fit', mem, clobber=True)
        cats.append((int(p), cat, ~out, f))
        mems.append(mem)
    return cats, mems


def check_output(c, np, cat, mem, allcat, allmem, want, order, what):
    """clusters are exactly those wanted with their own values, members exactly theirs, ids pair them"""
    c.prove('%s: exactly the wanted clusters, each once' % what, sorted(cat['tag'].tolist()) == sorted(want))
    by = dict((int(t), i) for i, t in enumerate(allcat['TAG']))
    src = allcat[[by[int(t)] for t in cat['tag']]]
    c.prove('%s: clusters keep their values' % what, all(np.array_equal(cat[k.lower()], src[k]) for k in ('RA', 'DEC', 'LAMBDA', 'Z_LAMBDA', 'MASKFRAC', 'LNLIKE', 'LNLAMLIKE')))
    c.prove('%s: ids are unique' % what, np.unique(cat['mem_match_id']).size == cat.size)
    if order is not None:
        st = np.argsort(cat['mem_match_id'])
        c.prove('%s: ids follow the likelihood' % what, np.all(np.diff(cat[order][st]) <= 0))
    if mem is None:
        return
    wm = [int(t) for t, o in zip(allmem['TAG'], allmem['OWNER']) if int(o) in set(want)]
    c.prove('%s: exactly the members of those clusters, each once' % what, sorted(mem['tag'].tolist()) == sorted(wm))
    ids = dict(zip(cat['tag'].tolist(), cat['mem_match_id'].tolist()))
    c.prove('%s: members carry the id of their own cluster' % what, all(ids[int(o)] == int(i) for o, i in zip(mem['owner'], mem['mem_match_id'])))


@contract('R11', [RR + 'RedmapperRun._consolidate'], kind='conc', bounded='up to 4 pixels of up to 6 clusters', trials=120)
def put_together(c):
    import fitsio
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.redmapper_run')
    members = c.choice('members', [True, True, False])
    check = c.choice('check', [True, False])
    whole = c.choice('whole', [False, False, True])
    with tempfile.TemporaryDirectory() as d0:
        d = os.path.join(d0, c.choice('dir', ['a', 'run.fits']))
        os.mkdir(d)
        cats, mems = split_files(c, np, r, d, 'base', 'percolation_catalog')
        if whole:
            cats, mems = cats[:1], mems[:1]
        cf = config(c, max_maskfrac=0.2, percolation_minlambda=5.0, d=Ns(outbase='base', nside=0 if whole else 4, hpix=[]), outpath=d)
        cf.redmapper_filename = lambda name, **k: os.path.join(d, 'base_%s.fit' % name)
        run = c.bare(m.RedmapperRun, config=cf, _H0=70.0, _omega_l=0.7, _omega_m=0.3)
        allc, allm = np.concatenate([x[1] for x in cats]), np.concatenate(mems)
        inside = np.concatenate([x[2] for x in cats]) if not whole else np.ones(allc.size, dtype=bool)
        good = inside & (allc['MASKFRAC'] < 0.2) & (allc['LAMBDA'] / allc['SCALEVAL'] > 5.0)
        owners = set(allm['OWNER'].tolist())
        if not good.any() or (members and not any(int(t) in owners for t in allc['TAG'][good])):
            return
        old = c.choice('old', [None, None, 'cat', 'both'])
        of, mf = os.path.join(d, 'base_final.fit'), os.path.join(d, 'base_final_members.fit')
        stale = np.zeros(1, dtype=[('STALE', 'i4')])
        if old:
            fitsio.write(of, stale)
        if old == 'both':
            fitsio.write(mf, stale)
        ret = run._consolidate([0 if whole else x[0] for x in cats], [x[3] for x in cats], 'final', members=members, check=check)
        c.prove('the file name is returned', ret == of)
        keep = check and (old == 'both' or (old == 'cat' and not members))
        cat = fitsio.read(of, ext=1, lower=True)
        if keep:
            c.prove('a complete earlier result is kept when files are checked', 'stale' in cat.dtype.names)
            return
        c.prove('an incomplete or unwanted earlier result is replaced', 'stale' not in cat.dtype.names)
        mem = fitsio.read(mf, ext=1, lower=True) if members else None
        check_output(c, np, cat, mem, allc, allm, allc['TAG'][good].tolist(), 'lnlike' if members else None, 'run') if members else c.prove('clusters are exactly those in their own pixel', cat['tag'].tolist() == allc['TAG'][good].tolist())
        if members:
            c.prove('ids count from one', sorted(cat['mem_match_id'].tolist()) == list(range(1, cat.size + 1)))


class Vlim(object):
    def __init__(self, config, lstar=None, **k):
        self.lstar = lstar

    def get_areas(self):
        return ('areas', self.lstar)

    def calc_zmax(self, ra, dec, **k):
        return self.zmax(ra, dec, self.lstar)

    @staticmethod
    def zmax(ra, dec, lstar):
        import numpy as np
        return 10.0 * np.ones_like(ra) if lstar is None else 0.4 + 0.3 * ((np.abs(ra * 1e4) % 7) > 3) - 0.1 * lstar


def spectra(c, np, r, m, d, cats, allc, kind):
    """a spectroscopic or a truth catalogue: function (ra, pixel) -> the redshift a consolidated object must have"""
    import fitsio
    if kind == 'truth':
        real, asked, tz = m.GalaxyCatalog, [], {}

        def from_galfile(galfile, hpix=None, nside=None, border=None, truth=None, **k):
            asked.append((galfile, hpix, nside, border, truth))
            mine = [x[1] for x in cats if x[0] == hpix][0]
            pick = np.flatnonzero(np.arange(mine.size) % 2 == 0)
            t = np.zeros(pick.size + 1, dtype=[('RA', 'f8'), ('DEC', 'f8'), ('ZTRUE', 'f4')])
            t['RA'][:-1], t['DEC'][:-1] = mine['RA'][pick], mine['DEC'][pick]
            t['RA'][-1], t['DEC'][-1] = mine['RA'][0], mine['DEC'][0] - np.sign(mine['DEC'][0]) * 2. / 3600.
            t['ZTRUE'] = 0.01 * np.arange(1, pick.size + 2) + 0.001 * (hpix % 50)
            for x in t[:-1]:
                tz[(round(float(x['RA']), 9), hpix)] = float(x['ZTRUE'])
            return real(t)
        c.patch(m, 'GalaxyCatalog', Ns(from_galfile=from_galfile, from_fits_file=real.from_fits_file))
        return lambda ra, p: tz.get((round(float(ra), 9), p), -1.0), lambda ns: all(a[0] == 'gals.fit' and a[2] == ns and a[3] == 0.0 and a[4] for a in asked) and \
            set(a[1] for a in asked) <= set(x[0] for x in cats)
    if kind == 'spec':
        # several spectra of the same object at different distances: the nearest good one counts
        n = 12
        s = np.zeros(n, dtype=[('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f4'), ('Z_ERR', 'f4')])
        k = np.append(r.integers(0, allc.size, n - 5), r.integers(0, allc.size, 1).repeat(5))
        off = r.permutation(np.array([0.0, 0.3, 0.6, 0.9, 1.2, 1.5, 1.8, 2.1, 2.5, 4.0, 5.0, 10.0]))
        s['RA'], s['DEC'], s['Z'] = allc['RA'][k], allc['DEC'][k] - np.sign(allc['DEC'][k]) * off / 3600., 0.01 * (np.arange(n) + 1) + 0.2 * (k % 4)
        s['Z_ERR'] = r.choice([0.001, 0.001, 0.1], n)
        fitsio.write(os.path.join(d, 'spec.fit'), s, clobber=True)
        z = {}
        good = s[s['Z_ERR'] < 0.01]
        for x in allc:
            dist = np.hypot((good['RA'] - x['RA']) * np.cos(np.radians(x['DEC'])), good['DEC'] - x['DEC']) * 3600.
            if dist.size and dist.min() < 3.0:
                z[round(float(x['RA']), 9)] = float(good['Z'][np.argmin(dist)])
        return lambda ra, p: z.get(round(float(ra), 9), -1.0), lambda ns: True
    return None, None


def specz(c, np, want, cat, mem, allc, pixof):
    tag = dict(zip(allc['TAG'].tolist(), pixof))
    by = dict(zip(cat['mem_match_id'].tolist(), [tag[int(q)] for q in cat['tag']]))
    c.prove('spectroscopic redshifts are those of matching objects, -1 without one',
            all(abs(float(zz) - want(ra, tag[int(q)])) < 1e-5 for ra, q, zz in zip(cat['ra'], cat['tag'], cat['cg_spec_z'])) and
            (mem is None or all(abs(float(zz) - want(ra, by[int(i)])) < 1e-5 for ra, i, zz in zip(mem['ra'], mem['mem_match_id'], mem['zspec']))))


@contract('R11', [PC + 'RedmapperConsolidateTask.run', U + 'read_members'], kind='conc', bounded='up to 4 pixels of up to 6 clusters, up to 3 richness cuts and 2 volume limits', trials=100)
def consolidate_run(c):
    import fitsio
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.pipeline.redmapperconsolidatetask')
    c.patch(m, 'VolumeLimitMask', Vlim)
    c.patch(m, 'VolumeLimitMaskFixed', Vlim)
    cuts = c.choice('cuts', [[5.0, 20.0], [20.0], [5.0, 20.0, 200.0], [200.0, 5.0]])
    vl = c.choice('vl', [[], [], [0.2, 1.0]])
    scale = c.choice('scale', [False, True])
    with tempfile.TemporaryDirectory() as d0:
        d = os.path.join(d0, c.choice('dir', ['plain', 'x_2_00011_y']))
        os.mkdir(d)
        cats, mems = split_files(c, np, r, d, 'base', 'final_catalog')
        cf = config(c, outbase='base', outpath=d, has_truth=False, select_scaleval=scale, max_maskfrac=0.2, percolation_minlambda=5.0, specfile=os.path.join(d, 'spec.fit'), calib_spec_max_zerr=0.01, d=Ns(outbase='base', nside=c.choice('cns', [0, 2]), hpix=[]))
        cf.redmapper_filename = lambda name, withversion=False, **k: os.path.join(d, 'base_%s%s.fit' % ('v_' if withversion else '', name))
        t = c.bare(m.RedmapperConsolidateTask, config=cf, lambda_cuts=cuts, vlim_lstars=vl)
        allc, allm = np.concatenate([x[1] for x in cats]), np.concatenate(mems)
        inside = np.concatenate([x[2] for x in cats])
        base = inside & (allc['MASKFRAC'] < 0.2) & (allc['LAMBDA'] > 5.0)
        spec = c.choice('spec', [False, 'spec', 'truth'])
        cf.has_truth, cf.galfile = spec == 'truth', 'gals.fit'
        want, okay = spectra(c, np, r, m, d, cats, allc, spec)
        pixof = sum(([x[0]] * x[1].size for x in cats), [])
        plots = []

        def plotter(kind):
            def new(config):
                def one(*a, **k):
                    plots.append((kind, config.d.outbase, sorted(int(x) for x in a[0].tag), sorted(int(x) for x in a[0].mem_match_id)) + tuple(sorted(int(x) for x in y.tag) if hasattr(y, 'tag') else y for y in a[1:]))
                return Ns(plot_cluster_catalog=one, plot_cluster_catalog_from_members=one)
            return new
        for kk in ('SpecPlot', 'NzPlot', 'NLambdaPlot', 'PositionPlot'):
            c.patch(m, kk, plotter(kk))
        doplot = c.choice('plot', [False, True])
        t.run(do_plots=doplot, match_spec=bool(spec))
        wantplots = []
        ranks = {}
        st = np.argsort(-allc['LNLAMLIKE'][base], kind='stable')
        for i, q in enumerate(allc['TAG'][base][st]):
            ranks[int(q)] = i + 1
        for cut in cuts:
            for v in (vl or [None]):
                lam = allc['LAMBDA'] / (allc['SCALEVAL'] if scale else 1.0)
                good = base & (lam > cut) & (Vlim.zmax(allc['RA'], allc['DEC'], v) > allc['Z_LAMBDA'])
                nm = 'lgt%02d' % cut + ('_vl%02d' % int(v * 10) if v is not None else '')
                of = os.path.join(d, 'base_v_%s_catalog.fit' % nm)
                mf = os.path.join(d, 'base_v_%s_catalog_members.fit' % nm)
                if not good.any():
                    c.prove('no file for a cut without clusters', not os.path.exists(of))
                    continue
                c.prove('files for every cut with clusters', os.path.isfile(of) and os.path.isfile(mf))
                if not (os.path.isfile(of) and os.path.isfile(mf)):
                    return
                cat = fitsio.read(of, ext=1, lower=True)
                mem = fitsio.read(mf, ext=1, lower=True)
                check_output(c, np, cat, mem, allc, allm, allc['TAG'][good].tolist(), 'lnlamlike', 'cut')
                c.prove('a cluster has the same id in every cut: its rank in likelihood', all(ranks[int(q)] == int(i) for q, i in zip(cat['tag'], cat['mem_match_id'])))
                if spec:
                    specz(c, np, want, cat, mem, allc, pixof)
                mine = [p for p in plots if p[1] == 'base_v_%s' % nm]
                tags, ids = sorted(cat['tag'].tolist()), sorted(cat['mem_match_id'].tolist())
                c.prove('every cut is plotted with its own clusters if asked for', sorted(p[0] for p in mine) == (sorted(['SpecPlot', 'NzPlot', 'NLambdaPlot', 'PositionPlot']) if doplot else []) and
                        all(p[2] == tags and p[3] == ids for p in mine))
                c.prove('with the areas of its own volume limit', all(len(p) > 4 and p[4] == ('areas', v) for p in mine if p[0] == 'NzPlot'))
                c.prove('with its own members where there is a truth', all(len(p) > 4 and p[4] == sorted(mem['tag'].tolist()) for p in mine if p[0] == 'SpecPlot' and spec == 'truth'))
        if spec:
            c.prove('the truth is read for each pixel', okay(4))


@contract('R11', [PC + 'RuncatConsolidateTask.run', U + 'read_members'], kind='conc', bounded='up to 4 pixels of up to 6 clusters', trials=80)
def consolidate_runcat(c):
    import fitsio
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.pipeline.redmapperconsolidatetask')
    plots = []
    c.patch(m, 'SpecPlot', lambda cf: Ns(plot_cluster_catalog=lambda *a, **k: plots.append(a), plot_cluster_catalog_from_members=lambda *a, **k: plots.append(a)))
    kind = c.choice('kind', ['runcat', 'randoms_zmask'])
    withmem = c.choice('withmem', [True, False])
    with tempfile.TemporaryDirectory() as d0:
        d = os.path.join(d0, c.choice('dir', ['plain', 'x_2_00011_y']))
        os.mkdir(d)
        cats, mems = split_files(c, np, r, d, 'base', kind + '_catalog')
        # ids are those of the input catalogue: unique over the pixels
        allc = np.concatenate([x[1] for x in cats])
        off = 0
        for (p, cat, ins, f), mem in zip(cats, mems):
            cat['MEM_MATCH_ID'] += off
            mem['MEM_MATCH_ID'] += off
            off += 100
            fitsio.write(f, cat, clobber=True)
            fitsio.write(f[:-4] + '_members.fit', mem, clobber=True)
        allc, allm = np.concatenate([x[1] for x in cats]), np.concatenate(mems)
        inside = np.concatenate([x[2] for x in cats])
        spec = c.choice('spec', [False, 'spec', 'truth'])
        want, okay = spectra(c, np, r, m, d, cats, allc, spec)
        pixof = sum(([x[0]] * x[1].size for x in cats), [])
        cf = config(c, outbase='base', outpath=d, has_truth=spec == 'truth' or (not spec and c.choice('unused', [False, True])), galfile='gals.fit', specfile=os.path.join(d, 'spec.fit'), calib_spec_max_zerr=0.01, d=Ns(outbase='base', nside=c.choice('cns', [0, 2]), hpix=[]))
        cf.redmapper_filename = lambda name, withversion=False, **k: os.path.join(d, 'base_%s%s.fit' % ('v_' if withversion else '', name))
        t = c.bare(m.RuncatConsolidateTask, config=cf)
        plot = c.choice('plot', [False, True]) and inside.any()
        t.run(do_plots=plot, match_spec=bool(spec), consolidate_members=withmem, cattype=kind)
        of = os.path.join(d, 'base_v_%s_catalog.fit' % kind)
        if not inside.any():
            c.prove('no file without clusters', not os.path.exists(of))
            return
        there = os.path.isfile(of) and os.path.isfile(of[:-4] + '_members.fit') == withmem
        c.prove('the files are there', there)
        if not there:
            return
        cat = fitsio.read(of, ext=1, lower=True)
        mem = fitsio.read(of[:-4] + '_members.fit', ext=1, lower=True) if withmem else None
        check_output(c, np, cat, mem, allc, allm, allc['TAG'][inside].tolist(), None, 'runcat')
        by = dict(zip(allc['TAG'].tolist(), allc['MEM_MATCH_ID'].tolist()))
        c.prove('ids are those of the input', all(by[int(q)] == int(i) for q, i in zip(cat['tag'], cat['mem_match_id'])))
        if spec:
            specz(c, np, want, cat, mem, allc, pixof)
            c.prove('the truth is read for each pixel', okay(4))
        else:
            c.prove('redshifts stay as they were unless matching is asked for', np.all(cat['cg_spec_z'] == 0.5) and (mem is None or np.all(mem['zspec'] == 0.25)))
        c.prove('plotted if asked for', len(plots) == (1 if plot else 0))


PD = 'redmapper/pipeline/'
TASKS = [('redmapperconsolidatetask', 'RedmapperConsolidateTask', 'cuts'), ('redmapperconsolidatetask', 'RuncatConsolidateTask', ''), ('redmappertask', 'RunRedmapperPixelTask', 'pix'),
         ('redmappertask', 'RuncatPixelTask', 'pix'), ('redmappertask', 'RunZmaskPixelTask', 'pix'), ('redmappertask', 'RunZScanPixelTask', 'pix'), ('zredtask', 'RunZredPixelTask', 'pix')]


@contract('R11', [PD + '%s.py:%s.__init__' % t[:2] for t in TASKS], kind='conc', bounded='a few settings', trials=60)
def task_setup(c):
    mod, cls, kind = c.choice('task', TASKS)
    m = c.mod('redmapper.pipeline.' + mod)
    made = []
    cuts, lst = [5.0, 20.0], c.choice('lst', [[], [0.2, 5.0]])

    def conf(f, outpath=None, **k):
        made.append((f, outpath))
        return Ns(consolidate_lambda_cuts=cuts, consolidate_vlim_lstars=lst, file=f)
    c.patch(m, 'Configuration', conf)
    T = c.get(m, cls)
    path = c.choice('path', [None, '/p/q'])
    lc, vl = c.choice('lc', [None, [3.0], [0.0, 7.0]]), c.choice('vl', [[], [0.3]])
    a = dict(path=path)
    if kind == 'pix':
        a.update(pixel=c.choice('pixel', [0, 33]), nside=c.choice('nside', [2, 8]))
    elif kind == 'cuts':
        if lc is not None or c.choice('named', [False, True]):
            a.update(lambda_cuts=lc)
        if vl:
            a.update(vlim_lstars=vl)
    t = T('conf.yaml', **a)
    c.prove('the configuration is the one named', len(made) == 1 and made[0][0] == 'conf.yaml' and t.config.file == 'conf.yaml')
    c.prove('output goes where it is asked for, by default next to the configuration', made[0][1] == path if path else made[0][1] in (None, os.getcwd()))
    if kind == 'pix':
        c.prove('pixel and resolution are those asked for', t.pixel == a['pixel'] and t.nside == a['nside'])
    if kind == 'cuts':
        c.prove('richness cuts are those asked for, by default those configured', list(t.lambda_cuts) == (cuts if lc is None else lc))
        c.prove('volume limits are those asked for, by default those configured', list(t.vlim_lstars) == (vl or lst))


@contract('R11', [U + 'make_lockfile'], kind='conc', bounded='up to 5 tries, up to 6 contenders', trials=120)
def lock(c):
    import tempfile
    import threading
    import time
    np = c.np
    u = c.mod('redmapper.utilities')
    held = c.choice('held', [False, True])
    block = c.choice('block', [False, True])
    mx = c.choice('mx', [1, 2, 5])
    freed = c.choice('freed', [None, 1, 2, 4])
    naps = []
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.lock')
        if held:
            open(f, 'w').write('other')

        def sleep(t):
            naps.append(t)
            if freed is not None and len(naps) == freed and os.path.exists(f):
                os.unlink(f)
        c.patch(time, 'sleep', sleep)
        got = u.make_lockfile(f, block=block, maxtry=mx, waittime=7)
        free = not held or (block and freed is not None and freed < mx)
        c.prove('the lock is had exactly if it is or becomes free in time', bool(got) == free)
        c.prove('a blocking call waits between tries and gives up after the allowed number', len(naps) <= mx and all(t == 7 for t in naps) and (block or not naps))
        left = sorted(os.listdir(d))
        if got:
            c.prove('the lock is there and nothing else is left', left == ['x.lock'] and open(f).read() == '')
            c.prove('it cannot be had twice', not u.make_lockfile(f, block=False) and sorted(os.listdir(d)) == ['x.lock'])
        else:
            late = freed is not None and len(naps) >= freed
            c.prove('the lock of another is untouched and nothing else is left', left == ([] if late else ['x.lock']) and (late or open(f).read() == 'other'))
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'y.lock')
        res = []
        th = [threading.Thread(target=lambda: res.append(u.make_lockfile(f))) for _ in range(c.choice('nth', [2, 6]))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        c.prove('exactly one of several contenders has it', sum(bool(x) for x in res) == 1 and len(res) == len(th) and sorted(os.listdir(d)) == ['y.lock'])


@contract('R11', [PZ + 'RunZredPixelTask.run'], kind='conc', bounded='up to 4 pixels in any order with failures', trials=120)
def zred_task(c):
    import tempfile
    np, r = c.np, c.nrng
    m = c.mod('redmapper.pipeline.zredtask')
    n = c.size('n', min=1, max=4)
    pix = [int(x) for x in r.permutation(50)[:n]]
    with tempfile.TemporaryDirectory() as d:
        zp = os.path.join(d, 'zz')
        made = []
        fail = set()
        ran = []

        class Run(object):
            def __init__(self, config):
                self.config = config
                self.galtable = Ns(filenames=['f%d' % p for p in pix], hpix=np.array(pix))

            def run(self, single_process=False, no_zred_table=False, verbose=False):
                p = self.config.d.hpix[0]
                ran.append((p, self.config.d.nside, self.config.border, single_process, no_zred_table, sorted(os.listdir(zp))))
                if p in fail:
                    raise OSError('no space')
                open(os.path.join(zp, 'gal_zreds_%07d.fit' % p), 'w').write('x')

            def make_zred_table(self, iaf):
                made.append(([(int(i), os.path.basename(f)) for i, f in iaf], sorted(os.listdir(zp))))
        c.patch(m, 'ZredRunPixels', Run)

        def task(p):
            cf = config(c, zredfile=os.path.join(zp, 'gal_zreds_master_table.fit'), galfile=os.path.join(d, 'gal_master_table.fit'), galfile_pixelized=True, outbase='other')
            return c.bare(m.RunZredPixelTask, config=cf, pixel=p, nside=8)
        if c.choice('flat', [False, False, True]):
            t = task(pix[0])
            t.config.galfile_pixelized = False
            c.prove('only for pixelised galaxies', c.raises(ValueError, t.run)[0] and not ran)
            return
        if c.choice('name', [False, False, True]):
            t = task(pix[0])
            t.config.zredfile = os.path.join(zp, 'wrong.fit')
            c.prove('only for a table name that can be understood', c.raises(ValueError, t.run)[0] and not ran)
            return
        done = set()
        busy = None
        for step in range(n + 2):
            p = pix[step] if step < n else int(r.choice(pix))
            if step == 0 and c.choice('busy', [False, True]):
                # another process is at this pixel
                os.makedirs(zp)
                lf = os.path.join(zp, 'gal_zreds_%07d.lock' % p)
                open(lf, 'w').close()
                c.prove('a pixel another process works on is refused', c.raises(IOError, task(p).run)[0] and not ran and os.path.exists(lf))
                busy = lf if c.choice('stays', [False, True]) and n > 1 else None
                if busy is None:
                    os.unlink(lf)
                else:
                    continue
            k, k2 = len(made), len(ran)
            task(p).run()
            done.add(p)
            c.prove('the pixel asked for is run, locked', len(ran) == k2 + 1 and ran[-1][:2] == (p, 8) and ran[-1][2] == 0.0 and ran[-1][3] is True and ran[-1][4] is True and 'gal_zreds_%07d.lock' % p in ran[-1][5])
            full = len(done) == n and busy is None
            c.prove('the table is made exactly when all pixels are there and no one is working', len(made) == k + (1 if full else 0))
            if full:
                c.prove('from the files of all pixels, each at its own place', made[-1][0] == [(i, 'gal_zreds_%07d.fit' % q) for i, q in enumerate(pix)])
                c.prove('under a lock', any(x.endswith('master_table.fit.lock') for x in made[-1][1]))
            c.prove('no lock is left', sorted(x for x in os.listdir(zp) if x.endswith('.lock')) == ([os.path.basename(busy)] if busy else []))
            if busy and p == pix[0]:
                break
            if busy and step >= n - 1:
                break
