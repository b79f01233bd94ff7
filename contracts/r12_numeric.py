"""R12: numerical building blocks (utilities.py)"""
from rmv.run import contract

U = 'redmapper/utilities.py:'


@contract('R12', [U + 'calc_theta_i'])
def theta_i(c):
    u = c.mod('redmapper.utilities')
    n = c.size('n', max=8)
    lim = c.float('limmag', gen=(20, 22), lo=0, lo_open=True)
    mag = c.array('mag', n, gen=(17, 24), special=(lim,) if not c.symbolic else ())
    err = c.array('magerr', n, lo=0, lo_open=True, gen=(0.005, 0.6))
    mm = c.float('maxmag', lo=0, gen=(18, 24))
    m0, e0 = c.snapshot(mag), c.snapshot(err)
    th = c.get(u, 'calc_theta_i')(mag, err, mm, lim)
    c.prove('one weight per galaxy', th.size == n)
    for i in c.each(n):
        eff = c.ite(mm < lim, mm, lim)
        c.prove('weight in [0,1]', c.And(th[i] >= 0, th[i] <= 1))
        c.prove('zero beyond the survey limit', c.implies(mag[i] > lim, th[i] == 0))
        c.prove('at least half when brighter than both limits', c.implies(mag[i] <= eff, th[i] >= 0.5))
        c.prove('at most half when fainter than either limit', c.implies(mag[i] >= eff, th[i] <= 0.5))
        c.prove('one when brighter by five sigma', c.implies(eff - mag[i] >= 5 * err[i], c.close(th[i], 1, 1e-5)))
        erf = c.np_erf((eff - mag[i]) / (c.np.sqrt(2) * err[i]))
        c.prove('the chance that a galaxy with this error is below the limit', c.implies(
            c.And(mag[i] <= lim, eff - mag[i] < 5 * err[i]), c.close(th[i], 0.5 + 0.5 * erf, 1e-5)))
        c.prove('inputs unchanged', c.And(c.same(mag[i], m0[i]), c.same(err[i], e0[i])))


@contract('R12', [U + 'calc_theta_i'])
def theta_i_monotone(c):
    """brighter never gets less weight, at equal error"""
    u = c.mod('redmapper.utilities')
    lim = c.float('limmag', gen=(20, 22), lo=0, lo_open=True)
    mag = c.array('mag', 2, gen=(18, 23))
    e = c.float('e', lo=0, lo_open=True, gen=(0.005, 0.6))
    err = c.np.zeros(2) + e
    mm = c.float('maxmag', lo=0, gen=(18, 24))
    c.assume(mag[0] <= mag[1])
    th = c.get(u, 'calc_theta_i')(mag, err, mm, lim)
    c.prove('weight does not increase with magnitude', c.le(th[1], th[0], 1e-5))


@contract('R12', [U + 'interpol'])
def interpol_linear(c):
    u = c.mod('redmapper.utilities')
    n = c.size('n', min=2, max=7)
    m = c.size('m', max=5)
    x = c.array('x', n, sorted='inc', gen=(0, 5))
    v = c.array('v', n, gen=(-3, 3))
    xo = c.array('xout', m, gen=(-2, 7), special=[float(t) for t in x] if not c.symbolic else ())
    k = c.int('k', lo=0, hi=n - 1)
    r = c.get(u, 'interpol')(v, x, xo)
    c.prove('one value per query', r.size == m)
    for i in c.each(m):
        c.prove('exact at the nodes', c.implies(xo[i] == x[k], c.close(r[i], v[k])))
        k1 = c.ite(k >= n - 1, n - 2, k)
        lin = v[k1] + (v[k1 + 1] - v[k1]) * (xo[i] - x[k1]) / (x[k1 + 1] - x[k1])
        c.prove('linear between neighbouring nodes',
                c.implies(c.And(xo[i] > x[k1], xo[i] <= x[k1 + 1]), c.close(r[i], lin)))
        c.prove('linear extrapolation below', c.implies(xo[i] <= x[0], c.close(
            r[i], v[0] + (v[1] - v[0]) * (xo[i] - x[0]) / (x[1] - x[0]))))
        c.prove('linear extrapolation above', c.implies(xo[i] > x[n - 1], c.close(
            r[i], v[n - 2] + (v[n - 1] - v[n - 2]) * (xo[i] - x[n - 2]) / (x[n - 1] - x[n - 2]))))


def _spline_obj(c, n, fix):
    u = c.mod('redmapper.utilities')
    x = c.array('x', n, sorted='inc', gen=(0, 5))
    y = c.array('y', n, gen=(-3, 3))
    y2 = c.array('y2', n, gen=(-3, 3))
    return x, y, y2, c.bare(c.get(u, 'CubicSpline'), x=x, y=y, y2=y2, fixextrap=fix)


@contract('R12', [U + 'CubicSpline.splint', U + 'CubicSpline.__call__'],
          assumes=['CubicSpline.__init__ establishes only that y2 has one entry per node (any second derivatives)'])
def spline_eval(c):
    n = c.size('n', min=2, max=7)
    m = c.size('m', max=5)
    fix = c.choice('fixextrap', [False, True])
    x, y, y2, sp = _spline_obj(c, n, fix)
    xo = c.array('xout', m, gen=(-2, 7), special=[float(t) for t in x] if not c.symbolic else ())
    k = c.int('k', lo=0, hi=n - 1)
    x0, y0, xo0 = c.snapshot(x), c.snapshot(y), c.snapshot(xo)
    r = sp(xo)
    c.prove('one value per query', r.size == m)
    for i in c.each(m):
        c.prove('exact at the nodes', c.implies(xo[i] == x[k], c.close(r[i], y[k])))
        if fix:
            c.prove('constant below the first node', c.implies(xo[i] < x[0], c.close(r[i], y[0])))
            c.prove('constant above the last node', c.implies(xo[i] > x[n - 1], c.close(r[i], y[n - 1])))
        c.prove('query unchanged', c.same(xo[i], xo0[i]))
    for i in c.each(n):
        c.prove('nodes unchanged', c.And(c.same(sp.x[i], x0[i]), c.same(sp.y[i], y0[i])))


@contract('R12', [U + 'CubicSpline.splint'])
def spline_cubic(c):
    """on each segment the value is the unique cubic with the node values and second derivatives"""
    n = c.size('n', min=2, max=7)
    x, y, y2, sp = _spline_obj(c, n, False)
    k = c.int('k', lo=0, hi=n - 2)
    xo = c.float('xo', gen=(0, 5))
    c.assume(c.And(xo > x[k], xo <= x[k + 1]))
    r = sp(c.np.zeros(1) + xo)
    h = x[k + 1] - x[k]
    a = (x[k + 1] - xo) / h
    b = (xo - x[k]) / h
    want = a * y[k] + b * y[k + 1] + ((a ** 3 - a) * y2[k] + (b ** 3 - b) * y2[k + 1]) * h ** 2. / 6.
    c.prove('cubic segment', c.close(r[0], want))


@contract('R12', [U + 'chisq_pdf'])
def chisq_pdf_pos(c):
    u = c.mod('redmapper.utilities')
    n = c.size('n', max=6)
    k = c.choice('k', [1, 2, 3, 4, 5])
    x = c.array('x', n, lo=0, lo_open=True, gen=(0.01, 40))
    p = c.get(u, 'chisq_pdf')(x, k)
    for i in c.each(n):
        c.prove('non-negative and finite', c.And(p[i] >= 0, c.isfinite(p[i])))
        import math
        if not c.symbolic:
            want = float(x[i]) ** (k / 2. - 1) * math.exp(-float(x[i]) / 2) / (2 ** (k / 2.) * math.gamma(k / 2.))
            c.prove('chi-squared density', c.close(p[i], want))


@contract('R12', [U + 'schechter_pdf'])
def schechter(c):
    u = c.mod('redmapper.utilities')
    n = c.size('n', max=6)
    al = c.float('alpha', gen=(-1.5, -0.5))
    ms = c.float('mstar', gen=(17, 22))
    x = c.array('x', n, gen=(15, 25))
    dflt = c.choice('defaults', [False, True])
    if dflt:
        al, ms = -1.0, 0.0
        x = x - 20.0
        p = c.get(u, 'schechter_pdf')(x)
    else:
        p = c.get(u, 'schechter_pdf')(x, alpha=al, mstar=ms)
    for i in c.each(n):
        c.prove('non-negative and finite', c.And(p[i] >= 0, c.isfinite(p[i])))
        d = ms - x[i]
        c.prove('Schechter function', c.close(p[i], 10. ** (0.4 * (al + 1.0) * d) * c.np.exp(-10. ** (0.4 * d)), 1e-7))


@contract('R12', [U + 'nfw_pdf'], kind='conc', bounded='logarithm and arctangent identities are beyond the solvers', trials=400)
def nfw(c):
    import math
    u = c.mod('redmapper.utilities')
    n = c.size('n', max=8)
    rs = c.float('rs', gen=(0.1, 0.3), lo=0.02)
    core = c.float('core', gen=(0.02, 0.09), lo=0.005)
    x = c.array('x', n, lo=0, lo_open=True, gen=(0.001, 3.0), special=(rs, core, 0.9995 * rs, 1.0005 * rs, 4.9, 6.0, 9.9))
    rad = c.choice('rad', [False, True])
    x0 = c.snapshot(x)
    s = u.nfw_pdf(x, rscale=rs, corer=core, radfactor=rad)
    c.prove('one value per radius', s.size == n)

    def prof(X):
        if X < 1:
            return (1 - 2 / math.sqrt(1 - X * X) * math.atanh(math.sqrt((1 - X) / (1 + X)))) / (X * X - 1)
        return (1 - 2 / math.sqrt(X * X - 1) * math.atan(math.sqrt((X - 1) / (X + 1)))) / (X * X - 1)
    for i in range(n):
        X = max(x[i], core) / rs
        c.prove('input unchanged', x[i] == x0[i])
        want = 1. / 3 if abs(X - 1) < 1.5e-3 else prof(X)
        if rad:
            want *= 2 * math.pi * x[i]
        if x[i] < 10.:
            c.prove('projected NFW profile with a constant core', c.close(s[i], want, 2e-3))
        c.prove('non-negative', s[i] >= 0)


@contract('R12', [U + 'make_nodes'], kind='conc', bounded='arange with a symbolic number of steps', trials=1500)
def nodes(c):
    u = c.mod('redmapper.utilities')
    lo = c.float('zlo', gen=(0.05, 0.3))
    hi = c.float('zhi', gen=(0.35, 1.0))
    step = c.float('step', gen=(0.02, 0.2), lo=0.02)
    mx = c.choice('hasmax', [None, 'neg', 'in', 'above'])
    v = {None: None, 'neg': -1.0, 'in': c.float('mx', lo=min(lo + step, hi), hi=hi, gen=(lo + step, hi)), 'above': hi + 0.2}[mx]
    c.assume(hi - lo >= step)
    zr = [lo, hi]
    r = u.make_nodes(zr, step, maxnode=v)
    c.prove('starts at the range', c.close(r[0], lo))
    c.prove('ends at the range', c.close(r[-1], hi))
    c.prove('at least two nodes', r.size >= 2)
    c.prove('strictly increasing', bool((r[1:] > r[:-1]).all()))
    c.prove('inside the range', bool((r >= lo - 1e-9).all() and (r <= hi + 1e-9).all()))
    top = hi if v is None or v < 0 else min(v, hi)
    inner = r[r <= top + 1e-9]
    c.prove('no gap wider than 1.5 steps', bool((inner[1:] - inner[:-1] <= 1.5 * step + 0.0101).all()))


@contract('R12', [U + 'cic'], kind='conc', bounded='scatter-add over symbolic cells', trials=400)
def cic_mass(c):
    np = c.np
    u = c.mod('redmapper.utilities')
    n = c.size('n', min=1, max=8)
    dim = c.choice('dim', [1, 2, 3])
    nn = [c.int('n%d' % k, lo=2, hi=6) for k in range(3)]
    val = c.array('val', n, lo=0, gen=(0.1, 2))
    edge = c.choice('edge', [False, True])
    e = 0.01 if edge else 0.5
    pos = [c.array('p%d' % k, n, lo=e, hi=nn[k] - e, gen=(e, nn[k] - e)) for k in range(3)]
    iso = c.choice('iso', [True, False])
    kw = dict(posx=pos[0], nx=nn[0])
    if dim > 1:
        kw.update(posy=pos[1], ny=nn[1])
    if dim > 2:
        kw.update(posz=pos[2], nz=nn[2])
    f = u.cic(val, average=False, isolated=iso, **kw)
    c.prove('shape', f.shape == tuple(reversed(nn[:dim])))
    c.prove('non-negative', bool((f >= 0).all()))
    if not edge or not iso:
        c.prove('total weight conserved', c.close(f.sum(), val.sum()))
    a = u.cic(val, average=True, isolated=iso, **kw)
    hit = f > 1e-9
    c.prove('averages lie within the range of the samples',
            bool((a[hit] >= val.min() - 1e-9).all() and (a[hit] <= val.max() + 1e-9).all()))
    # each sample contributes (1-|dx|) to its two nearest cells per axis
    want = np.zeros(tuple(reversed(nn[:dim])))
    for s in range(n):
        ws = [(0, 1.0)]
        idx = [((), val[s])]
        for k in range(dim):
            new = []
            p = pos[k][s] - 0.5
            b = int(np.floor(p))
            for (t, w) in idx:
                for cell, ww in ((b, 1 - (p - b)), (b + 1, p - b)):
                    if ww > 0 and not (iso and not 0 <= cell < nn[k]):
                        cell %= nn[k]
                        new.append(((cell,) + t, w * ww))
            idx = new
        for t, w in idx:
            want[t] += w
    c.prove('cloud-in-cell weights', bool(np.allclose(f, want)))


@contract('R12', [U + 'sample_from_pdf'], kind='conc', bounded='inverse-CDF sampling loop over a random draw', trials=150)
def sample_pdf(c):
    np = c.np
    u = c.mod('redmapper.utilities')
    lo = c.float('lo', gen=(0.1, 1.))
    hi = c.float('hi', gen=(2., 4.))
    ns = c.size('ns', max=30)
    seed = c.int('seed', lo=0, hi=10**6)
    cut = c.float('cut', gen=(1.0, 2.0))
    np.random.seed(seed)
    s = u.sample_from_pdf(lambda x, k=1.0: np.where(x < cut, 0.0, k * np.exp(-x)), [lo, hi], 0.05, ns, k=2.0)
    c.prove('number of samples', s.size == ns)
    c.prove('inside the sampled range', bool((s >= lo - 1e-9).all() and (s < hi).all()))
    grid = np.arange(lo, hi, 0.05)
    c.prove('on the grid', all(np.abs(grid - v).min() < 1e-9 for v in s))


@contract('R12', [U + 'sample_from_pdf'], kind='conc', bounded='4000 draws', trials=6)
def sample_distribution(c):
    np = c.np
    u = c.mod('redmapper.utilities')
    lo, hi = c.float('lo', gen=(0.1, 1.)), c.float('hi', gen=(2., 4.))
    k = c.float('k', gen=(-1., 3.))
    np.random.seed(c.int('seed', lo=0, hi=10**6))
    s = u.sample_from_pdf(lambda x, k=1.0: np.exp(-k * x), [lo, hi], 0.01, 4000, k=k)
    x = np.arange(lo, hi, 0.01)
    cdf = np.cumsum(np.exp(-k * x))
    cdf /= cdf[-1]
    emp = np.searchsorted(np.sort(s), x + 1e-9) / 4000.
    c.prove('samples follow the density', np.abs(emp - cdf).max() < 0.06 + 2. / x.size)


@contract('R12', [U + 'CubicSpline.__init__', U + 'CubicSpline.__call__'], kind='conc', bounded='up to 8 nodes, banded solve (LAPACK)', trials=200)
def spline_build(c):
    import scipy.interpolate as si
    np = c.np
    u = c.mod('redmapper.utilities')
    n = c.size('n', min=4, max=8)
    x = c.array('x', n, sorted='inc', gen=(0, 5))
    c.assume(bool((np.diff(x) > 0.02).all()))
    y = c.array('y', n, gen=(-3, 3))
    how = c.choice('how', ['natural', 'linear ends', 'slopes'])
    s0, s1 = c.float('s0', gen=(-2, 2)), c.float('s1', gen=(-2, 2))
    x0, y0 = x.copy(), y.copy()
    if how == 'natural':
        sp, ref = u.CubicSpline(x, y), si.CubicSpline(x, y, bc_type='natural')
    elif how == 'slopes':
        sp, ref = u.CubicSpline(x, y, yp=[s0, s1]), si.CubicSpline(x, y, bc_type=((1, s0), (1, s1)))
    else:
        sp, ref = u.CubicSpline(x, y, yp='3d=0'), None
    q = np.concatenate([x, np.linspace(x[0], x[-1], 37)])
    v = sp(q)
    c.prove('passes through the nodes', np.allclose(v[:n], y, atol=1e-9))
    sc = max(1.0, np.abs(v).max())
    if ref is not None:
        c.prove('the cubic spline with the requested end condition', np.allclose(v, ref(q), atol=1e-6 * sc))
    else:
        h = (x[1] - x[0]) / 8
        a = sp(x[0] + h * np.arange(9))
        d3 = a[3:] - 3 * a[2:-1] + 3 * a[1:-2] - a[:-3]
        c.prove('no third derivative in the first segment', np.abs(d3).max() < 1e-7 * sc)
        a = sp(x[-1] - (x[-1] - x[-2]) / 8 * np.arange(9))
        d3 = a[3:] - 3 * a[2:-1] + 3 * a[1:-2] - a[:-3]
        c.prove('nor in the last', np.abs(d3).max() < 1e-7 * sc)
        for k in range(1, n - 1):
            e = 1e-4 * min(x[k + 1] - x[k], x[k] - x[k - 1])
            l, m, r = sp(np.array([x[k] - e, x[k], x[k] + e]))
            jump = abs((r - m) - (m - l)) / e
            c.prove('smooth at the nodes', jump < 1e-2 * max(1.0, np.abs(sp.y2).max()))
    out = np.array([x[0] - 0.5, x[-1] + 0.7])
    fx = u.CubicSpline(x, y, fixextrap=True)
    c.prove('constant outside the nodes on request', np.allclose(fx(out), [y[0], y[-1]]) and np.allclose(fx(q[n:]), u.CubicSpline(x, y)(q[n:])))
    c.prove('nodes unchanged', np.array_equal(x, x0) and np.array_equal(y, y0))


@contract('R12', [U + 'MStar.__init__', U + 'MStar.__call__', U + 'RedGalInitialColors.__init__', U + 'RedGalInitialColors.__call__', U + 'RedGalInitialColors.zmax'],
          kind='conc', bounded='the tables shipped with the package', trials=12, ctime=20)
def shipped_tables(c):
    import glob
    import os
    import fitsio
    np = c.np
    u = c.mod('redmapper.utilities')
    d = os.path.join(os.path.dirname(u.__file__), 'data')
    fs = sorted(glob.glob(os.path.join(d, 'mstar', 'mstar_*_*.fit')))
    f = fs[c.int('file', lo=0, hi=10**6) % len(fs)]
    survey, band = os.path.basename(f)[6:-4].rsplit('_', 1)
    t = fitsio.read(f, ext=1, upper=True)
    m = u.MStar(survey, band)
    c.prove('mstar reproduces its table', np.allclose(m(t['Z']), t['MSTAR'], atol=1e-6))
    z = c.array('z', 4, lo=float(t['Z'].min()), hi=float(t['Z'].max()), gen=(0.1, 0.8))
    c.prove('and is continuous in between', np.allclose(m(z), np.interp(z, t['Z'], t['MSTAR']), atol=0.05))
    c.prove('survey names may carry blanks', np.allclose(u.MStar(' ' + survey + ' ', band + ' ')(z), m(z)))
    c.prove('an unknown survey is refused', c.raises((IOError, OSError), lambda: u.MStar('nosuch', 'q'))[0])
    fs = sorted(glob.glob(os.path.join(d, 'initcolors', '*.fit*')))
    f = fs[c.int('cfile', lo=0, hi=10**6) % len(fs)]
    t, h = fitsio.read(f, ext=1, lower=True), fitsio.read_header(f, ext=1)
    bands = h['BANDS'].strip()
    bands = bands.split(',') if ',' in bands else list(bands)
    full = c.choice('full', [False, True])
    rg = u.RedGalInitialColors(f if full else os.path.basename(f))
    c.prove('largest redshift of the template', rg.zmax == t['z'].max())
    for i in range(len(bands) - 1):
        c.prove('template colours of the two bands asked for', np.allclose(rg(bands[i], bands[i + 1], t['z']), t['color'][:, i], atol=1e-6)
                and np.allclose(rg(bands[i].lower(), bands[i + 1], z), np.interp(z, t['z'], t['color'][:, i]), atol=1e-6))
        out = t['z'][-1] + np.array([0.02, 0.05])
        sl = (t['color'][-1, i] - t['color'][-2, i]) / (t['z'][-1] - t['z'][-2])
        c.prove('and goes on along the last step beyond the table', np.allclose(rg(bands[i], bands[i + 1], out), t['color'][-1, i] + sl * (out - t['z'][-1]), atol=1e-5))
    c.prove('a colour the template does not have is refused', c.raises(ValueError, lambda: rg(bands[0], bands[0], z))[0]
            and c.raises(ValueError, lambda: rg(bands[1], bands[0], z))[0])
    c.prove('a missing template is refused', c.raises((IOError, OSError), lambda: u.RedGalInitialColors('nosuchfile.fit'))[0])


@contract('R12', [U + 'gaussFunction', U + 'astro_to_sphere'])
def small_functions(c):
    u = c.mod('redmapper.utilities')
    n = c.size('n', max=5)
    x = c.array('x', n, gen=(-4, 4))
    a, mu = c.float('A', gen=(-2, 2)), c.float('mu', gen=(-1, 1))
    sg = c.float('sigma', lo=0, lo_open=True, gen=(0.3, 2))
    g = c.get(u, 'gaussFunction')(x, a, mu, sg)
    ra, dec = c.array('ra', n, gen=(0, 360)), c.array('dec', n, lo=-90, hi=90)
    th, ph = c.get(u, 'astro_to_sphere')(ra, dec)
    for i in c.each(n):
        c.prove('Gaussian', c.close(g[i], a * c.np.exp(-(x[i] - mu) ** 2. / (2. * sg ** 2.))))
        rad = c.np.pi / 180.
        c.prove('colatitude and longitude in radians', c.And(c.close(th[i], (90. - dec[i]) * rad), c.close(ph[i], ra[i] * rad)))
