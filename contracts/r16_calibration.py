"""R16: calibration fits minimise the stated likelihood of the data they were given, and leave the data alone"""
import os
import shutil
import tempfile

from rmv.run import contract, StubMissing
from contracts.stand import Ns, Log, Gals, recs

F = 'redmapper/fitters.py:'
ZL = 'redmapper/calibration/zlambdacal.py:'
CC = 'redmapper/calibration/centeringcal.py:'
DF = 'redmapper/depth_fitting.py:'
RS = 'redmapper/calibration/redsequencecal.py:'
CA = 'redmapper/calibration/calibrate.py:'


class Basis(object):
    """a spline of fixed nodes is linear in its values: node k contributes value k times some function of redshift"""
    def __init__(self, c, m, sizes):
        self.c, self.sizes = c, sizes
        self.f = {}
        self.made = []
        if c.symbolic:
            for nm, nodes in sizes.items():
                self.f[nm] = [c.func('B_%s%d' % (nm, k), 1, lo=-2.0, hi=2.0) for k in range(len(nodes))]
            c.patch(m, 'CubicSpline', self)
        else:
            self.real = m.CubicSpline

    def __call__(self, x, y, **k):
        if not self.c.symbolic:
            return self.real(x, y)
        K = x.shape[0]
        for nm, nodes in self.sizes.items():
            if len(nodes) == K:
                for i in range(K):
                    self.c.prove('splines have the nodes they were given', self.c.close(x[i], nodes[i]))
                if y.shape[0] != K:
                    raise ValueError('spline')
                ys = [y[i] for i in range(K)]
                fs = self.f[nm]

                def ev(z):
                    t = fs[0](z) * ys[0]
                    for i in range(1, K):
                        t = t + fs[i](z) * ys[i]
                    return t
                return ev
        raise StubMissing('spline of other nodes')


class Min(object):
    """the minimiser evaluates where it is told and answers a point of its own choice"""
    def __init__(self, c, evals, answer):
        self.c, self.evals, self.answer = c, evals, answer
        self.calls = []
        self.optimize = self

    def minimize(self, fun, p0, method=None, bounds=None, jac=None, options=None, callback=None, **k):
        if k:
            raise StubMissing('minimize ' + str(list(k)))
        vals = [fun(p) for p in self.evals]
        self.calls.append((p0, bounds, vals))
        return Ns(x=self.answer)

    def fmin(self, fun, p0, disp=None, xtol=None, ftol=None, full_output=False, retall=None, **k):
        if k:
            raise StubMissing('fmin ' + str(list(k)))
        vals = [fun(p) for p in self.evals]
        self.calls.append((p0, None, vals))
        return (self.answer, 0.0, 1, 1, 0) if full_output else self.answer


MEAN, SLOPE, SCAT = [0.1, 0.2, 0.35], [0.1, 0.4], [0.12, 0.2, 0.3, 0.38]


def cut(c, np, p, a, b):
    return np.array([p[i] for i in range(a, b)])


def sig_of(np, sc, mins, e2):
    return np.sqrt(np.clip(sc, mins, None) ** 2. + e2)


@contract('R16', [F + 'RedSequenceFitter.__init__', F + 'RedSequenceFitter.fit', F + 'RedSequenceFitter.__call__'], maxpaths=1500, budget=240,
          assumes=['CubicSpline is linear in its node values (R12)', 'erf and the minimiser of scipy', '3, 2 and 4 nodes for mean, slope and scatter'], trials=60)
def red_sequence_cost(c):
    np = c.np
    m = c.mod('redmapper.fitters')
    n = c.size('n', min=1, max=8)
    z = c.array('z', n, lo=0.1, hi=0.4)
    col = c.array('col', n, lo=-1.0, hi=3.0)
    err = c.array('err', (n, 2), lo=0.01, hi=0.5)
    dm = c.array('dm', n, lo=-4.0, hi=4.0)
    trunc = c.array('trunc', n, lo=0.01, hi=1.0)
    lup = c.array('lup', n, lo=-0.5, hi=0.5)
    prob = c.array('prob', n, lo=0.0, hi=1.0)
    bkg = c.array('bkg', n, lo=0.0, hi=10.0)
    smax = c.array('smax', 4, lo=0.05, hi=1.0)
    der = c.array('der', n, lo=-4.0, hi=4.0)
    mode = c.choice('mode', ['full', 'bare', 'probs', 'ratio'])
    what = c.choice('what', ['mean', 'slope', 'scatter', 'all'])
    fm, fs, fc = [what in (k, 'all') for k in ('mean', 'slope', 'scatter')]
    kw = dict(slope_nodes=np.array(SLOPE), scatter_nodes=np.array(SCAT))
    if mode != 'bare':
        kw.update(dmags=dm, lupcorrs=lup)
    if mode in ('full', 'ratio'):
        kw.update(trunc=trunc, scatter_max=smax, use_scatter_prior=True)
    if mode != 'bare':
        kw.update(probs=prob, bkgs=bkg)
    rat = mode == 'ratio'
    if rat:
        kw.update(dmags_err_ratio=der)
    if mode == 'bare' and fs:
        return
    B = Basis(c, m, dict(m=MEAN, s=SLOPE, c=SCAT))
    erf = c.func('erf', 1, lo=0.01, hi=1.0) if c.symbolic else m.special.erf
    if c.symbolic:
        c.patch(m, 'special', Ns(erf=erf))
    np_ = (3 if fm else 0) + (2 if fs else 0) + ((6 if rat else 4) if fc else 0)
    p = c.array('p', np_, lo=0.001, hi=1.0)
    ans = c.array('ans', np_, lo=0.001, hi=1.0)
    mi = Min(c, [p], ans)
    c.patch(m, 'scipy', mi)
    p0m, p0s, p0c = c.array('p0m', 3, lo=-1.0, hi=3.0), c.array('p0s', 2, lo=-1.0, hi=1.0), c.array('p0c', 4, lo=-0.1, hi=0.5)
    fit = m.RedSequenceFitter(np.array(MEAN), z, col, err, **kw)
    fk = dict(fit_mean=fm, fit_slope=fs, fit_scatter=fc, min_scatter=0.002)
    ri = c.choice('ri', [(0, 1), (0,)])
    if rat:
        r0, r1 = c.float('r0', lo=0.5, hi=2.0), c.float('r1', lo=-0.1, hi=0.1)
        fk.update(err_ratio_pars=[r0, r1], fit_err_ratio_ind=list(ri))
    if mode != 'ratio' and fc:
        return             # the errors are changed in place: finding R16-errors, contract error_state
    out = fit.fit(p0m, p0s, p0c, **fk)
    if not mi.calls:
        raise StubMissing('another minimiser')
    p0, bounds, vals = mi.calls[0]
    k = 0
    start = []
    for on, q in ((fm, p0m), (fs, p0s), (fc, p0c)):
        if on:
            start += [q[i] for i in range(q.shape[0])]
    if fc and rat:
        start += [r0, r1]
    c.prove('the fit starts from the values given', c.And(*[c.close(p0[i], start[i]) for i in range(len(start))]) if len(p0) == len(start) else False)
    c.prove('each parameter has its bounds', len(bounds) == len(start))
    pos = {}
    for nm, on, q in (('m', fm, 3), ('s', fs, 2), ('c', fc, 4)):
        if on:
            pos[nm] = k
            k += q
    if fc:
        for i in range(4):
            b = bounds[pos['c'] + i]
            c.prove('scatter is bounded by the minimum and its maximum', c.And(b[0] == 0.002, c.close(b[1], smax[i]) if 'scatter_max' in kw else b[1] > 1e30))
    pieces = [(nm, q) for nm, on, q in (('m', fm, 3), ('s', fs, 2), ('c', fc, 6 if rat else 4)) if on]
    c.prove('the answer is handed back in pieces', len(out) == len(pieces) and all(len(o) == q for o, (nm, q) in zip(out, pieces)))
    for o, (nm, q) in zip(out, pieces):
        for i in range(q):
            c.prove('every piece is its own part of the answer', c.close(o[i], ans[pos[nm] + i]))
    gm = B(np.array(MEAN), cut(c, np, p, 0, 3) if fm else p0m)(z)
    gs = B(np.array(SLOPE), cut(c, np, p, pos['s'], pos['s'] + 2) if fs else p0s)(z)
    gc = B(np.array(SCAT), cut(c, np, p, pos['c'], pos['c'] + 4) if fc else p0c)(z)
    if rat:
        ra, rb = (p[np_ - 2], p[np_ - 1]) if fc else (r0, r1)
        ratio = der * rb + ra
        e2 = ratio ** 2. * err[:, 0] ** 2. + (ratio ** 2. * err[:, 1] ** 2. if 1 in ri else err[:, 1] ** 2.)
    else:
        e2 = err[:, 0] ** 2. + err[:, 1] ** 2.
    sig = sig_of(np, gc, 0.002, e2)
    model = gm + gs * dm + lup if mode != 'bare' else gm
    xi = (col - model) / sig
    phi = (1. / sig) * (1. / np.sqrt(2. * np.pi)) * np.exp(-0.5 * xi ** 2.)
    if 'trunc' in kw:
        with np.errstate(all='ignore'):
            phi = phi / erf(trunc / sig / np.sqrt(2.))
    with np.errstate(all='ignore'):
        v = np.log(prob * phi + (1. - prob) * bkg) if mode != 'bare' else np.log(phi)
    v = np.where(np.isfinite(v), v, -100.0)
    t = -np.sum(v)
    if fc and kw.get('use_scatter_prior'):
        t = t + np.sum(np.log(np.clip(cut(c, np, p, pos['c'], pos['c'] + 4), 0.002, None)))
    c.prove('the cost is minus the logarithm of the likelihood of the truncated sequence on its background', c.close(vals[0], t))


@contract('R16', [F + 'RedSequenceFitter.__call__', F + 'RedSequenceFitter.fit'], kind='conc', finding='R16-errors', bounded='up to 8 galaxies', trials=10)
def error_state(c):
    import numpy as np
    m = c.mod('redmapper.fitters')
    r = c.nrng
    n = int(r.integers(2, 8))
    fit = m.RedSequenceFitter(np.array(MEAN), r.uniform(0.1, 0.35, n), r.uniform(0, 1, n), r.uniform(0.05, 0.3, (n, 2)), scatter_nodes=np.array(SCAT))
    p = r.uniform(0.05, 0.2, 4)
    mi = Min(c, [p, p, p], p)
    c.patch(m, 'scipy', mi)
    fit.fit(np.zeros(3), np.zeros(3), p, fit_scatter=True)
    if not mi.calls:
        raise StubMissing('another minimiser')
    v = mi.calls[0][2]
    c.prove('the cost does not depend on how often it was evaluated', v[0] == v[1] == v[2])


@contract('R16', [F + 'MedZFitter.__init__', F + 'MedZFitter.fit', F + 'MedZFitter.__call__'], assumes=['CubicSpline is linear in its node values (R12)', 'the minimiser of scipy'], trials=60)
def median_cost(c):
    np = c.np
    m = c.mod('redmapper.fitters')
    n = c.size('n', min=1, max=8)
    z = c.array('z', n, lo=0.1, hi=0.4)
    v = c.array('v', n, lo=-3.0, hi=3.0)
    p, q, ans, p0 = [c.array(k, 3, lo=-3.0, hi=3.0) for k in ('p', 'q', 'ans', 'p0')]
    lo, hi = c.float('lo', lo=-9.0, hi=0.0), c.float('hi', lo=0.0, hi=9.0)
    B = Basis(c, m, dict(m=MEAN))
    mi = Min(c, [p, q, p], ans)
    c.patch(m, 'scipy', mi)
    fit = m.MedZFitter(np.array(MEAN), z, v)
    b = c.choice('bounds', ['none', 'lo', 'both'])
    got = fit.fit(p0, **dict(none={}, lo=dict(min_val=lo), both=dict(min_val=lo, max_val=hi))[b])
    if not mi.calls:
        raise StubMissing('another minimiser')
    s0, bounds, vals = mi.calls[0]
    c.prove('the fit starts from the values given', c.And(*[c.close(s0[i], p0[i]) for i in range(3)]))
    c.prove('the answer is that of the minimiser', c.And(*[c.close(got[i], ans[i]) for i in range(3)]))
    for i in range(3):
        c.prove('the bounds are those given', c.And(bounds[i][0] == lo if b != 'none' else bounds[i][0] < -1e30, bounds[i][1] == hi if b == 'both' else bounds[i][1] > 1e30))
    for k, w in enumerate((p, q, p)):
        c.prove('the cost is the summed distance from the spline', c.close(vals[k], np.sum(np.abs(v - B(np.array(MEAN), w)(z)))))


@contract('R16', [F + 'CorrectionFitter.__init__', F + 'CorrectionFitter.fit', F + 'CorrectionFitter.__call__'], maxpaths=800, budget=200,
          assumes=['CubicSpline is linear in its node values (R12)', 'the minimiser of scipy', '3, 2 and 4 nodes for mean, slope and width'], trials=80)
def correction_cost(c):
    np = c.np
    m = c.mod('redmapper.fitters')
    n = c.size('n', min=1, max=8)
    z = c.array('z', n, lo=0.1, hi=0.4)
    dz = c.array('dz', n, lo=-0.3, hi=0.3)
    ze = c.array('ze', n, lo=0.001, hi=0.1)
    pr = c.array('pr', n, lo=0.0, hi=1.0)
    dm = c.array('dm', n, lo=-4.0, hi=4.0)
    ws = c.array('ws', n, lo=0.1, hi=1.0)
    K = dict(m=MEAN, s=SLOPE, r=SCAT, b=[0.15, 0.2, 0.25, 0.3, 0.36])
    what = c.choice('what', ['m', 's', 'r', 'b', 'msrb', 'mr'])
    opt = c.choice('opt', [True, False])
    B = Basis(c, m, K)
    order = [k for k in 'msrb' if k in what]
    tot = sum(len(K[k]) for k in order)
    p, ans = c.array('p', tot, lo=0.11, hi=1.0), c.array('ans', tot, lo=0.11, hi=1.0)
    p0 = dict((k, c.array('p0' + k, len(K[k]), lo=0.11, hi=1.0)) for k in 'msrb')
    mi = Min(c, [p], ans)
    c.patch(m, 'scipy', mi)
    kw = dict(probs=pr, dmags=dm, ws=ws) if opt else {}
    fit = m.CorrectionFitter(np.array(MEAN), z, dz, ze, slope_nodes=np.array(SLOPE), r_nodes=np.array(SCAT), bkg_nodes=np.array(K['b']), **kw)
    out = fit.fit(p0['m'], p0['s'], p0['r'], p0['b'], fit_mean='m' in order, fit_slope='s' in order, fit_r='r' in order, fit_bkg='b' in order)
    if not mi.calls:
        raise StubMissing('another minimiser')
    s0, bounds, vals = mi.calls[0]
    start = [p0[k][i] for k in order for i in range(len(K[k]))]
    c.prove('the fit starts from the values given', c.And(*[c.close(s0[i], start[i]) for i in range(tot)]) if len(s0) == tot else False)
    pos, k0 = {}, 0
    for k in order:
        pos[k] = k0
        k0 += len(K[k])
    c.prove('the answer is handed back in pieces', len(out) == len(order) and all(len(o) == len(K[k]) for o, k in zip(out, order)) and len(bounds) == tot)
    for o, k in zip(out, order):
        for i in range(len(K[k])):
            c.prove('every piece is its own part of the answer', c.close(o[i], ans[pos[k] + i]))
            b = bounds[pos[k] + i]
            if k == 'r':
                c.prove('the width stays between 0.1 and 2 errors', b[0] == 0.1 and b[1] == 2.0)
            elif k == 'b':
                c.prove('the background variance is not negative', b[0] == 0.0)
    g = dict((k, B(np.array(K[k]), cut(c, np, p, pos[k], pos[k] + len(K[k])) if k in order else p0[k])(z)) for k in 'msrb')
    gb = np.clip(g['b'], 1e-10, None)
    v0 = (g['r'] * ze) ** 2.
    model = g['m'] + g['s'] * dm if opt else g['m'] + g['s'] * 0.0
    with np.errstate(all='ignore'):
        c1 = (1. / np.sqrt(2. * np.pi * gb)) * np.exp(-dz ** 2. / (2. * gb))
        c0 = (1. / np.sqrt(2. * np.pi * v0)) * np.exp(-(dz - model) ** 2. / (2. * v0))
        L = ws * (pr * c0 + (1. - pr) * c1) if opt else c0
        L = np.where(np.isfinite(L) & (L > 0.0), L, 4e-44)
        t = -np.sum(np.log(L))
    c.prove('the cost is minus the logarithm of the likelihood of correct and outlying redshifts', c.close(vals[0], t))


@contract('R16', [F + 'EcgmmFitter.__init__', F + 'EcgmmFitter.fit', F + 'EcgmmFitter.__call__'], assumes=['the minimiser of scipy'], trials=60)
def two_gaussians(c):
    np = c.np
    m = c.mod('redmapper.fitters')
    n = c.size('n', min=1, max=8)
    y = c.array('y', n, lo=-2.0, hi=2.0)
    e = c.array('e', n, lo=0.01, hi=0.5)
    off = c.choice('offset', [0.0, 0.5])
    w0 = c.float('w0', lo=0.0, hi=1.0)
    mu = c.array('mu', 2, lo=-1.0, hi=1.0)
    sg = c.array('sg', 2, lo=0.01, hi=0.5)
    p, ans = c.array('p', 5, lo=0.01, hi=0.5), c.array('ans', 5, lo=0.01, hi=0.5)
    y0, e0 = c.snapshot(y), c.snapshot(e)
    mi = Min(c, [p, p], ans)
    c.patch(m, 'scipy', mi)
    fit = m.EcgmmFitter(y, e)
    wt, mm, ss = fit.fit(w0, mu, sg, offset=off)
    if not mi.calls:
        raise StubMissing('another minimiser')
    s0, bounds, vals = mi.calls[0]
    start = [w0, mu[0] + off, mu[1] + off, sg[0], sg[1]]
    c.prove('the fit starts from the values given', c.And(*[c.close(s0[i], start[i]) for i in range(5)]))

    def comp(w, u, s):
        v = s ** 2. + e0 ** 2.
        return (w / np.sqrt(2. * np.pi * v)) * np.exp(-(y0 + off - u) ** 2. / (2. * v))
    g = comp(p[0], p[1], p[3]) + comp(1. - p[0], p[2], p[4])
    for v in vals:
        c.prove('the cost is minus the logarithm of the likelihood of two components with their errors', c.close(v, -np.sum(np.log(g))))
    sw = ans[1] > ans[2]
    c.prove('weights add up to one', c.close(wt[0] + wt[1], 1.0))
    c.prove('the component with the lower mean comes first', mm[0] <= mm[1])
    c.prove('the means are without the offset', c.And(c.close(mm[0], c.ite(sw, ans[2], ans[1]) - off), c.close(mm[1], c.ite(sw, ans[1], ans[2]) - off)))
    c.prove('weights and widths go with their mean', c.implies(c.Not(ans[1] == ans[2]),
            c.And(c.close(wt[0], c.ite(sw, 1.0 - ans[0], ans[0])), c.close(ss[0], c.ite(sw, ans[4], ans[3])), c.close(ss[1], c.ite(sw, ans[3], ans[4])))))
    i = c.each(n)
    for k in i:
        c.prove('the data are left alone', c.And(c.same(y[k], y0[k]), c.same(e[k], e0[k])))


@contract('R16', [ZL + 'ZLambdaFitter.__init__', ZL + 'ZLambdaFitter.fit', ZL + 'ZLambdaFitter.__call__'], maxpaths=800, budget=200,
          assumes=['CubicSpline is linear in its node values (R12)', 'the minimiser of scipy', '3 and 2 nodes'], trials=60)
def zlambda_cost(c):
    np = c.np
    m = c.mod('redmapper.calibration.zlambdacal')
    n = c.size('n', min=1, max=8)
    z = c.array('z', n, lo=0.1, hi=0.4)
    dz = c.array('dz', n, lo=-0.3, hi=0.3)
    ze = c.array('ze', n, lo=0.001, hi=0.1)
    ll = c.array('ll', n, lo=-1.0, hi=2.0)
    K = dict(d=MEAN, s=SLOPE, c=SLOPE)
    what = c.choice('what', ['d', 's', 'c', 'dc', 'dsc'])
    mins = c.choice('mins', [0.0, 0.01])
    B = Basis(c, m, dict(d=MEAN, s=SLOPE))
    order = [k for k in 'dsc' if k in what]
    tot = sum(len(K[k]) for k in order)
    p, ans = c.array('p', tot, lo=-0.5, hi=1.0), c.array('ans', tot, lo=-0.5, hi=1.0)
    p0 = dict((k, c.array('p0' + k, len(K[k]), lo=-0.5, hi=1.0)) for k in 'dsc')
    mi = Min(c, [p], ans)
    c.patch(m, 'scipy', mi)
    fit = m.ZLambdaFitter(np.array(MEAN), np.array(SLOPE), z, dz, ze, ll)
    out = fit.fit(p0['d'], p0['s'], p0['c'], fit_delta='d' in order, fit_slope='s' in order, fit_scatter='c' in order, min_scatter=mins)
    if not mi.calls:
        raise StubMissing('another minimiser')
    s0, _, vals = mi.calls[0]
    start = [p0[k][i] for k in order for i in range(len(K[k]))]
    c.prove('the fit starts from the values given', c.And(*[c.close(s0[i], start[i]) for i in range(tot)]) if len(s0) == tot else False)
    pos, k0 = {}, 0
    for k in order:
        pos[k] = k0
        k0 += len(K[k])
    c.prove('the answer is handed back in pieces', len(out) == len(order) and all(len(o) == len(K[k]) for o, k in zip(out, order)))
    for o, k in zip(out, order):
        for i in range(len(K[k])):
            c.prove('every piece is its own part of the answer', c.close(o[i], ans[pos[k] + i]))
    g = dict((k, B(np.array(K[k]), cut(c, np, p, pos[k], pos[k] + len(K[k])) if k in order else p0[k])(z)) for k in 'dsc')
    v = np.clip(g['c'], mins, None) ** 2. + ze ** 2.
    L = np.log((1. / np.sqrt(2. * np.pi * v)) * np.exp(-(dz - (g['d'] + g['s'] * ll)) ** 2. / (2. * v)))
    t = -np.sum(np.where(np.isfinite(L), L, -100.0))
    if 'c' in order:
        low = c.Or(p[pos['c']] < mins, p[pos['c'] + 1] < mins)
        t = c.ite(low, t + 10000.0, t)
    c.prove('the cost is minus the logarithm of the likelihood, with a wall below the smallest scatter', c.close(vals[0], t))


PAR = [('EXPTIME', 'f4'), ('ZP', 'f4'), ('LIMMAG', 'f4'), ('NSIG', 'f4'), ('FLUX1_LIM', 'f4'), ('FSKY1', 'f4'), ('LIMMAG_ERR', 'f4'), ('EXPTIME_ERR', 'f4'), ('FRAC_OUT', 'f4')]


@contract('R16', [DF + 'DepthFunction.__init__', DF + 'DepthFunction.__call__'], trials=80)
def depth_cost(c):
    np = c.np
    m = c.mod('redmapper.depth_fitting')
    n = c.size('n', min=1, max=8)
    mag = c.array('mag', n, lo=15.0, hi=30.0)
    err = c.array('err', n, lo=0.001, hi=2.0)
    zp, ns = c.float('zp', lo=20.0, hi=32.0), c.float('nsig', lo=1.0, hi=20.0)
    lim, t = c.float('lim', lo=15.0, hi=30.0), c.float('t', lo=-10.0, hi=5000.0)
    mx = c.float('mx', lo=1.0, hi=4000.0)
    f = m.DepthFunction(mag, err, zp, ns)
    if c.choice('limit', [True, False]):
        f.max_p1 = mx
        over = t > mx
    else:
        over = False
    got = f([lim, t])
    again = f([lim, t])
    f1 = 10. ** ((lim - zp) / (-2.5))
    sky = f1 ** 2. * t / ns ** 2. - f1
    bad = c.Or(t < 0.0, over, sky < 0.0)
    tf = t * 10. ** ((mag - zp) / (-2.5))
    with np.errstate(all='ignore'):
        want = np.sum(np.abs((2.5 / np.log(10.0)) * (np.sqrt(sky * t + tf) / tf) - err)) if c.symbolic or not bad else 0.0
    c.prove('outside the allowed exposure times and sky levels the cost is a wall', c.implies(bad, got == 1e10))
    c.prove('the cost is the summed distance between error and model, a wall if there is none', c.implies(c.Not(bad), c.ite(c.isfinite(want), c.close(got, want), got == 1e10)))
    c.prove('the cost does not depend on how often it was evaluated', c.same(got, again))


@contract('R16', [DF + 'applyErrorModel'], assumes=['noise drawn by numpy'], trials=60)
def apply_model(c):
    np = c.np
    m = c.mod('redmapper.depth_fitting')
    n = c.size('n', min=1, max=8)
    mag = c.array('mag', n, lo=15.0, hi=28.0)
    pars = c.rec('pars', 1, PAR)
    for k, lo, hi in (('EXPTIME', 1.0, 1000.0), ('ZP', 20.0, 25.0), ('FSKY1', 0.0, 100.0)):
        v = c.float(k, lo=lo, hi=hi)
        pars[k][0] = v
    t, zp, sky = pars['EXPTIME'][0], pars['ZP'][0], pars['FSKY1'][0]
    mag0 = c.snapshot(mag)
    om, oe = m.applyErrorModel(pars, mag, noNoise=True)
    tf = t * 10. ** ((mag0 - zp) / (-2.5))
    want = (2.5 / np.log(10.)) * (np.sqrt(sky * t + tf) / tf)
    wm = zp - 2.5 * np.log10(tf / t)
    c.prove('one result per galaxy', om.shape[0] == n and oe.shape[0] == n if not c.symbolic else c.And(om.shape[0] == n, oe.shape[0] == n))
    for i in c.each(n):
        c.prove('without noise every error is that of its flux and the sky', c.close(oe[i], want[i]))
        c.prove('without noise every magnitude is the one given', c.close(om[i], wm[i]))
        c.prove('the magnitudes given are left alone', c.same(mag[i], mag0[i]))


@contract('R16', [DF + 'applyErrorModel', DF + 'calcErrorModel'], kind='conc', bounded='up to 400 galaxies', trials=40)
def depth_fit(c):
    import numpy as np
    m = c.mod('redmapper.depth_fitting')
    r = c.nrng
    const = 2.5 / np.log(10.)
    zp, ns = float(r.choice([22.5, 30.0])), float(r.choice([5.0, 10.0]))
    t0, lim = float(10. ** r.uniform(0.5, 3.0)) / 10. ** ((zp - 22.5) / 2.5), float(r.uniform(21., 24.))
    f1 = 10. ** ((lim - zp) / (-2.5))
    sky = f1 ** 2. * t0 / ns ** 2. - f1
    if sky <= 0.0:
        return
    n = int(r.choice([1, 2, 3, 10, 60, 400]))
    mag = r.uniform(lim - 4., lim + 0.3, n)
    pars = np.zeros(1, dtype=PAR)
    pars['EXPTIME'], pars['ZP'], pars['FSKY1'] = t0, zp, sky
    kw = dict(nSig=ns, zp=zp, snCut=float(r.choice([5.0, 3.0])), oldIDL=bool(r.integers(2)))
    np.random.seed(int(r.integers(1000)))
    nm, ne = m.applyErrorModel(pars, np.full(4000, lim), noNoise=False)
    fl = 10. ** ((nm - zp) / (-2.5))
    c.prove('the noise has the width of the model and is drawn for each galaxy', abs(np.std(fl) * t0 / np.sqrt(sky * t0 + f1 * t0) - 1.0) < 0.1 and abs(np.mean(fl) / f1 - 1.0) < 0.02)
    _, err = m.applyErrorModel(pars, mag, noNoise=True)
    bad = r.random(n) < 0.2
    dirty = bool(r.integers(2))
    if dirty:
        err = np.where(bad, r.choice([0.0, -1.0, np.nan, np.inf], n), err)
        mag = np.where(r.random(n) < 0.1, np.nan, mag)
    if r.random() < 0.15:
        err = np.full(n, [0.0, np.nan][int(r.integers(2))])
    mag0, err0 = mag.copy(), err.copy()
    got, fail = m.calcErrorModel(mag, err, **kw)
    c.prove('magnitudes and errors are left alone', np.array_equal(mag, mag0, equal_nan=True) and np.array_equal(err, err0, equal_nan=True))
    ok = np.isfinite(mag) & np.isfinite(err) & (err > 0)
    mg, er = mag[ok], err[ok]
    use = np.zeros(0, dtype=bool)
    if mg.size:
        use = mg < np.sort(mg)[int(0.98 * mg.size)]
        if not kw['oldIDL']:
            use &= er < const / kw['snCut']
    c.prove('without usable magnitudes there is no model', bool(fail) if not use.any() else True)
    if fail:
        c.prove('a failure has the flag value and no model', fail == 1 and not isinstance(got, np.ndarray) and got == -1)
        return
    g = got[0]
    c.prove('the model has the zero point and significance asked for', abs(g['ZP'] - zp) < 1e-4 and abs(g['NSIG'] - ns) < 1e-4)
    c.prove('limiting flux and sky follow from limiting magnitude and exposure time', abs(g['FLUX1_LIM'] * 10. ** ((g['LIMMAG'] - zp) / 2.5) - 1.0) < 1e-3
            and abs(g['FLUX1_LIM'] ** 2. * g['EXPTIME'] / ns ** 2. - g['FLUX1_LIM'] - g['FSKY1']) < 1e-4 * (abs(g['FSKY1']) + g['FLUX1_LIM']))
    _, te = m.applyErrorModel(got, mg[use], noNoise=True)
    near = np.abs(np.abs(te - er[use]) - 0.005) < 1e-5
    c.prove('the outliers are the galaxies whose error is far from the model', abs(g['FRAC_OUT'] * use.sum() - (np.abs(te - er[use]) > 0.005).sum()) <= near.sum() + 1e-3)
    f = m.DepthFunction(mg[use], er[use], zp, ns)
    c.prove('the model is at least as good as the truth it started near', f([float(g['LIMMAG']), float(g['EXPTIME'])]) <= max(4. * f([lim, t0]), 2e-3 * use.sum()) if use.sum() >= 60 else True)
    if use.sum() >= 60:
        c.prove('the limiting magnitude of a perfect sample is found', abs(g['LIMMAG'] - lim) < 0.05)


@contract('R16', [DF + 'DepthLim.__init__', DF + 'DepthLim.calc_maskdepth'], assumes=['calcErrorModel by the contract depth_fit', 'fewer than 100000 galaxies (a random subset above that, bounded)'], trials=60)
def depth_of_mask(c):
    np = c.np
    m = c.mod('redmapper.depth_fitting')
    n, k = c.size('n', min=1, max=8), c.size('k', min=1, max=8)
    c.assume(n < 100000)
    mag, err = c.array('mag', n, lo=15.0, hi=28.0), c.array('err', n, lo=0.001, hi=2.0)
    f1, f2 = c.choice('fail1', [0, 1]), c.choice('fail2', [0, 1])
    P = [c.rec('p%d' % i, 1, PAR) for i in range(2)]
    seen = []

    def calc(a, b, **kw):
        if set(kw) - {'calcErr'}:
            raise StubMissing('calcErrorModel ' + str(kw))
        seen.append((a, b))
        j = len(seen) - 1
        return (-1, 1) if (f1, f2)[j] else (P[j], 0)
    c.patch(m, 'calcErrorModel', calc)
    big = c.choice('big', [False, True])
    if big and c.symbolic:
        return
    bad, dl = c.raises(RuntimeError, lambda: m.DepthLim(mag, err, **(dict(max_gals=3) if big else {})))
    c.prove('a region without any depth is refused, nothing else', c.Iff(bad, f1 == 1))
    if not big:
        for i in c.each(n):
            c.prove('the overall depth is that of all galaxies', c.And(seen[0][0].shape[0] == n, c.same(seen[0][0][i], mag[i]), c.same(seen[0][1][i], err[i])))
    else:
        pairs = set(zip(mag.tolist(), err.tolist()))
        c.prove('the overall depth is that of some of the galaxies', len(seen[0][0]) == min(3, n) and all(q in pairs for q in zip(seen[0][0].tolist(), seen[0][1].tolist())))
    if bad:
        return
    q = c.size('q', min=0, max=8)
    gm, ge = c.array('gm', q, lo=15.0, hi=28.0), c.array('ge', q, lo=0.001, hi=2.0)
    mk = Ns(limmag=c.array('l', k), exptime=c.array('t', k), zp=c.array('zp', 1), nsig=c.array('ns', 1))
    dl.calc_maskdepth(mk, gm, ge)
    src = P[0] if f2 else P[1]
    for i in c.each(k):
        c.prove('every mask galaxy has the depth of its neighbourhood, else that of the region', c.And(c.close(mk.limmag[i], src['LIMMAG'][0]), c.close(mk.exptime[i], src['EXPTIME'][0])))
    c.prove('zero point and significance go with it', c.And(c.close(mk.zp[0], src['ZP'][0]), c.close(mk.nsig[0], src['NSIG'][0])))
    for i in c.each(q):
        c.prove('the local depth is that of the galaxies given', c.And(seen[1][0].shape[0] == q, c.same(seen[1][0][i], gm[i]), c.same(seen[1][1][i], ge[i])))


@contract('R16', [F + 'ErrorBinFitter.__init__', F + 'ErrorBinFitter.fit', F + 'ErrorBinFitter.__call__'], kind='conc', bounded='up to 200 galaxies', trials=30)
def error_bins(c):
    import numpy as np
    m = c.mod('redmapper.fitters')
    r = c.nrng
    n = int(r.integers(5, 200))
    dm = r.uniform(-2, 2, n)
    e0, e1 = r.uniform(0.01, 0.1, n), r.uniform(0.01, 0.1, n)
    si = float(r.uniform(0.0, 0.01))
    col = r.normal(size=n) * np.sqrt(si + e0 ** 2. + e1 ** 2.)
    keep = [x.copy() for x in (col, dm, e0, e1)]
    np.random.seed(int(r.integers(1000)))
    bs = float(r.choice([0.5, 1.0]))
    fit = m.ErrorBinFitter(col, dm, e0, e1, si, binsize=bs, ntrial=20)
    p = np.array([r.uniform(0.5, 2.0), r.uniform(-0.2, 0.2)])
    ans = np.array([1.1, 0.1])
    mi = Min(c, [p, p], ans)
    c.patch(m, 'scipy', mi)
    ind = [[0], [1], [0, 1], []][int(r.integers(4))]
    got = fit.fit(np.array([1.0, 0.0]), scale_indices=ind)
    if not mi.calls:
        raise StubMissing('another minimiser')
    c.prove('the answer is that of the minimiser', list(got) == list(ans) and list(mi.calls[0][0]) == [1.0, 0.0])
    q = p[0] + p[1] * dm
    d = col / np.sqrt(si + ((q if 0 in ind else 1.0) * e0) ** 2. + ((q if 1 in ind else 1.0) * e1) ** 2.)
    b = np.floor((dm - dm.min()) / bs).astype(int)
    t = 0.0
    for k in range(fit.nbin):
        if fit.mad_err[k] > 0.0:
            w = d[b == k]
            t += (1.4826 * np.median(np.abs(w - np.median(w))) - 1.0) ** 2. / fit.mad_err[k] ** 2.
    edge = np.abs((dm - dm.min()) / bs - np.round((dm - dm.min()) / bs)) < 1e-9
    v = mi.calls[0][2]
    c.prove('the cost is the departure of the scatter in errors from one in every bin', abs(v[0] - t) <= 1e-8 * (1.0 + abs(t)) or edge.sum() > 1)
    c.prove('the cost does not depend on how often it was evaluated', v[0] == v[1])
    c.prove('the data are left alone', all(np.array_equal(a, k) for a, k in zip((col, dm, e0, e1), keep)))


@contract('R16', [CC + 'WcenFgFitter.__init__', CC + 'WcenFgFitter.fit', CC + 'WcenFgFitter.__call__', CC + 'WcenCFitter.__init__', CC + 'WcenCFitter.fit', CC + 'WcenCFitter.__call__', CC + 'WcenCwFitter.__init__',
                  CC + 'WcenCwFitter.fit', CC + 'WcenCwFitter.__call__'], assumes=['the minimiser of scipy'], trials=90, budget=150)
def centring_cost(c):
    np = c.np
    m = c.mod('redmapper.calibration.centeringcal')
    n = c.size('n', min=1, max=8)
    kind = c.choice('kind', ['fg', 'c', 'cw'])
    A = lambda nm, lo, hi: c.array(nm, n, lo=lo, hi=hi)
    w, ls = A('w', 0.01, 10.0), A('ls', 0.1, 3.0)
    pc, ps = A('pc', 0.0, 0.5), A('ps', 0.0, 0.5)
    k = 3 if kind == 'c' else 2
    p, ans, p0 = [c.array(x, k, lo=-1.0, hi=1.0) for x in ('p', 'ans', 'p0')]
    for i in range(k):
        c.assume(c.Not(p[i] == 0.0))
    mi = Min(c, [p, p], ans)
    c.patch(m, 'scipy', mi)
    if kind == 'fg':
        fit = m.WcenFgFitter(w, ls)
        sig = p[1] * ls
        with np.errstate(all='ignore'):
            f = (1. / (np.sqrt(2. * np.pi) * sig)) * np.exp(-0.5 * (np.log(w) - p[0]) ** 2. / sig ** 2.)
        neg = p[1] < 0.0
    elif kind == 'c':
        ms, rm, cw, ph, bc = A('ms', 15.0, 25.0), A('rm', 15.0, 25.0), A('cw', 0.0, 1.0), A('ph', 0.0, 2.0), A('bc', 0.0, 50.0)
        fit = m.WcenCFitter(pc, ps, ms, ls, rm, cw, ph, bc)
        mb = ms + p[0] + p[1] * ls
        phi = (1. / (np.sqrt(2. * np.pi) * p[2])) * np.exp(-0.5 * (rm - mb) ** 2. / p[2] ** 2.)
        f = pc * phi * cw + ps * ph * cw + (1.0 - pc - ps) * bc
        f = np.where((f < 1e-5) | ~np.isfinite(f), 1e-5, f)
        neg = p[2] < 0.0
    else:
        ff, fs = A('ff', 0.0, 2.0), A('fs', 0.0, 2.0)
        fit = m.WcenCwFitter(pc, ps, w, ff, fs, ls)
        sig = p[1] * ls
        with np.errstate(all='ignore'):
            fc = (1. / (np.sqrt(2. * np.pi) * sig)) * np.exp(-0.5 * (np.log(w) - p[0]) ** 2. / sig ** 2.)
            f = pc * fc + ps * fs + (1.0 - pc - ps) * ff
        neg = p[1] < 0.0
    with np.errstate(all='ignore'):
        got = fit.fit(p0)
        t = -np.sum(np.log(f))
    if not mi.calls:
        raise StubMissing('another minimiser')
    s0, _, vals = mi.calls[0]
    c.prove('the fit starts from the values given', c.And(*[c.close(s0[i], p0[i]) for i in range(k)]))
    c.prove('the answer is that of the minimiser', c.And(*[c.close(got[i], ans[i]) for i in range(k)]))
    for v in vals:
        c.prove('the cost is minus the logarithm of the likelihood', c.implies(c.Not(neg), c.Or(c.close(v, t), c.And(c.isnan(v), c.isnan(t)))))
        c.prove('a negative width costs more', c.implies(neg, c.Or(c.close(v, t + 1000.), c.And(c.isnan(v), c.isnan(t)))))


PM = 'redmapper/calibration/prepmembers.py:PrepMembers.'
SS = 'redmapper/calibration/selectspecseeds.py:SelectSpecSeeds.'
SR = 'redmapper/calibration/selectspecred.py:SelectSpecRedGalaxies.'


class Cat(object):
    """a catalogue read from a file: the real Catalog of these records"""
    def __init__(self, cls, files):
        self.cls, self.files, self.asked = cls, files, []

    def from_fits_file(self, f, ext=1, **k):
        self.asked.append(f)
        if f not in self.files:
            raise IOError(f)
        return self.cls(self.files[f].copy())

    def from_galfile(self, f, **k):
        self.asked.append((f, k))
        return self.cls(self.files[f].copy())

    from_catfile = from_fits_file

    def __call__(self, a):
        return self.cls(a)


def written(cls, store):
    """the real catalogue class whose files are kept here instead"""
    def to_fits_file(self, f, clobber=False, header=None, indices=None):
        a = self._ndarray if indices is None else self._ndarray[indices]
        store[f] = (a.copy(), header)
    return to_fits_file


@contract('R16', [PM + 'run'], kind='conc', bounded='up to 12 clusters', trials=80)
def training_members(c):
    import numpy as np
    m = c.mod('redmapper.calibration.prepmembers')
    r = c.nrng
    n, k, nb = int(r.integers(1, 12)), int(r.integers(1, 60)), int(r.integers(2, 6))
    cat = recs(np, n, mem_match_id=r.permutation(40)[:n].astype('i4'), z_init=r.uniform(0.1, 0.5, n).astype('f4'), cg_spec_z=r.uniform(-0.1, 0.5, n).astype('f4'), z_lambda=np.zeros(n, 'f4'),
               z_lambda_e=r.uniform(0.001, 0.05, n).astype('f4'), lambda_=np.zeros(n, 'f4'), scaleval=r.choice([1.0, 1.2, 0.0, -1.0, 2.0], n).astype('f4'))
    cat['z_lambda'] = cat['z_init'] + r.normal(0, 0.05, n)
    cat['lambda_'] = r.choice([5.0, 20.0, 40.0, 60.0], n) * r.uniform(0.5, 1.5, n)
    cat = cat.astype([(('lambda' if x == 'lambda_' else x), cat.dtype[x]) for x in cat.dtype.names])
    mem = recs(np, k, mem_match_id=r.integers(0, 40, k).astype('i4'), p=r.uniform(0, 1, k).astype('f4'), pcol=r.uniform(0, 1, k).astype('f4'), theta_i=r.uniform(0.5, 1, k).astype('f4'), theta_r=r.uniform(0.5, 1, k).astype('f4'),
               ra=r.uniform(0, 10, k), dec=r.uniform(0, 10, k), mag=r.uniform(15, 25, (k, nb)).astype('f4'), mag_err=r.uniform(0, 1, (k, nb)).astype('f4'), refmag=r.uniform(15, 25, k).astype('f4'),
               refmag_err=r.uniform(0, 1, k).astype('f4'), ebv=r.uniform(0, 1, k).astype('f4'), r=r.choice([0.0, 0.00001, 0.01, 0.5], k).astype('f4'))
    mode = str(r.choice(['z_init', 'cg', 'other']))
    smooth = float(r.choice([0.0, -1.0, 0.003]))
    cf = Ns(catfile='c.fit', zmemfile='m.fit', calib_minlambda=20.0, calib_zlambda_clean_nsig=float(r.choice([2.0, 5.0])), calib_pcut=0.3, nmag=nb, calib_smooth=smooth, logger=Log())
    real = m.Catalog
    F_ = Cat(real, {'c.fit': cat})
    st = {}
    c.patch(m, 'Catalog', F_)
    c.patch(m, 'read_members', lambda f: real(mem.copy()) if f == 'c.fit' else None)
    c.patch(real, 'to_fits_file', written(real, st))
    pm = c.bare(m.PrepMembers, config=cf)
    np.random.seed(5)
    cz = cat['z_init'] if mode == 'z_init' else cat['cg_spec_z']
    with np.errstate(all='ignore'):
        good = (cat['lambda'] / cat['scaleval'] > 20.0) & (cat['scaleval'] > 0) & (np.abs(cz - cat['z_lambda']) < cf.calib_zlambda_clean_nsig * cat['z_lambda_e'])
    pick = (mem['p'] * mem['theta_i'] * mem['theta_r'] > 0.3) | (mem['pcol'] > 0.3)
    if mode != 'other' and not (good.any() and pick.any()):
        return             # nothing to match: outside the contract
    bad, _ = c.raises(RuntimeError, lambda: pm.run(mode))
    c.prove('an unknown mode is refused, nothing else', bad == (mode == 'other'))
    if bad:
        return
    if list(st) != ['m.fit']:
        c.prove('the members are written where they are looked for', False)
        return
    out = st['m.fit'][0]
    row = dict((int(cat['mem_match_id'][i]), i) for i in range(n) if good[i])
    want = [j for j in range(k) if int(mem['mem_match_id'][j]) in row and pick[j]]
    c.prove('as many members as pass the cuts in clean clusters', out.size == len(want))
    left = dict(((mem['ra'][j], mem['dec'][j]), j) for j in want)
    for o in out:
        j = left.pop((o['ra'], o['dec']), None)
        c.prove('every member passes the cuts and is there once', j is not None)
        if j is None:
            return
        i = row[int(mem['mem_match_id'][j])]
        c.prove('every member has its own photometry', all(np.array_equal(o[x], mem[x][j]) for x in ('p', 'pcol', 'mag', 'mag_err', 'refmag', 'refmag_err', 'ebv')))
        c.prove('every member has the redshift of its cluster', abs(o['z'] - cz[i]) < (1e-6 if smooth <= 0.0 else 0.03) and o['z_lambda'] == cat['z_lambda'][i])
        c.prove('the central galaxy is the one at the centre', bool(o['central']) == (mem['r'][j] < 0.0001))


@contract('R16', [SS + 'run'], kind='conc', bounded='up to 60 galaxies', trials=60)
def seeds_from_spectra(c):
    import numpy as np
    m = c.mod('redmapper.calibration.selectspecseeds')
    r = c.nrng
    n, nb = int(r.integers(1, 60)), int(r.integers(2, 6))
    g = recs(np, n, ra=10. + 0.01 * np.arange(n), dec=r.uniform(-5, 5, n), mag=r.uniform(15, 25, (n, nb)).astype('f4'), mag_err=r.uniform(0, 1, (n, nb)).astype('f4'), refmag=r.choice([18.0, 20.0, -1.0], n).astype('f4'),
             refmag_err=r.uniform(0, 1, n).astype('f4'), zred=r.choice([-1.0, 0.2, 0.3], n).astype('f4'), zred_e=r.uniform(0, 1, n).astype('f4'), chisq=r.uniform(0, 10, n).astype('f4'), ebv=r.uniform(0, 1, n).astype('f4'))
    hit = r.permutation(n)[:int(r.integers(1, n + 1))]
    q = hit.size
    off = r.choice([0.0, 1.0, 30.0], q)
    spec = recs(np, q, ra=g['ra'][hit], dec=g['dec'][hit] + off / 3600., z=r.uniform(0.0, 0.6, q).astype('f4'), z_err=r.choice([0.0001, 0.001, 0.01], q).astype('f4'))
    there, usetrain = bool(r.integers(2)), bool(r.integers(2))
    zf = [None, 'z.fit'][int(r.integers(2))]
    cf = Ns(galfile='g.fit', zredfile=zf, specfile='s.fit', specfile_train='t.fit', seedfile='seed.fit', nmag=nb, border=0.3, d=Ns(nside=4, hpix=[3]), zrange_cushioned=np.array([0.1, 0.4]), calib_spec_max_zerr=0.001, logger=Log())
    G, C = m.GalaxyCatalog, m.Catalog
    other = spec.copy()
    other['z'] = 9.0
    fg = Cat(G, {'g.fit': g})
    c.patch(m, 'GalaxyCatalog', fg)
    c.patch(m, 'Catalog', Cat(C, {'s.fit': other if usetrain else spec, 't.fit': spec if usetrain else other}))
    from contracts.r11_pipeline import Os
    c.patch(m, 'os', Os({'z.fit': there}))
    st = {}
    c.patch(C, 'to_fits_file', written(C, st))
    s = c.bare(m.SelectSpecSeeds, config=cf)
    ok = np.where((spec['z'] >= 0.1) & (spec['z'] <= 0.4) & (spec['z_err'] < 0.001) & (off < 3.0))[0]
    haz = there and zf is not None
    if ok.size == 0:
        return             # nothing to match: outside the contract
    s.run(**({} if usetrain and r.integers(2) else dict(usetrain=usetrain)))
    c.prove('the seeds are written where they are looked for', list(st) == ['seed.fit'])
    c.prove('the galaxies are those of the region, with redshifts if there are any', fg.asked[0][0] == 'g.fit' and fg.asked[0][1].get('nside') == 4 and fg.asked[0][1].get('hpix') == [3] and fg.asked[0][1].get('border') == 0.3 and fg.asked[0][1].get('zredfile') == ('z.fit' if haz else None))
    out = st['seed.fit'][0]
    want = dict((g['ra'][hit[i]], i) for i in ok if (g['zred'][hit[i]] > 0.0 if haz else g['refmag'][hit[i]] > 0.0))
    c.prove('the seeds are the galaxies with a good spectrum in the range, each once', sorted(out['ra'].tolist()) == sorted(want))
    for o in out:
        i = want.get(o['ra'])
        if i is None:
            return
        h = hit[i]
        c.prove('a seed has the spectroscopic redshift of its own galaxy', o['zspec'] == spec['z'][i])
        c.prove('a seed has its own photometry', all(np.array_equal(o[x], g[x][h]) for x in ('dec', 'mag', 'mag_err', 'refmag', 'refmag_err', 'ebv')))
        c.prove('a seed has its own photometric redshift, -1 without', (o['zred'], o['zred_e'], o['zred_chisq']) == ((g['zred'][h], g['zred_e'][h], g['chisq'][h]) if haz else (-1, -1, -1)))


@contract('R16', [RS + 'RedSequenceCalibrator._compute_single_lupcorr'], assumes=['CubicSpline is linear in its node values (R12)', 'arcsinh of numpy'], trials=60)
def asinh_correction(c):
    np = c.np
    m = c.mod('redmapper.calibration.redsequencecal')
    n = c.size('n', min=1, max=8)
    nb = 4
    ref = c.choice('ref', [0, 1, 2, 3])
    steps = [(j, -1) for j in range(ref + 1, nb)] + [(j - 1, 1) for j in range(ref, 0, -1)]
    mind, sign = c.choice('step', steps)
    j = mind - 1 if sign < 0 else mind
    z, dm = c.array('z', n, lo=0.1, hi=0.4), c.array('dm', n, lo=-4.0, hi=4.0)
    mags, lups = c.array('mags', (n, nb), lo=15.0, hi=25.0), c.array('lups', (n, nb), lo=15.0, hi=25.0)
    b = c.array('b', nb, lo=1e-12, hi=1e-9)
    bn = b * 1e9
    cv, sv = c.array('cv', 3, lo=-1.0, hi=3.0), c.array('sv', 2, lo=-1.0, hi=1.0)
    m0, l0 = c.snapshot(mags), c.snapshot(lups)
    B = Basis(c, m, dict(m=MEAN, s=SLOPE))
    zt, st = ['z%02d' % i for i in range(nb - 1)], ['zs%02d' % i for i in range(nb - 1)]
    nodes = {}
    for i in range(nb - 1):
        nodes[zt[i]], nodes[st[i]] = np.array(MEAN), np.array(SLOPE)
    cal = c.bare(m.RedSequenceCalibrator, config=Ns(b=b), pars=Ns(_ndarray=nodes), ztag=zt, zstag=st, lupzp=22.5, bnmgy=bn)
    got = c.get(cal, '_compute_single_lupcorr')(j, cv, sv, Ns(z=z), dm, mags, lups, mind, sign)
    model = B(np.array(MEAN), cv)(z) + B(np.array(SLOPE), sv)(z) * dm
    known = mind + sign
    nm = m0[:, known] + sign * model
    nl = 2.5 * np.log10(1. / b[mind]) - np.arcsinh(0.5 * 10. ** ((nm - 22.5) / (-2.5)) / bn[mind]) / (0.4 * np.log(10.))
    want = (nl - l0[:, known]) * sign - (nm - m0[:, known]) * sign
    for i in c.each(n):
        c.prove('the new magnitude is that of the neighbouring band plus the model colour', c.close(mags[i, mind], nm[i]))
        c.prove('the asinh magnitude is that of the new magnitude', c.close(lups[i, mind], nl[i]))
        c.prove('the correction is asinh colour minus colour', c.close(got[i], want[i]))
        for q in range(nb):
            if q != mind:
                c.prove('the other bands are left alone', c.And(c.same(mags[i, q], m0[i, q]), c.same(lups[i, q], l0[i, q])))


@contract('R16', [RS + 'RedSequenceCalibrator._calc_offdiagonal_pars', RS + 'RedSequenceCalibrator._calc_volume_factor'], assumes=['distances of esutil'], trials=60)
def derived_tables(c):
    np = c.np
    m = c.mod('redmapper.calibration.redsequencecal')
    nc = c.choice('ncol', [1, 2, 3, 4])
    k, q = c.size('k', min=1, max=6), c.size('q', min=1, max=6)
    sg, amp = c.array('sg', (nc, nc, k), lo=0.0, hi=1.0), c.array('amp', (nc, nc, k), lo=0.0, hi=1.0)
    con = c.float('const', lo=-0.9, hi=0.9)
    s0, a0 = c.snapshot(sg), c.snapshot(amp)
    vz = c.array('vz', q, lo=0.05, hi=1.0)
    dl = c.func('Dl', 2, lo=1.0, hi=9000.0)
    p = Ns(sigma=sg, covmat_amp=amp, volume_factor_z=vz, volume_factor=c.array('vf', q))
    cal = c.bare(m.RedSequenceCalibrator, config=Ns(nmag=nc + 1, calib_covmat_constant=con, cosmo=Ns(Dl=dl)), pars=p)
    c.get(cal, '_calc_offdiagonal_pars')(None)
    for i in c.each(k):
        for a in range(nc):
            c.prove('the widths themselves are left alone', c.And(c.same(p.sigma[a, a, i], s0[a, a, i]), c.same(p.covmat_amp[a, a, i], a0[a, a, i])))
            for b in range(nc):
                if a != b:
                    c.prove('every covariance is the constant correlation times the two widths', c.And(c.close(p.sigma[a, b, i], con), c.close(p.covmat_amp[a, b, i], con * s0[a, a, i] * s0[b, b, i])))
    zref = c.float('zref', lo=0.05, hi=1.0)
    with np.errstate(all='ignore'):
        c.get(cal, '_calc_volume_factor')(zref)

    def vol(z):
        return dl(0.0, z + 0.01) / (1. + (z + 0.01)) - dl(0.0, z) / (1. + z)
    for i in c.each(q):
        c.assume(c.Not(vol(vz[i]) == 0.0))
        c.prove('the volume factor is the comoving depth at the reference over that at the redshift', c.close(p.volume_factor[i], vol(zref) / vol(vz[i])))


@contract('R16', [RS + 'RedSequenceCalibrator._compute_startvals'], kind='conc', bounded='up to 200 galaxies, 6 nodes', trials=60)
def start_values(c):
    import numpy as np
    m = c.mod('redmapper.calibration.redsequencecal')
    r = c.nrng
    nn, n = int(r.integers(2, 7)), int(r.integers(1, 200))
    nodes = np.sort(r.uniform(0.1, 0.6, nn))
    z, val, x = r.uniform(0.05, 0.65, n), r.uniform(-1, 2, n), r.uniform(-2, 2, n)
    if r.integers(2):
        z = z[z < 0.4]
        n = z.size
        val, x = val[:n], x[:n]
    err = r.uniform(0, 1, n) if r.integers(2) else None
    med, fit = bool(r.integers(2)), bool(r.integers(2))
    mc = int(r.choice([3, 5]))
    cal = c.bare(m.RedSequenceCalibrator)
    keep = [a.copy() for a in (nodes, z, val, x)]
    seen = []

    def lsq(f, p0, loss=None, args=(), **k):
        seen.append(([float(t) for t in f([0.3, -0.7], *args)], list(args[0]), list(args[1])))
        return Ns(x=np.array([len(seen) - 2.5, 10. * len(seen)]))
    c.patch(m, 'least_squares', lsq)
    bad, out = c.raises(RuntimeError, lambda: cal._compute_startvals(nodes, z, val, xval=x, err=err, median=med, fit=fit, mincomp=mc))
    c.prove('median or fit, one of them', bad == (med == fit))
    if bad:
        return
    edges = np.concatenate([[nodes[0]], (nodes[1:] + nodes[:-1]) / 2., [nodes[-1]]])
    a = b = 0.0
    e = 0.1
    q = 0
    for i in range(nn):
        u = (z > edges[i]) & (z < edges[i + 1])
        if u.sum() >= mc:
            if med:
                a = np.median(val[u])
                b = np.median(np.abs(val[u] - a))
            else:
                q += 1
                a, b = 10. * q, min(q - 2.5, 0.0)
                c.prove('the line is fitted to the galaxies around the node', len(seen) >= q and np.allclose(seen[q - 1][0], -0.7 + 0.3 * x[u] - val[u]))
            if err is not None:
                e = np.median(err[u])
        elif i == 0:
            a = b = 0.0
        c.prove('a node has the median (line) of its own galaxies, with too few the value before', abs(out[0][i] - a) < 1e-9 and abs(out[1][i] - b) < 1e-9)
        if not med and err is not None:
            c.prove('a node has the median error of its own galaxies', abs(out[2][i] - e) < 1e-9)
    c.prove('the data are left alone', all(np.array_equal(k, v) for k, v in zip(keep, (nodes, z, val, x))))


@contract('R16', [SR + 'run'], kind='conc', bounded='up to 80 galaxies of 4 bands', trials=25)
def red_training_galaxies(c):
    import numpy as np
    m = c.mod('redmapper.calibration.selectspecred')
    r = c.nrng
    n = int(r.integers(20, 80))
    ra = 10. + 0.01 * np.arange(n)
    g = recs(np, n, ra=ra, dec=r.uniform(-5, 5, n), mag=r.uniform(17, 20, (n, 4)).astype('f4'), mag_err=r.uniform(0.01, 0.3, (n, 4)).astype('f4'), refmag=r.uniform(17, 23, n).astype('f4'))
    order = r.permutation(n)
    spec = recs(np, n, ra=ra[order], dec=g['dec'][order], z=r.uniform(0.05, 0.65, n).astype('f4'), z_err=r.choice([0.0001, 0.01], n, p=[0.8, 0.2]).astype('f4'))
    zb = [0.35]
    modes = np.array([int(r.integers(0, 3)), int(r.integers(0, 3))])
    if modes[0] == modes[1]:
        modes[1] = (modes[1] + 1) % 3
    mean, scat = r.uniform(-1, 1, 3), r.uniform(0.1, 1.0, 3)
    G, C, E = m.GalaxyCatalog, m.Catalog, m.Entry
    cf = Ns(galfile='g.fit', specfile_train='s.fit', redgalfile='red.fit', redgalmodelfile='model.fit', nmag=4, border=0.3, d=Ns(nside=4, hpix=[3]), zrange_cushioned=np.array([0.1, 0.6]), calib_spec_max_zerr=0.001, limmag_ref=22.0,
            calib_pivotmag_nodesize=0.1, calib_colormem_colormodes=modes, calib_colormem_zbounds=np.array(zb), calib_redspec_nsig=1.5, bands=['g', 'r', 'i', 'z'], logger=Log(), zrange=[0.1, 0.6], plotpath='',
            redmapper_filename=lambda *a, **k: '/dev/null')
    c.patch(m, 'GalaxyCatalog', Cat(G, {'g.fit': g}))
    c.patch(m, 'Catalog', Cat(C, {'s.fit': spec}))
    st = {}
    c.patch(G, 'to_fits_file', written(G, st))
    c.patch(E, 'to_fits_file', written(E, st))
    now = [0]

    class Col(object):
        def __call__(self, b1, b2, z):
            now[0] = cf.bands.index(b1)
            c.prove('colours are of neighbouring bands', cf.bands.index(b2) == now[0] + 1)
            return np.zeros(np.size(z))

    class Ec(object):
        def __init__(self, *a):
            pass

        def fit(self, *a, **k):
            return [0.2, 0.8], [-0.5, 0.0], [0.2, 2.0]

    class Med(object):
        def __init__(self, nodes, z, v):
            self.n = nodes.size

        def fit(self, p0, **k):
            return np.full(self.n, 1.5)

    class Rs(object):
        def __init__(self, nodes, *a, **k):
            self.n, self.j = nodes.size, now[0]

        def fit(self, pm, ps, pc, fit_mean=False, fit_slope=False, fit_scatter=False, **k):
            out = []
            if fit_mean:
                out.append(np.full(self.n, mean[self.j]))
            if fit_scatter:
                out.append(np.full(self.n, scat[self.j]))
            return out
    c.patch(m, 'EcgmmFitter', Ec)
    c.patch(m, 'MedZFitter', Med)
    c.patch(m, 'RedSequenceFitter', Rs)
    import matplotlib
    matplotlib.use('Agg')
    s = c.bare(m.SelectSpecRedGalaxies, config=cf, redGalInitialColors=Col())
    z = np.zeros(n, 'f4')
    z[order] = spec['z']
    ok = np.zeros(n, bool)
    ok[order] = spec['z_err'] < 0.001
    ok &= (z > 0.1) & (z < 0.6) & (g['refmag'] < 22.0)
    col = g['mag'][:, :3] - g['mag'][:, 1:]
    ce = np.sqrt(g['mag_err'][:, :3] ** 2. + g['mag_err'][:, 1:] ** 2.)
    j = np.where(z < np.float32(zb[0]), modes[0], modes[1])
    i = np.arange(n)
    d = np.abs(col[i, j] - mean[j]) - 1.5 * np.sqrt(ce[i, j] ** 2. + scat[j] ** 2.)
    want = ok & (d < 0)
    if want.sum() < 5 or (np.abs(d[ok]) < 1e-5).any() or (np.abs(z - zb[0]) < 1e-6).any():
        return
    s.run()
    c.prove('galaxies and model are written where they are looked for', set(st) == {'red.fit', 'model.fit'})
    out = st['red.fit'][0]
    c.prove('the red galaxies are those with a good spectrum and the colour of their redshift, each once', sorted(out['ra'].tolist()) == sorted(ra[want].tolist()))
    idx = np.searchsorted(ra, out['ra'])
    c.prove('a red galaxy has its own redshift and photometry', np.array_equal(out['z'], z[idx]) and np.array_equal(out['mag'], g['mag'][idx]))
    mo = st['model.fit'][0][0] if st['model.fit'][0].ndim else st['model.fit'][0]
    for q in set(modes.tolist()):
        c.prove('the model holds the fitted colours', np.allclose(mo['meancol'][:, q], mean[q]) and np.allclose(mo['meancol_scatter'][:, q], scat[q]))


class Steps(object):
    """the steps of a calibration: each notes what it was given and leaves its output file"""
    def __init__(self, c, m, there, cf):
        self.c, self.m, self.there, self.cf, self.log = c, m, there, cf, []
        from contracts.r11_pipeline import Os
        c.patch(m, 'os', Os(there))
        self.made = []

    def need(self, *files):
        for f in files:
            self.c.prove('a step finds the files of the steps before it', bool(f is None or self.there.get(f, False)))

    def make(self, f, what):
        self.made.append((what, f))
        self.there[f] = True

    def cls(self, name, run):
        class S(object):
            def __init__(s, conf, *a, **k):
                s.config, s.a, s.k = conf, a, k

            def run(s, *a, **k):
                return run(s, *a, **k)
        self.c.patch(self.m, name, S)
        return S


def calconf(**k):
    cf = Ns(logger=Log(), d=Ns(outbase='base', nside=0, hpix=[]), outbase='base', outpath='/o/cal', hpix=[5], nside=2, galfile='g.fit', seedfile='seed0.fit', zmemfile='mem0.fit', galfile_pixelized=True, bkgfile='old', parfile='old',
            zredfile='old', wcenfile='old', zlambdafile='old', catfile='old', centerclass='CenteringBCG', firstpass_centerclass='First', percolation_minlambda=20.0, calib_minlambda=20.0, calib_zlambda_minlambda=20.0, zlambda_pivot=30.0)
    cf.__dict__.update(k)

    def fn(name, paths=None, filetype='fit', withversion=False, outbase=None):
        return os.path.join(*(['/o/cal'] + list(paths or ()) + ['%s_%s.%s' % (outbase or cf.d.outbase, name, filetype)]))
    cf.redmapper_filename = fn
    return cf


class FakeFits(object):
    def __init__(self, exts):
        self.exts = exts

    def FITS(self, f, *a, **k):
        self.f = f
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getitem__(self, k):
        x = [Ns(get_extname=lambda: '')] + [Ns(get_extname=lambda e=e: e) for e in self.exts]
        return x[k]


@contract('R16', [CA + 'RedmapperCalibrationIteration.run'], maxpaths=3000, assumes=['every step leaves the file it is named for', 'corrected redshifts by R14'], trials=150, budget=200)
def iteration(c):
    m = c.mod('redmapper.calibration.calibrate')
    it = c.choice('iteration', [1, 2, 3])
    pix = c.choice('pixelized', [True, False])
    b = '/o/cal/base_iter%d' % it
    cf = calconf(galfile_pixelized=pix)
    files = dict(pars=b + '_pars.fit', zred='/o/cal/base_iter%d/base_iter%d_zreds_master_table.fit' % (it, it) if pix else b + '_zreds.fit', bkg=b + '_bkg.fit', seeds=b + '_specseeds.fit', final=b + '_final.fit', wcen=b + '_wcen.fit',
                 zlambda=b + '_zlambda.fit', plot='plot.png')
    if it == 1:
        files.update(sub=b + '_sub_like.fit', rand=b + '_rand_final.fit', randsat=b + '_randsat_final.fit')
    order = ['pars', 'zred', 'bkg', 'seeds', 'final'] + (['sub', 'rand', 'randsat'] if it == 1 else []) + ['wcen', 'zlambda', 'plot']
    done = c.choice('done', list(range(len(order) + 1)))
    half = c.choice('half', ['no', 'CHISQBKG', 'ZREDBKG', 'none'])
    if half != 'no' and done != 2:
        return
    there = {'seed0.fit': True, 'mem0.fit': True, 'g.fit': True}
    for k in order[:done]:
        there[files[k]] = True
    if done > order.index('seeds'):
        there[b + '_specseeds_zreds.fit'] = True
    if done > order.index('final'):
        there[b + '_like.fit'] = True
    if half != 'no':
        there[files['bkg']] = True
    ff = FakeFits(dict(no=['CHISQBKG', 'ZREDBKG'], none=[]).get(half, [half]))
    c.patch(m, 'fitsio', ff)
    s = Steps(c, m, there, cf)
    ran = []

    def note(k):
        ran.append(k)

    def red(o):
        note('pars')
        c.prove('the red sequence is calibrated with the current members', o.a[:1] == ('mem0.fit',) or o.k.get('galfile') == 'mem0.fit')
        s.need('mem0.fit')
        s.make(cf.parfile, 'pars')

    def zpix(o):
        note('zred')
        s.need(cf.parfile)
        c.prove('redshifts are run in the calibration region', cf.d.hpix == [5] and cf.d.nside == 2 and pix)
        s.make(cf.zredfile, 'zred')

    def zcat(o, infile, outfile, **k):
        s.need(cf.parfile, infile)
        if infile == 'g.fit':
            note('zred')
            c.prove('galaxies without pixels are run in one file', not pix and outfile == cf.zredfile)
        else:
            note('seedz')
            c.prove('the seeds of this calibration get redshifts', infile == 'seed0.fit')
        s.make(outfile, 'zreds')

    def bkg(o, **k):
        note('CHISQBKG')
        s.need(cf.parfile)
        s.make(cf.bkgfile, 'bkg')

    def zbkg(o, **k):
        note('ZREDBKG')
        s.need(cf.parfile, cf.zredfile)
        s.make(cf.bkgfile, 'bkg')

    def run(o, specmode=False, keepz=False, consolidate_like=False, seedfile=None, cleaninput=False, check=True, percolation_only=False):
        s.need(cf.parfile, cf.bkgfile, cf.zredfile)
        f = cf.redmapper_filename('final')
        if not percolation_only:
            note('final')
            c.prove('clusters are found around the seeds of this iteration at their spectroscopic redshifts without correction', specmode and keepz and cleaninput and consolidate_like and seedfile == files['seeds'] and cf.zlambdafile is None)
            c.prove('centring follows the iteration', cf.centerclass == ('First' if it == 1 else 'CenteringWcenZred'))
            s.need(seedfile)
            s.make(cf.redmapper_filename('like'), 'like')
            s.make(f, 'final')
            return f, cf.redmapper_filename('like')
        w = {'CenteringRandom': 'rand', 'CenteringRandomSatellite': 'randsat'}.get(cf.centerclass, '?')
        note(w)
        c.prove('random centres are run on the selected likelihoods, at the redshifts given', it == 1 and cf.catfile == files['sub'] and keepz and cleaninput and f == files.get(w))
        s.need(cf.catfile)
        s.make(f, w)
        return f

    def wcen(o):
        note('wcen')
        a = dict(zip(('iteration', 'randcatfile', 'randsatcatfile'), o.a))
        a.update(o.k)
        c.prove('centring is calibrated on this iteration and its random centres', a.get('iteration') == it and a.get('randcatfile') == files.get('rand') and a.get('randsatcatfile') == files.get('randsat') and cf.catfile == files['final'])
        s.need(cf.catfile, a.get('randcatfile'), a.get('randsatcatfile'))
        s.make(cf.wcenfile, 'wcen')

    def zlam(o):
        note('zlambda')
        c.prove('corrections are calibrated on this iteration', cf.catfile == files['final'])
        s.need(cf.catfile)
        s.make(cf.zlambdafile, 'zlambda')
    s.cls('RedSequenceCalibrator', red)
    s.cls('ZredRunPixels', zpix)
    s.cls('ZredRunCatalog', zcat)
    s.cls('BackgroundGenerator', bkg)
    s.cls('ZredBackgroundGenerator', zbkg)
    s.cls('RedmapperRun', run)
    s.cls('WcenCalibrator', wcen)
    s.cls('ZLambdaCalibrator', zlam)
    vals = []
    cf.set_wcen_vals = lambda: (s.need(cf.wcenfile), vals.append(cf.wcenfile))
    plotted = []

    class Plot(object):
        def __init__(self, conf):
            self.filename = 'plot.png'

        def plot_values(self, *a, **k):
            note('plot')
            plotted.append(a)
    c.patch(m, 'SpecPlot', Plot)
    import numpy as rnp
    C, G = m.Catalog, m.GalaxyCatalog

    def mk(n, base):
        a = rnp.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'), ('Lambda', 'f4'), ('z_lambda', 'f4'), ('z_lambda_e', 'f4'), ('z_spec_init', 'f4'), ('zred', 'f4'), ('zred_e', 'f4'), ('zred_chisq', 'f4'), ('chisq', 'f4')])
        for i, k in enumerate(a.dtype.names):
            a[k] = base + i + 10. * rnp.arange(n)
        return a
    out = {}

    class File(object):
        """columns are told apart by where they come from"""
        def __init__(self, f):
            object.__setattr__(self, 'f', f)
            object.__setattr__(self, 'v', dict(zred=('zred', f), zred_e=('zred_e', f), zred_chisq=('zred_chisq', f), chisq=('chisq', f)))

        def __getattr__(self, k):
            if k in self.v:
                return self.v[k]
            raise StubMissing('catalogue column ' + k)

        def __setattr__(self, k, v):
            self.v[k] = v

        def to_fits_file(self, f, **k):
            out[f] = self
            s.make(f, 'file')

    class Clu(object):
        def __init__(self, n):
            self.Lambda, self.z_lambda, self.z_lambda_e = 30.0 + n, 0.2 + n, 0.01

    class Cl(object):
        def __init__(self, L=None):
            self.L = L if L is not None else [Clu(i) for i in range(3)]

        @property
        def Lambda(self):
            return rnp.array([x.Lambda for x in self.L])

        @property
        def z_lambda(self):
            return rnp.array([x.z_lambda for x in self.L])

        z_lambda_e = z_spec_init = z_lambda

        def __getitem__(self, k):
            return Cl([self.L[int(i)] for i in k])

        def __iter__(self):
            return iter(self.L)

    class Sub(object):
        def __init__(self, f):
            self.f = f
            self.Lambda, self.ra, self.dec = rnp.array([10.0, 30.0, 40.0]), rnp.array([1.0, 2.0, 3.0]), rnp.array([1.0, 2.0, 3.0])

        def match_many(self, ra, dec, rad, maxmatch=1):
            c.prove('likelihoods are matched to the rich clusters', self.f == b + '_like.fit' and list(ra) == [2.0, 3.0] and maxmatch == 1)
            return rnp.array([0, 1]), rnp.array([1, 0]), None

        def __getitem__(self, k):
            c.prove('the selected likelihoods are the matched ones', self.f == b + '_like.fit' and list(k) == [1, 0])
            return File(self.f)

    def ff1(f, ext=1, **k):
        s.need(f)
        return Cl() if f == files['final'] else File(f)

    def ff2(f, **k):
        s.need(f)
        return Sub(f)
    c.patch(m, 'Catalog', Ns(from_fits_file=ff1))
    c.patch(m, 'GalaxyCatalog', Ns(from_fits_file=ff2))
    fail = c.choice('negative', [False, True])

    class Corr(object):
        def __init__(self, parfile=None, **k):
            s.need(parfile)
            c.prove('redshifts are corrected with this iteration', parfile == files['zlambda'])

        def apply_correction(self, L, z, e, **k):
            return (-0.1 if fail and L == 31.0 else z + 0.01), e
    c.patch(m, 'ZlambdaCorrectionPar', Corr)
    run_ = c.bare(m.RedmapperCalibrationIteration, config=cf)
    bad, _ = c.raises(RuntimeError, lambda: run_.run(it))
    c.prove('negative corrected redshifts stop the calibration, nothing else', bad == (fail and 'plot' not in order[:done]))
    want = []
    for k in order[done:]:
        if k == 'bkg':
            want += [e for e in ('CHISQBKG', 'ZREDBKG') if e != half]
        elif k == 'seeds':
            want += ['seedz']
        elif k != 'sub':
            want += [k]
    if bad:
        want = [k for k in want if k != 'plot']
    c.prove('exactly the steps without output are run, in order', ran == want)
    if 'seeds' in order[done:]:
        sd = out.get(files['seeds'])
        zf = b + '_specseeds_zreds.fit'
        c.prove('the seeds carry the redshifts of this iteration', sd is not None and sd.f == 'seed0.fit' and sd.v['zred'] == ('zred', zf) and sd.v['zred_e'] == ('zred_e', zf) and sd.v['zred_chisq'] == ('chisq', zf))
    for k, f in (('parfile', 'pars'), ('zredfile', 'zred'), ('bkgfile', 'bkg'), ('wcenfile', 'wcen'), ('zlambdafile', 'zlambda'), ('catfile', 'final')):
        c.prove('the next step finds the files of this iteration', getattr(cf, k) == files[f] and there.get(files[f], False))
    c.prove('the centring values in use are those of this iteration', vals[-1:] == [files['wcen']])
    c.prove('the configured centring is put back', cf.centerclass == 'CenteringBCG' and cf.d.outbase == 'base_iter%d' % it)
    if plotted:
        c.prove('corrected redshifts are plotted', abs(plotted[0][1][0] - 0.21) < 1e-9)


@contract('R16', [CA + 'RedmapperCalibrator.run', CA + 'RedmapperCalibrationIterationFinal.run'], maxpaths=3000, assumes=['every step leaves the file it is named for', 'an iteration by the contract iteration', 'output_configuration by the contract run_configuration'],
          trials=150, budget=200)
def whole_calibration(c):
    m = c.mod('redmapper.calibration.calibrate')
    ni = c.choice('niter', [1, 2, 3])
    full = c.choice('out', ['bkg', 'zreds', 'nothing'])
    o = '/o/cal/base_'
    cf = calconf(calib_niter=ni, calib_pcut=0.3, calib_colormem_minlambda=10, galfile_area=123.0, area=None, redgalfile='old', redgalmodelfile='old', bkgfile_color='old', maskgalfile='old', seedfile=None, zmemfile=None)
    it_mem = lambda i: '/o/cal/base_iter%d_zmem_pgt0.30_lamgt20.fit' % i
    files = [('redgal', o + 'zspec_redgals.fit'), ('colbkg', o + 'bkg_color.fit'), ('maskgals', o + 'maskgals.fit'), ('colormem', o + 'iter0_colormem_pgt0.30_lamgt10.fit'), ('seeds', o + 'specseeds_train.fit')]
    order = [k for k, f in files]
    for i in range(1, ni + 1):
        order += ['it%d' % i, 'mem%d' % i]
        files += [('it%d' % i, 'iteration%d' % i), ('mem%d' % i, it_mem(i))]
        if i == 1:
            order += ['cut']
            files += [('cut', o + 'cut_specseeds.fit')]
    order += ['fullseeds', 'finalseeds', 'final', 'plot']
    fb = '/o/cal/base_iter%db_' % ni
    files += [('fullseeds', o + 'specseeds.fit'), ('finalseeds', fb + 'specseeds.fit'), ('final', fb + 'final.fit'), ('plot', 'plot.png')]
    F = dict(files)
    done = c.choice('done', list(range(len(order) + 1)))
    there = {}
    for k in order[:done]:
        there[F[k]] = True
    s = Steps(c, m, there, cf)
    ran = []

    def step(name, cls, needs, extra=None):
        def run(obj, *a, **k):
            ran.append(name)
            s.need(*needs())
            if extra:
                extra(obj, *a, **k)
            s.make(F[name], name)
        s.cls(cls, run)
    step('redgal', 'SelectSpecRedGalaxies', lambda: [], lambda *a: c.prove('red galaxies and their model are written where the next steps look', cf.redgalfile == F['redgal'] and cf.redgalmodelfile == o + 'zspec_redgals_model.fit'))
    step('colbkg', 'ColorBackgroundGenerator', lambda: [], lambda *a, **k: c.prove('the colour background is written where the next steps look', cf.bkgfile_color == F['colbkg']))

    def gm(f):
        ran.append('maskgals')
        c.prove('mask galaxies are written where the next steps look', f == F['maskgals'] == cf.maskgalfile)
        s.make(f, 'maskgals')
    c.patch(m, 'get_mask', lambda conf, include_maskgals=True: Ns(gen_maskgals=gm))

    class Cm(object):
        def __init__(self, conf):
            s.need(cf.redgalfile, cf.bkgfile_color, cf.maskgalfile)
            self.ran = False

        def run(self, **k):
            self.ran = True

        def output_training(self):
            ran.append('colormem')
            c.prove('the first members are written where the calibration looks', self.ran and cf.zmemfile == F['colormem'])
            s.make(cf.zmemfile, 'colormem')
    c.patch(m, 'RunColormem', Cm)

    class Seeds(object):
        def __init__(self, conf):
            pass

        def run(self, usetrain=True):
            ran.append('seeds' if usetrain else 'fullseeds')
            c.prove('training and full spectra give their own seeds', cf.seedfile == F['seeds' if usetrain else 'fullseeds'])
            s.make(cf.seedfile, 'seeds')
    c.patch(m, 'SelectSpecSeeds', Seeds)
    its = []

    class It(object):
        def __init__(self, conf):
            pass

        def run(self, i):
            its.append(i)
            c.prove('an iteration uses the members of the one before', cf.zmemfile == (F['colormem'] if i == 1 else F['mem%d' % (i - 1)]) and cf.d.outbase == 'base')
            c.prove('later iterations use the cut seeds', cf.seedfile == F['seeds' if i == 1 else 'cut'])
            s.need(cf.zmemfile, cf.seedfile)
            cf.d.outbase = 'base_iter%d' % i
            cf.catfile = '/o/cal/base_iter%d_final.fit' % i
            there[cf.catfile] = True
            if not there.get(F['it%d' % i]):
                ran.append('it%d' % i)
                s.make(F['it%d' % i], 'it')
    c.patch(m, 'RedmapperCalibrationIteration', It)

    class Prep(object):
        def __init__(self, conf):
            pass

        def run(self, mode):
            i = its[-1]
            ran.append('mem%d' % i)
            c.prove('members are prepared at the redshifts the clusters were seeded with, from the last iteration', mode == 'z_init' and cf.catfile == '/o/cal/base_iter%d_final.fit' % i and cf.zmemfile == F['mem%d' % i])
            s.make(cf.zmemfile, 'mem')
    c.patch(m, 'PrepMembers', Prep)
    import numpy as rnp

    class Cl(object):
        def __init__(self, f):
            self.f = f
            self.Lambda, self.ra, self.dec = rnp.array([10.0, 30.0, 40.0]), rnp.array([1.0, 2.0, 3.0]), rnp.array([1.0, 2.0, 3.0])

        def match_many(self, ra, dec, rad, maxmatch=1):
            c.prove('seeds are matched to the rich clusters', self.f == F['seeds'] and list(ra) == [2.0, 3.0] and maxmatch == 1)
            return rnp.array([0, 1]), rnp.array([1, 0]), None

        def to_fits_file(self, f, indices=None, **k):
            ran.append('cut')
            c.prove('the cut seeds are the matched ones', self.f == F['seeds'] and list(indices) == [1, 0] and f == F['cut'])
            s.make(f, 'cut')

    def ff2(f, **k):
        s.need(f)
        c.prove('the seeds are cut by the clusters of the first iteration', f in (F['seeds'], '/o/cal/base_iter1_final.fit'))
        return Cl(f)
    c.patch(m, 'GalaxyCatalog', Ns(from_fits_file=ff2))
    out = {}

    class File(object):
        def __init__(self, f):
            object.__setattr__(self, 'f', f)
            object.__setattr__(self, 'v', dict(zred=('zred', f), zred_e=('zred_e', f), zred_chisq=('zred_chisq', f), chisq=('chisq', f)))

        def __getattr__(self, k):
            if k in self.v:
                return self.v[k]
            raise StubMissing('catalogue column ' + k)

        def __setattr__(self, k, v):
            self.v[k] = v

        def to_fits_file(self, f, **k):
            out[f] = self
            s.make(f, 'file')

    class Fin(object):
        def __init__(self, i=None):
            self.Lambda = rnp.array([10.0, 30.0, 40.0]) if i is None else rnp.array([10.0, 30.0, 40.0])[i]
            self.z_spec_init = self.z_lambda = self.z_lambda_e = self.Lambda / 100.

        def __getitem__(self, i):
            return Fin(i)
    c.patch(m, 'Catalog', Ns(from_fits_file=lambda f, ext=1, **k: (s.need(f), Fin() if f == F['final'] else File(f))[1]))

    def zcat(obj, infile, outfile, **k):
        ran.append('finalseeds')
        c.prove('the full seeds get redshifts', infile == F['fullseeds'])
        s.need(infile)
        s.make(outfile, 'zreds')
    s.cls('ZredRunCatalog', zcat)

    def run(obj, specmode=False, keepz=False, seedfile=None, cleaninput=False, consolidate_like=False, check=True, percolation_only=False):
        ran.append('final')
        c.prove('the final run lets the redshifts go, from the full seeds', not specmode and not keepz and cleaninput and seedfile == F['finalseeds'] and not consolidate_like and not percolation_only)
        s.need(seedfile)
        f = cf.redmapper_filename('final')
        s.make(f, 'final')
        return f
    s.cls('RedmapperRun', run)
    plotted = []

    class Plot(object):
        def __init__(self, conf):
            self.filename = 'plot.png'

        def plot_values(self, a, b, e, **k):
            ran.append('plot')
            plotted.append(list(a))
    c.patch(m, 'SpecPlot', Plot)
    outcf = []

    def oc(self):
        outcf.append(cf.catfile)
        return dict(bkg=(True, True), zreds=(False, True), nothing=(False, False))[full]
    c.patch(m.RedmapperCalibrator, 'output_configuration', oc)

    class Bk(object):
        def __init__(self, conf):
            pass

        def run(self, deepmode=False, **k):
            ran.append('fullbkg')
            c.prove('the full background is that of the whole area', deepmode and list(cf.d.hpix) == [] and cf.d.nside == 0 and cf.area == 123.0)
    c.patch(m, 'BackgroundGenerator', Bk)
    cal = c.bare(m.RedmapperCalibrator, config=cf)
    cal.run()
    want = order[done:] + (['fullbkg'] if full == 'bkg' else [])
    c.prove('exactly the steps without output are run, in order', ran == want)
    c.prove('every iteration is gone through once, in order', its == list(range(1, ni + 1)))
    if 'finalseeds' in want:
        zf = fb + 'specseeds_zreds.fit'
        sd = out.get(F['finalseeds'])
        c.prove('the final seeds carry the last redshifts', sd is not None and sd.f == F['fullseeds'] and sd.v['zred'] == ('zred', zf) and sd.v['zred_e'] == ('zred_e', zf) and sd.v['zred_chisq'] == ('chisq', zf))
    if plotted:
        c.prove('the plot shows the rich clusters', len(plotted[0]) == 2)
    c.prove('the configuration is written once, after the final run', outcf == [F['final']])


@contract('R16', [CA + 'RedmapperCalibrator.output_configuration'], maxpaths=2000, trials=120)
def run_configuration(c):
    m = c.mod('redmapper.calibration.calibrate')
    name = c.choice('path', ['cal', 'cal_x', 'x_cal', 'other'])
    base = c.choice('base', ['b_cal', 'b'])
    nside = c.choice('nside', [0, 2])
    pix = c.choice('pixelized', [True, False])
    if nside > 0 and not pix:
        return              # a sub-region needs a pixelized catalogue
    fullb = c.choice('fullbkg', [True, False])
    ni = c.choice('niter', [1, 2, 3])
    there = c.choice('there', [True, False])
    made, wrote = [], []
    run = {'cal': 'run', 'cal_x': 'run_x', 'x_cal': 'x_run', 'other': 'other_run'}[name]

    class Path(object):
        def isdir(self, f):
            return there

        exists = isdir

        def __getattr__(self, k):
            return getattr(os.path, k)

    class O(object):
        path = Path()
        pardir = os.pardir

        def makedirs(self, f, **k):
            made.append(f)
    c.patch(m, 'os', O())
    cf = calconf(outbase=base, outpath='/data/' + name, nside=nside, hpix=[5] if nside else [], galfile='/g/dir/s_master_table.fit' if pix else '/g/dir/s.fit', specfile='/g/spec.fit', calib_niter=ni, galfile_pixelized=pix, calib_make_full_bkg=fullb,
                 bkgfile_color='rel/c_bkg.fit', maskgalfile='rel/mg.fit', redgalfile='rel/rg.fit', redgalmodelfile='rel/rgm.fit', area=3.0, border=0.3, seedfile='s', zmemfile='z', catfile='c')
    cf.output_yaml = lambda f: wrote.append((f, dict(cf.__dict__)))
    cal = c.bare(m.RedmapperCalibrator, config=cf)
    nb, nz = cal.output_configuration()
    rd = '/data/' + run
    c.prove('the run directory is made if it is not there', made == ([] if there else [rd]))
    c.prove('the configuration is written into the run directory', [w[0] for w in wrote] == [rd + '/run_default.yml'])
    v = wrote[0][1]
    it = '/data/%s/%s_iter%d' % (name, base, ni)
    c.prove('the run uses the model of the last iteration', v['parfile'] == it + '_pars.fit' and v['zlambdafile'] == it + '_zlambda.fit' and v['wcenfile'] == it + '_wcen.fit')
    c.prove('a calibration of the whole area hands over its redshifts and background', (nb, nz) == (nside > 0 and fullb, nside > 0))
    ob = base.replace('_cal', '_run') if '_cal' in base else base + '_run'
    c.prove('background of the last iteration unless a full one is made', v['bkgfile'] == (rd + '/%s_bkg.fit' % ob if nb else it + '_bkg.fit'))
    if nside == 0:
        w = '/data/%s/%s_iter%d/%s_iter%d_zreds_master_table.fit' % (name, base, ni, base, ni) if pix else it + '_zreds.fit'
    else:
        w = rd + '/zreds/s_zreds_master_table.fit'
    c.prove('the redshift file is the one the iteration wrote, or the one to be made for the run', v['zredfile'] == w)
    c.prove('the run is of the whole area without leftovers of the calibration', v['nside'] == 0 and list(v['hpix']) == [] and v['border'] == 0.0 and v['area'] is None and v['catfile'] is None and v['seedfile'] is None and v['zmemfile'] is None)
    c.prove('the run has its own name', v['outbase'] == ob)
    c.prove('the other files stay', v['galfile'] == cf.galfile and v['specfile'] == '/g/spec.fit' and all(v[k] == os.path.abspath('rel/' + f) for k, f in (('bkgfile_color', 'c_bkg.fit'), ('maskgalfile', 'mg.fit'), ('redgalfile', 'rg.fit'), ('redgalmodelfile', 'rgm.fit'))))
