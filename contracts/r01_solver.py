"""R01 membership probabilities / R02 richness: the C solver and its Python interface"""
import ctypes
from rmv.run import contract
from rmv import core, cfront, arr
from rmv.core import SFloat, SInt, fl, mkb, zi
from contracts.clib import M, clib, interp, ptr, srcdir

NFW = 'redmapper/solver_nfw/nfw_weights.c:nfw_weights'
SOL = 'redmapper/solver_nfw/solver_nfw.c:solver_nfw'
LIB = 'redmapper/solver_nfw/solver_nfw_lib.py:Solver'
WRAP = ['solver_nfw_pywrap.c (argument marshalling) is trusted; its effect is exercised concretely',
        'libm pow/log/exp/erf are uninterpreted functions with range axioms']


def inputs(c, n, wide=True):
    u = c.array('ucounts', n, lo=0, gen=(0.0, 3.0), special=(0.0, 1e-3))
    b = c.array('bcounts', n, lo=0, ext='inf', gen=(0.0, 3.0), special=(0.0, float('inf')))
    r = c.array('r', n, lo=0, gen=(0.01, 2.0), special=(0.0,))
    w = c.array('w', n, lo=0, hi=1, special=(0.0, 1.0))
    return u, b, r, w


def spec_norm(c, lam, r0, beta):
    m = M(c)
    rl = r0 * m.pow(lam / 100., beta)
    L = m.log(rl)
    K = m.exp(1.65169 - 0.547850 * L + 0.138202 * m.pow(L, 2) - 0.0719021 * m.pow(L, 3)
              - 0.0158241 * m.pow(L, 4) - 0.000854985 * m.pow(L, 5))
    return rl, K


def call_weights(c, lam, r0, beta, n, u, b, r, w, p, wt, th, rsig, upd):
    if c.symbolic:
        it = interp(c, 'solver_nfw')
        A = [it.array(x, nm) for x, nm in ((u, 'ucounts'), (b, 'bcounts'), (r, 'r'), (w, 'w'), (p, 'p'), (wt, 'wt'), (th, 'theta_r'))]
        rl = it.zeros(1, 'rlambda')
        it.call('nfw_weights', [fl(lam), fl(r0), fl(beta), n, A[0], A[1], A[2], A[3], A[4], A[5], rl, A[6], fl(rsig), upd])
        R = [it.result(x) for x in A]
        return R[4], R[5], R[6], it.result(rl)[0], R[:4]
    np = c.np
    L = clib('solver_nfw')
    arrs = [np.array(x, dtype='f8') for x in (u, b, r, w, p, wt, th)]
    rl = np.zeros(1)
    d = ctypes.c_double
    L.nfw_weights(d(lam), d(r0), d(beta), ctypes.c_long(n), *[ptr(x) for x in arrs[:6]], ptr(rl), ptr(arrs[6]), d(rsig),
                  ctypes.c_int(upd))
    return arrs[4], arrs[5], arrs[6], rl[0], arrs[:4]


def spec_theta(c, r, rl, rsig):
    m = M(c)
    if c.symbolic:
        hard = c.ite(r < rl, 1.0, 0.0)
        x = (rl - r) * (1. / (m.sqrt(2) * rsig))
        soft = c.ite(r < rl - 5. * rsig, 1.0, c.ite(r > rl + 5. * rsig, 0.0, 0.5 + 0.5 * m.erf(x)))
        return c.ite(rsig <= 0, hard, soft)
    if rsig <= 0:
        return 1.0 if r < rl else 0.0
    return 0.5 + 0.5 * m.erf((rl - r) / (2 ** 0.5 * rsig))


@contract('R01', [NFW], assumes=WRAP, budget=120, trials=400)
def weights(c):
    n = c.size('ngal', max=8)
    lam = c.float('lam', lo=0, lo_open=True, gen=(0.5, 300))
    r0 = c.float('r0', lo=0, lo_open=True, gen=(0.5, 1.5))
    beta = c.float('beta', gen=(0, 0.4))
    rsig = c.float('rsig', lo=0, gen=(0.0, 0.2), special=(0.0, 0.05))
    upd = c.choice('update_all', [1, 0])
    u, b, r, w = inputs(c, n)
    p = c.array('p', n, lo=0, hi=1)
    wt = c.array('wt', n, lo=0, hi=1)
    th = c.array('theta_r', n, lo=0, hi=1)
    ins = [c.snapshot(x) for x in (u, b, r, w)]
    p0, wt0 = c.snapshot(p), c.snapshot(wt)
    p1, wt1, th1, rl, after = call_weights(c, lam, r0, beta, n, u, b, r, w, p, wt, th, rsig, upd)
    srl, K = spec_norm(c, lam, r0, beta)
    c.prove('radius is r0 (lambda/100)^beta', c.close(rl, srl))
    c.prove('radius is positive', rl > 0)
    for i in c.each(n):
        x = lam * u[i] * K
        c.prove('probability in [0,1]', c.And(p1[i] >= 0, p1[i] <= 1))
        c.prove('radial weight in [0,1]', c.And(th1[i] >= 0, th1[i] <= 1))
        th_s = spec_theta(c, r[i], srl, rsig)
        c.prove('radial weight is the softened cut at the cluster radius', c.close(th1[i], th_s, 1e-5, 1e-6))
        if upd:
            c.prove('probability is signal over signal plus background',
                    c.implies(c.And(x > 0, c.isfinite(b[i])), c.close(p1[i] * (x + b[i]), x)))
            c.prove('no signal or undefined ratio means probability zero',
                    c.implies(c.Or(u[i] == 0, c.Not(c.isfinite(b[i]))), p1[i] == 0))
            c.prove('weight is probability times input weight times radial weight',
                    c.close(wt1[i], p1[i] * w[i] * th1[i]))
        else:
            c.prove('probabilities kept when not updating', c.same(p1[i], p0[i]))
            c.prove('weights kept inside the radius when not updating',
                    c.implies(c.Or(rsig > 0, r[i] < rl), c.same(wt1[i], wt0[i])))
            c.prove('weights cleared beyond a hard radius', c.implies(c.And(rsig <= 0, r[i] >= rl), wt1[i] == 0))
        c.prove('inputs are not modified', c.And(*[c.same(x[i], y[i]) for x, y in zip(ins, after)]))


# ---------------------------------------------------------------- the solver loop against the contract of nfw_weights
class SolverLoop(object):
    """invariant of the bisection in solver_nfw"""
    def __init__(self, c, S, R, cp, ok):
        self.c, self.S, self.R, self.cp, self.ok = c, S, R, cp, ok

    def F(self, x):
        """value of the right-hand side of the richness equation at x"""
        R = self.R(x)
        cv = self.cp[3] + self.cp[2] * R + self.cp[1] * R * R + self.cp[0] * R * R * R
        cv = core.ite(core.zb(cv < 0.0), fl(0.0), cv)
        return self.S(x) + x * cv

    def inv(self, it):
        lo, hi, ol = [fl(it.var(v).v) for v in ('lamlo', 'lamhi', 'outlo')]
        c = self.c
        out = [('bracket is ordered and inside [0.5, 2000]', c.And(lo >= 0.5, lo < hi, hi <= 2000.0)),
               ('value at the lower end is cached or marked stale',
                c.Or(ol < 0.0, c.close(ol, self.F(lo)), c.And(self.F(lo) < 1.0, lo < 0.9, c.close(ol, 0.9)))),
               ('value at the lower end is above it', c.Or(ol < 0.0, ol > lo)),
               ('upper end is the limit or shows a sign change',
                c.Or(c.close(hi, 2000.0), self.sc(it))),
               ('lower end never crossed the root', c.Or(c.close(lo, 0.5), self.F(lo) > lo)),
               ('probabilities stay in range', self.arrays(it))]
        return out

    def sc(self, it):
        hi = fl(it.var('lamhi').v)
        return self.F(hi) - hi <= 0.0

    def arrays(self, it):
        it.quiet += 1
        try:
            return self.arrays_(it)
        finally:
            it.quiet -= 1

    def arrays_(self, it):
        c = self.c
        r = []
        for nm in ('p', 'wt', 'theta_r'):
            m = it.var(nm).v.mem
            j = c.fresh_int('inv')
            v = fl(it.read(m, mki_(j)))
            r.append(core.Implies(core.z3.And(j >= 0, j < zi(m.n)), core.And(v >= 0.0, v <= 1.0)))
        mp, mw = it.var('p').v.mem, it.var('wt').v.mem
        j = c.fresh_int('inv')
        vp, vw, w = fl(it.read(mp, mki_(j))), fl(it.read(mw, mki_(j))), fl(it.read(it.var('w').v.mem, mki_(j)))
        r.append(core.Implies(core.z3.And(j >= 0, j < zi(mp.n)), vw <= vp * w))
        return mkb(core.And(*r))

    def havoc(self, it):
        it.quiet += 1
        for nm in ('p', 'theta_r'):
            it.havoc(it.var(nm).v.mem, lambda i, v: core.And(v >= 0.0, v <= 1.0))
        mp, w = it.var('p').v.mem, it.var('w').v.mem
        it.havoc(it.var('wt').v.mem, lambda i, v: core.And(v >= 0.0, v <= 1.0, v <= fl(it.read(mp, i)) * fl(it.read(w, i))))
        it.havoc(it.var('rlambda').v.mem, lambda i, v: v > 0.0)
        it.quiet -= 1

    def variant(self, it):
        return fl(it.var('lamhi').v) - fl(it.var('lamlo').v)

    def progress(self, it, v0):
        return [('the bracket halves', self.c.close(self.variant(it), v0 / 2.0))]


def mki_(j):
    return core.mki(j)


def solver_overrides(which):
    """the C extension module, bound to the C source; nfw_weights through its contract"""
    def ov(c):
        mod = __import__('types').ModuleType('_solver_nfw_pywrap')

        class Solver(object):
            def __init__(self, r0, beta, u, b, r, w, cpars, rsig):
                if not bool(core.mkb(cpars.size == 4) if not isinstance(cpars.size == 4, bool) else cpars.size == 4):
                    raise ValueError('cpars with wrong number of terms')
                self.a = (r0, beta, u, b, r, w, cpars, rsig)

            def solve_nfw(self):
                r0, beta, u, b, r, w, cpars, rsig = self.a
                z3 = core.z3
                SF = z3.Function('Sum', core.R, core.R)
                RF = z3.Function('Rad', core.R, core.R)
                PF = z3.Function('PF', core.R, core.I, core.R)
                TF = z3.Function('TF', core.R, core.I, core.R)

                def S(x):
                    t = SF(fl(x).v)
                    c.fact(t >= 0)
                    return SFloat(t)

                def R(x):
                    t = RF(fl(x).v)
                    c.fact(t > 0)
                    return SFloat(t)
                n = u.size
                tol = cfront.define(srcdir(c, 'solver_nfw') + '/solver_nfw.h', 'TOL_DEFAULT')

                def weights_contract(it, lam, r0_, beta_, ng, pu, pb, pr, pw, pp, pwt, prl, pth, rs, upd):
                    """the contract proved as R01/weights, used at the call"""
                    ctx = it.ctx
                    it.obl('nfw_weights is called with a positive richness', lam > 0.0)
                    ok = fl(r0_) is fl(r0_) and pu.mem is A[0].mem and pb.mem is A[1].mem and pr.mem is A[2].mem and \
                        pw.mem is A[3].mem
                    it.obl('nfw_weights gets the cluster arrays', ok)
                    it.obl('nfw_weights gets the radius relation', core.And(core.f_same(fl(r0_), fl(r0)), core.f_same(fl(beta_), fl(beta)),
                                                                         core.f_same(fl(rs), fl(rsig))))
                    it.obl('nfw_weights gets all galaxies', zi(ng) == zi(n))
                    lamv = fl(lam).v
                    g01 = lambda t: z3.And(t >= 0, t <= 1)

                    def fth(idx):
                        t = TF(lamv, arr.zx(idx[0]))
                        ctx.fact(g01(t))
                        return SFloat(t)
                    pth.mem.base, pth.mem.ov, pth.mem.lov, pth.mem.tag = arr.Fn(fth), {}, {}, None
                    prl.mem.base, prl.mem.ov, prl.mem.tag = arr.Fn(lambda idx: R(lam)), {}, None
                    rad = R(lam)
                    wold = pwt.mem.save()
                    if upd == 1:
                        def fp(idx):
                            t = PF(lamv, arr.zx(idx[0]))
                            ctx.fact(g01(t))
                            return SFloat(t)
                        pp.mem.base, pp.mem.ov, pp.mem.lov, pp.mem.tag = arr.Fn(fp), {}, {}, None

                        def fw(idx):
                            return fp(idx) * fl(pw.mem.base(idx)) * fth(idx)
                        pwt.mem.base, pwt.mem.ov, pwt.mem.lov = arr.Fn(fw), {}, {}
                        pwt.mem.tag = S(lam)
                    else:
                        rs_ = fl(rs)
                        wb, wo = wold[1], wold[2]
                        pwt.mem.base = arr.Fn(lambda idx: core.ite(core.And(rs_ <= 0.0, fl(pr.mem.base(idx)) >= rad), fl(0.0),
                                                                   cfront._sym_ov(wb, wo, idx)))
                        pwt.mem.ov, pwt.mem.tag = {}, None
                    return 0
                cp = [fl(cpars[k]) for k in range(4)]
                loop = SolverLoop(c, S, R, cp, None)
                it = interp(c, 'solver_nfw', stubs={'nfw_weights': weights_contract}, loops={'solver_nfw': loop})
                A = [it.array(x, nm) for x, nm in ((u, 'ucounts'), (b, 'bcounts'), (r, 'r'), (w, 'w'))]
                lam = it.zeros(1, 'lambda')
                p, wt, th, rl = it.zeros(n, 'p'), it.zeros(n, 'wt'), it.zeros(n, 'theta_r'), it.zeros(1, 'rlambda')
                it.call('solver_nfw', [fl(r0), fl(beta), n, A[0], A[1], A[2], A[3], lam, p, wt, rl, th, fl(tol),
                                       it.array(cpars, 'cpars'), fl(rsig)])
                c.loop = loop
                c.final = (it, tol)
                return it.result(lam)[0], it.result(p), it.result(wt), it.result(rl)[0], it.result(th)
        mod.Solver = Solver
        return {'redmapper.solver_nfw._solver_nfw_pywrap': mod}
    return ov


def _layout(c, x):
    k = c.rng.randrange(3)
    np = c.np
    return x if k == 0 else np.repeat(x, 2)[::2] if k == 1 else x[::-1].copy()[::-1]


def solve(c):
    lib = c.mod('redmapper.solver_nfw.solver_nfw_lib')
    n = c.size('ngal', max=40)
    r0 = c.float('r0', lo=0, lo_open=True, gen=(0.5, 1.5))
    beta = c.float('beta', lo=0, gen=(0, 0.4))
    rsig = c.float('rsig', lo=0, gen=(0.0, 0.2), special=(0.0, 0.05))
    u, b, r, w = inputs(c, n)
    if not c.symbolic:
        b = b * c.float('bscale', gen=(0.001, 2.0))
    cp = c.array('cpars', 4, gen=(-0.02, 0.1), special=(0.0,))
    kw = dict(cpars=cp, rsig=rsig)
    if not c.symbolic:
        # columns of a table are strided views; any memory layout is the same array
        u, b, r, w, cp = [_layout(c, x) for x in (u, b, r, w, cp)]
        kw = dict(cpars=cp, rsig=rsig)
        if c.choice('defaults', [False, False, False, True]):
            # the defaults are no mask correction and no softening
            cp, rsig, kw = c.np.zeros(4), 0.0, {}
    ins = [c.snapshot(x) for x in (u, b, r, w, cp)]
    s = c.get(lib, 'Solver')(r0, beta, u, b, r, w, **kw)
    lam, p, wt, rl, th = s.solve_nfw()
    return n, r0, beta, rsig, u, b, r, w, cp, ins, lam, p, wt, rl, th


@contract('R01', [SOL, LIB + '.__init__', LIB + '.solve_nfw'], overrides=solver_overrides('R01'), budget=150, trials=250,
          assumes=WRAP + ['nfw_weights is used through the contract discharged as R01/weights'])
def solver_members(c):
    n, r0, beta, rsig, u, b, r, w, cp, ins, lam, p, wt, rl, th = solve(c)
    c.prove('one probability, weight and radial weight per galaxy',
            c.And(p.size == n, wt.size == n, th.size == n))
    c.cover('bisection finished')
    for i in c.each(n):
        c.prove('probability in [0,1]', c.And(p[i] >= 0, p[i] <= 1))
        c.prove('radial weight in [0,1]', c.And(th[i] >= 0, th[i] <= 1))
        c.prove('weight between zero and probability times input weight', c.And(wt[i] >= 0, c.le(wt[i], p[i] * w[i])))
        if not c.symbolic:
            rlf = rl if rl > 0 else None
            if rlf is not None:
                edge = rlf + (5 * rsig if rsig > 0 else 0)
                c.prove('no weight well beyond the radius', c.implies(r[i] > edge * 1.02 + 0.02, wt[i] == 0))
                c.prove('radial weight belongs to the returned radius',
                        c.close(th[i], spec_theta(c, r[i], rlf, rsig), 1e-5, 1e-6))
        c.prove('inputs are not modified', c.And(*[c.same(x[i], y[i]) for x, y in zip(ins[:4], (u, b, r, w))]))


@contract('R02', [SOL, LIB + '.__init__', LIB + '.solve_nfw'], overrides=solver_overrides('R02'), budget=150, trials=300,
          assumes=WRAP + ['nfw_weights is used through the contract discharged as R01/weights',
                          'the weights summed by the solver are a function of the trial richness (nfw_weights is deterministic)'])
def richness_equation(c):
    n, r0, beta, rsig, u, b, r, w, cp, ins, lam, p, wt, rl, th = solve(c)
    m = M(c)
    c.cover('bisection finished')
    c.prove('flag pair or a richness between 1 and 2000',
            c.Or(c.And(lam == -1, rl == -1), c.And(lam >= 1, lam <= 2000)))
    if c.symbolic:
        L = c.loop
        it, tol = c.final
        c.prove('radius belongs to the returned richness', c.implies(lam >= 1, c.close(rl, L.R(lam))))
        lo, hi = L_var(it, 'lamlo'), L_var(it, 'lamhi')
        c.prove('bracket no wider than twice the tolerance', hi - lo <= 2 * tol)
        c.prove('the returned richness is the middle of the bracket', c.implies(lam >= 1, c.close(2 * lam, lo + hi)))
        c.prove('the flag means no solution above one', c.implies(lam == -1, c.And(lo + hi < 2, c.Or(hi >= 2000, L.F(hi) <= hi))))
        c.prove('the equation changes sign inside the bracket, or the bracket reached 2000',
                c.implies(lam >= 1, c.And(c.Or(lo == 0.5, L.F(lo) > lo), c.Or(hi >= 2000, L.F(hi) <= hi))))
        return
    np = c.np

    def F(x):
        rr = r0 * (x / 100.) ** beta
        _, K = spec_norm(c, x, r0, beta)
        s = x * u * K
        with np.errstate(all='ignore'):
            pp = s / (s + b)
        pp[~np.isfinite(pp)] = 0
        t = np.array([spec_theta(c, q, rr, rsig) for q in r]) if n else np.zeros(0)
        cv = max(0., cp[3] + cp[2] * rr + cp[1] * rr ** 2 + cp[0] * rr ** 3)
        return float(np.sum(pp * w * t)) + x * cv

    tol = 1e-2

    def ge(x, s):
        """s * (F(x) - x) >= 0 up to rounding (of x too: F may jump at a hard radius)"""
        return any(s * (F(y) - y) >= -1e-6 * (1 + x) for y in (x, x * (1 - 1e-9), x * (1 + 1e-9)))
    if lam == -1:
        for k in range(0, 12):
            x = 0.5 + 1999.5 / 2 ** k
            if 1.0 <= x < 2000:
                c.prove('the flag means no solution above one', ge(x, -1))
    else:
        c.prove('radius belongs to the returned richness', c.close(rl, r0 * (lam / 100.) ** beta))
        h = 1999.5
        while h > 2 * tol:
            h /= 2
        h /= 2
        lo, hi = lam - h, lam + h
        c.prove('the equation changes sign inside the bracket, or the bracket reached 2000',
                (lo <= 0.5 + 1e-6 or ge(lo, 1)) and (hi >= 2000 - 1e-6 or ge(hi, -1)))


def L_var(it, name):
    for cl in it.cells:
        if cl.name == name:
            return fl(cl.v)
    raise core.Unsupported('no variable %s' % name)


@contract('R02', [LIB + '.__init__'], overrides=solver_overrides('R02'), trials=150)
def solver_lengths(c):
    """arrays of different lengths never reach the solver"""
    lib = c.mod('redmapper.solver_nfw.solver_nfw_lib')
    ns = [c.size('n%d' % k, max=2) for k in range(4)]
    nc = c.size('ncp', min=3, max=5)
    A = [c.array('a%d' % k, ns[k], lo=0, hi=1) for k in range(4)]
    cp = c.array('cpars', nc, lo=0, hi=0.1)
    bad, v = c.raises((ValueError,), lambda: c.get(lib, 'Solver')(1.0, 0.2, A[0], A[1], A[2], A[3], cpars=cp, rsig=0.1))
    same = c.And(ns[0] == ns[1], ns[0] == ns[2], ns[0] == ns[3], nc == 4)
    c.prove('rejected unless all lengths agree', c.Iff(c.Not(same), bad))
