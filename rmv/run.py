"""Contracts, path exploration, obligation discharge, replay."""
import math
import os
import random
import subprocess
import tempfile
import time
import traceback
from fractions import Fraction

from . import core, arr, npshim, loader
from .core import (z3, SVal, SInt, SFloat, SBool, Unsupported, PathAbort, Budget, mki, mkb, zi, zb, fl, ite)
from .arr import SArr, SRec, SRow, DT, ix, zx, inrange

CONTRACTS = []


class Contract(object):
    def __init__(self, prop, name, fn, targets, trials, budget, assumes, bounded, maxpaths, overrides, transform, kind,
                 finding, ctime, sweep):
        self.finding = finding
        self.ctime = ctime
        self.sweep = sweep
        self.prop = prop
        self.name = name
        self.fn = fn
        self.targets = targets
        self.trials = trials
        self.budget = budget
        self.assumes = assumes
        self.bounded = bounded
        self.maxpaths = maxpaths
        self.overrides = overrides
        self.transform = transform
        self.kind = kind


def contract(prop, targets, name=None, trials=200, budget=60, assumes=(), bounded=None, maxpaths=400,
             overrides=None, transform=None, kind='py', finding=None, ctime=8, sweep=None):
    """kind 'py': verified symbolically and cross-checked concretely; 'conc': bounded, concrete only.
    finding: id in known_findings.jsonl, the contract demonstrates a recorded defect."""
    def d(fn):
        CONTRACTS.append(Contract(prop, name or fn.__name__, fn, list(targets), trials, budget, list(assumes),
                                  bounded, maxpaths, overrides, transform, kind, finding, ctime, sweep))
        return fn
    return d


# ------------------------------------------------------------------ default external specs
def default_overrides():
    sp = loader.StubMod('scipy.special')
    object.__setattr__(sp, 'erf', lambda a: arr.ew1(a, core.f_erf, 'f8'))
    object.__setattr__(sp, 'gamma', lambda a: _gamma(a))
    object.__setattr__(sp, 'gammaln', lambda a: SFloat(core.ruf('gammaln', fl(a).v)))
    sc = loader.StubMod('scipy')
    object.__setattr__(sc, 'special', sp)
    return {'scipy.special': sp, 'scipy': sc}


def _gamma(a):
    a = fl(a)
    n = a.const()
    if n is not None and not isinstance(n, float):
        return fl(math.gamma(float(n)))
    t = core.ruf('gamma', a.v)
    core.CTX.fact(z3.Implies(a.v > 0, t > 0))
    return SFloat(t)


# ------------------------------------------------------------------ symbolic side
class Run(object):
    """exploration of one contract"""
    def __init__(self, con, repo=None, budget=None):
        self.con = con
        self.repo = repo
        self.stats = core.Stats()
        self.slow = {}
        self.work = [[]]
        self.obl = {}           # name -> dict
        self.paths = 0
        self.completed = 0
        self.unsupported = []
        self.errors = []
        self.refuted = []       # (name, inputs)
        self.deadline = time.time() + (budget or con.budget)
        self.out_of_time = False
        self.modules = {}

    def push(self, prefix):
        self.work.append(prefix)

    def go(self):
        t0 = time.time()
        while self.work:
            if self.paths >= self.con.maxpaths:
                self.unsupported.append('more than %d paths' % self.con.maxpaths)
                break
            if time.time() > self.deadline:
                self.unsupported.append('time budget')
                break
            prefix = self.work.pop()
            self.paths += 1
            c = SymCtx(self, prefix)
            core.set_ctx(c)
            try:
                self.con.fn(c)
                if c.unsupported:
                    self.unsupported.append(c.unsupported)
                else:
                    self.completed += 1
            except PathAbort:
                if c.unsupported:
                    self.unsupported.append(c.unsupported)
            except Unsupported as e:
                self.unsupported.append(_where(e) + str(e))
            except Budget as e:
                self.unsupported.append(str(e))
                break
            except z3.Z3Exception as e:
                self.unsupported.append('z3: %s %s' % (e, _where(e)))
            except RecursionError as e:
                self.unsupported.append('recursion')
            except Exception as e:
                if c.unsupported:
                    self.unsupported.append(c.unsupported)
                elif outside_contract(e):
                    self.unsupported.append('outside the contract: %s' % e)
                else:
                    feas = None
                    try:
                        feas = c.feasible()
                    except BaseException:
                        pass
                    if feas:
                        self.errors.append((type(e).__name__ + ': ' + str(e), traceback.format_exc(limit=-6), c.model_inputs(None)))
            finally:
                del BARE[:]
                core.set_ctx(None)
                self.modules.update(c.loader.used)
        self.wall = time.time() - t0

    def obligation(self, c, name, cond, hint=None):
        o = self.obl.setdefault(name, {'proved': 0, 'refuted': 0, 'unknown': 0, 'backends': {}})
        cond = zb(cond) if not isinstance(cond, SArr) else zb(arr.red_all(cond))
        r, be, model = self.discharge(c, cond)
        if r == 'refuted' and c.tols and z3.is_expr(cond):
            cond2 = z3.substitute(cond, *c.tols)
            if not cond2.eq(cond):
                r2, be2, _ = self.discharge(c, cond2)
                if r2 == 'proved':
                    r, be, cond = r2, be2 + '-rounding', cond2
        if r == 'refuted' and z3.is_expr(cond) and opaque(cond, len(c.sums) > 1):
            # sums, medians and transcendental functions are only known by a few laws: a model of them need not
            # be a computation, so this is no refutation, but it is worth replaying
            self.refuted.append((name, c.model_inputs(model)))
            o['unknown'] += 1
            c.fact(cond)
            return
        if r == 'proved':
            o['proved'] += 1
            o['backends'][be] = o['backends'].get(be, 0) + 1
        elif r == 'refuted':
            o['refuted'] += 1
            if len(self.refuted) < 6:
                self.refuted.append((name, c.model_inputs(model)))
        else:
            o['unknown'] += 1
        if cond is not True and cond is not False:
            c.fact(cond)
        if r == 'refuted':
            # continue under the assumption that it held
            if cond is False or c._check() == z3.unsat:
                c.stop()

    def discharge(self, c, cond):
        if cond is True:
            return 'proved', 'simplify', None
        if cond is False:
            r = c._check()
            if r == z3.unsat:
                return 'proved', 'z3', None
            return ('refuted', 'z3', c.solver.model()) if r == z3.sat else ('unknown', '', None)
        s = z3.simplify(cond, som=True, som_blowup=100000)
        if z3.is_true(s):
            return 'proved', 'simplify', None
        neg = z3.Not(cond)
        if c.canon_first:
            fs = ackermann(list(c.assumed) + [neg])
            if fs is not None:
                sv = z3.Solver()
                sv.set('timeout', 800)
                sv.add(*fs)
                t = time.time()
                r = sv.check()
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t
                if r == z3.unsat:
                    return 'proved', 'z3-canonical', None
        t0 = time.time()
        c.solver.set('timeout', 2500)
        r = c._check(neg)
        c.solver.set('timeout', 1500)
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            m = c.solver.model()
            m = small_model(c, neg) or m
            return 'refuted', 'z3', m
        asserts = list(c.assumed) + [neg]
        sub = self.same_indices(c, cond)
        if sub:
            c2 = z3.substitute(cond, *sub)
            for e in (z3.simplify(c2, som=True, som_blowup=100000),):
                if z3.is_true(e):
                    return 'proved', 'z3-index+simplify', None
            neg = z3.Not(c2)
            asserts = [z3.substitute(f, *sub) for f in asserts[:-1]] + [a == b for a, b in sub] + [neg]
            r = c._check(neg)
            if r == z3.unsat:
                return 'proved', 'z3-index', None
        if any(nonlinear(f) for f in asserts):
            # products and quotients as opaque constants: unsat stays valid
            ab = Linear()
            sv = z3.Solver()
            sv.set('timeout', 3000)
            sv.add(*[ab.go(f) for f in asserts])
            t = time.time()
            r = sv.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.unsat:
                return 'proved', 'z3-linear', None
        for tac, to in (('canon', 4000), (None, 6000), ('ack', 8000)):
            if time.time() > self.deadline:
                return 'unknown', '', None
            try:
                if tac is None:
                    sv = z3.Solver()
                    fs = asserts
                else:
                    sv = z3.SolverFor('QF_NRA') if tac == 'ack' else z3.Solver()
                    fs = ackermann(asserts)
                    if fs is None:
                        continue
                sv.set('timeout', to)
                sv.add(*fs)
                t = time.time()
                r = sv.check()
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t
                if r == z3.unsat:
                    return 'proved', {None: 'z3', 'ack': 'z3-nlsat', 'canon': 'z3-canonical'}[tac], None
                if r == z3.sat and tac is None:
                    return 'refuted', 'z3', sv.model()
            except z3.Z3Exception:
                pass
        r = cvc5_check(asserts, 10)
        self.stats.queries += 1
        if r == 'unsat':
            return 'proved', 'cvc5', None
        return 'unknown', '', None

    def same_indices(self, c, cond):
        """integer terms that index the same input in the goal and are equal in every state here"""
        seen, todo, args = set(), [cond], {}
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            todo.extend(x.children())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() >= 1:
                for k in range(x.num_args()):
                    a = x.arg(k)
                    if a.sort() == core.I and not z3.is_int_value(a):
                        args.setdefault((x.decl().name(), k), {})[a.get_id()] = a
        sub, done, t0 = [], set(), time.time()
        for ts in args.values():
            reps = []
            for a in sorted(ts.values(), key=lambda e: len(e.sexpr())):
                if a.get_id() in done:
                    continue
                for b in reps:
                    if time.time() - t0 > 3:
                        return sub
                    c.solver.set('timeout', 250)
                    r = c._check(a != b)
                    c.solver.set('timeout', 1500)
                    if r == z3.unsat:
                        sub.append((a, b))
                        done.add(a.get_id())
                        break
                else:
                    reps.append(a)
        return sub

    def verdict(self):
        nob = sum(o['proved'] + o['refuted'] + o['unknown'] for k, o in self.obl.items() if not k.startswith('cover:'))
        npr = sum(o['proved'] for k, o in self.obl.items() if not k.startswith('cover:'))
        if any(o['refuted'] for o in self.obl.values()):
            return 'refuted', nob, npr
        if self.errors:
            return 'error', nob, npr
        if self.unsupported or any(o['unknown'] for o in self.obl.values()):
            return 'unknown', nob, npr
        if nob == 0 or self.completed == 0 or any(o['proved'] == 0 for o in self.obl.values()):
            return 'vacuous', nob, npr
        return 'proved', nob, npr


def opaque(e, sums):
    seen, todo = set(), [e]
    known = {n for n, _ in core._UF} - {'sqrt'}
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n.startswith(('median', 'cumsum')) or (sums and n.startswith('sum')) or n in known:
                return True
        todo.extend(x.children())
    return False


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if '/repo/' in fr.filename or 'redmapper' in fr.filename:
            return '%s:%d: ' % (os.path.basename(fr.filename), fr.lineno)
    return ''


def small_model(c, neg):
    lens = [zi(o) for (n, k, o, *_r) in c.inputs if k == 'size' and isinstance(o, SInt)]
    if not lens:
        return None
    for b in (2, 4, 8):
        if c._check(neg, *[l <= b for l in lens]) == z3.sat:
            return c.solver.model()
    return None


NL_CACHE = {}


def nonlinear(e):
    k = e.get_id()
    if k in NL_CACHE:
        return NL_CACHE[k][1]
    r = False
    if z3.is_app(e):
        kd = e.decl().kind()
        if kd == z3.Z3_OP_MUL:
            r = sum(1 for x in e.children() if not z3.is_rational_value(x) and not z3.is_int_value(x)) > 1
        elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER):
            x = e.children()[-1]
            r = not (z3.is_rational_value(x) or z3.is_int_value(x))
        r = r or any(nonlinear(x) for x in e.children())
    NL_CACHE[k] = (e, r)
    return r


class Linear(object):
    """nonlinear subterms replaced by constants, one per term"""
    def __init__(self):
        self.cache = {}
        self.atoms = {}

    def go(self, e):
        if not nonlinear(e):
            return e
        k = e.get_id()
        if k in self.cache:
            return self.cache[k][1]
        ch = [self.go(x) for x in e.children()]
        kd = e.decl().kind()
        if kd == z3.Z3_OP_ADD:
            r = z3.Sum(ch)
        elif kd == z3.Z3_OP_AND:
            r = z3.And(*ch)
        elif kd == z3.Z3_OP_OR:
            r = z3.Or(*ch)
        elif kd == z3.Z3_OP_MUL:
            r = z3.Product(ch)
        elif kd == z3.Z3_OP_SUB and len(ch) > 2:
            r = ch[0] - z3.Sum(ch[1:])
        else:
            r = e.decl()(*ch)
        if kd in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and nonlinear(r):
            s = z3.simplify(r)
            q = s.get_id()
            if q not in self.atoms:
                self.atoms[q] = (z3.Const('nl!%d' % len(self.atoms), s.sort()), s)
            r = self.atoms[q][0]
        self.cache[k] = (e, r)
        return r


class Canon(object):
    """applications of uninterpreted functions become constants, keyed by the polynomial normal form of
    their arguments (an over-approximation: unsat stays valid); ites inside arithmetic become constants
    with their two defining implications"""
    ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL)
    CMP = {z3.Z3_OP_LE: lambda d: d <= 0, z3.Z3_OP_LT: lambda d: d < 0, z3.Z3_OP_GE: lambda d: d >= 0,
           z3.Z3_OP_GT: lambda d: d > 0}

    def __init__(self):
        self.cache = {}
        self.atoms = {}
        self.side = []

    def atom(self, e):
        k = e.get_id()
        if k not in self.atoms:
            self.atoms[k] = (z3.Const('ack!%d' % len(self.atoms), e.sort()), e)
        return self.atoms[k][0]

    def go(self, e):
        k = e.get_id()
        if k in self.cache:
            return self.cache[k][1]
        r = self.go_(e)
        self.cache[k] = (e, r)
        return r

    def go_(self, e):
        if z3.is_quantifier(e):
            raise ValueError
        ch = [self.go(x) for x in e.children()]
        if not ch:
            return e
        kd = e.decl().kind()
        s = e.sort()
        num = s in (z3.RealSort(), z3.IntSort())
        if kd == z3.Z3_OP_UNINTERPRETED:
            if not (num or s == z3.BoolSort()):
                return self.atom(e.decl()(*ch))
            return self.atom(e.decl()(*ch))
        if kd == z3.Z3_OP_ITE and num:
            t = z3.simplify(z3.If(*ch))
            if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
                return t
            new = t.get_id() not in self.atoms
            a = self.atom(t)
            if new:
                c, x, y = t.children()
                self.side.append(z3.Implies(c, a == x))
                self.side.append(z3.Implies(z3.Not(c), a == y))
            return a
        if num and kd in self.ARITH:
            if kd == z3.Z3_OP_ADD:
                r = z3.Sum(ch)
            elif kd == z3.Z3_OP_MUL:
                r = z3.Product(ch)
            else:
                r = e.decl()(*ch)
            return z3.simplify(r, som=True, som_blowup=100000)
        if num:
            return e.decl()(*ch)
        if kd in self.CMP:
            return self.CMP[kd](z3.simplify(ch[0] - ch[1], som=True, som_blowup=100000))
        if kd == z3.Z3_OP_EQ and ch[0].sort() in (z3.RealSort(), z3.IntSort()):
            return z3.simplify(z3.simplify(ch[0] - ch[1], som=True, som_blowup=100000) == 0)
        if z3.is_and(e):
            return z3.And(*ch)
        if z3.is_or(e):
            return z3.Or(*ch)
        return e.decl()(*ch)


def ackermann(asserts):
    try:
        c = Canon()
        r = [c.go(a) for a in asserts]
        return r + c.side
    except (ValueError, z3.Z3Exception):
        return None


def cvc5_check(asserts, secs):
    s = z3.Solver()
    s.add(*asserts)
    txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        r = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), f.name], capture_output=True, text=True, timeout=secs + 5)
        return r.stdout.strip().split('\n')[0]
    except Exception:
        return 'unknown'
    finally:
        try:
            os.unlink(f.name)
        except Exception:
            pass


def _ev(model, e):
    v = model.eval(e, model_completion=True)
    n = core.znum(v)
    if n is not None:
        return n
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


class StubMissing(BaseException):
    pass


class Stub(object):
    """a collaborator supplied by a contract; asking it for anything the contract
    does not define is outside the contract (never a violation)"""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if core.CTX is not None:
            raise Unsupported('stub has no %s' % n)
        raise StubMissing(n)

    def __deepcopy__(self, memo):
        import copy
        o = Stub()
        memo[id(self)] = o
        o.__dict__.update({k: copy.deepcopy(v, memo) for k, v in self.__dict__.items()})
        return o

    def __copy__(self):
        o = Stub()
        o.__dict__.update(self.__dict__)
        return o


BARE = []       # objects built field by field by a contract


def outside_contract(e):
    """the code asked for something a contract-made collaborator does not provide"""
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        if o is not None and any(o is b for b in BARE):
            return True
        t = o if isinstance(o, type) else type(o)
        if getattr(t, '__module__', '').startswith('contracts'):
            return True
    if isinstance(e, TypeError) and ('<locals>' in str(e) or '<lambda>' in str(e)):
        return True
    return False


class Moved(BaseException):
    """the contract's entry point is not there any more"""


class Api(object):
    """shared contract vocabulary"""
    Stub = Stub

    def stub(self, **kw):
        return Stub(**kw)

    def bare(self, cls, **kw):
        """an instance without running __init__"""
        o = object.__new__(cls)
        o.__dict__.update(kw)
        BARE.append(o)
        return o

    def get(self, obj, name):
        """entry point lookup: a missing one means the code was reorganised"""
        try:
            return getattr(obj, name)
        except AttributeError:
            if self.symbolic:
                raise Unsupported('no entry point %s' % name)
            raise Moved(name)

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def sum_le(self, name, a, b):
        """lemma: a <= b elementwise (proved for an arbitrary element), so sum(a) <= sum(b)"""
        if not self.symbolic:
            return
        n = a.shape[0]
        for i in self.each(n):
            self.prove(name, a[i] <= b[i])
        self.fact(core.zb(self.np.sum(a) <= self.np.sum(b)))


class SymCtx(core.Ctx, Api):
    symbolic = True
    canon_first = False

    def __init__(self, run, prefix):
        core.Ctx.__init__(self, run, prefix)
        self.tols = []
        ov = default_overrides()
        if run.con.overrides:
            ov.update(run.con.overrides(self))
        self.loader = loader.Loader(run.repo, ov, run.con.transform)
        self.np = npshim.np

    # -- modules
    def mod(self, name):
        return self.loader.load(name)

    def patch(self, obj, attr, val):
        setattr(obj, attr, val)

    # -- inputs
    def _in(self, name, kind, obj, *rest):
        self.inputs.append((name, kind, obj) + rest)

    def size(self, name, max=6, min=0):
        v = z3.Int('in_' + name)
        self.fact(v >= min)
        s = SInt(v)
        self._in(name, 'size', s)
        return s

    def int(self, name, lo=None, hi=None, gen=None, **k):
        v = z3.Int('in_' + name)
        if lo is not None:
            self.fact(v >= zi(lo))
        if hi is not None:
            self.fact(v <= zi(hi))
        s = SInt(v)
        self._in(name, 'int', s)
        return s

    def _elem(self, v, lo, hi, lo_open, hi_open, guard=True):
        if lo is not None:
            self.fact(core.Implies(guard, v > fl(lo).v if lo_open else v >= fl(lo).v))
        if hi is not None:
            self.fact(core.Implies(guard, v < fl(hi).v if hi_open else v <= fl(hi).v))

    def float(self, name, lo=None, hi=None, gen=None, special=(), ext=False, lo_open=False, hi_open=False):
        v = z3.Real('in_' + name)
        self._elem(v, lo, hi, lo_open, hi_open)
        if ext:
            a, b, d = [z3.Bool('in_%s_%s' % (name, t)) for t in ('nan', 'pinf', 'ninf')]
            if ext == 'nan':
                b = d = False
            self.fact(core.Not(core.And(a, b)))
            self.fact(core.Not(core.And(a, d)))
            self.fact(core.Not(core.And(b, d)))
            s = SFloat(v, a, b, d)
        else:
            s = SFloat(v)
        self._in(name, 'float', s)
        return s

    def bool(self, name):
        s = SBool(z3.Bool('in_' + name))
        self._in(name, 'bool', s)
        return s

    def choice(self, name, opts):
        opts = list(opts)
        v = z3.Int('in_' + name)
        self.fact(z3.And(v >= 0, v < len(opts)))
        self._in(name, 'choice', SInt(v))
        for k in range(len(opts) - 1):
            if self.decide(v == k):
                return opts[k]
        return opts[-1]

    def array(self, name, shape, kind='f', lo=None, hi=None, gen=None, special=(), ext=False,
              lo_open=False, hi_open=False, dtype=None, sorted=None, elem=None):
        """sorted: 'inc' (strictly) or 'ndec' for 1-d arrays"""
        if not isinstance(shape, tuple):
            shape = (shape,)
        nd = len(shape)
        srt = {'f': core.R, 'i': core.I, 'b': z3.BoolSort(), 'U': core.OPQ}[kind]
        F = z3.Function('in_' + name, *([core.I] * nd + [srt]))
        E = None
        if ext:
            E = [z3.Function('in_%s_%s' % (name, t), *([core.I] * nd + [z3.BoolSort()])) for t in ('nan', 'pinf', 'ninf')]
        seen = {}

        def f(idx):
            a = [zx(i) for i in idx]
            t = F(*a)
            guard = core.And(*[inrange(i, n) for i, n in zip(idx, shape)])
            if kind == 'b':
                return SBool(t)
            if kind == 'U':
                return core.SOpq(t)
            if kind == 'i':
                if lo is not None:
                    self.fact(core.Implies(guard, t >= zi(lo)))
                if hi is not None:
                    self.fact(core.Implies(guard, t <= zi(hi)))
                v = mki(t)
            else:
                self._elem(t, lo, hi, lo_open, hi_open, guard)
                if E:
                    fl_ = [e(*a) for e in E]
                    if ext == 'nan':
                        fl_ = [fl_[0], False, False]
                    elif ext == 'inf':
                        fl_ = [False, fl_[1], False]
                    self.fact(core.Not(core.And(fl_[0], fl_[1])))
                    self.fact(core.Not(core.And(fl_[0], fl_[2])))
                    self.fact(core.Not(core.And(fl_[1], fl_[2])))
                    v = SFloat(t, *fl_)
                else:
                    v = SFloat(t)
            if sorted:
                k = str(idx[0])
                if k not in seen:
                    for (j, u) in list(seen.values()):
                        lt = (lambda x, y: x < y) if sorted == 'inc' else (lambda x, y: x <= y)
                        g2 = core.And(guard, inrange(j, shape[0]))
                        self.fact(core.Implies(core.And(g2, zx(j) < zx(idx[0])), lt(u, t)))
                        self.fact(core.Implies(core.And(g2, zx(idx[0]) < zx(j)), lt(t, u)))
                        if sorted == 'inc' and kind == 'i':
                            self.fact(core.Implies(core.And(g2, zx(j) < zx(idx[0])), t - u >= zx(idx[0]) - zx(j)))
                            self.fact(core.Implies(core.And(g2, zx(idx[0]) < zx(j)), u - t >= zx(j) - zx(idx[0])))
                    seen[k] = (idx[0], t)
            if elem is not None:
                self.fact(core.Implies(guard, elem(idx, v)))
            return v
        dt = dtype or {'f': 'f8', 'i': 'i8', 'b': '?', 'U': 'U'}[kind]
        a = SArr(shape, f, dt)
        self._in(name, 'array', a, shape, kind, arr.Fn(f))
        return a

    def rec(self, name, n, fields):
        """record array: fields = [(field, code, kwargs)] with optional 'shape' in kwargs"""
        d = DT([(f[0], f[1]) + ((f[2]['shape'],) if len(f) > 2 and f[2].get('shape') is not None else ()) for f in fields])
        fs = {}
        for f in fields:
            kw = dict(f[2]) if len(f) > 2 else {}
            sh = kw.pop('shape', None)
            sh = () if sh is None else (sh if isinstance(sh, tuple) else (sh,))
            fs[f[0]] = self.array(name + '.' + f[0], (n,) + sh, kind=arr.kind(f[1]).replace('u', 'i'), dtype=f[1], **kw)
        return SRec(n, d, fs)

    def func(self, name, nargs=1, lo=None, hi=None, ext=False, lo_open=False, hi_open=False):
        """an arbitrary real function (uninterpreted)"""
        F = z3.Function('fn_' + name, *([core.R] * (nargs + 1)))

        def one(*a):
            t = F(*[fl(x).v for x in a])
            self._elem(t, lo, hi, lo_open, hi_open)
            return SFloat(t)

        def g(*a):
            if any(isinstance(x, SArr) and x.ndim > 0 for x in a):
                sh = ()
                for x in a:
                    if isinstance(x, SArr):
                        sh = arr.bcast_shape(sh, x._shape)
                ss = [x.snap() if isinstance(x, SArr) else None for x in a]
                shs = [x._shape if isinstance(x, SArr) else None for x in a]
                return SArr(sh, lambda idx: one(*[s(arr.bidx(idx, t, sh)) if s is not None else x
                                                  for s, t, x in zip(ss, shs, a)]), 'f8')
            return one(*a)
        return g

    # -- logic
    def And(self, *a): return mkb(core.And(*a))
    def Or(self, *a): return mkb(core.Or(*a))
    def Not(self, a): return mkb(core.Not(a))
    def Iff(self, a, b): return mkb(core.Iff(a, b))
    def ite(self, c, a, b): return ite(zb(c), a, b)
    def np_erf(self, a): return core.f_erf(a)

    def each(self, n, name='ix'):
        i = self.fresh_int(name)
        self.fact(z3.And(i >= 0, i < zi(n)))
        if self._check() == z3.unsat:
            return
        self.reg_index(i, n)
        yield SInt(i)

    def close(self, a, b, rtol=1e-9, atol=1e-12):
        if a is None or b is None:
            return a is b
        if isinstance(a, SArr) and a.ndim == 0:
            a = a.at(())
        if isinstance(b, SArr) and b.ndim == 0:
            b = b.at(())
        if core.isint(a) and core.isint(b):
            return mkb(zi(a) == zi(b))
        a, b = fl(a), fl(b)
        x, y = core.znum(a.v), core.znum(b.v)
        if x is not None and y is not None:
            if core._noext(a) and core._noext(b) and abs(x - y) <= rtol * max(abs(x), abs(y)):
                return mkb(True)
        elif not a.v.eq(b.v):
            # only used when the exact equality fails: constants folded in floating point differ in the last digit
            t = core.rv(1e-9) * z3.If(b.v >= 0, b.v, -b.v)
            self.tols.append((a.v == b.v, z3.And(a.v - b.v <= t, b.v - a.v <= t)))
        return mkb(core.f_same(a, b))

    same = close

    def le(self, a, b, tol=1e-9):
        if a is None or b is None:
            return False
        return mkb(core.f_le(fl(a), fl(b)))

    def isfinite(self, a):
        return mkb(fl(a).fin()) if not core.isint(a) else True

    def isnan(self, a):
        return mkb(fl(a).nan) if not core.isint(a) else False

    def raises(self, excs, fn):
        try:
            v = fn()
        except excs as e:
            if self.unsupported:
                raise Unsupported(self.unsupported)
            return True, e
        return False, v

    def cover(self, name):
        self.run.obl.setdefault('cover:' + name, {'proved': 0, 'refuted': 0, 'unknown': 0, 'backends': {}})
        if self.feasible():
            o = self.run.obl['cover:' + name]
            o['proved'] += 1
            o['backends']['reach'] = o['backends'].get('reach', 0) + 1

    def snapshot(self, a):
        """value of an array now (immune to later writes)"""
        return a.copy()

    # -- counterexamples
    def model_inputs(self, model):
        if model is None:
            try:
                if self.solver.check() != z3.sat:
                    return None
                model = self.solver.model()
            except Exception:
                return None
        out = {}
        try:
            for inp in self.inputs:
                name, kind, obj = inp[:3]
                if kind in ('size', 'int', 'choice'):
                    v = _ev(model, obj.i)
                    out[name] = int(v) if v is not None else 0
                elif kind == 'float':
                    out[name] = _evf(model, obj)
                elif kind == 'bool':
                    out[name] = bool(_ev(model, obj.b))
                elif kind == 'array':
                    shape, akind, f = inp[3], inp[4], inp[5]
                    dims = []
                    for s in shape:
                        v = s if isinstance(s, int) else int(_ev(model, zi(s)) or 0)
                        dims.append(v)
                    tot = 1
                    for d in dims:
                        tot *= max(d, 0)
                    if tot > 4000:
                        out[name] = None
                        continue
                    vals = []
                    for flat in range(tot):
                        idx = arr.unravel(flat, tuple(dims))
                        v = f(idx)
                        if akind == 'f':
                            vals.append(_evf(model, fl(v)))
                        elif akind == 'b':
                            vals.append(bool(_ev(model, zb(v))) if not isinstance(v, bool) else v)
                        elif akind == 'U':
                            vals.append(str(model.eval(v.o, model_completion=True)))
                        else:
                            vals.append(int(_ev(model, zi(v)) or 0))
                    out[name] = {'shape': dims, 'vals': vals}
        except (z3.Z3Exception, Unsupported, PathAbort, Budget) as e:
            out['__error__'] = str(e)
        return out


def _evf(model, x):
    for flag, v in ((x.nan, math.nan), (x.pinf, math.inf), (x.ninf, -math.inf)):
        if flag is True or (flag is not False and _ev(model, flag) is True):
            return v
    r = _ev(model, x.v)
    try:
        return float(r) if r is not None else 0.0
    except OverflowError:
        return 1e300


# ------------------------------------------------------------------ concrete side
class Discard(BaseException):
    pass


class ContractFail(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, '%s %s' % (name, detail))
        self.obl = name


class ConcCtx(Api):
    """the same contract, run by CPython on the real code and real numpy"""
    symbolic = False

    def __init__(self, rng, values=None):
        import numpy
        self.np = numpy
        self.rng = rng
        self._nrng = None
        self.values = values or {}
        self.inputs = {}
        self.patches = []
        self.checked = 0

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def patch(self, obj, attr, val):
        self.patches.append((obj, attr, getattr(obj, attr, _NO)))
        setattr(obj, attr, val)

    def restore(self):
        for obj, attr, old in reversed(self.patches):
            if old is _NO:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self.patches = []

    def _rec(self, name, v):
        self.inputs[name] = v
        return v

    @property
    def nrng(self):
        """numpy generator (bounded checks only)"""
        if self._nrng is None:
            import numpy
            self._nrng = numpy.random.default_rng(self.rng.getrandbits(64))
        return self._nrng

    def size(self, name, max=6, min=0):
        v = self.values.get(name)
        if v is None or v < min or v > 300:
            v = self.rng.randint(min, max)
        return self._rec(name, int(v))

    def int(self, name, lo=None, hi=None, gen=None, **k):
        v = self.values.get(name)
        if v is None or (lo is not None and v < lo) or (hi is not None and v > hi) or abs(v) > 2**40:
            a, b = gen or (None, None)
            a = lo if a is None else a
            b = hi if b is None else b
            a = -5 if a is None else a
            b = a + 10 if b is None else b
            v = self.rng.randint(int(a), int(b))
        return self._rec(name, int(v))

    def _f(self, v, lo, hi, gen, special, ext, lo_open, hi_open):
        def ok(x):
            if x != x or x in (math.inf, -math.inf):
                if ext == 'nan':
                    return x != x
                if ext == 'inf':
                    return x == math.inf
                return bool(ext)
            if lo is not None and (x <= lo if lo_open else x < lo):
                return False
            if hi is not None and (x >= hi if hi_open else x > hi):
                return False
            return True
        if v is not None and ok(v):
            return float(v)
        r = self.rng
        for _ in range(50):
            u = r.random()
            if special and u < 0.3:
                x = float(r.choice(list(special)))
            elif ext and u < 0.4:
                x = r.choice([math.nan, math.inf, -math.inf])
            else:
                if gen is not None:
                    a, b = gen
                else:
                    a = lo if lo is not None else (-3.0 if hi is None else hi - 6.0)
                    b = hi if hi is not None else a + 6.0
                x = r.uniform(float(a), float(b))
                if r.random() < 0.1:
                    x = float(round(x))
            if ok(x):
                return x
        raise Discard()

    def float(self, name, lo=None, hi=None, gen=None, special=(), ext=False, lo_open=False, hi_open=False):
        return self._rec(name, self._f(self.values.get(name), lo, hi, gen, special, ext, lo_open, hi_open))

    def bool(self, name):
        v = self.values.get(name)
        if v is None:
            v = self.rng.random() < 0.5
        return self._rec(name, bool(v))

    def choice(self, name, opts):
        opts = list(opts)
        v = self.values.get(name)
        if v is None or not 0 <= v < len(opts):
            v = self.rng.randrange(len(opts))
        self._rec(name, v)
        return opts[v]

    def array(self, name, shape, kind='f', lo=None, hi=None, gen=None, special=(), ext=False,
              lo_open=False, hi_open=False, dtype=None, sorted=None, elem=None):
        np = self.np
        if not isinstance(shape, tuple):
            shape = (shape,)
        tot = 1
        for s in shape:
            tot *= int(s)
        given = self.values.get(name)
        gv = None
        if isinstance(given, dict) and list(given['shape']) == [int(s) for s in shape]:
            gv = given['vals']
        vals = []
        for k in range(tot):
            g = gv[k] if gv is not None else None
            if kind == 'f':
                vals.append(self._f(g, lo, hi, gen, special, ext, lo_open, hi_open))
            elif kind == 'i':
                if g is None or (lo is not None and g < lo) or (hi is not None and g > hi):
                    a, b = gen or (None, None)
                    a = lo if a is None else a
                    b = hi if b is None else b
                    a = -5 if a is None else a
                    b = a + 10 if b is None else b
                    if b < a:
                        raise Discard()
                    g = self.rng.choice(list(special)) if special and self.rng.random() < 0.3 else self.rng.randint(int(a), int(b))
                vals.append(int(g))
            elif kind == 'U':
                vals.append(str(g)[-8:] if g is not None else self.rng.choice(['alpha', 'beta', 'gamma', 'd']))
            else:
                vals.append(bool(g) if g is not None else self.rng.random() < 0.5)
        if sorted and kind in 'fi':
            vals = __builtins__['sorted'](vals) if isinstance(__builtins__, dict) else __import__('builtins').sorted(vals)
            if sorted == 'inc':
                for k in range(1, len(vals)):
                    if vals[k] <= vals[k - 1]:
                        vals[k] = vals[k - 1] + (1 if kind == 'i' else 0.001 + 0.1 * self.rng.random())
        dt = dtype or {'f': 'f8', 'i': 'i8', 'b': '?', 'U': 'U12'}[kind]
        a = np.array(vals, dtype=dt).reshape([int(s) for s in shape])
        if elem is not None:
            for idx in np.ndindex(*a.shape):
                if not elem(idx, a[idx]):
                    raise Discard()
        self._rec(name, {'shape': [int(s) for s in shape], 'vals': [x for x in a.ravel().tolist()]})
        return a

    def rec(self, name, n, fields):
        np = self.np
        dt = []
        for f in fields:
            sh = f[2].get('shape') if len(f) > 2 else None
            code = f[1] if f[1] != 'U' else 'U12'
            dt.append((f[0], code) + ((sh,) if sh is not None else ()))
        out = np.zeros(int(n), dtype=dt)
        for f in fields:
            kw = dict(f[2]) if len(f) > 2 else {}
            sh = kw.pop('shape', None)
            sh = () if sh is None else (sh if isinstance(sh, tuple) else (sh,))
            code = f[1] if f[1] != 'U' else 'U12'
            out[f[0]] = self.array(name + '.' + f[0], (n,) + sh, kind=arr.kind(f[1]).replace('u', 'i'), dtype=code, **kw)
        return out

    def func(self, name, nargs=1, lo=None, hi=None, ext=False, lo_open=False, hi_open=False):
        seed = self.rng.random()
        np = self.np
        if name + '#seed' in self.values:
            seed = self.values[name + '#seed']
        self._rec(name + '#seed', seed)

        def g(*a):
            t = 0.5 + 0.0 * sum(np.asarray(x, dtype='f8') for x in a)
            for k, x in enumerate(a):
                t = t + np.sin(np.asarray(x, dtype='f8') * (1.3 + k + seed) + seed * 7 * (k + 1))
            t = 0.5 + 0.49 * np.sin(t * 3)     # in (0.01, 0.99)
            if lo is not None and hi is not None:
                t = lo + (hi - lo) * t
            elif lo is not None:
                t = lo + 3 * t
            elif hi is not None:
                t = hi - 3 * t
            else:
                t = 6 * t - 3
            return t if np.ndim(t) else float(t)
        return g

    def assume(self, cond):
        if not bool(self.np.all(cond)):
            raise Discard()

    def prove(self, name, cond, hint=None):
        self.checked += 1
        if not bool(self.np.all(cond)):
            raise ContractFail(name)

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not bool(a)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def np_erf(self, a):
        import math
        return math.erf(a)

    def ite(self, c, a, b):
        return a if c else b

    def each(self, n, name='ix'):
        for i in range(int(n)):
            yield i

    def close(self, a, b, rtol=1e-6, atol=1e-9):
        if a is None or b is None:
            return a is b
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))

    same = close

    def le(self, a, b, tol=1e-9):
        if a is None or b is None:
            return False
        a, b = float(a), float(b)
        if a <= b:
            return True
        return a <= b + tol * max(1.0, abs(a), abs(b))

    def isfinite(self, a):
        return bool(self.np.isfinite(a))

    def isnan(self, a):
        return bool(self.np.isnan(a))

    def raises(self, excs, fn):
        try:
            v = fn()
        except excs as e:
            return True, e
        return False, v

    def cover(self, name):
        pass

    def snapshot(self, a):
        return self.np.array(a, copy=True)

    def fact(self, f):
        pass


class _No(object):
    pass


_NO = _No()


def run_concrete(con, rng, values=None):
    """-> ('ok'|'discard'|'fail'|'error', info, inputs)"""
    import numpy
    import warnings
    c = ConcCtx(rng, values)
    try:
        with numpy.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            con.fn(c)
        return ('ok' if c.checked else 'discard'), c.checked, c.inputs
    except Discard:
        return 'discard', None, c.inputs
    except ContractFail as e:
        return 'fail', e.obl, c.inputs
    except (StubMissing, Moved) as e:
        where = ' '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in traceback.extract_tb(e.__traceback__)[-4:])
        return 'moved', type(e).__name__ + ' ' + str(e) + ' at ' + where, c.inputs
    except Exception as e:
        if outside_contract(e):
            return 'moved', 'outside the contract: %s' % e, c.inputs
        fr = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if not any('/redmapper/' in f and '/rmv/' not in f for f in fr):
            return 'moved', traceback.format_exc(limit=-4), c.inputs
        return 'error', type(e).__name__ + ': ' + str(e) + '\n' + traceback.format_exc(limit=-5), c.inputs
    finally:
        del BARE[:]
        c.restore()
