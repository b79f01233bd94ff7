"""C front end: executes the clang AST of the real C functions on symbolic
values.  `if`s are merged, counted loops over a symbolic bound are verified to
be iteration-independent maps / sums, other loops need an invariant."""
import json
import os
import subprocess
import z3
from . import core, arr
from .core import SInt, SFloat, SBool, SVal, Unsupported, mki, mkb, zi, zb, fl, ite
from .arr import SArr, Fn, ix, zx

_ast_cache = {}


def parse_function(cfile, name):
    key = (cfile, name)
    if key in _ast_cache:
        return _ast_cache[key]
    r = subprocess.run(['clang', '-w', '-I' + os.path.dirname(cfile), '-Xclang', '-ast-dump=json', '-fsyntax-only',
                        '-Xclang', '-ast-dump-filter=' + name, cfile], capture_output=True, text=True)
    out = r.stdout
    dec = json.JSONDecoder()
    i = 0
    res = None
    while True:
        while i < len(out) and out[i].isspace():
            i += 1
        if i >= len(out):
            break
        o, i = dec.raw_decode(out, i)
        if o.get('kind') == 'FunctionDecl' and o.get('name') == name and \
                any(x.get('kind') == 'CompoundStmt' for x in o.get('inner', [])):
            res = o
    _ast_cache[key] = res
    return res


def define(header, name):
    """numeric value of a #define in a header"""
    for l in open(header):
        p = l.split()
        if len(p) >= 3 and p[0] == '#define' and p[1] == name:
            return float(p[2])
    raise Unsupported('no #define %s' % name)


class Unset(object):
    pass


UNSET = Unset()


class Cell(object):
    __slots__ = ('v', 'name')

    def __init__(self, name, v=UNSET):
        self.name = name
        self.v = v


class Ptr(object):
    def __init__(self, mem, off=0):
        self.mem = mem
        self.off = off


class CellPtr(object):
    def __init__(self, cell):
        self.cell = cell


class GMat(object):
    def __init__(self, mem, off, s1, s2, tda=None):
        self.mem, self.off, self.size1, self.size2 = mem, off, s1, s2
        self.tda = s2 if tda is None else tda

    @property
    def matrix(self):
        return self

    def idx(self, r, c):
        return self.off + r * self.tda + c


class GVec(object):
    def __init__(self, mem, off, n, stride=1):
        self.mem, self.off, self.size, self.stride = mem, off, n, stride

    @property
    def vector(self):
        return self

    def idx(self, k):
        return self.off + k * self.stride


class Opaque(object):
    """permutation, workspace"""
    def __init__(self, kind):
        self.kind = kind


class Mem(object):
    def __init__(self, interp, n, base, name):
        self.n = n
        self.base = base if isinstance(base, Fn) else Fn(base)
        self.ov = {}
        self.lov = {}
        self.name = name
        self.lu = {}
        self.tag = None
        self.freed = False
        self.born = interp.loopdepth
        interp.mems.append(self)

    def save(self):
        return (self.n, self.base, dict(self.ov), dict(self.lov), dict(self.lu), self.tag, self.freed)

    def load(self, s):
        self.n, self.base, self.ov, self.lov, self.lu, self.tag, self.freed = \
            s[0], s[1], dict(s[2]), dict(s[3]), dict(s[4]), s[5], s[6]


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class LoopFrame(object):
    def __init__(self, var, depth):
        self.var = var
        self.depth = depth
        self.reads = {}
        self.writes = {}


def conc(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SInt):
        s = z3.simplify(x.i)
        if z3.is_int_value(s):
            return s.as_long()
    if isinstance(x, z3.ExprRef):
        s = z3.simplify(x)
        if z3.is_int_value(s):
            return s.as_long()
    return None


class Interp(object):
    def __init__(self, ctx, files, stubs=None, loops=None, safety=True):
        """files: list of C files searched for function definitions"""
        self.ctx = ctx
        self.files = files
        self.stubs = dict(GSL)
        self.stubs.update(LIBC)
        if stubs:
            self.stubs.update(stubs)
        self.loops = loops or {}
        self.mems = []
        self.cells = []
        self.frames = []
        self.loop = None
        self.loopdepth = 0
        self.guards = []
        self.safety = safety
        self.quiet = 0
        self.calldepth = 0
        self.fname = '?'
        self.used = set()

    # ------------------------------------------------------------ state
    def snapshot(self):
        return ([(c, c.v) for c in self.cells], [(m, m.save()) for m in self.mems])

    def restore(self, s):
        for c, v in s[0]:
            c.v = v
        for m, v in s[1]:
            m.load(v)

    def merge(self, cond, a, b):
        """state := ite(cond, a, b)   (a, b snapshots; objects created in only one branch are kept)"""
        da = {id(c): v for c, v in a[0]}
        db = {id(c): v for c, v in b[0]}
        for c in self.cells:
            va, vb = da.get(id(c), UNSET), db.get(id(c), UNSET)
            c.v = self.mval(cond, va, vb)
        ma = {id(m): s for m, s in a[1]}
        mb = {id(m): s for m, s in b[1]}
        for m in self.mems:
            sa, sb = ma.get(id(m)), mb.get(id(m))
            if sa is None or sb is None:
                m.load(sa or sb)
                continue
            if sa[1] is sb[1]:
                base = sa[1]
            else:
                base = Fn(lambda idx, x=sa[1], y=sb[1]: ite(cond, x(idx), y(idx)))
            m.base = base
            m.ov = self.mdict(cond, sa[2], sb[2], lambda k: sa[1]((k,)), lambda k: sb[1]((k,)))

            def rd(s):
                def g(k):
                    return s[4 - 1].get(k) or self.pre_read(m, s, k)
                return g
            m.lov = self.mdict(cond, sa[3], sb[3], lambda k: self.pre_read(m, sa, k), lambda k: self.pre_read(m, sb, k))
            m.lu = {k: v for k, v in sa[4].items() if sb[4].get(k) is v}
            for k, v in list(sa[4].items()) + list(sb[4].items()):
                if k not in m.lu and (k not in sa[4] or k not in sb[4]):
                    m.lu[k] = v
            m.tag = sa[5] if sa[5] is sb[5] else self.mtag(cond, sa[5], sb[5])
            m.freed = sa[6] or sb[6]

    def mtag(self, cond, a, b):
        if a is None or b is None:
            return None
        return ite(cond, a, b)

    def pre_read(self, m, s, key):
        off = self.unkey(key)
        k = conc(off)
        if k is not None and k in s[2]:
            return s[2][k]
        return s[1]((ix(zx_(off)) if k is None else k,))

    def mdict(self, cond, da, db, fa, fb):
        out = {}
        for k in list(da) + [k for k in db if k not in da]:
            va = da[k] if k in da else None
            vb = db[k] if k in db else None
            if va is None:
                va = fa(k)
            if vb is None:
                vb = fb(k)
            out[k] = self.mval(cond, va, vb)
        return out

    def mval(self, cond, a, b):
        if a is b:
            return a
        if a is UNSET:
            return b
        if b is UNSET:
            return a
        if isinstance(a, (Ptr, GMat, GVec, CellPtr, Opaque)) or isinstance(b, (Ptr, GMat, GVec, CellPtr, Opaque)):
            if type(a) is type(b):
                if isinstance(a, Ptr) and a.mem is b.mem and conc(a.off) == conc(b.off) and conc(a.off) is not None:
                    return a
            return Conflict()
        return ite(cond, a, b)

    # ------------------------------------------------------------ memory
    def key(self, off):
        """offset as a*i+b of the innermost loop variable"""
        k = conc(off)
        if k is not None:
            return (0, k)
        v = self.loop.var
        e = zx_(off)
        b = z3.simplify(z3.substitute(e, (v, z3.IntVal(0))))
        s = z3.simplify(z3.substitute(e, (v, z3.IntVal(1))) - b)
        if z3.is_int_value(b) and z3.is_int_value(s):
            a_, b_ = s.as_long(), b.as_long()
            if z3.is_true(z3.simplify(e == a_ * v + b_)) or z3.is_int_value(z3.simplify(e - a_ * v)):
                return (a_, b_)
        return None

    def unkey(self, key):
        a, b = key
        if a == 0:
            return b
        return mki(z3.simplify(a * self.loop.var + b))

    def check_bounds(self, m, off):
        if m.freed:
            self.obl('no use after free', False)
        if not self.safety or self.quiet:
            return
        k = conc(off)
        if k is not None and isinstance(m.n, int):
            if not 0 <= k < m.n:
                self.obl('index inside the array', False)
            return
        self.obl('index inside the array', z3.And(zx_(off) >= 0, zx_(off) < zi(m.n)))

    def obl(self, what, cond):
        g = core.And(*self.guards) if self.guards else True
        c = core.Implies(g, cond)
        if c is True:
            return
        self.ctx.prove('C %s: %s' % (self.fname, what), mkb(c))

    def read(self, m, off):
        self.check_bounds(m, off)
        if self.loop is not None and m.born < self.loopdepth:
            key = self.key(off)
            if key is not None and key in m.lov:
                v = m.lov[key]
                if v is UNSET:
                    raise Unsupported('read of uninitialised memory')
                return v
            self.loop.reads.setdefault(id(m), (m, set()))[1].add(key)
        k = conc(off)
        if k is not None and k in m.ov:
            return m.ov[k]
        return m.base((k if k is not None else ix(zx_(off)),))

    def write(self, m, off, v):
        self.check_bounds(m, off)
        m.tag = None
        if self.loop is not None and m.born < self.loopdepth:
            key = self.key(off)
            if key is None:
                raise Unsupported('write at a non-linear offset in a loop')
            m.lov[key] = v
            self.loop.writes.setdefault(id(m), (m, set()))[1].add(key)
            return
        k = conc(off)
        if k is not None:
            m.ov[k] = v
            return
        old, oov = m.base, dict(m.ov)
        e = zx_(off)

        def f(idx):
            o = oov[idx[0]] if isinstance(idx[0], int) and idx[0] in oov else _sym_ov(old, oov, idx)
            return ite(zb(z3.simplify(zx(idx[0]) == e)), v, o)
        m.base = Fn(f)
        m.ov = {}

    def havoc(self, m, elem=None, name=None):
        """arbitrary contents; elem(i, v) is a fact about every element"""
        nm = self.ctx.fresh_name('hv_' + (name or m.name))
        F = z3.Function(nm, core.I, core.R)

        def f(idx):
            t = F(zx(idx[0]))
            v = SFloat(t)
            if elem is not None:
                self.ctx.fact(core.Implies(z3.And(zx(idx[0]) >= 0, zx(idx[0]) < zi(m.n)), elem(mki(zx(idx[0])), v)))
            return v
        m.base = Fn(f)
        m.ov = {}
        m.lov = {}
        m.lu = {}
        m.tag = None

    # ------------------------------------------------------------ arrays in/out
    def array(self, a, name):
        a = a.ravel() if a.ndim != 1 else a
        s = a.snap()
        m = Mem(self, a._shape[0], lambda idx: fl(s(idx)), name)
        return Ptr(m, 0)

    def result(self, ptr):
        m = ptr.mem
        base, ov = m.base, dict(m.ov)
        return SArr((m.n if isinstance(m.n, int) else m.n,), lambda idx: _sym_ov(base, ov, idx), 'f8')

    def zeros(self, n, name):
        return Ptr(Mem(self, n, lambda idx: SFloat(z3.RealVal(0)), name), 0)

    # ------------------------------------------------------------ calls
    def call(self, name, args):
        if name in self.stubs:
            return self.stubs[name](self, *args)
        for f in self.files:
            fn = parse_function(f, name)
            if fn is not None:
                break
        else:
            raise Unsupported('C function %s has no definition and no contract' % name)
        self.used.add('%s:%s' % (os.path.basename(f), name))
        if self.calldepth > 12:
            raise Unsupported('C recursion')
        env = {}
        params = [p for p in fn['inner'] if p['kind'] == 'ParmVarDecl']
        body = [p for p in fn['inner'] if p['kind'] == 'CompoundStmt'][0]
        for p, a in zip(params, args):
            env[p['id']] = self.cell(p.get('name', '?'), a)
        old = self.frames, self.fname
        self.frames = self.frames + [env]
        self.fname = name
        self.calldepth += 1
        try:
            self.stmt(body)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.frames, self.fname = old
            self.calldepth -= 1

    def cell(self, name, v=UNSET):
        c = Cell(name, v)
        self.cells.append(c)
        return c

    def var(self, name):
        """current value of a named local of the running function (for invariants)"""
        for c in reversed(list(self.frames[-1].values())):
            if c.name == name:
                return c
        raise Unsupported('no variable %s' % name)

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n.get('kind')
        f = getattr(self, 's_' + k, None) if k else None
        if f is not None:
            return f(n)
        if k is None or k == 'NullStmt':
            return
        self.expr(n)

    def s_CompoundStmt(self, n):
        for x in n.get('inner', []):
            self.stmt(x)

    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            if d['kind'] != 'VarDecl':
                continue
            qt = d['type'].get('desugaredQualType', d['type']['qualType'])
            init = [x for x in d.get('inner', []) if 'kind' in x]
            if '[' in qt:
                cnt = int(qt[qt.index('[') + 1:qt.index(']')])
                p = self.fresh_mem(cnt, d['name'])
                if init:
                    for j, x in enumerate(init[0].get('inner', [])):
                        self.write(p.mem, j, self.coerce(self.expr(x), qt))
                self.frames[-1][d['id']] = self.cell(d['name'], p)
                continue
            v = UNSET
            if init:
                v = self.coerce(self.expr(init[-1]), qt)
            self.frames[-1][d['id']] = self.cell(d['name'], v)

    def fresh_mem(self, n, name):
        nm = self.ctx.fresh_name('mem_' + name)
        F = z3.Function(nm, core.I, core.R)
        return Ptr(Mem(self, n, lambda idx: SFloat(F(zx(idx[0]))), name), 0)

    def s_ReturnStmt(self, n):
        inner = n.get('inner', [])
        raise ReturnEx(self.expr(inner[0]) if inner else None)

    def s_BreakStmt(self, n):
        raise BreakEx()

    def s_ContinueStmt(self, n):
        raise ContinueEx()

    def s_IfStmt(self, n):
        inner = n['inner']
        cond = self.truth(self.expr(inner[0]))
        then = inner[1]
        els = inner[2] if len(inner) > 2 else None
        if isinstance(cond, bool):
            if cond:
                self.stmt(then)
            elif els is not None:
                self.stmt(els)
            return
        if has_kind(n, ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'WhileStmt')):
            if self.loop is not None:
                raise Unsupported('jump in a symbolic loop')
            if self.ctx.decide(cond):
                self.stmt(then)
            elif els is not None:
                self.stmt(els)
            return
        pre = self.snapshot()
        self.guards.append(cond)
        self.stmt(then)
        self.guards.pop()
        a = self.snapshot()
        self.restore(pre)
        if els is not None:
            self.guards.append(core.Not(cond))
            self.stmt(els)
            self.guards.pop()
        b = self.snapshot()
        self.merge(cond, a, b)

    def s_ForStmt(self, n):
        init, _cv, cond, inc, body = n['inner']
        if init.get('kind'):
            self.stmt(init)
        # concrete bounds: unroll
        for it in range(4000):
            if not cond.get('kind'):
                raise Unsupported('for without condition')
            c = self.truth(self.expr(cond))
            if not isinstance(c, bool):
                if it == 0:
                    return self.symfor(n, cond, inc, body)
                raise Unsupported('loop bound becomes symbolic')
            if not c:
                return
            try:
                self.stmt(body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if inc.get('kind'):
                self.expr(inc)
        raise Unsupported('loop too long')

    def symfor(self, n, cond, inc, body):
        """for (v = lo; v < hi; v++) body, with a symbolic bound"""
        cell, hi = self.loopbound(cond)
        if not is_incr(inc, cell, self):
            raise Unsupported('loop increment')
        lo = cell.v
        ctx = self.ctx
        if self.loop is not None:
            raise Unsupported('nested symbolic loops')
        if has_kind(body, ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'WhileStmt')):
            raise Unsupported('jump in a symbolic loop')
        pre = self.snapshot()
        assigned = [c for c in self.assigned_cells(body) if c is not cell]
        if cell in self.assigned_cells(body):
            raise Unsupported('loop variable assigned in the body')

        def run(i, check):
            """execute the body once at index i from the pre state -> (frame, cell values, mems)"""
            self.restore(pre)
            fr = LoopFrame(i, self.loopdepth)
            self.loop = fr
            self.loopdepth += 1
            olds = {}
            for m in self.mems:
                m.lov = {}
            for c in assigned:
                s = z3.Real('acc!%s' % c.name) if True else None
                olds[id(c)] = s
                c.v = SFloat(s) if not isinstance(c.v, (Ptr, GMat, GVec, Opaque)) else c.v
            cell.v = mki(i)
            g = z3.And(i >= zi(lo), i < zi(hi))
            self.guards.append(g)
            q = self.quiet
            if not check:
                self.quiet += 1
            try:
                self.stmt(body)
                vals = {id(c): c.v for c in assigned}
                lov = {id(m): dict(m.lov) for m in self.mems}
            finally:
                self.quiet = q
                self.guards.pop()
                self.loop = None
                self.loopdepth -= 1
            return fr, olds, vals, lov
        i = ctx.fresh_int('ci')
        fr, olds, vals, lov = run(i, True)
        after = self.snapshot()
        # --- iteration independence
        for mid, (m, ws) in fr.writes.items():
            rs = fr.reads.get(mid, (m, set()))[1]
            for (a, b) in ws:
                for k2 in list(ws) + list(rs):
                    if k2 is None:
                        raise Unsupported('array %s is written and read at unrelated indices in a loop' % m.name)
                    a2, b2 = k2
                    if a != a2:
                        raise Unsupported('array %s accessed with different strides in a loop' % m.name)
                    if a == 0:
                        if b == b2 and k2 in rs:
                            raise Unsupported('loop-carried value in %s' % m.name)
                    elif b != b2 and (b2 - b) % a == 0:
                        raise Unsupported('loop-carried value in %s' % m.name)
        syms = {z3.Real('acc!%s' % c.name).get_id(): c for c in assigned}
        for mid, d in lov.items():
            for v in d.values():
                if mentions(v, syms):
                    raise Unsupported('loop-carried scalar')
        sums = {}
        for c in assigned:
            v = vals[id(c)]
            if not isinstance(v, (SVal, int, float)):
                continue
            ms = mentions(v, syms)
            if not ms:
                continue
            if ms != {id(c)}:
                raise Unsupported('loop-carried scalar %s' % c.name)
            if not isinstance(v, SFloat):
                continue        # only feeds itself: arbitrary after the loop
            e = z3.simplify(v.v - olds[id(c)], som=True, som_blowup=100000)
            if mentions(SFloat(e, v.nan, v.pinf, v.ninf), syms):
                continue        # only feeds itself: arbitrary after the loop
            sums[id(c)] = SFloat(e, v.nan, v.pinf, v.ninf)
        # --- state after the loop
        memo = {}
        frames0, fname0 = [dict(f) for f in self.frames], self.fname

        def at(idx):
            key = zx(idx).get_id() if not isinstance(idx, int) else idx
            if key not in memo:
                cur = self.snapshot()
                fg, ff, fn, ld, lp = self.guards, self.frames, self.fname, self.loopdepth, self.loop
                self.guards, self.frames, self.fname, self.loopdepth, self.loop = [], [dict(f) for f in frames0], fname0, 0, None
                try:
                    memo[key] = (idx,) + run(zx(idx), False)
                finally:
                    self.restore(cur)
                    self.guards, self.frames, self.fname, self.loopdepth, self.loop = fg, ff, fn, ld, lp
            return memo[key]
        self.restore(pre)
        premems = {id(m): s for m, s in pre[1]}
        for mid, (m, ws) in fr.writes.items():
            base, ov = m.base, dict(m.ov)
            if all(a == 1 for a, b in ws) and len(ws) == 1:
                (a, b), = ws

                def f(idx, m=m, b=b, base=base, ov=ov):
                    j = idx[0]
                    q = arr.ixsub(j, b) if b else j
                    guard = core.And(mkb(zx(q) >= zi(lo)), mkb(zx(q) < zi(hi)))
                    old = _sym_ov(base, ov, idx)
                    if guard is False:
                        return old
                    r = at(q)
                    new = r[4][id(m)].get((1, b))
                    if new is None:
                        # concrete index: the key collapses to a constant
                        new = r[4][id(m)].get((0, conc(zx(q)) + b)) if conc(zx(q)) is not None else None
                    if new is None:
                        new = r[4][id(m)].get(self_key(r[1], zx(q) + b))
                    if new is None:
                        raise Unsupported('loop result of %s' % m.name)
                    return ite(guard, new, old)
                m.base = Fn(f)
                m.ov = {}
                m.tag = None
            else:
                self.havoc(m)
        for c in assigned:
            if id(c) in sums:
                e = sums[id(c)]
                tag = self.sumtag(e, i, lo, hi, fr)
                if tag is not None:
                    c.v = fl(c.v) + tag
                    continue
                n = mki(z3.simplify(zi(hi) - zi(lo)))

                def g(idx, c=c):
                    q = arr.ixadd(idx[0], ix(zi(lo))) if conc(lo) != 0 else idx[0]
                    r = at(q)
                    v = r[3][id(c)]
                    return SFloat(z3.simplify(v.v - r[2][id(c)], som=True, som_blowup=100000), v.nan, v.pinf, v.ninf)
                nn = core.ite(zi(hi) - zi(lo) >= 0, n, 0)
                s = arr.red_sum(SArr((nn,), g, 'f8'))
                c.v = fl(c.v) + s
            elif isinstance(vals[id(c)], (SVal, int, float, bool)):
                if isinstance(vals[id(c)], (SInt, int)):
                    c.v = SInt(ctx.fresh_int(c.name))
                else:
                    c.v = SFloat(ctx.fresh_real(c.name), ctx.fresh_bool(), ctx.fresh_bool(), ctx.fresh_bool())
            else:
                c.v = UNSET
        cell.v = core.ite(zi(hi) >= zi(lo), hi, lo)

    def sumtag(self, e, i, lo, hi, fr):
        if conc(lo) != 0:
            return None
        for mid, (m, rs) in fr.reads.items():
            if m.tag is not None and rs == {(1, 0)}:
                t = m.base((i,))
                if z3.is_true(z3.simplify(fl(t).v == e.v)) and \
                        (z3.is_true(z3.simplify(zi(m.n) == zi(hi))) or self.ctx.known(zi(m.n) == zi(hi))):
                    return m.tag
        return None

    def loopbound(self, cond):
        c = strip(cond)
        if c.get('kind') != 'BinaryOperator' or c['opcode'] not in ('<', '!=', '<='):
            raise Unsupported('loop condition')
        l = strip(c['inner'][0])
        if l.get('kind') != 'DeclRefExpr':
            raise Unsupported('loop condition')
        cell = self.lookup(l)
        hi = self.expr(c['inner'][1])
        if c['opcode'] == '<=':
            hi = hi + 1
        if c['opcode'] == '!=' and not self.ctx.known(zi(cell.v) <= zi(hi)):
            raise Unsupported('loop condition')
        return cell, hi

    def assigned_cells(self, n):
        out = []

        def w(x):
            k = x.get('kind')
            if k in ('BinaryOperator', 'CompoundAssignOperator') and x['opcode'].endswith('=') and \
                    x['opcode'] not in ('==', '<=', '>=', '!='):
                t = strip(x['inner'][0])
                add(t)
            elif k == 'UnaryOperator' and x['opcode'] in ('++', '--', '&'):
                add(strip(x['inner'][0]))
            for y in x.get('inner', []):
                w(y)

        def add(t):
            if t.get('kind') == 'DeclRefExpr':
                try:
                    c = self.lookup(t)
                except Unsupported:
                    return
                if c not in out:
                    out.append(c)
            elif t.get('kind') == 'UnaryOperator' and t.get('opcode') == '*':
                try:
                    p = self.expr(t['inner'][0])
                except Unsupported:
                    return
                if isinstance(p, CellPtr) and p.cell not in out:
                    out.append(p.cell)
        w(n)
        # cells reachable through pointers passed to calls
        def calls(x):
            if x.get('kind') == 'CallExpr':
                for y in x['inner'][1:]:
                    s = strip(y)
                    if s.get('kind') == 'DeclRefExpr' and s.get('referencedDecl', {}).get('kind') != 'EnumConstantDecl':
                        try:
                            v = self.lookup(s).v
                        except Unsupported:
                            continue
                        if isinstance(v, CellPtr) and v.cell not in out:
                            out.append(v.cell)
            for y in x.get('inner', []):
                calls(y)
        calls(n)
        return out

    def s_WhileStmt(self, n):
        cond, body = n['inner'][0], n['inner'][-1]
        spec = self.loops.get(self.fname)
        if spec is None:
            for it in range(200):
                c = self.truth(self.expr(cond))
                if not isinstance(c, bool):
                    raise Unsupported('while loop without invariant in %s' % self.fname)
                if not c:
                    return
                self.stmt(body)
            raise Unsupported('while loop too long')
        if self.loop is not None or self.guards:
            raise Unsupported('while loop under a symbolic condition')
        ctx = self.ctx
        for nm, f in spec.inv(self):
            ctx.prove('C %s: loop invariant holds initially: %s' % (self.fname, nm), f)
        for c in self.assigned_cells(body):
            if isinstance(c.v, (SInt, int)) and not isinstance(c.v, bool):
                c.v = SInt(ctx.fresh_int(c.name))
            elif c.v is UNSET or isinstance(c.v, (SFloat, float)):
                c.v = SFloat(ctx.fresh_real(c.name))
        spec.havoc(self)
        for nm, f in spec.inv(self):
            ctx.fact(f)
        c = self.truth(self.expr(cond))
        if ctx.decide(c):
            v0 = spec.variant(self)
            self.stmt(body)
            for nm, f in spec.inv(self):
                ctx.prove('C %s: loop invariant preserved: %s' % (self.fname, nm), f)
            for nm, f in spec.progress(self, v0):
                ctx.prove('C %s: loop makes progress: %s' % (self.fname, nm), f)
            ctx.stop()
        return

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, SBool):
            return zb(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, (Ptr, GMat, GVec, CellPtr, Opaque)):
            return True
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, SVal):
            r = v != 0
            return r if isinstance(r, bool) else zb(r)
        raise Unsupported('C truth value')

    def coerce(self, v, qt):
        if isinstance(v, (SBool, bool)) and '*' not in qt:
            v = mki(zi(v)) if isinstance(v, SBool) else int(v)
        if qt in ('double', 'float', 'const double') and not isinstance(v, SFloat):
            if isinstance(v, (int, float, SInt)):
                return fl(v)
        if qt in ('int', 'long', 'unsigned long', 'size_t', 'unsigned int', 'const int', 'const long') and \
                isinstance(v, (SFloat, float)):
            return core.trunc_int(v)
        return v

    def expr(self, n):
        k = n['kind']
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise Unsupported('C expression %s' % k)
        return f(n)

    def e_ParenExpr(self, n):
        return self.expr(n['inner'][0])

    def e_ConstantExpr(self, n):
        return self.expr(n['inner'][0])

    def e_IntegerLiteral(self, n):
        return int(n['value'])

    def e_FloatingLiteral(self, n):
        return fl(core.Fraction(str(n['value'])) if False else float(n['value']))

    def e_CharacterLiteral(self, n):
        return int(n['value'])

    def e_StringLiteral(self, n):
        return n.get('value')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = n.get('argType', {}).get('qualType', 'double')
        return {'double': 8, 'int': 4, 'long': 8, 'float': 4}.get(t, 8)

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return n
        if ck == 'NullToPointer':
            return None
        if ck == 'ArrayToPointerDecay':
            return self.expr(n['inner'][0])
        v = self.expr(n['inner'][0])
        if ck == 'IntegralToFloating':
            return fl(self.coerce(v, 'double'))
        if ck == 'FloatingToIntegral':
            return core.trunc_int(v)
        return v

    e_CStyleCastExpr = e_ImplicitCastExpr

    def lookup(self, n):
        d = n['referencedDecl']
        for env in (self.frames[-1],):
            if d['id'] in env:
                return env[d['id']]
        raise Unsupported('C variable %s' % d.get('name'))

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return d['name']
        if d['kind'] == 'FunctionDecl':
            return n
        v = self.lookup(n).v
        if isinstance(v, Conflict):
            raise Unsupported('pointer depends on a symbolic condition')
        if v is UNSET:
            # reading an uninitialised variable: arbitrary value
            self.obl('no uninitialised read of %s' % d.get('name'), False)
            v = SFloat(self.ctx.fresh_real('uninit'))
        return v

    # lvalues: ('cell', c) | ('mem', m, off)
    def lval(self, n):
        n = strip_paren(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            return ('cell', self.lookup(n))
        if k == 'ArraySubscriptExpr':
            p = self.expr(n['inner'][0])
            i = self.expr(n['inner'][1])
            if isinstance(p, CellPtr):
                if conc(i) == 0:
                    return ('cell', p.cell)
                self.obl('index inside the array', False)
                raise Unsupported('scalar pointer indexed')
            if not isinstance(p, Ptr):
                raise Unsupported('subscript of a non-array')
            return ('mem', p.mem, iadd(p.off, i))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.expr(n['inner'][0])
            if isinstance(p, CellPtr):
                return ('cell', p.cell)
            if isinstance(p, Ptr):
                return ('mem', p.mem, p.off)
            raise Unsupported('dereference')
        if k == 'MemberExpr':
            return ('obj', self.expr(n))
        raise Unsupported('C lvalue %s' % k)

    def load(self, lv):
        if lv[0] == 'cell':
            if lv[1].v is UNSET:
                self.obl('no uninitialised read of %s' % lv[1].name, False)
                return SFloat(self.ctx.fresh_real('uninit'))
            return lv[1].v
        if lv[0] == 'mem':
            return self.read(lv[1], lv[2])
        return lv[1]

    def store(self, lv, v):
        if lv[0] == 'cell':
            lv[1].v = v
        elif lv[0] == 'mem':
            self.write(lv[1], lv[2], fl(v))
        else:
            raise Unsupported('store to a struct member')

    def e_ArraySubscriptExpr(self, n):
        return self.load(self.lval(n))

    def e_MemberExpr(self, n):
        b = self.expr(n['inner'][0])
        nm = n['name']
        if isinstance(b, (GMat, GVec)) and nm in ('matrix', 'vector', 'size1', 'size2', 'size', 'tda', 'stride'):
            return getattr(b, nm)
        if isinstance(b, GMat) and nm == 'data':
            return Ptr(b.mem, b.off)
        raise Unsupported('C member %s' % nm)

    def e_UnaryOperator(self, n):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '&':
            lv = self.lval(sub)
            if lv[0] == 'cell':
                if isinstance(lv[1].v, (GMat, GVec)):
                    return lv[1].v
                return CellPtr(lv[1])
            if lv[0] == 'mem':
                return Ptr(lv[1], lv[2])
            return lv[1]
        if op == '*':
            return self.load(self.lval(n))
        if op in ('++', '--'):
            lv = self.lval(sub)
            old = self.load(lv)
            new = padd(old, 1 if op == '++' else -1)
            self.store(lv, new)
            return old if n.get('isPostfix') else new
        v = self.expr(sub)
        if op == '-':
            return -v if not isinstance(v, SBool) else -mki(zi(v))
        if op == '+':
            return v
        if op == '!':
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else mkb(core.Not(t))
        raise Unsupported('C unary %s' % op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            v = self.expr(b)
            lv = self.lval(a)
            qt = a.get('type', {}).get('qualType', '')
            v = self.coerce(v, qt)
            self.store(lv, v)
            return v
        if op == ',':
            self.expr(a)
            return self.expr(b)
        if op in ('&&', '||'):
            x = self.truth(self.expr(a))
            if isinstance(x, bool):
                if op == '&&' and not x:
                    return False
                if op == '||' and x:
                    return True
                y = self.truth(self.expr(b))
                return y if isinstance(y, bool) else mkb(y)
            self.guards.append(x if op == '&&' else core.Not(x))
            y = self.truth(self.expr(b))
            self.guards.pop()
            return mkb(core.And(x, y) if op == '&&' else core.Or(x, y))
        return self.binop(op, self.expr(a), self.expr(b), n)

    def binop(self, op, x, y, n):
        if x is None or y is None or isinstance(x, (Ptr, CellPtr, GMat, GVec, Opaque)) or \
                isinstance(y, (Ptr, CellPtr, GMat, GVec, Opaque)):
            if op in ('==', '!='):
                same = (x is y) or (x is None and y is None) or (x == 0 and y is None and not isinstance(x, SVal))
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    raise Unsupported('pointer comparison')
                return same if op == '==' else not same
            if op in ('+', '-') and isinstance(x, Ptr):
                return padd(x, y if op == '+' else -y)
            raise Unsupported('pointer arithmetic')
        isf = isinstance(x, (SFloat, float)) or isinstance(y, (SFloat, float))
        if isinstance(x, SBool):
            x = mki(zi(x))
        if isinstance(y, SBool):
            y = mki(zi(y))
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '/':
            if isf:
                return fl(x) / fl(y)
            if isinstance(x, int) and isinstance(y, int) and y != 0:
                q = abs(x) // abs(y)
                return q if (x < 0) == (y < 0) else -q
            if self.ctx.known(core.And(zi(x) >= 0, zi(y) > 0)):
                return x // y
            raise Unsupported('C integer division')
        if op == '%':
            if isinstance(x, int) and isinstance(y, int) and x >= 0 and y > 0:
                return x % y
            raise Unsupported('C modulo')
        if op == '<':
            return x < y
        if op == '<=':
            return x <= y
        if op == '>':
            return x > y
        if op == '>=':
            return x >= y
        if op == '==':
            return x == y
        if op == '!=':
            return x != y
        raise Unsupported('C operator %s' % op)

    def e_CompoundAssignOperator(self, n):
        a, b = n['inner']
        op = n['opcode'][:-1]
        y = self.expr(b)
        lv = self.lval(a)
        x = self.load(lv)
        v = self.coerce(self.binop(op, x, y, n), a.get('type', {}).get('qualType', ''))
        self.store(lv, v)
        return v

    def e_ConditionalOperator(self, n):
        c = self.truth(self.expr(n['inner'][0]))
        if isinstance(c, bool):
            return self.expr(n['inner'][1 if c else 2])
        self.guards.append(c)
        a = self.expr(n['inner'][1])
        self.guards[-1] = core.Not(c)
        b = self.expr(n['inner'][2])
        self.guards.pop()
        return self.mval(c, a, b)

    def e_CallExpr(self, n):
        f = strip(n['inner'][0])
        name = f.get('referencedDecl', {}).get('name')
        if name is None:
            raise Unsupported('C call through a pointer')
        return self.call(name, [self.expr(x) for x in n['inner'][1:]])


class Conflict(object):
    pass


def self_key(fr, e):
    return None


def _sym_ov(base, ov, idx):
    k = idx[0]
    if isinstance(k, int):
        return ov[k] if k in ov else base(idx)
    r = base(idx)
    for o, v in ov.items():
        r = ite(zb(z3.simplify(zx(k) == o)), v, r)
    return r


def zx_(e):
    return e if isinstance(e, z3.ExprRef) else zi(e)


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    r = mki(z3.simplify(zi(a) + zi(b)))
    return r


def padd(p, k):
    if isinstance(p, Ptr):
        return Ptr(p.mem, iadd(p.off, k))
    return p + k


def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'ConstantExpr'):
        n = n['inner'][0]
    return n


def strip_paren(n):
    while n.get('kind') in ('ParenExpr',) or (n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') in ('LValueToRValue', 'NoOp')):
        n = n['inner'][0]
    return n


def has_kind(n, ks):
    if n.get('kind') in ks:
        return True
    return any(has_kind(x, ks) for x in n.get('inner', []))


def is_incr(inc, cell, it):
    s = strip(inc)
    if s.get('kind') == 'UnaryOperator' and s['opcode'] == '++':
        return it.lookup(strip(s['inner'][0])) is cell
    if s.get('kind') == 'CompoundAssignOperator' and s['opcode'] == '+=':
        return it.lookup(strip(s['inner'][0])) is cell and conc(it.expr(s['inner'][1])) == 1
    if s.get('kind') == 'BinaryOperator' and s['opcode'] == '=':
        r = strip(s['inner'][1])
        return it.lookup(strip(s['inner'][0])) is cell and r.get('kind') == 'BinaryOperator' and r['opcode'] == '+' and \
            strip(r['inner'][0]).get('kind') == 'DeclRefExpr' and it.lookup(strip(r['inner'][0])) is cell and \
            conc(it.expr(r['inner'][1])) == 1
    return False


def mentions(v, syms):
    out = set()
    seen = set()

    def w(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if e.get_id() in syms:
            out.add(id(syms[e.get_id()]))
        for c in e.children():
            w(c)
    if isinstance(v, SFloat):
        for e in (v.v, v.nan, v.pinf, v.ninf):
            if isinstance(e, z3.ExprRef):
                w(e)
    elif isinstance(v, SInt):
        w(v.i)
    elif isinstance(v, SBool):
        if isinstance(v.b, z3.ExprRef):
            w(v.b)
    return out


# ------------------------------------------------------------------ assumed contracts of libc / libm
def _m1(f):
    return lambda it, a: f(fl(a))


LIBC = {
    'sqrt': _m1(core.f_sqrt), 'log': _m1(core.f_log), 'exp': _m1(core.f_exp), 'erf': _m1(core.f_erf),
    'fabs': _m1(core.f_abs), 'pow': lambda it, a, b: core.f_pow(fl(a), fl(b) if not isinstance(b, int) else b),
    'finite': lambda it, a: mkb(fl(a).fin()), 'isfinite': lambda it, a: mkb(fl(a).fin()),
    '__builtin_isfinite': lambda it, a: mkb(fl(a).fin()), '__finite': lambda it, a: mkb(fl(a).fin()),
    '__builtin_isnan': lambda it, a: mkb(fl(a).nan), 'isnan': lambda it, a: mkb(fl(a).nan),
    'fmax': lambda it, a, b: core.f_max2(fl(a), fl(b)), 'fmin': lambda it, a, b: core.f_min2(fl(a), fl(b)),
    'floor': _m1(core.f_floor), 'ceil': _m1(core.f_ceil),
    'printf': lambda it, *a: 0, 'fprintf': lambda it, *a: 0,
}


def _calloc(it, n, sz):
    if sz != 8:
        raise Unsupported('calloc element size')
    return Ptr(Mem(it, n, lambda idx: SFloat(z3.RealVal(0)), 'calloc'), 0)


def _malloc(it, nbytes):
    n = nbytes // 8 if isinstance(nbytes, int) else None
    if n is None:
        raise Unsupported('malloc of a symbolic size')
    return it.fresh_mem(n, 'malloc')


def _free(it, p):
    if isinstance(p, Ptr):
        p.mem.freed = True


def _memcpy(it, d, s, nbytes):
    if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
        raise Unsupported('memcpy')
    if isinstance(nbytes, int):
        for k in range(nbytes // 8):
            it.write(d.mem, iadd(d.off, k), it.read(s.mem, iadd(s.off, k)))
        return d
    # symbolic size: whole arrays only
    n = mki(z3.simplify(zi(nbytes) / 8))
    if it.loop is not None or conc(d.off) != 0 or conc(s.off) != 0:
        raise Unsupported('symbolic memcpy')
    c = it.ctx
    it.obl('memcpy stays inside the source', z3.And(zi(nbytes) <= 8 * zi(s.mem.n)))
    it.obl('memcpy stays inside the destination', z3.And(zi(nbytes) <= 8 * zi(d.mem.n)))
    sb, so, db, do = s.mem.base, dict(s.mem.ov), d.mem.base, dict(d.mem.ov)
    nb = zi(nbytes)
    if c.known(nb >= 8 * zi(d.mem.n)):
        d.mem.base, d.mem.ov = Fn(lambda idx: _sym_ov(sb, so, idx)), {}
        return d
    d.mem.base = Fn(lambda idx: ite(mkb(8 * zx(idx[0]) < nb).b if not isinstance(mkb(8 * zx(idx[0]) < nb), bool) else mkb(8 * zx(idx[0]) < nb),
                                    _sym_ov(sb, so, idx), _sym_ov(db, do, idx)))
    d.mem.ov = {}
    return d


def _memset(it, p, v, nbytes):
    if conc(v) != 0:
        raise Unsupported('memset')
    if isinstance(nbytes, int):
        for k in range(nbytes // 8):
            it.write(p.mem, iadd(p.off, k), fl(0))
        return p
    raise Unsupported('symbolic memset')


LIBC.update({'calloc': _calloc, 'malloc': _malloc, 'free': _free, 'memcpy': _memcpy, 'memset': _memset,
             '__builtin___memcpy_chk': lambda it, d, s, n, o: _memcpy(it, d, s, n)})


# ------------------------------------------------------------------ assumed contracts of GSL
def _alloc(it, r, c):
    if not (isinstance(r, int) and isinstance(c, int)):
        raise Unsupported('gsl_matrix_alloc with a symbolic size')
    return GMat(it.fresh_mem(r * c, 'gsl').mem, 0, r, c)


def _get(it, m, r, c):
    r, c = conc(r), conc(c)
    if r is None or c is None:
        raise Unsupported('symbolic matrix index')
    it.obl('gsl matrix index', 0 <= r < m.size1 and 0 <= c < m.size2)
    return it.read(m.mem, iadd(m.off, r * m.tda + c))


def _set(it, m, r, c, v):
    r, c = conc(r), conc(c)
    if r is None or c is None:
        raise Unsupported('symbolic matrix index')
    ok = 0 <= r < m.size1 and 0 <= c < m.size2
    it.obl('gsl matrix index', ok)
    if ok:
        m.mem.lu.pop(lukey(m), None)
        it.write(m.mem, iadd(m.off, r * m.tda + c), fl(v))


def lukey(m):
    return str(zx_(m.off))


def _all(m):
    return [(r, c) for r in range(m.size1) for c in range(m.size2)]


def _entries(it, m):
    return [_get(it, m, r, c) for r, c in _all(m)]


def _fill(it, m, f):
    for r, c in _all(m):
        _set(it, m, r, c, f(r, c))
    return 0


def _dims(it, ok):
    it.obl('gsl dimensions agree', ok)
    if not ok:
        raise Unsupported('gsl dimension mismatch')


def _dgemm(it, ta, tb, al, a, b, be, c):
    A = {(r, k): _get(it, a, r, k) for r, k in _all(a)}
    B = {(r, k): _get(it, b, r, k) for r, k in _all(b)}
    n1, k1 = (a.size1, a.size2) if ta == 'CblasNoTrans' else (a.size2, a.size1)
    k2, n2 = (b.size1, b.size2) if tb == 'CblasNoTrans' else (b.size2, b.size1)
    _dims(it, k1 == k2 and c.size1 == n1 and c.size2 == n2)
    ga = (lambda i, j: A[(i, j)]) if ta == 'CblasNoTrans' else (lambda i, j: A[(j, i)])
    gb = (lambda i, j: B[(i, j)]) if tb == 'CblasNoTrans' else (lambda i, j: B[(j, i)])
    al, be = fl(al), fl(be)
    out = {}
    for i in range(n1):
        for j in range(n2):
            s = fl(0)
            for k in range(k1):
                s = s + ga(i, k) * gb(k, j)
            s = al * s
            if be.const() != 0:
                s = s + be * _get(it, c, i, j)
            out[(i, j)] = s
    return _fill(it, c, lambda r, k: out[(r, k)])


def _dgemv(it, ta, al, a, x, be, y):
    n1, n2 = (a.size1, a.size2) if ta == 'CblasNoTrans' else (a.size2, a.size1)
    _dims(it, x.size == n2 and y.size == n1)
    al, be = fl(al), fl(be)
    out = []
    for i in range(n1):
        s = fl(0)
        for k in range(n2):
            s = s + (_get(it, a, i, k) if ta == 'CblasNoTrans' else _get(it, a, k, i)) * it.read(x.mem, x.idx(k))
        s = al * s
        if be.const() != 0:
            s = s + be * it.read(y.mem, y.idx(i))
        out.append(s)
    for i, s in enumerate(out):
        it.write(y.mem, y.idx(i), s)
    return 0


def _ddot(it, x, y, res):
    _dims(it, x.size == y.size)
    s = fl(0)
    for k in range(x.size):
        s = s + it.read(x.mem, x.idx(k)) * it.read(y.mem, y.idx(k))
    if isinstance(res, CellPtr):
        res.cell.v = s
    else:
        it.write(res.mem, res.off, s)
    return 0


def ent_key(ents):
    return [fl(e).v for e in ents]


def inv_entry(n, r, c, ents):
    """(r,c) entry of the inverse of the n x n matrix with the given entries (uninterpreted)"""
    return SFloat(core.ruf('INV%d_%d_%d' % (n, r, c), *ent_key(ents)))


def det_of(n, ents):
    return SFloat(core.ruf('DET%d' % n, *ent_key(ents)))


def _lu(it, m, p, s):
    _dims(it, m.size1 == m.size2)
    e = _entries(it, m)
    n = m.size1
    for k, (r, c) in enumerate(_all(m)):
        it.write(m.mem, iadd(m.off, r * m.tda + c), SFloat(core.ruf('LU%d_%d_%d' % (n, r, c), *ent_key(e))))
    m.mem.lu[lukey(m)] = tuple(e)
    if isinstance(s, CellPtr):
        s.cell.v = SInt(it.ctx.fresh_int('signum'))
    return 0


def _luinv(it, m, p, out):
    e = m.mem.lu.get(lukey(m))
    if e is None:
        raise Unsupported('LU_invert of a matrix that was not decomposed')
    _dims(it, out.size1 == m.size1 and out.size2 == m.size2)
    return _fill(it, out, lambda r, c: inv_entry(m.size1, r, c, e))


def _ludet(it, m, s):
    e = m.mem.lu.get(lukey(m))
    if e is None:
        raise Unsupported('LU_det of a matrix that was not decomposed')
    return det_of(m.size1, e)


def _valloc(it, n):
    if not isinstance(n, int):
        raise Unsupported('gsl_vector_alloc with a symbolic size')
    return GVec(it.fresh_mem(n, 'gslv').mem, 0, n)


def _vget(it, v, k):
    k = conc(k)
    if k is None:
        raise Unsupported('symbolic vector index')
    it.obl('gsl vector index', 0 <= k < v.size)
    return it.read(v.mem, v.idx(k))


def _vset(it, v, k, x):
    k = conc(k)
    if k is None:
        raise Unsupported('symbolic vector index')
    it.obl('gsl vector index', 0 <= k < v.size)
    it.write(v.mem, v.idx(k), fl(x))


def _mfree(it, m):
    if isinstance(m, (GMat, GVec)):
        m.mem.freed = True


def _madd(it, a, b):
    _dims(it, a.size1 == b.size1 and a.size2 == b.size2)
    vals = {(r, c): _get(it, a, r, c) + _get(it, b, r, c) for r, c in _all(a)}
    return _fill(it, a, lambda r, c: vals[(r, c)])


def _mcpy(it, d, s):
    _dims(it, d.size1 == s.size1 and d.size2 == s.size2)
    vals = {(r, c): _get(it, s, r, c) for r, c in _all(s)}
    return _fill(it, d, lambda r, c: vals[(r, c)])


def _vcpy(it, d, s):
    _dims(it, d.size == s.size)
    vals = [it.read(s.mem, s.idx(k)) for k in range(s.size)]
    for k in range(d.size):
        it.write(d.mem, d.idx(k), vals[k])
    return 0


def _eig(it, m, ev, w):
    """eigenvalues of a symmetric matrix: uninterpreted functions of its entries; destroys m"""
    e = _entries(it, m)
    for k in range(ev.size):
        it.write(ev.mem, ev.idx(k), SFloat(core.ruf('EIG%d_%d' % (m.size1, k), *ent_key(e))))
    return 0


def _eigv(it, m, ev, Q, w):
    e = _entries(it, m)
    n = m.size1
    for k in range(ev.size):
        it.write(ev.mem, ev.idx(k), SFloat(core.ruf('EIG%d_%d' % (n, k), *ent_key(e))))
    return _fill(it, Q, lambda r, c: SFloat(core.ruf('EVEC%d_%d_%d' % (n, r, c), *ent_key(e))))


GSL = {
    'gsl_matrix_alloc': _alloc, 'gsl_matrix_calloc': lambda it, r, c: _zero_alloc(it, r, c),
    'gsl_matrix_set_zero': lambda it, m: _fill(it, m, lambda r, c: fl(0)),
    'gsl_matrix_set_all': lambda it, m, v: _fill(it, m, lambda r, c: fl(v)),
    'gsl_matrix_set_identity': lambda it, m: _fill(it, m, lambda r, c: fl(1 if r == c else 0)),
    'gsl_matrix_set': _set, 'gsl_matrix_get': _get, 'gsl_matrix_add': _madd, 'gsl_matrix_memcpy': _mcpy,
    'gsl_matrix_free': _mfree, 'gsl_vector_free': _mfree, 'gsl_permutation_free': lambda it, p: None,
    'gsl_permutation_alloc': lambda it, n: Opaque('perm'), 'gsl_vector_alloc': _valloc,
    'gsl_vector_get': _vget, 'gsl_vector_set': _vset, 'gsl_vector_memcpy': _vcpy,
    'gsl_matrix_view_array': lambda it, p, r, c: GMat(p.mem, p.off, r, c),
    'gsl_matrix_diagonal': lambda it, m: GVec(m.mem, m.off, min(m.size1, m.size2), m.tda + 1),
    'gsl_blas_dgemm': _dgemm, 'gsl_blas_dgemv': _dgemv, 'gsl_blas_ddot': _ddot,
    'gsl_linalg_LU_decomp': _lu, 'gsl_linalg_LU_invert': _luinv, 'gsl_linalg_LU_det': _ludet,
    'gsl_eigen_symm_alloc': lambda it, n: Opaque('eig'), 'gsl_eigen_symmv_alloc': lambda it, n: Opaque('eigv'),
    'gsl_eigen_symm_free': lambda it, w: None, 'gsl_eigen_symmv_free': lambda it, w: None,
    'gsl_eigen_symm': _eig, 'gsl_eigen_symmv': _eigv,
}


def _zero_alloc(it, r, c):
    m = _alloc(it, r, c)
    _fill(it, m, lambda a, b: fl(0))
    return m
