"""Random behaviour-preserving edits of every function (development aid, not a check): the checks must stay quiet on them.
python tools/benign.py DEST KINDS SEED [PROB]   copies /repo to DEST and edits DEST/redmapper in place
KINDS: comma list of rename, flipif, ret, helper, method, while, cmp, swap, kw, pos, where, all"""
import ast
import glob
import os
import random
import shutil
import sys

DEST, KINDS, SEED = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3])
PROB = float(sys.argv[4]) if len(sys.argv) > 4 else 0.5
rng = random.Random(SEED)
ALL = ['rename', 'flipif', 'ret', 'helper', 'method', 'while', 'cmp', 'swap', 'kw', 'pos', 'where']
if KINDS == ['all']:
    KINDS = ALL
count = {}


def coin(kind):
    if kind in KINDS and rng.random() < PROB:
        count[kind] = count.get(kind, 0) + 1
        return True
    return False


SIGS = {}      # callable name -> list of parameter names, None if ambiguous


def signatures(trees):
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, ast.FunctionDef):
                a = n.args
                names = [x.arg for x in a.args]
                if names[:1] in (['self'], ['cls']):
                    names = names[1:]
                if a.vararg or a.kwarg or a.kwonlyargs or any(isinstance(d, ast.Name) and d.id in ('property', 'staticmethod') for d in n.decorator_list):
                    names = None
                k = n.name
                if k in SIGS and SIGS[k] != names:
                    SIGS[k] = None
                else:
                    SIGS[k] = names


COMMON = {'append', 'extend', 'run', 'read', 'write', 'close', 'copy', 'sum', 'fit', 'get', 'size', 'zeros', 'index', 'min', 'max', 'interpol', 'reset'}


def stored(fn):
    s = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            s.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            s.update((a.asname or a.name).split('.')[0] for a in n.names)
        elif n is not fn and isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            s.add(n.name)
    return s


def args(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def nested(fn):
    return any(n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for n in ast.walk(fn))


def hascomp(e):
    return any(isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda, ast.Yield, ast.NamedExpr, ast.Starred, ast.Await)) for n in ast.walk(e))


def pure(e):
    """no calls besides numpy, attribute reads and arithmetic"""
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if not (f.startswith('np.') and 'random' not in f):
                return False
    return not hascomp(e)


class Fn(ast.NodeTransformer):
    """edits inside one function"""
    def __init__(self, fn, mod, cls):
        self.fn, self.mod, self.cls = fn, mod, cls
        self.loc = stored(fn) | set(args(fn))
        self.new = []
        self.meth = []
        self.isself = args(fn)[:1] == ['self']
        self.top = True

    def visit_FunctionDef(self, n):
        return n if n is not self.fn else self.generic_visit(n)

    def visit_Lambda(self, n):
        return n

    visit_ClassDef = visit_Lambda
    visit_ListComp = visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_Lambda

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and coin('flipif'):
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)) and coin('ret'):
            return [ast.Assign(targets=[ast.Name(id='_ret_value', ctx=ast.Store())], value=n.value, lineno=0),
                    ast.Return(value=ast.Name(id='_ret_value', ctx=ast.Load()))]
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in fl and pure(n.left) and pure(n.comparators[0]) and coin('cmp'):
            return ast.Compare(left=n.comparators[0], ops=[fl[type(n.ops[0])]()], comparators=[n.left])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
        if isinstance(n.func, ast.Attribute) and ast.unparse(n.func).split('.')[0] in ('np', 'os', 'esutil', 'fitsio', 'scipy', 'plt', 'hpg', 'healsparse', 'hp', 'super()'):
            return n
        sig = SIGS.get(nm)
        if not sig or nm in COMMON or nm.startswith('__'):
            return n
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return n
        if n.args and len(n.args) <= len(sig) and coin('kw'):
            k = rng.randrange(len(n.args))
            new = [ast.keyword(arg=sig[i], value=n.args[i]) for i in range(k, len(n.args))]
            n.args, n.keywords = n.args[:k], new + n.keywords
        elif n.keywords and coin('pos'):
            while n.keywords and len(n.args) < len(sig) and n.keywords[0].arg == sig[len(n.args)]:
                n.args.append(n.keywords.pop(0).value)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) <= 2 and isinstance(n.target, ast.Name) \
                and not n.orelse and not any(isinstance(x, ast.Continue) for b in n.body for x in ast.walk(b)) \
                and not any(isinstance(x, ast.Name) and x.id == n.target.id and isinstance(x.ctx, ast.Store) for b in n.body for x in ast.walk(b)) and coin('while'):
            lo = it.args[0] if len(it.args) == 2 else ast.Constant(value=0)
            hi = it.args[-1]
            k = '_stop_%d' % rng.randrange(10000)
            v = '_ctr_%d' % rng.randrange(10000)
            N = lambda x, c=ast.Load: ast.Name(id=x, ctx=c())
            return [ast.Assign(targets=[N(v, ast.Store)], value=lo, lineno=0), ast.Assign(targets=[N(k, ast.Store)], value=hi, lineno=0),
                    ast.While(test=ast.Compare(left=N(v), ops=[ast.Lt()], comparators=[N(k)]),
                              body=[ast.Assign(targets=[ast.Name(id=n.target.id, ctx=ast.Store())], value=N(v), lineno=0)] + n.body +
                              [ast.AugAssign(target=N(v, ast.Store), op=ast.Add(), value=ast.Constant(value=1))], orelse=[])]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        v = n.value
        if isinstance(v, ast.Call) and ast.unparse(v.func) == 'np.where' and len(v.args) == 1 and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) \
                and len(n.targets[0].elts) == 1 and coin('where'):
            n.targets = [n.targets[0].elts[0]]
            n.value = ast.parse('np.nonzero(X)[0]', mode='eval').body
            n.value.value.args = v.args
            return n
        if len(n.targets) == 1 and isinstance(v, (ast.BinOp, ast.Call, ast.Compare, ast.Subscript, ast.BoolOp)) and not hascomp(v):
            free = []
            bad = False
            for x in ast.walk(v):
                if isinstance(x, ast.Name) and x.id in self.loc and x.id not in free:
                    free.append(x.id)
                if isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals'):
                    bad = True
                if isinstance(x, ast.Attribute) and x.attr.startswith('__'):
                    bad = True
            if not bad:
                if self.isself and self.cls is not None and not nested(self.fn) and 'self' in self.loc and coin('method'):
                    fr = [f for f in free if f != 'self']
                    nm = '_part_%d' % rng.randrange(10 ** 6)
                    d = ast.parse('def %s(%s):\n    return 0' % (nm, ', '.join(['self'] + fr))).body[0]
                    d.body[0].value = v
                    self.meth.append(d)
                    n.value = ast.parse('self.%s(%s)' % (nm, ', '.join(fr)), mode='eval').body
                elif coin('helper'):
                    nm = '_part_%d' % rng.randrange(10 ** 6)
                    d = ast.parse('def %s(%s):\n    return 0' % (nm, ', '.join(free))).body[0]
                    d.body[0].value = v
                    self.new.append(d)
                    n.value = ast.parse('%s(%s)' % (nm, ', '.join(free)), mode='eval').body
        return n


def swap(body):
    i = 0
    while i + 1 < len(body):
        a, b = body[i], body[i + 1]
        if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and pure(x.value) for x in (a, b)):
            na, nb = a.targets[0].id, b.targets[0].id
            ra = {x.id for x in ast.walk(a.value) if isinstance(x, ast.Name)}
            rb = {x.id for x in ast.walk(b.value) if isinstance(x, ast.Name)}
            if na != nb and na not in rb and nb not in ra and coin('swap'):
                body[i], body[i + 1] = b, a
                i += 1
        i += 1
    for s in body:
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                swap(getattr(s, f))


def rename(fn):
    if nested(fn) or any(isinstance(n, ast.Name) and n.id in ('locals', 'eval', 'exec') for n in ast.walk(fn)):
        return
    if any(isinstance(n, (ast.Import, ast.ImportFrom)) for n in ast.walk(fn)):
        return
    names = stored(fn) - set(args(fn))
    mp = {n: n + '_v' for n in names if coin('rename')}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in mp:
            n.id = mp[n.id]
        elif isinstance(n, ast.ExceptHandler) and n.name in mp:
            n.name = mp[n.name]


def edit(tree):
    def go(body, cls):
        i = 0
        while i < len(body):
            n = body[i]
            if isinstance(n, ast.ClassDef):
                add = go(n.body, n)
                n.body.extend(add)
            elif isinstance(n, ast.FunctionDef) and not any(ast.unparse(d) in ('staticmethod', 'classmethod') or '.setter' in ast.unparse(d) for d in n.decorator_list):
                tr = Fn(n, tree, cls)
                tr.visit(n)
                swap(n.body)
                rename(n)
                tops.extend(tr.new)
                meths.setdefault(id(cls), []).extend(tr.meth)
            i += 1
        return meths.pop(id(cls), []) if cls is not None else []
    tops, meths = [], {}
    go(tree.body, None)
    # helpers after the imports
    k = 0
    for i, n in enumerate(tree.body):
        if isinstance(n, (ast.Import, ast.ImportFrom)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            k = i + 1
    tree.body[k:k] = tops


def main():
    shutil.rmtree(DEST, ignore_errors=True)
    shutil.copytree('/repo', DEST, symlinks=True)
    files = [f for f in sorted(glob.glob(DEST + '/redmapper/**/*.py', recursive=True)) if not f.endswith('_version.py') and not f.endswith('__init__.py')]
    trees = {f: ast.parse(open(f).read()) for f in files}
    signatures(trees.values())
    for f, t in trees.items():
        edit(t)
        ast.fix_missing_locations(t)
        open(f, 'w').write(ast.unparse(t) + '\n')
        compile(open(f).read(), f, 'exec')
    print(count)


main()
