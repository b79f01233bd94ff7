"""Mutation sweep used while developing the contracts (not a check).
python tools/mutate.py OUT N SEED [FILTER]   -- N mutants per target function, sampled"""
import ast, os, random, subprocess, sys, shutil, json
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
from rmv.check import load_contracts

CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['==']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.Pow: '*'}


def find(tree, qual):
    parts = qual.split('.')
    body = tree.body
    node = None
    for p in parts:
        c = [n for n in body if getattr(n, 'name', None) == p]
        if not c:
            return None
        node = c[-1]
        body = node.body
    return node


def mutants(src, fn):
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if 'log' in f and ('logger' in f or 'print' in f) or f in ('print',) or 'plt.' in f or 'ax.' in f or 'raise' in f:
                for m in ast.walk(n):
                    skip.add(id(m))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                skip.add(id(m))
    out = []
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = pos(n.left)[1]
            z = pos(n.comparators[0])[0]
            for r in CMP.get(type(n.ops[0]), []):
                t = b[a:z].decode()
                for o in ('<=', '>=', '==', '!=', '<', '>'):
                    if o in t:
                        out.append((a, z, t.replace(o, r, 1), n.lineno))
                        break
        elif isinstance(n, (ast.BinOp,)) and type(n.op) in BIN:
            a = pos(n.left)[1]
            z = pos(n.right)[0]
            t = b[a:z].decode()
            o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.BitAnd: '&', ast.BitOr: '|', ast.Pow: '**'}[type(n.op)]
            if o in t:
                out.append((a, z, t.replace(o, BIN[type(n.op)], 1), n.lineno))
        elif isinstance(n, ast.BoolOp):
            a = pos(n.values[0])[1]
            z = pos(n.values[1])[0]
            t = b[a:z].decode()
            if ' and ' in t or ' or ' in t:
                out.append((a, z, t.replace(' and ', ' @or ').replace(' or ', ' and ').replace(' @or ', ' or '), n.lineno))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                a, z = pos(n)
                out.append((a, z, str(not n.value), n.lineno))
            elif isinstance(n.value, (int, float)):
                a, z = pos(n)
                out.append((a, z, repr(n.value + 1) if isinstance(n.value, int) else repr(n.value * 1.1 + (0.1 if n.value == 0 else 0)), n.lineno))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            a, z = pos(n)
            if isinstance(n, ast.AugAssign) or isinstance(n, ast.Expr) or not isinstance(n.targets[0], (ast.Name, ast.Tuple)):
                out.append((a, z, 'pass', n.lineno))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, z = pos(n)
            out.append((a, z, b[a + 1:z].decode(), n.lineno))
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            a, z = pos(n.test)
            out.append((a, z, 'not (' + b[a:z].decode() + ')', n.lineno))
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            for o, r in (('.min', '.max'), ('.max', '.min'), ('.argmin', '.argmax'), ('.argmax', '.argmin')):
                if f.endswith(o):
                    a, z = pos(n.func)
                    out.append((a, z, f[:-len(o)] + r, n.lineno))
    docs = ast.get_docstring(fn)
    return [(a, z, r, ln, (b[:a] + r.encode() + b[z:]).decode()) for a, z, r, ln in out]


def main():
    outf, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    flt = sys.argv[4] if len(sys.argv) > 4 else ''
    rng = random.Random(seed)
    cons = load_contracts()
    tg = {}
    for c in cons:
        if c.finding:
            continue
        for t in c.targets:
            if t.split(':')[0].endswith('.py'):
                tg.setdefault(t, []).append((c.prop, c.name))
    jobs = []
    for t, cs in sorted(tg.items()):
        if flt and flt not in t and not any(p == flt for p, _ in cs):
            continue
        f, q = t.split(':')
        src = open('/repo/' + f).read()
        fn = find(ast.parse(src), q)
        if fn is None:
            print('no', t)
            continue
        ms = mutants(src, fn)
        rng.shuffle(ms)
        k = 0
        for a, z, r, ln, new in ms:
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            jobs.append((t, cs, f, src[max(0, 0):0], ln, a, z, r, new, src.encode()[a:z].decode()))
            k += 1
            if k >= n:
                break
    print(len(jobs), 'mutants')

    def go(j):
        i, (t, cs, f, _, ln, a, z, r, new, old) = j
        d = '/tmp/w/mut/%d' % i
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo/redmapper', d + '/redmapper', ignore=shutil.ignore_patterns('*.so', '__pycache__'))
        open(d + '/' + f, 'w').write(new)
        env = dict(os.environ, RMV_SRC=d, RMV_JOBS='1', RMV_EVIDENCE=d + '/ev', RMV_CONC_FIRST='1')
        caught, moved = None, ''
        for p, c in cs:
            try:
                o = subprocess.run(['/verif/check', p, '-v', '--only', c], env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                continue
            if o.returncode == 1:
                caught = p + '/' + c + (' nofi' if 'no-failing' in o.stdout else '')
                break
            mv = [l.strip() for l in o.stdout.split('\n') if 'moved: ' in l or 'moved=' in l and 'moved=0' not in l]
            if mv:
                moved += ' MOVED ' + c + ' ' + ' '.join(mv)[:160]
        shutil.rmtree(d, ignore_errors=True)
        line = new.split('\n')[ln - 1].strip()
        return i, t, ln, old, r, caught, line + (moved if not caught else '')
    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '7'))) as ex, open(outf, 'w') as out:
        for i, t, ln, old, r, caught, line in ex.map(go, list(enumerate(jobs))):
            out.write('%s %s:%d [%s] -> [%s]  %s   | %s\n' % ('ok  ' if caught else 'MISS', t, ln, old.replace('\n', ' ')[:60], r.replace('\n', ' ')[:60], caught or '', line[:300]))
            out.flush()


main()
