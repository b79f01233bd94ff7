"""check runner:  python -m rmv.check PROPERTY [--tier quick|thorough]

Copies /repo/redmapper into a scratch directory, compiles its two C extensions
there, and runs every contract of the property in its own process: the symbolic
verification of the current source, then the replay of any counterexample, then
a seeded concrete run of the same contract on the real code (cross-check)."""
import glob
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RMV_SRC', '/repo')
EVID = os.environ.get('RMV_EVIDENCE', os.path.join(HERE, 'evidence'))


def load_contracts():
    from . import run, adapt
    sys.path.insert(0, HERE)
    adapt.install()
    for f in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n != '__init__':
            importlib.import_module('contracts.' + n)
    return run.CONTRACTS


# ------------------------------------------------------------------ scratch build
def prepare(scratch):
    shutil.copytree(os.path.join(REPO, 'redmapper'), os.path.join(scratch, 'redmapper'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__'))
    procs = []
    for d in ('solver_nfw', 'chisq_dist'):
        procs.append((d, build_ext(os.path.join(scratch, 'redmapper', d), d)))
    bad = []
    for d, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            bad.append('%s: %s' % (d, out[-1500:]))
    return bad


def build_ext(path, d):
    import numpy
    srcs = sorted(glob.glob(os.path.join(path, '*.c')))
    out = os.path.join(path, '_%s_pywrap%s' % (d, sysconfig.get_config_var('EXT_SUFFIX')))
    cmd = ['gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + path, '-I' + numpy.get_include(),
           '-I' + sysconfig.get_paths()['include']] + srcs + ['-o', out, '-lgsl', '-lgslcblas', '-lm']
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


# ------------------------------------------------------------------ worker
def _enc(o):
    import numpy
    if isinstance(o, numpy.generic):
        return o.item()
    return str(o)


def worker(idx, scratch, tier, seed, outfile):
    sys.path.insert(0, scratch)
    cons = load_contracts()
    con = cons[idx]
    res = {'contract': con.name, 'targets': con.targets, 'assumes': con.assumes, 'bounded': con.bounded,
           'finding': con.finding}
    rng = __import__('random').Random('%s/%s/%d' % (con.prop, con.name, seed))
    from . import run
    os.environ['RMV_REPO'] = scratch
    mult = 6 if tier == 'thorough' else 1
    sym = None
    if os.environ.get('RMV_CONC_FIRST') and not con.finding:     # mutation sweeps only (tools/mutate.py)
        t0 = time.time()
        for k in range(con.trials):
            st, info, inp = run.run_concrete(con, rng, None)
            if st in ('fail', 'error'):
                res['concrete'] = {'trials': k + 1, 'ok': k, 'discard': 0, 'moved': 0,
                                   'fails': [{'kind': st, 'info': info, 'inputs': inp, 'from': 'random'}]}
                return _dump(res, outfile)
            if time.time() - t0 > con.ctime:
                break
    if con.kind in ('py', 'c') and not con.finding:
        r = run.Run(con, repo=scratch, budget=con.budget * (2 if tier == 'thorough' else 1))
        try:
            r.go()
        except BaseException as e:      # engine failure: not evidence about the code
            if isinstance(e, KeyboardInterrupt):
                raise
            r.unsupported.append('engine: %s %s' % (type(e).__name__, e))
            r.wall = 0
        v, nob, npr = r.verdict()
        sym = {'verdict': v, 'obligations': nob, 'discharged': npr, 'paths': r.paths, 'completed': r.completed,
               'obl': r.obl, 'solver_s': round(r.stats.solver_s, 3), 'queries': r.stats.queries,
               'wall': round(r.wall, 3), 'unsupported': sorted(set(r.unsupported))[:8],
               'errors': [e[:2] for e in r.errors[:4]],
               'refuted': [(n, i) for n, i in r.refuted],
               'modules': sorted(r.modules)}
        res['symbolic'] = sym
    _dump(res, outfile)
    # ---- concrete side
    conc = {'trials': 0, 'ok': 0, 'discard': 0, 'moved': 0, 'fails': []}
    res['concrete'] = conc
    t0 = time.time()
    tmax = con.ctime * mult
    hard = con.ctime * mult + (60 if sym and sym['verdict'] in ('refuted', 'error') else 20)

    def one(values=None, why='random'):
        st, info, inp = run.run_concrete(con, rng, values)
        conc['trials'] += 1
        if st in conc:
            conc[st] += 1
        if st == 'moved' and 'moved_why' not in conc:
            conc['moved_why'] = info
        if st in ('fail', 'error'):
            conc['fails'].append({'kind': st, 'info': info, 'inputs': inp, 'from': why})
            return True
        return False
    found = False
    if sym:
        cex = [i for n, i in sym['refuted'] if i] + [e[2] for e in r.errors if e[2]]
        for i in cex:
            for k in range(6):
                if one(i, 'solver model'):
                    found = True
                    break
            if found:
                break
    ntr = con.trials * mult
    if sym and sym['verdict'] in ('unknown', 'error', 'vacuous'):
        ntr *= 2                # the bounded stand-in runs deeper
        tmax *= 1.5
    if con.sweep is not None and not found:
        for vals in con.sweep(tier):
            if one(vals, 'sweep'):
                found = True
                break
    for k in range(ntr):
        if found or time.time() - t0 > tmax:
            break
        found = one()
    if sym and sym['refuted'] and not found:
        while not found and time.time() - t0 < hard:
            import random
            vals = None
            if cex and rng.random() < 0.6:
                base = rng.choice(cex)
                vals = {k: v for k, v in base.items() if rng.random() < 0.6}
            found = one(vals, 'directed search')
    conc['wall'] = round(time.time() - t0, 3)
    _dump(res, outfile)


def _dump(res, outfile):
    with open(outfile + '.tmp', 'w') as f:
        json.dump(res, f, default=_enc)
    os.replace(outfile + '.tmp', outfile)


# ------------------------------------------------------------------ main
def main(argv):
    if argv[0] == '--worker':
        return worker(int(argv[1]), argv[2], argv[3], int(argv[4]), argv[5])
    prop = argv[0]
    tier = 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    verbose = '-v' in argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='rmv_')
    try:
        return _main(prop, tier, seed, scratch, t0, only, verbose)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, scratch, t0, only, verbose):
    limit = 820 if tier == 'quick' else 6 * 3600
    bad = prepare(scratch)
    os.makedirs(EVID, exist_ok=True)
    repdir = os.path.join(EVID, 'replay')
    os.makedirs(repdir, exist_ok=True)
    if bad:
        rp = os.path.join(repdir, prop + '_build.json')
        json.dump({'property': prop, 'failed': 'the C extensions do not compile', 'output': bad}, open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        write_evidence(prop, tier, seed, t0, [], [{'obligation': 'build', 'replay': rp}])
        return 1
    cons = load_contracts()
    todo = [i for i, c in enumerate(cons) if c.prop == prop and (only is None or c.name == only)]
    if not todo:
        print('no contracts for', prop)
        return 2
    todo.sort(key=lambda i: -(cons[i].budget + cons[i].ctime))
    env = dict(os.environ)
    env.update({'PYTHONPATH': scratch + ':' + HERE, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
                'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MPLBACKEND': 'Agg',
                'MPLCONFIGDIR': os.path.join(scratch, 'mpl'), 'XDG_CACHE_HOME': os.path.join(scratch, 'cache'),
                'RMV_REPO': scratch, 'RMV_SCRATCH': scratch, 'TMPDIR': scratch, 'HOME': scratch})
    os.makedirs(os.path.join(scratch, 'out'))
    running = {}
    results = {}
    njobs = int(os.environ.get('RMV_JOBS', '8'))
    while todo or running:
        while todo and len(running) < njobs:
            i = todo.pop(0)
            out = os.path.join(scratch, 'out', '%d.json' % i)
            log = open(out + '.log', 'w')
            p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'rmv.check', '--worker', str(i), scratch, tier, str(seed), out],
                                 env=env, cwd=scratch, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            running[i] = (p, time.time(), out)
        time.sleep(0.05)
        for i, (p, ts, out) in list(running.items()):
            con = cons[i]
            lim = (con.budget * 2 + con.ctime * 2 + 150) * (4 if tier == 'thorough' else 1)
            if p.poll() is None and time.time() - ts < lim and time.time() - t0 < limit:
                continue
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    pass
                p.wait()
            del running[i]
            try:
                results[i] = json.load(open(out))
            except Exception:
                results[i] = {'contract': con.name, 'targets': con.targets, 'assumes': con.assumes,
                              'bounded': con.bounded, 'finding': con.finding}
            if 'concrete' not in results[i]:
                results[i]['concrete'] = {'trials': 0, 'ok': 0, 'discard': 0, 'moved': 0, 'fails': []}
                results[i]['crash'] = open(out + '.log').read()[-1500:]
            if verbose and results[i].get('crash'):
                print('CRASH', con.name, results[i]['crash'])
        if time.time() - t0 > limit:
            todo = []
    return report(prop, tier, seed, t0, [results[i] for i in sorted(results)], repdir, verbose)


def known_findings():
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('fixed:'):
                out.append(json.loads(l))
    return out


def report(prop, tier, seed, t0, results, repdir, verbose):
    viol = []
    known = {k['id']: k for k in known_findings()}
    for r in results:
        s = r.get('symbolic')
        c = r['concrete']
        fails = c['fails']
        st = s['verdict'] if s else 'concrete-only'
        if verbose:
            print('%-44s %-12s obl %s/%s paths %s t=%.1f solver=%.1f  conc ok=%d disc=%d moved=%d t=%.1f' % (
                r['contract'], st, s and s['discharged'], s and s['obligations'], s and s['paths'], s['wall'] if s else 0,
                s['solver_s'] if s else 0, c['ok'], c['discard'], c['moved'], c.get('wall', 0)))
            if s and st != 'proved':
                for k, o in s['obl'].items():
                    if o['refuted'] or o['unknown']:
                        print('     ', k, o)
                for u in s['unsupported']:
                    print('      unsupported:', u)
                for e in s['errors']:
                    print('      error:', e[0], e[1])
                for n, i in s['refuted'][:2]:
                    print('      refuted:', n, str(i)[:800])
            if c.get('moved_why'):
                print('      moved:', c['moved_why'])
            for f in fails:
                print('      FAIL', f['kind'], f['info'], f['from'], str(f['inputs'])[:1500])
        if r.get('finding'):
            k = known.get(r['finding'])
            if fails and k:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            r['finding_present'] = bool(fails)
            if fails and not k:
                viol.append((r, fails[0]['info'], fails[0], True))
            continue
        if fails:
            viol.append((r, str(fails[0]['info']).split('\n')[0], fails[0], True))
        elif st == 'refuted':
            viol.append((r, s['refuted'][0][0] if s['refuted'] else 'obligation', None, False))
    vout = []
    for r, obl, f, has in viol:
        rp = os.path.join(repdir, '%s_%s.json' % (prop, r['contract']))
        json.dump({'property': prop, 'contract': r['contract'], 'obligation': obl, 'targets': r['targets'],
                   'input': f['inputs'] if f else None, 'found_by': f['from'] if f else None,
                   'detail': f['info'] if f else None,
                   'verifier': r.get('symbolic')}, open(rp, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if has else ' no-failing-input-found'))
        vout.append({'contract': r['contract'], 'obligation': obl, 'replay': rp, 'failing_input': has})
    write_evidence(prop, tier, seed, t0, results, vout)
    proved = sum(1 for r in results if r.get('symbolic', {}).get('verdict') == 'proved')
    print('%s: %d contracts, %d proved, %d not proved (bounded only), %d violations, %.1f s' % (
        prop, len(results), proved, len(results) - proved, len(vout), time.time() - t0))
    return 1 if vout else 0


def write_evidence(prop, tier, seed, t0, results, viol):
    nob = sum(r['symbolic']['obligations'] for r in results if r.get('symbolic'))
    npr = sum(r['symbolic']['discharged'] for r in results if r.get('symbolic'))
    be = {}
    fns = {}
    assumptions = []
    for r in results:
        s = r.get('symbolic')
        if s:
            for o in s['obl'].values():
                for k, v in o['backends'].items():
                    be[k] = be.get(k, 0) + v
        v = s['verdict'] if s else 'bounded'
        if r.get('finding'):
            v = 'known-finding demonstration'
        for t in r['targets']:
            fns.setdefault(t, []).append('%s: %s' % (r['contract'], v))
        for a in r['assumes'] or []:
            if a not in assumptions:
                assumptions.append(a)
    from .assumptions import GENERAL
    bounded = []
    for r in results:
        s = r.get('symbolic')
        if r.get('finding'):
            continue
        if not s or s['verdict'] != 'proved':
            bounded.append({'contract': r['contract'], 'functions': r['targets'],
                            'why': r.get('bounded') or (s and (s['unsupported'] or s['verdict'])) or 'concrete-only contract',
                            'bound': '%d seeded concrete runs of the contract on the real code' % r['concrete']['ok'],
                            'partially_discharged': '%d/%d' % (s['discharged'], s['obligations']) if s else None})
    real = [r for r in results if not r.get('finding')]
    nproved = sum(1 for r in real if r.get('symbolic', {}).get('verdict') == 'proved')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        # mostly discharged obligations, or mostly bounded stand-ins
        'level': 'proof' if 2 * nproved >= len(real) else 'exploration',
        'coverage': {
            'obligations': nob, 'discharged': npr,
            'contracts': len([r for r in results if not r.get('finding')]),
            'contracts_proved': sum(1 for r in results if r.get('symbolic', {}).get('verdict') == 'proved'),
            'functions_under_contract': fns,
            'backends': be,
            'solver_s': round(sum(r['symbolic']['solver_s'] for r in results if r.get('symbolic')), 2),
            'solver_queries': sum(r['symbolic']['queries'] for r in results if r.get('symbolic')),
            'paths': sum(r['symbolic']['paths'] for r in results if r.get('symbolic')),
            'violation_details': viol,
            'explanation': 'obligations/discharged count the verification conditions generated from the current source on this run; '
                           'contracts under bounded_standins were not (fully) discharged and are only run concretely within the '
                           'stated bound, they are not counted as proved',
            'bounded_standins': bounded,
            'concrete_crosscheck_runs': sum(r['concrete']['ok'] for r in results),
            'per_contract': [{'contract': r['contract'], 'verdict': r['symbolic']['verdict'] if r.get('symbolic') else 'bounded',
                              'obligations': {k: {'proved': o['proved'], 'unknown': o['unknown'], 'refuted': o['refuted'],
                                                  'by': o['backends']} for k, o in r['symbolic']['obl'].items()}
                              if r.get('symbolic') else None,
                              'concrete_ok': r['concrete']['ok'], 'wall_s': (r['symbolic']['wall'] if r.get('symbolic') else 0)}
                             for r in results],
            'checker_cmd': './check %s --tier %s' % (prop, tier),
            'trusted_base': ['rmv symbolic semantics of the used Python/numpy/C subset (cross-checked by running every contract '
                             'on CPython, numpy and the compiled C)', 'z3 5.x', 'cvc5 1.1.2', 'clang 18 AST (C functions)'],
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': GENERAL + assumptions,
        'violations': len(viol),
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
