"""DESIGN.md from tools/design.md.in, the evidence of the last run of every check, seeded/*/ and known_findings.jsonl"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rd(*p):
    return open(os.path.join(HERE, *p)).read()


def tables():
    out = []
    for l in rd('properties.jsonl').splitlines():
        p = json.loads(l)
        e = json.loads(rd('evidence', p['id'] + '.json'))
        cov = e['coverage']
        bound = {b['contract']: b for b in cov['bounded_standins']}
        tg = {}
        for f, cs in cov['functions_under_contract'].items():
            for c in cs:
                tg.setdefault(c.split(':')[0], []).append(f.split(':')[-1])
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append(p['statement'] + '\n')
        out.append('*Over:* %s. *Out of the tests\' reach:* %s\n' % (p['quantifier']['text'], p['why_tests_cant']))
        out.append('%d functions under contract, %d contracts, %d fully discharged; level: %s.\n'
                   % (len(cov['functions_under_contract']), cov['contracts'], cov['contracts_proved'], e['level']))
        out.append('| contract | functions | decided by |\n|---|---|---|')
        for c in cov['per_contract']:
            n = c['contract']
            if n in bound:
                b = bound[n]
                w = 'bounded: %s' % b['why'] if b.get('why') else 'bounded'
                if b.get('partially_discharged'):
                    w += ' (obligations discharged %s)' % b['partially_discharged']
            elif c['verdict'] == 'proved':
                w = 'proved'
            else:
                w = c['verdict']
            out.append('| %s | %s | %s |' % (n, ', '.join(tg.get(n, [])), w.replace('|', '/')))
        out.append('')
    return '\n'.join(out)


def seeds():
    out = ['| seed | property | breaks | needs | check |', '|---|---|---|---|---|']
    caught = json.loads(rd('tools', 'caught.json'))
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        n = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        out.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], caught.get(n, '?')))
    return '\n'.join(out)


def main():
    s = rd('tools', 'design.md.in')
    kf = rd('known_findings.jsonl').splitlines()
    fixes = ['* ' + l[len('fixed: property='):] for l in kf if l.startswith('fixed:')]
    finds = [json.loads(l) for l in kf if l.startswith('{')]
    s = s.replace('<!-- TABLES -->', tables()).replace('<!-- SEEDS -->', seeds())
    s = s.replace('<!-- FIXES -->', '\n'.join(sorted(fixes)))
    s = s.replace('<!-- FINDINGS -->', '\n'.join('* **%s** %s' % (f['id'], f['what']) for f in finds))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)


main()
