#!/usr/bin/env python3
"""Decides one property on /repo's working tree: check.py Cxx [--replay FILE].

VERIF_TIER=quick|thorough, VERIF_SEED. Exit 0 held, 1 violation (with a VIOLATION line), 2 the check failed."""
import hashlib, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF
from checks import CHECKS


def known_findings(prop):
    """lines `known: property=<id> case=<text of the case> message=<text>` of the committed file"""
    out = []
    for line in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'known: property=(\S+) case=(.*?) message=(.*)$', line.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    spec = CHECKS[prop]
    thorough = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev_file = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev_file), exist_ok=True)
    if os.path.exists(ev_file):
        os.unlink(ev_file)
    if 'python' in spec:
        mod = __import__(spec['python'])
        runner = mod.Check(prop, thorough, seed)
        try:
            results = runner.run()
        except build.BuildError as e:
            print('ERROR: %s' % e)
            return 2
        b = None
    else:
        try:
            b = build.Build()
        except build.BuildError as e:
            print('ERROR: the tree does not build:\n%s' % e)
            return 2
        env = build.stub_env(b.dir)
        results = []
        if '--replay' in sys.argv:
            path = sys.argv[sys.argv.index('--replay') + 1]
            variant, harness, flags = None, None, []
            for line in open(path):
                if line.startswith('run:'):
                    variant, harness, *flags = line.split()[1:]
            exe = b.build(variant, harness, flags)
            return subprocess.call([exe, '--replay', path, '--seed', str(seed)] + (['--thorough'] if thorough else []), env=env)
        runs = [r for r in spec['runs'] if thorough or not r.get('thorough_only')]
        for r in runs:
            try:
                exe = b.build(r['variant'], r['harness'], r.get('flags', []))
            except build.BuildError as e:
                print('ERROR: build failed:\n%s' % e)
                return 2
            res = None
            for attempt in range(2):
                out = os.path.join(b.dir, '%s.%s.%d.json' % (prop, r['harness'], os.getpid()))
                cmd = [exe, '--out', out, '--seed', str(seed)] + (['--thorough', '--limit', str(r.get('limit', 3600))] if thorough else ['--limit', str(r.get('quick_limit', 400))])
                rc = subprocess.call(cmd, env=env)
                try:
                    res = json.load(open(out))
                    os.unlink(out)
                except (OSError, ValueError) as e:
                    print('ERROR: %s ended with %d and no result (%s)' % (r['harness'], rc, e))
                    res = None
                    continue
                if rc in (0, 1):
                    break
                print('note: unconfirmed: %s' % json.dumps(res.get('unconfirmed')))
                if time.time() - t0 > 400 and not thorough:
                    break
            if res is None or rc not in (0, 1):
                print('ERROR: no answer from %s' % r['harness'])
                return 2
            res['run'] = r
            results.append(res)
            if res.get('violation'):
                break
    return report(prop, spec, thorough, seed, results, t0, ev_file)


def report(prop, spec, thorough, seed, results, t0, ev_file):
    cnt, samples, rules = {}, [], []
    for res in results:
        for k, v in res.get('counters', {}).items():
            cnt[k] = cnt.get(k, 0) + v
        samples += res.get('samples', [])
        rules.append(res.get('rule', ''))
    evals = sum(r['evaluations'] for r in results)
    distinct = sum(r['distinct_nontrivial'] for r in results)
    cov = {'evaluations': evals, 'distinct_nontrivial': distinct, 'rule': ' || '.join(rules), 'samples': samples[:8],
           'exhaustive': all(r.get('exhaustive') for r in results), 'counters': cnt,
           'runs': [{'program': r['run']['harness'], 'variant': r['run'].get('variant', ''), 'evaluations': r['evaluations'], 'wall_s': r['wall_s'], 'exhaustive': r.get('exhaustive'), **r.get('extra', {})} for r in results]}
    if spec['level'] == 'model_checking':
        cov['states'] = cnt.get('states', 0)
        cov['transitions'] = cnt.get('switches', 0) + cnt.get('transitions', 0)
        cov['traces_validated_against_impl'] = cnt.get('schedules', 0) + cnt.get('traces', 0)
    viol = [r for r in results if r.get('violation')]
    known = known_findings(prop)
    unknown = []
    for r in viol:
        v = r['violation']
        for case, msg in known:
            if case == v['case'] and msg in v['message']:
                print('KNOWN-FINDING: property=%s %s: %s' % (prop, v['case'], v['message']))
                break
        else:
            unknown.append(r)
    ev = {'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': spec['level'], 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(unknown)}
    with open(ev_file + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(ev_file + '.tmp', ev_file)
    for r in unknown:
        v = r['violation']
        text = '# %s: %s\n# %s\nrun: %s %s %s\n' % (prop, v['case'], v['message'], r['run'].get('variant', '-'), r['run']['harness'], ' '.join(r['run'].get('flags', [])))
        text += ''.join('cfg: %s\n' % c for c in v['cfgs'])
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.txt' % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(text)
        print('%s: %s' % (v['case'], v['message']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if unknown:
        return 1
    print('%s: held on %d cases (%d distinct non-trivial)%s, %.0f s' % (prop, evals, distinct, '' if cov['exhaustive'] else ', not all of the space', time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
