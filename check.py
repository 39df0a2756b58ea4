#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decide one property on /repo's current tree.

1. deductive part (pyvc): contracts in /verif/contracts, obligations generated from the
   current source of /repo, discharged by z3 / cvc5;
2. bounded part (rt): the real code run against independent oracles; also used to find a
   failing input for an obligation that fails.
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import sys, os, json, time, subprocess, argparse, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ABABE_REPO', '/repo')
PYPY = '/opt/pvenv/bin/python'
VT = '/opt/veriftools/pyvenv/bin/python'
BUDGET = {'quick': 8.0, 'thorough': 240.0}


def rt(pid, tier, seed, budget, extra=None):
    """run the bounded harness on the real code"""
    out = os.path.join(HERE, 'evidence', '.rt_%s_%d.json' % (pid, os.getpid()))
    cmd = [PYPY, os.path.join(HERE, 'rt', 'main.py'), pid, '--tier', tier, '--seed', str(seed),
           '--budget', str(budget), '--out', out]
    ex = None
    if extra:
        ex = out + '.extra'
        json.dump(extra, open(ex, 'w'))
        cmd += ['--extra', ex]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', ABABE_REPO=REPO, MPLBACKEND='agg')
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE,
                           timeout=budget * 3 + 240)
        if os.path.exists(out):
            return json.load(open(out))
        return {'crash': p.stderr.decode(errors='replace')[-3000:]}
    except subprocess.TimeoutExpired:
        return {'timeout': True}
    finally:
        for f in (out, ex):
            if f and os.path.exists(f):
                os.remove(f)


def prove(pid, tier, seed, limit=None):
    """run the verifier; its JSON result"""
    if not os.path.exists(os.path.join(HERE, 'pyvc', 'run.py')):
        return None
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', ABABE_REPO=REPO)
    lim = 400 if tier == 'quick' else 1500
    try:
        p = subprocess.run([VT, os.path.join(HERE, 'pyvc', 'run.py'), pid, '--tier', tier] + (['--limit', str(limit)] if limit else []), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE, timeout=lim)
    except subprocess.TimeoutExpired:
        return {'error': 'verifier timed out'}
    try:
        return json.loads(p.stdout.decode().strip().splitlines()[-1])
    except Exception:
        return {'error': 'verifier crashed', 'stderr': p.stderr.decode(errors='replace')[-3000:]}


def known(pid):
    """findings listed as open for this property: (id text, case digest or obligation)"""
    res = []
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        line = line.strip()
        if line.startswith('open: property=%s ' % pid):
            res.append(line[len('open: property=%s ' % pid):])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    t0 = time.time()
    budget = a.budget or BUDGET[tier]
    b = rt(pid, tier, seed, budget)
    # with a failing input at hand the verifier only has to say which obligations go with it
    pf = prove(pid, tier, seed, 60 if b.get('fails') or 'crash' in b or 'timeout' in b else None)
    violations = []
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)

    def violate(name, payload, noinput=False):
        fn = os.path.join(rdir, '%s_%s.json' % (pid, name))
        json.dump(payload, open(fn, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s%s' % (pid, fn, ' no-failing-input-found' if noinput else ''))
        violations.append(fn)

    if 'crash' in b or 'timeout' in b:
        # the harness itself could not even be started or finished on the real code
        violate('harness', {'property': pid, 'error': b.get('crash') or 'the code did not finish in time',
                            'how': 'import or first run of the real code failed'})
    for f in b.get('fails', []):
        violate('input', {'property': pid, 'case': f['case'], 'error': f['error'],
                          'obligations': [o for o in (pf or {}).get('obligations', []) if o['status'] == 'failed'],
                          'replay_cmd': '%s %s/rt/main.py %s --replay <this file>' % (PYPY, HERE, pid)})
    if pf and not violations:
        failed = [o for o in pf.get('obligations', []) if o['status'] == 'failed']
        if failed:
            # look harder for a failing input first
            b2 = rt(pid, tier, seed + 1000, max(budget * 3, 30))
            b['second_search'] = {k: b2.get(k) for k in ('evaluations', 'distinct_nontrivial')}
            for f in b2.get('fails', []):
                violate('input', {'property': pid, 'case': f['case'], 'error': f['error'],
                                  'obligations': failed,
                                  'replay_cmd': '%s %s/rt/main.py %s --replay <this file>' % (PYPY, HERE, pid)})
            if not violations:
                violate('obligation', {'property': pid, 'failed': failed}, noinput=True)
    for k in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    cov = {'evaluations': b.get('evaluations', 0), 'distinct_nontrivial': b.get('distinct_nontrivial', 0),
           'rule': b.get('rule', ''), 'samples': b.get('samples', []), 'kinds': b.get('kinds', {}),
           'bounded_part': 'the cases above are a bounded check, not counted as proved'}
    assumptions = []
    level = 'exploration'
    if pf:
        obs = pf.get('obligations', [])
        cov.update({'obligations': len(obs), 'discharged': sum(o['status'] == 'proved' for o in obs),
                    'checker_cmd': '%s pyvc/run.py %s --tier %s' % (VT, pid, tier),
                    'trusted_base': pf.get('trusted', []),
                    'functions_under_contract': pf.get('functions', []),
                    'functions_bounded_only': pf.get('bounded', []),
                    'obligation_list': obs, 'solver_s': pf.get('solver_s'), 'vacuity': pf.get('vacuity'),
                    'prover_note': pf.get('error')})
        assumptions = pf.get('assumptions', [])
        level = 'proof' if obs else 'exploration'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d obligations, %d discharged; %d bounded cases; %d violations; %.1f s' % (
        pid, tier, cov.get('obligations', 0), cov.get('discharged', 0), cov['evaluations'], len(violations), time.time() - t0))
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
