# driver:  main.py PID --tier quick|thorough --seed N --budget SECONDS --out FILE
#          main.py PID --replay FILE
from __future__ import print_function
import sys, os, json, time, random, traceback, argparse, importlib, io, contextlib
HERE = os.path.dirname(os.path.abspath(__file__))
SKIPPED = []
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def run_one(mod, case):
    """None if the case holds, else the reason"""
    from common import Fail
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            r = mod.check(case)
        return r
    except Fail as e:
        return str(e)
    except (KeyboardInterrupt, SystemExit) as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return 'the code exited: %r' % (e,)
    except Exception as e:
        # the harness reached for a private name that a refactoring removed:
        # not observable this way, not a violation
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        if isinstance(e, AttributeError) and os.path.dirname(os.path.abspath(tb.tb_frame.f_code.co_filename)) == HERE \
                and "attribute '_" in str(e) and "attribute '__" not in str(e):
            SKIPPED.append(repr(e))
            return None
        return 'exception %s\n%s' % (repr(e), traceback.format_exc()[-1500:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=8)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--extra', help='file with extra cases (JSON list) to try first')
    a = ap.parse_args()
    import common
    mod = importlib.import_module(a.pid.lower())
    if a.replay:
        d = json.load(open(a.replay))
        case = d['case'] if isinstance(d, dict) and 'case' in d else d
        r = run_one(mod, case)
        print('REPLAY %s: %s' % (a.pid, 'holds' if r is None else 'FAILS: ' + r))
        return 1 if r else 0
    rng = random.Random(a.seed * 1000003 + (7 if a.tier == 'thorough' else 0))
    t0 = time.time()
    n = 0
    seen = set()
    samples = []
    fails = []
    kinds = {}

    def stream():
        if a.extra:
            for c in json.load(open(a.extra)):
                yield c
        for c in mod.cases(rng, a.tier):
            yield c
    exhausted = True
    for case in stream():
        if n >= 5 and time.time() - t0 > a.budget:
            exhausted = False
            break
        n += 1
        key = json.dumps(case, sort_keys=True)
        new = key not in seen
        seen.add(key)
        k = case.get('k', '-') if isinstance(case, dict) else '-'
        kinds[k] = kinds.get(k, 0) + 1
        if new and len(samples) < 3 and len(key) < 1500 and k not in [s.get('k', '-') for s in samples]:
            samples.append(case)
        r = run_one(mod, case)
        if r is not None:
            fails.append({'case': case, 'error': r})
            break
    out = {'evaluations': n, 'distinct_nontrivial': len(seen), 'kinds': kinds, 'rule': mod.RULE,
           'samples': samples, 'fails': fails, 'skipped': len(SKIPPED), 'skip_reasons': sorted(set(SKIPPED))[:3], 'wall_s': round(time.time() - t0, 2),
           'all_planned_cases_run': exhausted}
    s = json.dumps(out)
    if a.out:
        open(a.out, 'w').write(s)
    else:
        print(s)
    return 0


if __name__ == '__main__':
    sys.exit(main())
