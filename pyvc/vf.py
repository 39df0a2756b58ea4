"""Contracts framework: a unit runs one function of /repo against its contract."""
import time, traceback, sys, os
import z3
from vals import *
import core, lib, models, strs, prover
from core import Interp

REPO = os.environ.get('ABABE_REPO', '/repo')


class V(object):
    """one verification unit: a symbolic executor and helpers to state contracts"""
    def __init__(self, contracts=None):
        self.X = Interp(REPO, lib.L, dict(contracts or {}))
        self.lemmas = []

    def get(self, qual):
        """a function / class of /repo by its qualified name"""
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            if self.X.module(mod) is not None and self.X.module(mod)['file'].endswith('.py'):
                try:
                    v = self.X.mod_get(mod, parts[i])
                except PyRaise:
                    raise Unsupported('%s not found' % qual)
                for p in parts[i + 1:]:
                    v = self.X.class_member(v, p)
                    if v is None:
                        raise Unsupported('%s not found' % qual)
                return v
        raise Unsupported('%s not found' % qual)

    def cls_call(self, qual, name, args, kw=None):
        """call class / static method through its class"""
        return self.X.call(self.X.getattr(self.get(qual), name), args, kw or {})

    def real_obj(self, qual, args, kw=None):
        """object made by running the real constructor"""
        c = self.get(qual)
        f = qual in self.X.focus
        self.X.focus.add(qual)
        try:
            return self.X.call(c, args, kw or {})
        finally:
            if not f:
                self.X.focus.discard(qual)


def run_units(units, tier, deadline, again=True):
    """units: [(name, fn)].  -> result dictionary"""
    out = {'obligations': [], 'functions': set(), 'bounded': [], 'trusted': set(), 'assumptions': [],
           'solver_s': 0.0, 'vacuity': [], 'contracts_used': set()}
    jobs, meta, vac = [], [], []
    for name, fn, opts in units:
        v = V()
        t0 = time.time()
        try:
            z3.main_ctx()
            fn(v)
            if not v.X.obls:
                raise Unsupported('no obligation generated')
        except Unsupported as e:
            out['bounded'].append({'unit': name, 'why': 'outside the verified subset: %s (%s)' % (e, v.X.line)})
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc(limit=-4)
            continue
        except PyRaise as e:
            out['bounded'].append({'unit': name, 'why': 'raises %s (%s)' % (e.what, v.X.line)})
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc(limit=-4)
            continue
        except core.NeedCarry as e:
            out['bounded'].append({'unit': name, 'why': 'loop-carried %s' % (e.loc,)})
            continue
        except (RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError,
                z3.Z3Exception) as e:
            out['bounded'].append({'unit': name, 'why': 'translation stopped: %s: %s (%s)' % (type(e).__name__, e, v.X.line)})
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc(limit=-4)
            continue
        X = v.X
        out['functions'] |= X.used
        out['trusted'] |= X.used_lib
        out['contracts_used'] |= X.used_contracts
        seen = {}
        for o in X.obls:
            nm = '%s: %s' % (name, o.name)
            if o.kind == 'safety':
                nm += ' at ' + o.where.rsplit(':', 1)[0]
            seen[nm] = seen.get(nm, 0) + 1
            if seen[nm] > 1:
                nm += ' #%d' % seen[nm]
            jobs.append(prover.Job(o.hyps, o.goal))
            meta.append((name, nm, o))
        vac.append((name, prover.VacJob(X.obls[-1].hyps)))
        if os.environ.get('PYVC_DEBUG'):
            print('unit %s: %d obligations, executed in %.1f s (quick solver %.1f)' % (name, len(X.obls), time.time() - t0, X.t_quick),
                  file=sys.stderr)
    scale = 1.0 if tier == 'quick' else 4.0
    prover.solve_all(jobs + [j for _, j in vac], scale=scale, deadline=deadline, again=again)
    for (unit, nm, o), j in zip(meta, jobs):
        out['obligations'].append({'name': nm, 'status': j.status, 'backend': j.backend, 'secs': round(j.secs, 2),
                                   'where': o.where, 'detail': j.detail})
        out['solver_s'] += j.secs
        if os.environ.get('PYVC_DEBUG'):
            print('%-7s %-28s %6.2f  %s' % (j.status, j.backend, j.secs, nm), file=sys.stderr)
            if j.status != 'proved' and os.environ.get('PYVC_GOAL'):
                print(o.goal, file=sys.stderr)
            if j.status != 'proved' and os.environ.get('PYVC_DUMP'):
                open(os.path.join(os.environ['PYVC_DUMP'], nm.replace('/', '_').replace(' ', '_')[:80] + '.smt2'), 'w').write(j.text)
    for n, j in vac:
        out['vacuity'].append({'unit': n, 'hypotheses': 'CONTRADICTORY' if j.bad else 'not contradictory (%s)' % j.result})
        if j.bad:
            for ob in out['obligations']:
                if ob['name'].startswith(n + ':') and ob['status'] == 'proved':
                    ob['status'] = 'vacuous'
    out['functions'] = sorted(out['functions'])
    out['trusted'] = sorted(out['trusted'])
    out['contracts_used'] = sorted(out['contracts_used'])
    out['solver_s'] = round(out['solver_s'], 2)
    return out
