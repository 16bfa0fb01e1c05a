"""Runs one property's harness over all its cases, in parallel, and writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import core, harness, loader

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY_DIR = os.path.join(ROOT, 'replay')


class _Alarm(BaseException):
    pass


def _on_alarm(sig, frm):
    raise _Alarm()


def concrete_run(mod, case, assign, choices, limit=20, plain=None):
    """returns (status, messages, observed, values): status ok|fail|skip"""
    plain = plain or loader.PlainWorld()
    saved_ctx, core.CTX = core.CTX, None
    h = harness.ConcH(plain, case, assign, choices)
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    sink = open(os.devnull, 'w')
    so = sys.stdout
    sys.stdout = sink
    try:
        try:
            mod.run(h, case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.stdout = so
    except harness.CheckFail:
        pass
    except (harness.Skip, core.PathAbort):
        return 'skip', [], h.observed, h.values
    except _Alarm:
        h.failed.append('no termination within %d s' % limit)
    except (core.Unsupported, core.NoEval) as e:
        return 'skip', ['harness: %r' % e], h.observed, h.values
    except (Exception, SystemExit) as e:
        h.failed.append('raised %s: %s' % (type(e).__name__, e))
        h.tb = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout = so
        sink.close()
        h.close()
        core.CTX = saved_ctx
    if h.failed:
        return 'fail', h.failed, h.observed, h.values
    return 'ok', [], h.observed, h.values


class CaseRunner(object):
    def __init__(self, mod, case, opts, tier):
        self.mod = mod
        self.case = case
        self.tier = tier
        o = dict(getattr(mod, 'OPTS', {}))
        o.update(opts)
        o.update(case.get('opts', {}))
        self.opts = o
        self.ex = core.Explorer(o)
        self.res = dict(case=case, violations=[], inconclusive={}, validated=0, mismatches=[], witness=0,
                        unreproduced=[], samples=[], error=None)
        self.confirmed = False
        self.tried = {}
        self.rng = random.Random(o.get('seed', 1))
        self.plain = loader.PlainWorld()

    # -- one symbolic execution
    def once(self):
        h = self.h = harness.SymH(self.world, self.case)
        so, sys.stdout = sys.stdout, self.sink
        self.candidate = None
        try:
            self.mod.run(h, self.case)
            self.finished = True
        except (core.PathAbort, core.Budget):
            raise
        except core.StepLimit as e:
            self.candidate = ('no termination: %s' % e)
        except core.Unsupported as e:
            self.inconclusive('engine: %s' % e)
        except core.NoEval:
            self.inconclusive('engine: no value')
        except harness.CheckFail:
            pass
        except RecursionError as e:
            self.candidate = 'raised RecursionError'
        except (Exception, SystemExit) as e:
            self.candidate = 'raised %s: %s' % (type(e).__name__, e)
            self.cand_tb = traceback.format_exc()
        finally:
            sys.stdout = so
            h.close()

    def inconclusive(self, why):
        d = self.res['inconclusive']
        d[why] = d.get(why, 0) + 1

    def run_path(self):
        ex = self.ex
        self.finished = False
        ex.violations = []
        ex.inconclusive = []
        self.once()
        ex.flush_obligations()
        if self.candidate:
            self.exception_candidate(self.candidate)
        for msg, assign, choices in ex.violations:
            self.try_candidate(msg, assign, choices)
        ex.violations = []
        for m in ex.inconclusive:
            self.inconclusive('solver unknown: ' + m)
        if self.confirmed:
            raise core.Budget()

    def path_assign(self, nice=True):
        ex = self.ex
        a = ex.nice_model() if nice else None
        if a is None:
            if ex.check() != core.z3.sat:
                return None
            m = ex.get_model()
            a = {}
            for at in ex.atoms:
                if at.op == 'var' and at.id in ex.active:
                    a[at.label] = m.atom(at.id)
        return a

    def feasible(self, assign):
        """do the inputs really follow this path (evaluated by definition)?"""
        pm = self.ex.pure(assign)
        try:
            for c in self.ex.path_conds():
                if not pm.cond(c):
                    return None
        except core.NoEval:
            return None
        return pm

    def exception_candidate(self, msg):
        ex = self.ex
        key = ('exc', msg[:60])
        n = self.tried.get(key, 0)
        if n >= self.opts.get('max_same', 12):
            self.inconclusive('not re-examined: ' + msg[:60])
            return
        self.tried[key] = n + 1
        if os.environ.get('SX_DEBUG'):
            print('CANDIDATE', self.case, msg, getattr(self, 'cand_tb', ''), file=sys.stderr)
        assign = self.path_assign()
        if assign is None:
            return
        if self.feasible(assign) is None and ex._path_nonlinear([]):
            st, info = ex.precise([], self.opts.get('nra_ms', 20000))
            if st == 'unsat':
                return
            if st == 'sat':
                assign = info
            else:
                self.inconclusive('path feasibility unknown: ' + msg[:60])
                return
        self.try_candidate(msg, assign, ex.choices())

    def try_candidate(self, msg, assign, choices):
        key = ('v', msg[:60])
        n = self.tried.get(key, 0)
        if n >= self.opts.get('max_same', 12):
            self.res['unreproduced'].append((msg, 'not replayed (same message replayed %d times)' % n))
            return
        self.tried[key] = n + 1
        if assign is None:
            assign = {}
        st, msgs, obs, values = concrete_run(self.mod, self.case, assign, choices,
                                             self.opts.get('concrete_s', 20), self.plain)
        if st == 'fail':
            self.confirmed = True
            self.res['violations'].append(dict(message=msg, replayed=msgs[:5],
                                               assign={k: str(v) for k, v in assign.items()},
                                               values=values, choices=choices, case=self.case))
        else:
            if os.environ.get('SX_DEBUG'):
                print('UNREPRODUCED', self.case, msg, {k: str(v) for k, v in assign.items()}, choices, st, msgs,
                      file=sys.stderr)
                if getattr(self, 'cand_tb', None):
                    print(self.cand_tb, file=sys.stderr)
                    self.cand_tb = None
            self.res['unreproduced'].append((msg, st))

    def on_path(self, ex):
        if not self.finished:
            return
        self.res['witness'] += 1
        n = self.res['witness']
        lim = self.opts.get('validate', 4)
        if self.res['validated'] + len(self.res['mismatches']) >= lim:
            return
        if n > 2 and self.rng.random() > 0.3:
            return
        self.validate(ex)

    def validate(self, ex):
        """cross-check: the path's model, run on the unmodified code, shows the values predicted"""
        assign = self.path_assign()
        if assign is None:
            return
        pm = self.feasible(assign)
        if pm is None:
            return
        st, msgs, obs, values = concrete_run(self.mod, self.case, assign, ex.choices(), self.opts.get('concrete_s', 20),
                                             self.plain)
        if st == 'skip':
            return
        if st == 'fail':
            # the real code fails on a model of this path
            self.confirmed = True
            self.res['violations'].append(dict(message='path model: ' + msgs[0], replayed=msgs[:5],
                                               assign={k: str(v) for k, v in assign.items()},
                                               values=values, choices=ex.choices(), case=self.case))
            return
        want = self.h.observed
        bad = None
        if len(want) != len(obs):
            bad = 'observed %d values, real code %d' % (len(want), len(obs))
        else:
            for a, b in zip(want, obs):
                try:
                    if isinstance(a, core.SymReal):
                        av = pm.poly(a.p)
                        if isinstance(b, (str, bytes, type(None), tuple, list)) or abs(av - Fraction(b)) > Fraction(
                                3, 1000) + abs(av) / 1000000:
                            bad = 'value %s vs %s' % (float(av), b)
                            break
                    elif isinstance(a, core.SymBool):
                        if bool(pm.cond(a.c)) != bool(b):
                            bad = 'bool %s' % (b,)
                            break
                    elif isinstance(a, float) or isinstance(b, float):
                        if abs(a - b) > 3e-3:
                            bad = '%r vs %r' % (a, b)
                            break
                    elif a != b:
                        bad = '%r vs %r' % (a, b)
                        break
                except core.NoEval:
                    continue
                except TypeError:
                    bad = '%r vs %r' % (a, b)
                    break
        if bad and pm.on_boundary():
            # the model sits on a decision boundary, where rounded floats may fall on the other side
            self.res['boundary'] = self.res.get('boundary', 0) + 1
        elif bad:
            self.res['mismatches'].append((bad, {k: str(v) for k, v in assign.items()}, ex.choices()))
        else:
            self.res['validated'] += 1
            if len(self.res['samples']) < 2:
                self.res['samples'].append(dict(case=self.case, choices=ex.choices(), inputs=values))

    def go(self):
        self.sink = open(os.devnull, 'w')
        t0 = time.time()
        self.world = loader.World()
        ex = self.ex
        try:
            for m in getattr(self.mod, 'MODULES', ()):
                self.world.load(m)
            ex.explore(self.run_path, self.on_path, self.opts.get('max_paths'),
                       t0 + self.opts['case_s'] if self.opts.get('case_s') else None)
        except Exception:
            self.res['error'] = traceback.format_exc()
        core.CTX = None
        st = dict(ex.stats)
        self.res['stats'] = st
        self.res['complete'] = bool(getattr(ex, 'complete', False)) and not self.confirmed
        self.res['notes'] = ex.notes.get('notes', {})
        self.res['seen'] = sorted(self.world.seen)
        self.res['wall'] = time.time() - t0
        self.sink.close()
        return self.res


def _work(args):
    modname, case, opts, tier, deadline = args
    try:
        left = deadline - time.time()
        if left <= 0.5:
            return dict(case=case, skipped=True)
        mod = importlib.import_module(modname)
        opts = dict(opts)
        opts['case_s'] = min(opts.get('case_s', 1e9), left)
        import logging
        logging.disable(logging.CRITICAL)
        signal.signal(signal.SIGALRM, _on_alarm)
        return CaseRunner(mod, case, opts, tier).go()
    except BaseException:
        return dict(case=case, error=traceback.format_exc())


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def run_property(pid, tier, seed, jobs=None, only=None, verbose=False):
    t0 = time.time()
    modname = 'harness.' + pid.lower()
    mod = importlib.import_module(modname)
    budget = getattr(mod, 'BUDGET', {}).get(tier, 150 if tier == 'quick' else 800)
    cases = list(mod.cases(tier))
    if only is not None:
        cases = [c for i, c in enumerate(cases) if i in only]
    opts = {'seed': seed, 'validate': 3 if tier == 'quick' else 8}
    deadline = t0 + budget
    results = []
    jobs = jobs or min(8, max(1, len(cases)))
    tasks = [(modname, c, opts, tier, deadline) for c in cases]
    stop = False
    if jobs == 1:
        for t in tasks:
            r = _work(t)
            results.append(r)
            if r.get('violations'):
                break
    else:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(jobs, maxtasksperchild=getattr(mod, 'TASKS_PER_CHILD', 40))
        try:
            for r in pool.imap_unordered(_work, tasks):
                results.append(r)
                if r.get('violations'):
                    stop = True
                    break
        finally:
            pool.terminate()
            pool.join()
    return report(pid, mod, tier, seed, cases, results, stop, t0, verbose)


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def report(pid, mod, tier, seed, cases, results, stopped, t0, verbose):
    tot = {}
    viol, errors, unrep, mism, samples = [], [], [], [], []
    inconc = {}
    notes = {}
    seen = set()
    validated = witness = skipped = 0
    complete = not stopped and len(results) == len(cases)
    slow = []
    for r in results:
        if r.get('skipped'):
            skipped += 1
            complete = False
            continue
        if r.get('error'):
            errors.append((r['case'], r['error']))
        for k, v in (r.get('stats') or {}).items():
            tot[k] = tot.get(k, 0) + v
        viol += r.get('violations', [])
        unrep += [(r['case'],) + tuple(u) for u in r.get('unreproduced', [])]
        mism += [(r['case'],) + tuple(u) for u in r.get('mismatches', [])]
        samples += r.get('samples', [])
        for k, v in r.get('inconclusive', {}).items():
            inconc[k] = inconc.get(k, 0) + v
        for k, v in r.get('notes', {}).items():
            notes[k] = notes.get(k, 0) + v
        seen |= set(r.get('seen', ()))
        validated += r.get('validated', 0)
        witness += r.get('witness', 0)
        if not r.get('complete', False):
            complete = False
        slow.append((r.get('wall', 0), r['case'], (r.get('stats') or {}).get('paths')))
        if not r.get('error') and not r.get('witness') and not r.get('violations'):
            inconc['case without a completed path: %s' % json.dumps(jsonable(r['case']))] = 1
    if inconc or unrep or mism or tot.get('concretised') or errors:
        complete = False
    kf = known_findings()
    new, known = [], []
    for v in viol:
        m = [k for k in kf if k['property'] == pid and all(v['case'].get(a) == b for a, b in k.get('case', {}).items())
             and k.get('message', '') in v['replayed'][0]]
        (known if m else new).append((v, m))
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': validated,
            'exhaustive': bool(complete and not viol),
            'samples': jsonable(samples[:6]),
            'explanation': 'states = paths of the real code executed symbolically to completion or pruning; transitions'
                           ' = solver-decided branches; every obligation is an SMT query over all values of the '
                           'symbolic inputs on its path',
            'cases': len(cases), 'cases_not_started': skipped,
            'completed_paths': witness,
            'functions_encoded': sorted(seen),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'queries': tot.get('checks', 0),
            'solver_s': round(tot.get('solver_s', 0.0), 2),
            'obligations_stated': tot.get('obligations', 0),
            'obligations_discharged': tot.get('discharged', 0),
            'obligations_discharged_by_normalisation': tot.get('syntactic', 0),
            'nonlinear_queries': tot.get('precise', 0),
            'solver_unknown': tot.get('unknown', 0),
            'concretised': tot.get('concretised', 0),
            'inconclusive': inconc,
            'unreproduced_counterexamples': len(unrep),
            'model_mismatches': len(mism),
            'engine_notes': notes,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s tier=%s cases=%d paths=%d completed=%d queries=%d solver=%.1fs validated=%d exhaustive=%s wall=%.1fs' % (
        pid, tier, len(cases), tot.get('paths', 0), witness, tot.get('checks', 0), tot.get('solver_s', 0), validated,
        ev['coverage']['exhaustive'], wall))
    if verbose:
        for s in sorted(slow, key=lambda s: -s[0])[:8]:
            print('   slow', '%.1f' % s[0], s[1], s[2])
    for k, v in sorted(inconc.items())[:12]:
        print('INCONCLUSIVE property=%s %s (x%d)' % (pid, k, v))
    for u in unrep[:8]:
        print('INCONCLUSIVE property=%s counterexample not reproduced: %s' % (pid, u))
    for u in mism[:8]:
        print('MODEL-MISMATCH property=%s %s' % (pid, u))
    for c, e in errors[:4]:
        print('ERROR in case %s\n%s' % (c, e), file=sys.stderr)
    for v, m in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, m[0]['what']))
    if new:
        v = new[0][0]
        os.makedirs(REPLAY_DIR, exist_ok=True)
        path = os.path.join(REPLAY_DIR, '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump(dict(property=pid, case=jsonable(v['case']), choices=v['choices'], assign=v['assign'],
                           message=v['message'], replayed=v['replayed']), f, indent=1)
        print('  case %s' % json.dumps(jsonable(v['case'])))
        print('  inputs %s' % v['values'])
        for m in v['replayed'][:3]:
            print('  real code: %s' % m)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if len(mism) > validated:
        print('error: the symbolic model disagrees with the real code', file=sys.stderr)
        return 2
    if witness == 0:
        print('error: nothing decided', file=sys.stderr)
        return 2
    if errors and len(errors) == len(results):
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    'floating point numbers of the program under test are exact reals in the model; every assertion carries at least '
    '1e-6 of slack, and every reported violation is reproduced with real floats',
    'numerals of symbolic value appear in program text as unique plain decimal tokens (spelling of numerals is the '
    'subject of C04)',
    'log output is not modelled',
]


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module('harness.' + d['property'].lower())
    import logging
    logging.disable(logging.CRITICAL)
    st, msgs, obs, values = concrete_run(mod, d['case'], {k: Fraction(v) for k, v in d['assign'].items()},
                                         d['choices'])
    print('inputs:', values)
    print('result:', st)
    for m in msgs:
        print('  ', m)
    return 1 if st == 'fail' else 0


def main(argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--jobs', type=int)
    p.add_argument('--only')
    p.add_argument('-v', action='store_true')
    p.add_argument('--replay', action='store_true')
    a = p.parse_args(argv)
    sys.setrecursionlimit(5000)
    if a.replay:
        return replay(a.property)
    only = [int(i) for i in a.only.split(',')] if a.only else None
    return run_property(a.property, a.tier, a.seed, a.jobs, only, a.v)
