"""Common machinery: drives hypothesis, shrinks, writes replay + evidence files.

A check module (checks/<id>.py) defines

    PROPERTY = 'C01'
    SUBS = [Sub(name, strategy, run, quick=N, thorough=M), ...]
    RULE = 'what makes a case non-trivial'
    ASSUMPTIONS = [...]

strategy yields a JSON-serialisable case (dict); run(case) raises Violation or returns
a label / (label, nontrivial) describing the case.  Every random choice lives in the case
(numpy's global generator is seeded from case['rs'] when present).
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import pdb
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = '/repo/src'


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Reject(Exception):
    """the generated case is outside the property's domain (counted as trivial)"""


class Hang(BaseException):
    pass


class DebuggerEntered(Exception):
    pass


def fail(msg):
    raise Violation(msg)


def check(cond, msg, *args):
    if not bool(cond):
        raise Violation(msg % args if args else msg)


class Sub(object):
    def __init__(self, name, strategy, run, quick=200, thorough=None, shards=None,
                 case_limit=60):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.shards = shards
        self.case_limit = case_limit


# ----------------------------------------------------------------------------------------
def _no_debugger(*a, **k):
    raise DebuggerEntered('the code stopped in an interactive debugger (pdb.set_trace)')


def prepare_process():
    pdb.set_trace = _no_debugger
    sys.breakpointhook = _no_debugger
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')


class _Sink(io.TextIOBase):
    def write(self, s):
        return len(s)


def _from_repo(tb):
    """does the traceback pass through the code under test, at or below the last harness frame"""
    files = [f.filename for f in traceback.extract_tb(tb)]
    return any('/lop/' in f and '/verif/' not in f for f in files)


OUTPUT_SHAPE_ERRORS = (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError,
                       ArithmeticError)


SHRINK_SECONDS = 60
HANG_MSG = 'the call does not return'


def execute(sub, case):
    """Run one case.  Returns (label, nontrivial).  Raises Violation / HarnessError."""
    import numpy as np
    rs = case.get('rs', 0) if isinstance(case, dict) else 0
    np.random.seed(int(rs) % (2**32))
    random.seed(int(rs))
    out = _Sink()

    def on_alarm(signum, frame):
        raise Hang()
    # processor time, not wall time: a busy machine must not look like a hang
    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, sub.case_limit)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                res = sub.run(case)
    except (Violation, HarnessError, Reject):
        raise
    except Hang:
        raise Violation(HANG_MSG + ': no answer within %d s of processor time'
                        % sub.case_limit)
    except DebuggerEntered as e:
        raise Violation(str(e))
    except Exception as e:
        tb = sys.exc_info()[2]
        last = traceback.extract_tb(tb)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                            for f in reversed(last[-4:]))
        if _from_repo(tb) or isinstance(e, np.linalg.LinAlgError):
            raise Violation('unexpected %s: %s (%s)' % (type(e).__name__, e, where))
        if isinstance(e, OUTPUT_SHAPE_ERRORS) or (
                isinstance(e, AttributeError) and
                isinstance(e.obj, (type(None), int, float, str, tuple, list, set, dict,
                                   np.ndarray, np.generic))):
            raise Violation('result has an unusable form, %s: %s (%s)'
                            % (type(e).__name__, e, where))
        raise HarnessError(''.join(traceback.format_exception(type(e), e, tb)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    if res is None:
        return 'case', True
    if isinstance(res, tuple):
        return res
    return str(res), True


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _run_task(task):
    """one shard of one sub-check, in a worker process"""
    modname, subname, n, seed, deadline = task
    os.environ['VERIF_WORKER'] = '1'
    res = dict(sub=subname, evals=0, hashes=[], labels={}, samples=[], violation=None,
               error=None, skipped=0, rejected=0)
    scratch = tempfile.mkdtemp(prefix='verif_')
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        prepare_process()
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        mod = importlib.import_module(modname)
        sub = [s for s in mod.SUBS if s.name == subname][0]
        state = dict(last=None, stop=False, first=None)
        seen = set()

        def body(case):
            if state['first'] and time.time() - state['first'] > SHRINK_SECONDS:
                return
            if state['stop'] or time.time() > deadline:
                res['skipped'] += 1
                return
            res['evals'] += 1
            # a clean copy, so a mutated argument cannot leak into the replay file
            frozen = json.loads(json.dumps(case))
            try:
                label, nt = execute(sub, frozen)
            except Reject:
                res['rejected'] += 1
                return
            except Violation as e:
                state['last'] = (json.loads(json.dumps(case)), str(e))
                state['first'] = state['first'] or time.time()
                if str(e).startswith(HANG_MSG):
                    state['stop'] = True    # too slow to shrink
                    return
                raise
            except HarnessError as e:
                state['stop'] = True
                res['error'] = '%s\ncase: %s' % (e, json.dumps(case)[:2000])
                return
            for lab in str(label).split(','):
                res['labels'][lab] = res['labels'].get(lab, 0) + 1
            if nt:
                h = case_hash(frozen)
                if h not in seen:
                    seen.add(h)
                    if len(res['samples']) < 3:
                        res['samples'].append((label, case))
        runner = hypothesis.seed(seed)(settings(
            max_examples=n, database=None, deadline=None, derandomize=False,
            report_multiple_bugs=False, print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink])(given(sub.strategy)(body)))
        out = _Sink()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                runner()
        except Violation:
            pass
        except BaseException as e:
            if state['last'] is None and res['error'] is None:
                res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if state['last'] is not None and not res['error']:
            res['violation'] = state['last']
        res['hashes'] = sorted(seen)
    except BaseException as e:
        res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return res


# ----------------------------------------------------------------------------------------
def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('known', []) if e['property'] == prop]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    prop = a.property
    modname = 'checks.%s' % prop.lower()
    sys.path.insert(0, VERIF)
    prepare_process()
    try:
        mod = importlib.import_module(modname)
    except Exception:
        traceback.print_exc()
        print('ERROR: could not load the check or the code under test')
        return 2
    import lop
    if not os.path.abspath(lop.__file__).startswith(REPO_SRC):
        if not os.environ.get('VERIF_ALLOW_OTHER_TREE'):
            print('ERROR: lop imported from %s, not from %s' % (lop.__file__, REPO_SRC))
            return 2

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        sub = [s for s in mod.SUBS if s.name == rp['sub']][0]
        scratch = tempfile.mkdtemp(prefix='verif_')
        cwd = os.getcwd()
        os.chdir(scratch)
        try:
            lab = execute(sub, rp['case'])
            print('replay %s/%s: property holds on this case %s' % (prop, sub.name, lab))
            return 0
        except Violation as e:
            print('replay %s/%s: %s' % (prop, sub.name, e))
            print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(
                os.path.join(cwd, a.replay))))
            return 1
        finally:
            os.chdir(cwd)
            shutil.rmtree(scratch, ignore_errors=True)

    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    budget = 700 if a.tier == 'quick' else 7200
    deadline = t0 + budget
    ncpu = min(8, os.cpu_count() or 1)
    tasks = []
    for s in mod.SUBS:
        if a.only and s.name != a.only:
            continue
        n = max(1, int((s.quick if a.tier == 'quick' else s.thorough) * a.scale))
        shards = s.shards or (1 if n < 40 else 2 if n < 120 else 4 if n < 400 else 8)
        shards = max(1, min(shards, n))
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            sd = int(hashlib.sha1(('%s/%s/%d/%d' % (prop, s.name, k, seed)).encode())
                     .hexdigest()[:12], 16)
            tasks.append((modname, s.name, m, sd, deadline))
    # hot code paths (numba) are compiled lazily in each worker
    ctx = mp.get_context('fork')
    with ctx.Pool(ncpu, maxtasksperchild=None) as pool:
        results = []
        for r in pool.imap_unordered(_run_task, tasks, chunksize=1):
            results.append(r)
            if a.verbose:
                print('  %-28s evals %5d nontrivial %5d  %5.1fs' % (
                    r['sub'], r['evals'], len(r['hashes']), time.time() - t0), flush=True)
            if r['violation'] is not None and a.tier == 'quick':
                pass
    results.sort(key=lambda r: r['sub'])

    status = 0
    persub = {}
    nviol = 0
    reported = set()
    for r in results:
        p = persub.setdefault(r['sub'], dict(evals=0, nt=set(), labels={}, samples=[],
                                             rejected=0, skipped=0))
        p['evals'] += r['evals']
        p['rejected'] += r['rejected']
        p['skipped'] += r['skipped']
        p['nt'].update(r['hashes'])
        p['samples'] += r['samples']
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
        if r['violation'] is not None:
            nviol += 1
            if r['sub'] in reported:
                continue
            reported.add(r['sub'])
            case, msg = r['violation']
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s_%s_%s.json' % (prop, r['sub'], case_hash(case)))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, sub=r['sub'], seed=seed, message=msg,
                               case=case), f, indent=1)
            print('%s/%s: %s' % (prop, r['sub'], msg))
            print('  minimal case: %s' % json.dumps(case)[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            status = 1
    errors = [r for r in results if r['error']]
    for r in errors[:5]:
        print('HARNESS ERROR in %s/%s:\n%s' % (prop, r['sub'], r['error']))
    if errors and status == 0:
        status = 2

    # listed findings: each carries the exact case that fails; shown while it still fails
    known_report = []
    for e in load_known(prop):
        sub = [s for s in mod.KNOWN if s.name == e['sub']][0]
        scratch = tempfile.mkdtemp(prefix='verif_')
        cwd = os.getcwd()
        os.chdir(scratch)
        try:
            execute(sub, e['case'])
            known_report.append('no longer fails: ' + e['what'])
        except Violation as v:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
            known_report.append('still fails: ' + e['what'])
        finally:
            os.chdir(cwd)
            shutil.rmtree(scratch, ignore_errors=True)

    ev = sum(p['evals'] for p in persub.values())
    nt = sum(len(p['nt']) for p in persub.values())
    samples = []
    for name in sorted(persub):
        for lab, c in persub[name]['samples'][:2]:
            samples.append({'sub_check': name, 'class': lab, 'case': c})
    wall = time.time() - t0
    evidence = dict(
        property=prop, tier='thorough' if a.tier == 'thorough' else 'quick', seed=seed,
        level='exploration',
        coverage=dict(
            evaluations=ev, distinct_nontrivial=nt, rule=mod.RULE, samples=samples[:40],
            per_sub_check={k: dict(evaluations=p['evals'], distinct_nontrivial=len(p['nt']),
                                   classes=p['labels'], rejected=p['rejected'],
                                   not_run_for_time=p['skipped'])
                           for k, p in sorted(persub.items())},
            known_findings=known_report),
        wall_s=round(wall, 2), violations=nviol,
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(evidence, f, indent=1)
    for k, p in sorted(persub.items()):
        print('%s %-26s cases=%d nontrivial=%d classes=%s%s' % (
            prop, k, p['evals'], len(p['nt']), p['labels'],
            ' NOT-RUN(time)=%d' % p['skipped'] if p['skipped'] else ''))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s' % (
        prop, a.tier, seed, ev, nt, nviol, wall))
    return status


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
