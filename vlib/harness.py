"""Monitor harness: workload drivers, observers, evidence and replays."""
import hashlib
import json
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

from . import env

EVID = os.path.join(env.VERIF, 'evidence')
REPL = os.path.join(env.VERIF, 'replays')
NPROC = max(1, min(8, os.cpu_count() or 1))
STEP_BUDGET = 20_000_000
CASE_ALARM = 60


class Stop(Exception):
    """the current case has been judged (violated) and needs no further steps"""


class Hang(BaseException):
    pass


class Obs:
    """What the monitors observed in one worker."""

    def __init__(self):
        self.events = 0          # monitor evaluations (oracle comparisons, state checks)
        self.counts = {}
        self.sigs = {}
        self.fails = []
        self.skips = {}
        self.sig = []
        self.judged = 0
        self.case = None
        self.strict = False

    def excused(self, e):
        """a numerical error instead of NaN, for a record the published model gives no value for"""
        if self.strict or self.case is None or not isinstance(e, (ArithmeticError, ValueError)):
            return False
        from . import drive
        return drive.undefined(self.case)

    def tag(self, *t):
        self.sig.extend(str(x) for x in t)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def ok(self, cond, msg, **data):
        self.events += 1
        self.judged += 1
        if not cond:
            self.fail(msg, **data)
        return cond

    def fail(self, msg, **data):
        self.events += 1
        self.judged += 1
        self.fails.append({'msg': msg, 'data': jsonable(data)})
        raise Stop()

    def call(self, what, fn, *a, **k):
        """call code under test; an exception is a violation"""
        try:
            return fn(*a, **k)
        except (Stop, Hang, KeyboardInterrupt):
            raise
        except BaseException as e:  # noqa: SystemExit from code under test counts too
            if self.excused(e):
                self.skip('raised where the published model has no value (judged by C28)')
                raise Stop()
            self.fail('%s raised %s: %s' % (what, type(e).__name__, e),
                      trace=traceback.format_exc()[-1500:])


def jsonable(x):
    import numbers
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, numbers.Real):
        return float(x)
    if isinstance(x, numbers.Complex):
        return [x.real, x.imag]
    return repr(x)


def close(a, b, rtol=1e-7, atol=1e-6):
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if a == b:
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


class Check:
    """One property's workload and monitors; subclassed in checks/."""
    id = None
    technique = ''
    rule = ''
    level_note = ''
    quick = 4000          # random cases per run (all workers together)
    thorough = 200000
    weight = 1.0
    assumptions = ()
    nproc = NPROC
    alarm = CASE_ALARM
    strict = False        # True: also judges completion where the published model has no value

    def setup(self):
        """per-worker initialisation"""

    def teardown(self):
        pass

    def directed(self, rng):
        return []

    def random(self, rng):
        raise NotImplementedError

    def judge(self, case, obs):
        raise NotImplementedError

    def mutate(self, case, rng):
        return None


def load_check(cid):
    import importlib
    mod = importlib.import_module('checks.%s' % cid.lower())
    return mod.CHECK()


# ---------------------------------------------------------------- line coverage
class Lines:
    """sys.monitoring line coverage of the code under test (evidence and guidance)."""
    TOOL = 3

    def __init__(self):
        self.seen = set()
        self.new = 0
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'verif-lines')
        except ValueError:
            self.active = False
            return
        self.active = True
        roots = (env.SRC + os.sep, env.SCRIPTS + os.sep, env.VIS + os.sep)

        def cb(code, line):
            f = code.co_filename
            if f.startswith(roots):
                self.seen.add((f[len(env.REPO) + 1:], line))
                self.new += 1
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.LINE, cb)
        mon.set_events(self.TOOL, mon.events.LINE)

    def take(self):
        n, self.new = self.new, 0
        return n


class Steps:
    """Counts lines executed by the code under test; raises Hang past a budget."""
    TOOL = 4

    def __init__(self, budget):
        self.n = 0
        self.budget = budget

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'verif-steps')
        roots = (env.SRC + os.sep, env.SCRIPTS + os.sep, env.VIS + os.sep)

        def cb(code, line):
            if not code.co_filename.startswith(roots):
                return mon.DISABLE
            self.n += 1
            if self.n > self.budget:
                raise Hang('more than %d lines executed' % self.budget)
        mon.register_callback(self.TOOL, mon.events.LINE, cb)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)
        return False


def _alarm(signum, frame):
    raise Hang('alarm')


def judge_one(check, case, obs):
    """run one case under the watchdog; returns True when it was judged quiet"""
    obs.sig = []
    obs.case, obs.strict = case, check.strict
    n0 = len(obs.fails)
    j0 = obs.judged
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, check.alarm, 5)
    try:
        check.judge(case, obs)
    except Stop:
        pass
    except (LookupError, TypeError, ValueError, ArithmeticError, AttributeError) as e:
        # what the code handed back does not have the shape every caller reads
        # (a missing entry, a non-number); a hook point that is gone is not that
        if isinstance(e, AttributeError) and 'module ' in str(e):
            raise
        obs.judged += 1
        obs.fails.append({'msg': 'the result cannot be read: %s: %s' % (type(e).__name__, e),
                          'data': {'trace': traceback.format_exc()[-1200:]}})
    except Hang:
        signal.setitimer(signal.ITIMER_REAL, 0)
        # wall time decides nothing: repeat it under a logical step budget
        try:
            with Steps(STEP_BUDGET) as st:
                try:
                    check.judge(case, obs)
                except Stop:
                    pass
            obs.count('slow_cases_within_step_budget')
        except Hang:
            obs.fails.append({'msg': 'no result after %d executed lines (endless loop)' % st.n, 'data': {}, 'hang': True})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return len(obs.fails) == n0, obs.judged > j0


def _worker(cid, seed, wid, nw, budget, deadline, conn):
    try:
        warnings.simplefilter('ignore')
        import numpy
        numpy.seterr(all='ignore')
        check = load_check(cid)
        obs = Obs()
        lines = Lines()
        try:
            check.setup()
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            if not any(f.filename.startswith((env.SRC + os.sep, env.SCRIPTS + os.sep, env.VIS + os.sep)) for f in tb):
                raise
            conn.send({'evals': 1, 'directed': 0, 'events': 1, 'seen': {b'load'}, 'sigs': {'load': 1}, 'counts': {}, 'skips': {}, 'lines': set(),
                       'samples': [], 'truncated': False, 'corpus': 0,
                       'viol': [{'case': {}, 'source': 'load', 'worker': wid, 'index': 0,
                                 'fail': {'msg': 'the code cannot be loaded: %s: %s' % (type(e).__name__, e), 'data': {'trace': traceback.format_exc()[-1200:]}}}]})
            conn.close()
            return
        rng = random.Random('%s/%d/%d' % (cid, seed, wid))
        evals = directed = 0
        seen = set()
        corpus = []
        samples = []
        viol = []
        t_end = deadline
        truncated = False

        def run(case, src):
            nonlocal evals
            evals += 1
            lines.take()
            quiet, judged = judge_one(check, case, obs)
            sig = ','.join(obs.sig)
            if judged:
                seen.add(hashlib.md5(json.dumps(case, sort_keys=True, default=repr).encode()).digest()[:8])
                obs.sigs[sig] = obs.sigs.get(sig, 0) + 1
                if obs.sigs[sig] == 1 and len(samples) < 6:
                    samples.append({'source': src, 'signature': sig, 'case': shorten(case)})
                if (lines.new or obs.sigs[sig] == 1) and len(corpus) < 400:
                    corpus.append(case)
            if not quiet:
                viol.append({'case': case, 'source': src, 'worker': wid, 'index': evals - 1,
                             'fail': obs.fails[-1]})

        def enough():
            return len(viol) >= 3 or any(v['fail'].get('hang') for v in viol)

        for i, case in enumerate(check.directed(random.Random('%s/directed/%d' % (cid, seed)))):
            if i % nw == wid:
                run(case, 'directed')
                directed += 1
                if enough():
                    break
                if time.time() > t_end:
                    truncated = True
                    break
        n = budget // nw + (1 if wid < budget % nw else 0)
        for i in range(n):
            if enough():
                break
            if time.time() > t_end:
                truncated = True
                break
            case = None
            if corpus and rng.random() < 0.25:
                case = check.mutate(rng.choice(corpus), rng)
            if case is None:
                case = check.random(rng)
            run(case, 'random')
        check.teardown()
        conn.send({'evals': evals, 'directed': directed, 'events': obs.events, 'seen': seen, 'sigs': obs.sigs,
                   'counts': obs.counts, 'skips': obs.skips, 'lines': lines.seen, 'samples': samples,
                   'viol': viol, 'truncated': truncated, 'corpus': len(corpus)})
    except BaseException:
        conn.send({'error': traceback.format_exc()})
    conn.close()


def shorten(x, n=12):
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        if len(x) > n:
            return [shorten(v, n) for v in x[:n]] + ['... %d more' % (len(x) - n)]
        return [shorten(v, n) for v in x]
    return jsonable(x)


def run_check(cid, tier, seed):
    t0 = time.time()
    sys.path.insert(0, env.VERIF)
    check = load_check(cid)
    budget = check.quick if tier == 'quick' else check.thorough
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    budget = max(1, int(budget * scale))
    cap = 400 if tier == 'quick' else 3 * 3600
    deadline = t0 + cap
    nw = check.nproc
    ctx = mp.get_context('fork')
    procs = []
    for w in range(nw):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(cid, seed, w, nw, budget, deadline, b))
        p.start()
        b.close()
        procs.append((p, a))
    res = []
    errs = []
    for p, a in procs:
        try:
            r = a.recv()
        except EOFError:
            r = {'error': 'worker died (exit code %s)' % p.exitcode}
        p.join()
        if 'error' in r:
            errs.append(r['error'])
        else:
            res.append(r)
    evals = sum(r['evals'] for r in res)
    events = sum(r['events'] for r in res)
    seen = set().union(*[r['seen'] for r in res]) if res else set()
    lines = set().union(*[r['lines'] for r in res]) if res else set()

    def merge(k):
        d = {}
        for r in res:
            for a, b in r[k].items():
                d[a] = d.get(a, 0) + b
        return d
    sigs, counts, skips = merge('sigs'), merge('counts'), merge('skips')
    viol = [v for r in res for v in r['viol']]
    samples = []
    for r in res:
        samples += r['samples'][:2]
    byfile = {}
    for f, _ in lines:
        byfile[f] = byfile.get(f, 0) + 1
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(seen), 'rule': check.rule,
            'samples': samples[:6],
            'monitor_events': events,
            'directed_cases': sum(r['directed'] for r in res),
            'distinct_signatures': len(sigs),
            'top_signatures': dict(sorted(sigs.items(), key=lambda t: -t[1])[:25]),
            'counters': counts, 'not_judged': skips,
            'lines_of_code_under_test_executed': byfile,
            'guided_corpus': sum(r['corpus'] for r in res),
            'stopped_by_time_cap': any(r['truncated'] for r in res),
        },
        'assumptions': list(check.assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    with open(os.path.join(EVID, cid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        os.makedirs(REPL, exist_ok=True)
        viol.sort(key=lambda v: len(json.dumps(v['case'], default=repr)))
        for i, v in enumerate(viol[:3]):
            path = os.path.join(REPL, '%s-%d-%d.json' % (cid, seed, i))
            with open(path, 'w') as f:
                json.dump({'property': cid, 'seed': seed, 'tier': tier, 'workers': nw, **v}, f, default=repr, indent=1)
            print('  %s' % v['fail']['msg'])
            d = json.dumps(v['fail']['data'], default=repr)
            if d != '{}':
                print('    ' + d[:600])
            print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    if errs:
        print('check %s: machinery error, no verdict' % cid)
        for e in errs[:2]:
            print(e)
        return 2
    if not events or not seen:
        print('check %s: the monitors observed nothing, no verdict' % cid)
        return 2
    print('%s held: %d cases (%d directed), %d distinct judged, %d monitor evaluations, %d signatures, %.1f s'
          % (cid, evals, ev['coverage']['directed_cases'], len(seen), events, len(sigs), time.time() - t0))
    return 0


def replay(path):
    """re-run a recorded violation: first the case alone, then its worker's history"""
    sys.path.insert(0, env.VERIF)
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    rec = json.load(open(path))
    if rec.get('source') == 'load':
        return run_check(rec['property'], rec['tier'], rec['seed'])
    check = load_check(rec['property'])
    obs = Obs()
    check.setup()
    judge_one(check, rec['case'], obs)
    check.teardown()
    if obs.fails:
        print('reproduced by the case alone:', obs.fails[-1]['msg'])
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    print('the case alone is quiet; replaying the recorded history (seed %s)' % rec['seed'])
    return run_check(rec['property'], rec['tier'], rec['seed'])
