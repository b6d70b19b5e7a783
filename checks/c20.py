import copy
import locale
import os
import random
import sys
import threading
import warnings

import numpy as np

from vlib import drive, elsewhere, env, gen
from vlib.fresh import Zygote
from vlib.harness import Check, Stop
from vlib.sched import Baton
from vlib.drive import sut

KEYS = ('dist', 'dh', 'he', 'dl', 'the', 'dlsa', 'dla', 'tha', 'aref', 'kwx')


def bits(v):
    """exact image of a result"""
    if isinstance(v, (list, tuple)):
        return [bits(x) for x in v]
    if isinstance(v, dict):
        return {str(k): bits(x) for k, x in v.items()}
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, complex) or hasattr(v, 'imag') and getattr(v, 'imag') != 0:
        return [float(v.real).hex(), float(v.imag).hex()]
    try:
        return float(v).hex()
    except (TypeError, ValueError):
        return repr(v)


def look(p):
    return [bits(p.get(k) if hasattr(p, 'get') else None) for k in KEYS]


def steps(task, rec=None):
    """a prediction as a generator: one call into the package per step; the value of each step is what it returned.
    rec is the parameter record of an earlier prediction, to be used again with all inputs set anew"""
    rec = {} if rec is None else rec
    k = task['kind']
    s = task['sys']
    ins = {}
    if k in ('p2p', 'area'):
        wn, gme, ens, zg = sut.qlrps(s['fmhz'], s['zsys'], s['en0'], s['ipol'], s['eps'], s['sgm'])
        yield ins, bits([wn, gme, ens, zg])
        qs = list(task['pcts'])
        ins['quantile list'] = (qs, list(task['pcts']))
        zs = sut.qerfi(qs)
        yield ins, bits(list(zs))
        hg = list(task['hg'])
        ins['antenna heights'] = (hg, list(task['hg']))
        p = drive.new_prop({'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': zg}, hg, klimx=task['klim'], mdvarx=task['mdvar'])
        p['hg'] = hg
        rec.update(p)
        p = rec
        if k == 'p2p':
            pfl = [len(task['z']) - 1, task['xi']] + list(task['z'])
            ins['terrain profile'] = (pfl, list(pfl))
            p['pfl'] = pfl
            p = sut.qlrpfl(p)
            yield ins, look(p)
        else:
            kst = list(task['kst'])
            ins['siting list'] = (kst, list(kst))
            p['dh'] = task['dh']
            p = sut.qlra(kst, p)
            yield ins, bits([p['he'], p['dl'], p['the']])
            for d in task['ds']:
                p['lvar'] = max(1, p['lvar'])
                p = sut.lrprop(d, p)
                yield ins, look(p)
                a, p = sut.avar(zs[0], zs[-1], zs[0], p)
                yield ins, bits(a)
        for z in zs:
            a, p = sut.avar(z, 0, zs[0], p)
            yield ins, bits(a)
        yield ins, bits([sut.qerf(z) for z in zs])
    elif k == 'runp2p':
        z = list(task['z'])
        hg = list(task['hg'])
        ins['terrain profile'] = (z, list(z))
        ins['antenna heights'] = (hg, list(hg))
        rec.update({'fmhz': s['fmhz'], 'hg': hg, 'd': task['xi'] * (len(z) - 1) / 1000, 'ipol': s['ipol']})
        out = env.script(task['run']).itmlogic_p2p(rec, z)
        yield ins, bits(out)
    elif k == 'runarea':
        hg = list(task['hg'])
        ins['antenna heights'] = (hg, list(hg))
        rec.update({'fmhz': s['fmhz'], 'hg': hg, 'dh': task['dh'], 'ipol': s['ipol']})
        out = env.script(task['run']).itmlogic_area(rec)
        yield ins, bits(out)
    elif k == 'runpimter':
        z = [float(v) for v in task['z']]
        ds = [i * task['xi'] for i in range(len(z))]
        ins['terrain profile'] = (z, list(z))
        ins['distance list'] = (ds, list(ds))
        yield ins, bits(env.script('pimter').run_itmlogic(z, ds))


def world():
    """settings of the whole process"""
    return {'numerical error handling': np.geterr(), 'random numbers': random.getstate(), 'NumPy random numbers': np.random.get_state()[1:3],
            'working directory': os.getcwd(), 'environment': dict(os.environ), 'warning filters': list(warnings.filters),
            'locale': locale.setlocale(locale.LC_ALL), 'recursion limit': sys.getrecursionlimit()}


def same(a, b):
    return a == b if not isinstance(a, tuple) or not isinstance(a[0], np.ndarray) else bool((a[0] == b[0]).all()) and a[1:] == b[1:]


def alone(task):
    with env.quiet():
        return [v for _, v in steps(task)]


class CHECK(Check):
    id = 'C20'
    technique = 'trace monitor: every prediction of an interleaved, repeated or concurrent history is compared bit for bit with the same prediction in a fresh process; snapshots of arguments and of process-wide settings; seeded line-level thread scheduler; re-runs in interpreters with another environment'
    rule = ('a case is 2-5 predictions (often differing in one parameter) run in sequence, on one reused parameter record, interleaved call by call, in threads under a seeded line-level '
            'scheduler, or 40 in a new interpreter with another environment; non-trivial when at least two predictions were compared with their fresh-process results; signature: mode x kinds x same/different system')
    quick = 3000
    thorough = 61000
    assumptions = ('a fresh process is the reference for the isolated result',)

    def setup(self):
        for n in ('p2p', 'p2p_2tiles', 'area', 'area_2tiles', 'pimter'):
            env.script(n)
        for n in env._FUN:
            getattr(sut, n)
        self.zyg = Zygote(alone)
        self.scheds = set()

    def teardown(self):
        self.zyg.close()

    def task(self, rng, kind=None):
        kind = kind or rng.choice(('p2p', 'p2p', 'area', 'area', 'runp2p', 'runarea', 'runpimter') if rng.random() < 0.4 else ('p2p', 'area'))
        c = gen.p2p_case(rng)
        m = rng.choice((6, 20, 60, 120))
        if kind == 'runpimter':
            m = min(m, 8)
        z = c['z'][:m + 1]
        a = gen.area_sys(rng)
        t = {'kind': kind, 'sys': c['sys'], 'hg': c['hg'], 'klim': rng.choice((rng.randint(1, 7), gen.klim(rng))), 'mdvar': gen.mdvar(rng),
             'pcts': [rng.choice((0.01, 0.1, 0.5, 0.9, 0.99, rng.random())) for _ in range(rng.randint(1, 4))]}
        if kind in ('p2p', 'runp2p', 'runpimter'):
            t['z'], t['xi'] = z, max(c['xi'], 1000.0 / (len(z) - 1))
        if kind in ('area', 'runarea'):
            t['dh'] = a['dh']
            t['kst'] = a['kst']
            t['ds'] = [gen.val(rng, 1e3, 1000e3) for _ in range(rng.randint(1, 4))]
        if kind == 'runp2p':
            t['run'] = rng.choice(('p2p', 'p2p_2tiles'))
        if kind == 'runarea':
            t['run'] = rng.choice(('area', 'area_2tiles'))
        return t

    def near(self, rng, t):
        """the same prediction with one input changed"""
        n = copy.deepcopy(t)
        o = self.task(rng, t['kind'])
        ks = ['sys', 'sys', 'hg', 'klim', 'mdvar', 'pcts'] + [k for k in ('z', 'xi', 'dh', 'kst', 'ds', 'run') if k in t]
        k = rng.choice(ks)
        if rng.random() < 0.35:
            # a change too small for a coarsely keyed cache to notice
            e = 1 + rng.choice((-1, 1)) * 10 ** rng.uniform(-7, -2)
            k = rng.choice(['fmhz', 'en0', 'eps', 'sgm', 'hg'] + [k for k in ('xi', 'dh', 'ds', 'z') if k in t])
            if k in n['sys']:
                n['sys'][k] = n['sys'][k] * e
            elif isinstance(n[k], list):
                i = rng.randrange(len(n[k]))
                n[k][i] = n[k][i] * e
            else:
                n[k] = n[k] * e
        elif k == 'sys':
            n['sys'] = gen.tweak_system(rng, t['sys'])
        elif k == 'hg':
            n['hg'][rng.randrange(2)] = o['hg'][0]
        elif k == 'z' and rng.random() < 0.6:
            i = rng.randrange(len(n['z']))
            n['z'][i] = n['z'][i] + rng.choice((-1, 1)) * gen.logu(rng, 1, 300)
        elif k == 'xi':
            n['xi'] *= rng.uniform(1.01, 2)
        else:
            n[k] = o[k]
        return n

    def random(self, rng):
        ts = [self.task(rng)]
        for _ in range(rng.randint(1, 4)):
            u = rng.random()
            if u < 0.55:
                ts.append(self.near(rng, rng.choice(ts)))
            elif u < 0.7:
                ts.append(copy.deepcopy(rng.choice(ts)))
            else:
                ts.append(self.task(rng))
        return {'mode': rng.choice(('seq', 'seq', 'inter', 'inter', 'reuse', 'reuse', 'thread')), 'tasks': ts, 'seed': rng.randrange(10 ** 9)}

    def directed(self, rng):
        for kind in ('p2p', 'area', 'runp2p', 'runarea', 'runpimter'):
            for mode in ('seq', 'inter', 'reuse', 'thread'):
                for _ in range(6):
                    t = self.task(rng, kind)
                    yield {'mode': mode, 'tasks': [t, self.near(rng, t), t, self.near(rng, t)], 'seed': rng.randrange(10 ** 9)}
        for i in range(len(elsewhere.VARIANTS)):
            for _ in range(2):
                yield {'mode': 'process', 'variant': i, 'tasks': [self.task(rng, rng.choice(('p2p', 'area', 'runp2p', 'runarea'))) for _ in range(40)], 'seed': 1}

    def judge(self, case, obs):
        tasks = case['tasks']
        rng = random.Random(case['seed'])
        want = []
        for t in tasks:
            r = self.zyg.ask(t)
            if r is None or r[0] != 'ok':
                if r and str(r[1]).startswith(('ValueError', 'ZeroDivisionError', 'OverflowError')) and drive.undefined(t):
                    obs.skip('raised where the published model has no value (judged by C28)')
                    return
                obs.fail('prediction failed in a fresh process: %s' % (r and r[1]), task=t)
            want.append(r[1])
        got = [[] for _ in tasks]
        inputs = [None] * len(tasks)

        def note(i, ins, v):
            got[i].append(v)
            inputs[i] = ins
        with env.quiet():
            if case['mode'] == 'process':
                res = elsewhere.run(tasks, elsewhere.VARIANTS[case['variant']])
                obs.ok(isinstance(res, list), 'predictions fail in another process: %s' % (res,), variant=elsewhere.VARIANTS[case['variant']])
                for i, r in enumerate(res):
                    obs.ok(r[0] == 'ok', 'a prediction failed in another process: %s' % (r[1],), variant=elsewhere.VARIANTS[case['variant']], task=tasks[i])
                    got[i] = r[1]
                obs.count('predictions_in_new_interpreters', len(tasks))
            elif case['mode'] == 'seq':
                for i, t in enumerate(tasks):
                    for ins, v in self.gen(obs, t):
                        note(i, ins, v)
            elif case['mode'] == 'reuse':
                rec = {}
                for i, t in enumerate(tasks):
                    for ins, v in self.gen(obs, t, rec):
                        note(i, ins, v)
                obs.count('predictions_on_a_used_record', len(tasks) - 1)
            elif case['mode'] == 'inter':
                gs = {i: self.gen(obs, t) for i, t in enumerate(tasks)}
                while gs:
                    i = rng.choice(sorted(gs))
                    try:
                        ins, v = next(gs[i])
                        note(i, ins, v)
                    except StopIteration:
                        del gs[i]
            else:
                def job(i):
                    def f():
                        for ins, v in steps(tasks[i]):
                            note(i, ins, v)
                    return f
                if case['seed'] % 3:
                    b = Baton(case['seed'], rng.choice((0.002, 0.02, 0.2)))
                    res = b.run([job(i) for i in range(len(tasks))])
                    obs.count('thread_switches', b.switches)
                    self.scheds.add(b.trace)
                    obs.counts['distinct_schedules'] = len(self.scheds)
                else:
                    res = [None] * len(tasks)
                    old = sys.getswitchinterval()
                    sys.setswitchinterval(1e-6)
                    bar = threading.Barrier(len(tasks))

                    def run(i):
                        bar.wait()
                        try:
                            res[i] = ('ok', job(i)())
                        except BaseException as e:
                            res[i] = ('err', '%s: %s' % (type(e).__name__, e))
                    ths = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(tasks))]
                    for t in ths:
                        t.start()
                    for t in ths:
                        t.join(50)
                    sys.setswitchinterval(old)
                    obs.count('free_running_thread_groups')
                for i, r in enumerate(res):
                    if r is None or r[0] != 'ok':
                        obs.fail('a concurrent prediction failed: %s' % (r and r[1]), task=tasks[i])
        for i, t in enumerate(tasks):
            obs.ok(len(got[i]) == len(want[i]), 'prediction %d of the history gave %d results, %d alone' % (i, len(got[i]), len(want[i])))
            for k, (a, b) in enumerate(zip(got[i], want[i])):
                obs.ok(a == b, 'prediction %d (%s), step %d differs from the same prediction in a fresh process' % (i, t['kind'], k),
                       mode=case['mode'], got=a, alone=b)
            for name, (now, then) in (inputs[i] or {}).items():
                obs.ok(list(now) == list(then), 'prediction %d (%s) changed the %s it was handed' % (i, t['kind'], name))
            obs.count('predictions_compared')
        obs.tag(case['mode'], '+'.join(sorted(t['kind'] for t in tasks)))

    def gen(self, obs, t, rec=None):
        g = steps(t, rec)
        while True:
            old = np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')     # as the interpreter starts
            w = world()
            try:
                x = next(g)
                for k, v in world().items():
                    if not same(w[k], v):
                        obs.fail('a prediction (%s) changed the %s of the process' % (t['kind'], k))
                obs.events += 1
            except StopIteration:
                return
            except Stop:
                raise
            except BaseException as e:
                obs.fail('prediction raised %s: %s' % (type(e).__name__, e), task=t)
            finally:
                np.seterr(**old)
            yield x
