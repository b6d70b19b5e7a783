import copy

from vlib import drive, gen
from vlib.harness import Check, close
from vlib.drive import sut
from checks.c02 import distances

KEYS = ('aref', 'dist', 'dlsa', 'dla', 'tha')


class CHECK(Check):
    id = 'C03'
    technique = 'trace monitor over histories of distance evaluations on one prepared system, each step compared with a fresh evaluation of that distance alone'
    rule = ('a case is one prepared system and a history of 2-14, sometimes up to 300, distance evaluations (shuffled, repeated, regime-crossing, with zero-distance calls '
            'and state snapshots restored half-way); non-trivial when at least two positive distances were compared; signature: sequence of regimes')
    quick = 108000
    thorough = 3000000

    def finish(self, c, rng):
        path = drive.ref_area(c)[1]
        k = rng.randint(60, 200) if rng.random() < 0.006 else rng.randint(2, 7)
        ds = distances(rng, path, k)
        if rng.random() < 0.5:
            ds.append(path.dlsa * rng.uniform(0.02, 0.9))
            ds.append(path.dlsa * rng.uniform(0.02, 0.9))
        if rng.random() < 0.5:
            ds.append(path.dlsa * rng.uniform(1.01, 10))
        u = rng.random()
        if u < 0.2:
            ds.sort()
        elif u < 0.4:
            ds.sort(reverse=True)
        else:
            rng.shuffle(ds)
        ops = []
        for d in ds:
            d = min(max(d, 50.0), 3000e3)
            if rng.random() < 0.15:
                ops.append(0)
            ops.append(d)
            if rng.random() < 0.15:
                ops.append(d)
            if rng.random() < 0.08:
                ops.append('copy')
            if rng.random() < 0.1:
                ops.append(rng.choice(ds))
        c['ops'] = ops
        return c

    def random(self, rng):
        return self.finish(gen.area_sys(rng), rng)

    def mutate(self, case, rng):
        c = dict(case)
        ops = list(case['ops'])
        rng.shuffle(ops)
        c['ops'] = ops
        return c

    def directed(self, rng):
        for _ in range(60):
            c = gen.area_sys(rng)
            path = drive.ref_area(c)[1]
            lo = [path.dlsa * f for f in (0.9, 0.1, 0.5, 0.1)]
            hi = [path.dlsa * f for f in (1.5, 20, 3, 1.01)]
            for ops in (lo, hi, lo + hi, hi + lo, [0] + lo, [0] + hi, [lo[0], hi[0], lo[1], hi[1]], [lo[0], 0, lo[1]], [hi[0], 0, hi[1]],
                        [lo[0], lo[1], lo[0]], [hi[1], hi[0], hi[1]], [0, 0, lo[2], hi[2]]):
                yield dict(c, ops=[min(max(x, 50.0), 3000e3) if x else 0 for x in ops])

    def fresh(self, case, d, obs):
        p = obs.call('area preparation', sut.qlra, list(case['kst']), drive.area_prop(case))
        return obs.call('distance evaluation', sut.lrprop, d, p)

    def judge(self, case, obs):
        p = obs.call('area preparation', sut.qlra, list(case['kst']), drive.area_prop(case))
        sig = ''
        done = []
        zero = False
        for op in case['ops']:
            if op == 'copy':
                p = copy.deepcopy(p)
                continue
            p = obs.call('distance evaluation', sut.lrprop, op, p)
            done.append(op)
            if op == 0:
                sig += '0'
                zero = True
                continue
            f = self.fresh(case, op, obs)
            for k in KEYS + (('dx',) if 'dx' in f else ()):
                a, b = drive.num(p.get(k, 'missing')), drive.num(f.get(k, 'missing'))
                same = close(a, b, 1e-9, 1e-9) or (a != a and b != b)
                obs.ok(same, '%s at %r m is %r after the history, %r when evaluated alone' % (k, op, a, b), history=done)
            if zero and 'dx' in p:
                obs.count('all_coefficients_defined')
            sig += 'L' if op < f['dlsa'] else ('S' if 'dx' in f and op > f['dx'] else 'D')
        obs.count('steps', len(done))
        obs.tag(''.join(c for i, c in enumerate(sig) if not i or sig[i - 1] != c)[:8])
