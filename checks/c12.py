import math

from vlib import drive, gen, ref
from vlib.harness import Check
from vlib.drive import sut


class CHECK(Check):
    id = 'C12'
    technique = 'online accuracy monitor against the exact normal distribution (erfc and its bisected inverse) on dense and random arguments, plus order and symmetry monitors'
    rule = ('a case is a batch of 8-60 deviates or fractions (dense sweeps in the directed part); non-trivial when accuracy was judged; signature: function x region')
    quick = 100000
    thorough = 4000000
    assumptions = ('math.erfc is exact to 1e-15',)

    def directed(self, rng):
        for k in range(-120, 121):
            lo = k / 10.0
            yield {'f': 'qerf', 'v': [lo + i / 400.0 for i in range(40)]}
        yield {'f': 'qerf', 'v': [0.0, -0.0, 9.9, 9.999999, 10.0, -10.0, 10.1, 50.0, -50.0, 1e6, -1e6, 1e-12, -1e-12]}
        yield {'f': 'qerf', 'v': [0, 1, 2, 3, -1, -2, -3, 10, -10]}
        for k in range(0, 100):
            yield {'f': 'qerfi', 'v': [(k + i / 50.0) / 100.0 for i in range(50)]}
        yield {'f': 'qerfi', 'v': [1e-6, 2e-6, 5e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.5, 0.99, 0.999, 0.9999, 0.99999, 1 - 1e-6]}
        yield {'f': 'qerfi', 'v': [0.0, 1.0, 1e-7, 1e-9, 1 - 1e-7, 0.5]}
        yield {'f': 'qerfi', 'v': [0.5]}
        yield {'f': 'qerfi', 'v': []}
        yield {'f': 'qerfi', 'v': [0, 1]}

    def random(self, rng):
        if rng.random() < 0.4:
            return {'f': 'qerf', 'v': [rng.choice((rng.uniform(-6, 6), rng.gauss(0, 1), rng.uniform(-12, 12), gen.deviate(rng))) for _ in range(rng.randint(8, 40))]}
        v = []
        for _ in range(rng.randint(1, 60)):
            u = rng.random()
            v.append(rng.random() if u < 0.5 else 10 ** rng.uniform(-6, -0.3) if u < 0.7 else 1 - 10 ** rng.uniform(-6, -0.3) if u < 0.9
                     else rng.choice((0.01, 0.1, 0.5, 0.9, 0.99, 0.001, 0.999, 1e-6, 1 - 1e-6)))
        return {'f': 'qerfi', 'v': v}

    def judge(self, case, obs):
        v = case['v']
        if case['f'] == 'qerf':
            pts = []
            for z in v:
                g = drive.num(obs.call('normal probability', sut.qerf, z))
                w = ref.q_true(z)
                obs.ok(abs(g - w) <= 7.5e-8, 'probability beyond %r is %r, true %r' % (z, g, w))
                m = drive.num(obs.call('normal probability', sut.qerf, -z))
                obs.ok(abs(g + m - 1) <= 2e-8 or z == 0, 'probabilities beyond %r and %r add up to %r' % (z, -z, g + m))
                pts.append((z, g))
                obs.tag('q%d' % min(12, int(abs(z))))
            pts.sort()
            for a, b in zip(pts, pts[1:]):
                obs.ok(b[1] <= a[1] + 2e-8, 'probability rises from %r at %r to %r at %r' % (a[1], a[0], b[1], b[0]))
            obs.sig = sorted(set(obs.sig))[:4]
            return
        arg = list(v)
        g = obs.call('normal deviate', sut.qerfi, arg)
        obs.ok(arg == v, 'the list of fractions was altered')
        obs.ok(len(g) == len(v), '%d fractions give %d deviates' % (len(v), len(g)))
        for q, z in zip(v, g):
            z = drive.num(z)
            qc = min(max(q, 1e-6), 1 - 1e-6)
            w = ref.qi_true(qc)
            obs.ok(abs(z - w) <= 4.5e-4 + 6e-5 + 1e-9, 'deviate of fraction %r is %r, true %r' % (q, z, w))
            one = drive.num(obs.call('normal deviate', sut.qerfi, [q])[0])
            obs.ok(one == z, 'deviate of %r is %r in a list but %r alone' % (q, z, one))
            if q != 0.5:
                m = drive.num(obs.call('normal deviate', sut.qerfi, [1 - q])[0])
                obs.ok(abs(m + z) <= 1.01e-4, 'deviates of %r and %r are %r and %r' % (q, 1 - q, z, m))
            back = drive.num(obs.call('normal probability', sut.qerf, z))
            obs.ok(abs(back - qc) <= 5.2e-4 * 0.4, 'fraction %r converts to %r and back to %r' % (q, z, back))
        pts = sorted(zip(v, map(drive.num, g)))
        for a, b in zip(pts, pts[1:]):
            obs.ok(b[1] <= a[1] + 1.01e-4 if b[0] > a[0] else b[1] == a[1], 'deviate rises from %r at %r to %r at %r' % (a[1], a[0], b[1], b[0]))
        obs.tag('qi', drive.bucket(len(v), (1, 2, 5, 20, 50)))
