import numpy as np

from vlib import gen
from vlib.harness import Check
from vlib.drive import sut


class CHECK(Check):
    id = 'C13'
    technique = 'online oracle by counting (an entry has the requested rank iff the right numbers of entries lie above and at it), with a monitor on the argument'
    rule = ('a case is one sequence; every rank (or 40 of them) is requested; non-trivial when a rank was judged; signature: length bucket x ties x order')
    quick = 120000
    thorough = 4500000

    def directed(self, rng):
        for n in list(range(1, 12)) + [35, 245, 600, 1001, 5000]:
            for kind in range(5):
                yield self.make(rng, n, kind)

    def make(self, rng, n, kind):
        if kind == 0:
            a = [rng.uniform(-100, 100) for _ in range(n)]
        elif kind == 1:
            a = [rng.randint(0, 4) for _ in range(n)]
        elif kind == 2:
            a = sorted(rng.uniform(-5, 5) for _ in range(n))
        elif kind == 3:
            a = sorted((rng.gauss(0, 1) for _ in range(n)), reverse=True)
        else:
            a = [rng.choice((-1, 1)) * 10 ** rng.uniform(-8, 8) for _ in range(n)]
        return {'a': a, 'kind': kind, 'ranks': sorted(set(rng.sample(range(n), min(n, 40)) + [0, n - 1]))}

    def random(self, rng):
        n = rng.choice((rng.randint(1, 8), rng.randint(1, 60), rng.randint(30, 300)))
        if rng.random() < 0.002:
            n = rng.randint(300, 4000)
        return self.make(rng, n, rng.randrange(5))

    def judge(self, case, obs):
        a = case['a']
        exact = lambda v: v.item() if isinstance(v, np.generic) else v
        for r in case['ranks']:
            arg = list(a)
            v = obs.call('rank selection', sut.qtile, arg, r)
            v = exact(v)
            above = sum(x > v for x in a)
            at = sum(x == v for x in a)
            obs.ok(at > 0 and above <= r < above + at, 'rank %d of %d entries gives %r (%d above, %d equal)' % (r, len(a), v, above, at))
            obs.ok(arg == a, 'rank selection altered its input')
        want = sorted(a, reverse=True)
        r = case['ranks'][len(a) % len(case['ranks'])]
        forms = [('tuple', tuple(a)), ('array', np.array(a)), ('array view', np.array([a, a]).T[:, 0])]
        if case['kind'] == 1:
            forms += [('array of 16 bit integers', np.array(a, dtype='int16')), ('array of bytes', np.array(a, dtype='uint8'))]
        for name, t in forms:
            v = obs.call('rank selection (%s)' % name, sut.qtile, t, r)
            v = exact(v)
            obs.ok(v == want[r], 'rank %d of a %s is %r, should be %r' % (r, name, v, want[r]))
            obs.ok(list(t) == a, 'rank selection altered its input (%s)' % name)
            obs.count('form: ' + name)
        obs.tag(len(a) if len(a) < 12 else gen.math.ceil(len(a) / 50) * 50, case['kind'])
