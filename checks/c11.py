from vlib import drive, gen, ref
from vlib.harness import Check, close
from vlib.drive import sut


class CHECK(Check):
    id = 'C11'
    technique = 'online differential monitor against an independent weighted least-squares fit, with decisive degenerate intervals on exact spacings'
    rule = ('a case is one profile and interval; non-trivial when the fitted end heights were compared; signature: spanned-points bucket x alignment x '
            'end clamping x size bucket')
    quick = 320000
    thorough = 12000000
    assumptions = ('interval ends within 1e-9 of a profile point are judged only where the spacing makes the division exact',)

    def directed(self, rng):
        for n in (1, 2, 3, 4, 5, 9, 30):
            for a in range(0, n + 1):
                for b in range(a, n + 1):
                    for fa in (0.0, 0.25):
                        for fb in (0.0, 0.25):
                            x1, x2 = 32.0 * (a + fa), 32.0 * (b + fb)
                            if x2 < x1 or n > 5 and rng.random() < 0.7:
                                continue
                            z = [float(rng.randint(0, 50)) for _ in range(n + 1)]
                            yield {'z': z, 'xi': 32.0, 'x1': x1, 'x2': x2, 'exact': True}
        for n in (1, 2, 7, 60):
            z = [float(rng.randint(0, 50)) for _ in range(n + 1)]
            for x1, x2 in ((-100.0, 1e9), (0.0, 0.0), (32.0 * n, 32.0 * n), (-5.0, 32.0), (32.0 * n - 8, 32.0 * n + 900)):
                yield {'z': z, 'xi': 32.0, 'x1': x1, 'x2': x2, 'exact': True}

    def random(self, rng):
        n = gen.npoints(rng)
        z, s = gen.terrain(rng, n)
        exact = rng.random() < 0.3
        xi = float(2 ** rng.randint(2, 11)) if exact else gen.pathlen(rng) / n
        d = n * xi
        if exact:
            a = rng.randint(0, 4 * n) / 4
            b = rng.randint(0, 4 * n) / 4
            if rng.random() < 0.2:
                b = a
            a, b = min(a, b), max(a, b)
            return {'z': z, 'xi': xi, 'x1': a * xi, 'x2': b * xi, 'exact': True}
        x1, x2 = sorted((rng.uniform(0, d), rng.uniform(0, d)))
        if rng.random() < 0.15:
            x1, x2 = -x1 * 0.1, d * 1.1
        elif rng.random() < 0.15:
            x2 = min(d, x1 + xi * rng.uniform(0, 2))
        return {'z': z, 'xi': xi, 'x1': x1, 'x2': x2}

    def judge(self, case, obs):
        z, xi, x1, x2 = case['z'], case['xi'], case['x1'], case['x2']
        n = len(z) - 1
        T = ref.Trk()
        w0, wn = ref.zlsq1(n, xi, z, x1, x2, T)
        a, b = int(max(x1 / xi, 0)), n - int(max(n - x2 / xi, 0))
        if T.m < 1e-9 and not case.get('exact'):
            obs.skip('tie')
            return
        g0, gn = obs.call('terrain fit', sut.zlsq1, [n, xi] + list(z), x1, x2)
        sc = max(1.0, max(abs(v) for v in z)) * max(1.0, n / max(1, b - a))
        obs.ok(close(g0, w0, 1e-8, 1e-9 * sc), 'fitted height at the start is %r, least squares gives %r' % (drive.num(g0), w0), interval=[x1, x2], spanned=[a, b])
        obs.ok(close(gn, wn, 1e-8, 1e-9 * sc), 'fitted height at the end is %r, least squares gives %r' % (drive.num(gn), wn), interval=[x1, x2], spanned=[a, b])
        # a straight line is reproduced
        c, m = 41.0, 0.5
        l0, ln = obs.call('terrain fit', sut.zlsq1, [n, xi] + [c + m * i for i in range(n + 1)], x1, x2)
        obs.ok(close(l0, c, 1e-9, 1e-9 * (c + m * n)) and close(ln, c + m * n, 1e-9, 1e-9 * (c + m * n)),
               'a straight line from %r to %r is fitted as %r to %r' % (c, c + m * n, drive.num(l0), drive.num(ln)), interval=[x1, x2])
        obs.tag('deg' if b <= a else drive.bucket(b - a, (2, 3, 5, 20, 100)), 'L' if a == 0 else '', 'R' if b >= n else '', 'ex' if case.get('exact') else '',
                drive.bucket(n, (2, 3, 10, 100, 400)))
