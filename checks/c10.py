from vlib import drive, gen, ref
from vlib.harness import Check, close
from vlib.drive import sut


class CHECK(Check):
    id = 'C10'
    technique = 'online differential monitor against an independent detrended-interdecile oracle, plus metamorphic monitors (datum, tilt, reversal, scaling)'
    rule = ('a case is one profile and interval; non-trivial when the irregularity was compared; signature: resampling size x interval alignment x shape x '
            'short/long')
    quick = 200000
    thorough = 5500000
    assumptions = ('intervals within 1e-9 of a change of resampling size are not judged unless spacing makes the decision exact',)

    def directed(self, rng):
        # exact arithmetic: power-of-two spacing and whole numbers of steps around every change of the resampling size
        for w in list(range(1, 64)) + list(range(190, 270)):
            for a in (0, 1, 3):
                n = w + a + rng.randint(0, 3)
                z, s = gen.terrain(rng, n, rng.choice(('noise', 'walk', 'ints', 'fractal')), 80.0)
                yield {'z': z, 'xi': 64.0, 'x1': 64.0 * a, 'x2': 64.0 * (a + w), 'exact': True, 'shape': s}

    def random(self, rng):
        n = gen.npoints(rng)
        z, s = gen.terrain(rng, n)
        xi = gen.pathlen(rng) / n
        d = n * xi
        u = rng.random()
        if u < 0.3:
            x1, x2 = 0.0, d
        elif u < 0.6:
            x1, x2 = d * rng.uniform(0, 0.1), d * (1 - rng.uniform(0, 0.1))
        else:
            x1, x2 = sorted((rng.uniform(0, d), rng.uniform(0, d)))
        if rng.random() < 0.1:
            x2 = min(d, x1 + xi * rng.uniform(1.5, 2.5))
        return {'z': z, 'xi': xi, 'x1': x1, 'x2': x2, 'shape': s}

    def run(self, obs, z, xi, x1, x2):
        return drive.num(obs.call('terrain irregularity', sut.dlthx, [len(z) - 1, xi] + list(z), x1, x2))

    def judge(self, case, obs):
        z, xi, x1, x2 = case['z'], case['xi'], case['x1'], case['x2']
        n = len(z) - 1
        T = ref.Trk()
        want = ref.dlthx(n, xi, z, x1, x2, T)
        got = self.run(obs, z, xi, x1, x2)
        scale = max(1.0, max(z) - min(z), max(abs(v) for v in z))
        at = 1e-9 * scale
        w = (x2 - x1) / xi
        if not close(got, want, 1e-9, at):
            if T.m < 1e-9 and not case.get('exact'):
                obs.skip('tie: %s' % T.why)
                return
            obs.fail('terrain irregularity is %r, the detrended interdecile range is %r' % (got, want), interval=[x1, x2], steps=w)
        obs.ok(got >= 0, 'terrain irregularity is negative: %r' % got)
        if w < 2 - 1e-9:
            obs.ok(got == 0, 'terrain irregularity of an interval of %r steps is %r' % (w, got))
        if T.m >= 1e-9 or case.get('exact'):
            t = ref.Trk()
            zr = list(reversed(z))
            ref.dlthx(n, xi, zr, n * xi - x2, n * xi - x1, t)
            if t.m >= 1e-9 or case.get('exact'):
                back = self.run(obs, zr, xi, n * xi - x2, n * xi - x1)
                obs.ok(close(back, got, 1e-9, 10 * at), 'traversed backwards the irregularity is %r instead of %r' % (back, got))
            c, m = 137.0, 0.25
            tilt = self.run(obs, [v + c + m * i for i, v in enumerate(z)], xi, x1, x2)
            obs.ok(close(tilt, got, 1e-8, 1e-8 * (scale + c + m * n)), 'a datum shift and constant slope change the irregularity from %r to %r' % (got, tilt))
            dbl = self.run(obs, [2.0 * v for v in z], xi, x1, x2)
            obs.ok(close(dbl, 2 * got, 1e-9, 4 * at), 'doubling the terrain changes the irregularity from %r to %r' % (got, dbl))
        obs.tag('ka%d' % min(max(4, int(0.1 * (w + 8))), 25), 'short' if w < 2 else 'long', case.get('shape'), 'ex' if case.get('exact') else '')
