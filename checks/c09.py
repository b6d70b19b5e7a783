from vlib import drive, gen
from vlib.harness import Check
from vlib.drive import sut


class CHECK(Check):
    id = 'C09'
    technique = 'online geometric oracle: every horizon answer is compared with a brute-force scan of the elevation angles of all profile points'
    rule = ('a case is one profile, antenna pair and curvature; non-trivial when the angles were compared; signature: horizon position class of each '
            'terminal (other terminal, first, last, interior) x profile-size bucket')
    quick = 300000
    thorough = 9100000
    assumptions = ('points whose elevation angles agree within 1e-11 rad are ties: either may be reported as the horizon',)

    def directed(self, rng):
        for n in (1, 2, 3, 4, 5, 6, 10, 40, 157, 600):
            for k in range(1, n):
                if n > 40 and k not in (1, 2, 3, n // 2, n - 3, n - 2, n - 1):
                    continue
                for h in (1.0, 25.0, 500.0):
                    z = [0.0] * (n + 1)
                    z[k] = h
                    yield {'z': z, 'xi': rng.choice((100.0, 33.3, 1000.0)), 'hg': [rng.choice((2.0, 60.0)), rng.choice((2.0, 60.0))], 'gme': 1.2e-7}
        for n in (2, 3, 5, 17, 100):
            for i in range(1, n):
                for j in {1, n - 1, n // 2} - {0, n}:
                    z = [float((7 * m) % 3) for m in range(n + 1)]
                    z[i] += 120.0
                    z[j] += 90.0
                    yield {'z': z, 'xi': 500.0, 'hg': [5.0, 12.0], 'gme': 1.0e-7}

    def random(self, rng):
        n = gen.npoints(rng)
        z, _ = gen.terrain(rng, n)
        xi = gen.pathlen(rng) / n
        hg = gen.heights(rng)
        if rng.random() < 0.3:
            hg = [gen.logu(rng, 20, 2000), gen.logu(rng, 20, 2000)]
        return {'z': z, 'xi': xi, 'hg': hg, 'gme': gen.val(rng, 50e-9, 250e-9)}

    def mutate(self, case, rng):
        c = dict(case)
        z = list(case['z'])
        for _ in range(rng.randint(1, 2)):
            z[rng.randrange(len(z))] += rng.choice((-1, 1)) * gen.logu(rng, 0.1, 300)
        c['z'] = z
        return c

    def judge(self, case, obs):
        z, xi, hg, gme = case['z'], case['xi'], case['hg'], case['gme']
        n = len(z) - 1
        dist = n * xi
        the, dl = obs.call('horizon search', sut.hzns, [n, xi] + list(z), dist, list(hg), gme)
        for j in (0, 1):
            here = z[0] + hg[0] if j == 0 else z[n] + hg[1]
            there = z[n] + hg[1] if j == 0 else z[0] + hg[0]
            cand = [((there - here) / dist - 0.5 * gme * dist, dist, 1e-11)]
            for i in range(1, n):
                s = i * xi if j == 0 else (n - i) * xi
                # rounding of a distance accumulated step by step, seen as an angle
                e = 1e-11 + (abs(z[i] - here) / s + gme * s) * (1e-15 * n * dist / s + 1e-14)
                cand.append(((z[i] - here) / s - 0.5 * gme * s, s, e))
            best, _, tol = max(cand)
            got = drive.num(the[j])
            obs.ok(abs(got - best) <= tol, 'horizon angle of terminal %d is %r, the terrain gives %r' % (j + 1, got, best))
            at = [s for a, s, e in cand if a >= best - 2 * tol - e]
            obs.ok(any(abs(drive.num(dl[j]) - s) <= 1e-9 * dist for s in at),
                   'horizon distance of terminal %d is %r, the terrain gives %r' % (j + 1, drive.num(dl[j]), at))
            d = drive.num(dl[j])
            k = round(d / xi)
            obs.tag('direct' if k == n else 'first' if k == 1 else 'last' if k == n - 1 else 'second' if k in (2, n - 2) else 'inner')
        obs.tag(drive.bucket(n, (2, 3, 6, 12, 43, 160, 300, 600)))
