from vlib import drive, gen
from vlib.harness import Check
from vlib.drive import sut


class CHECK(Check):
    id = 'C01'
    technique = 'online differential monitor at the call boundary of point-to-point preparation against an independent ITM 1.2.2 reference, over stratified, hostile and dictionary-driven profiles'
    rule = ('a case is one system, antenna pair and terrain profile; it is non-trivial when the reference is well defined there and at '
            'least one geometry value or the attenuation was compared; the signature is regime x obstruction class x profile-size bucket '
            'x polarisation x shape')
    quick = 200000
    thorough = 5100000
    assumptions = ('the reference model in vlib/ref.py is a faithful reading of the published algorithm',
                   'inputs whose discontinuous decisions lie within 1e-9 (relative) of a tie are not judged')

    def directed(self, rng):
        base = {'sys': {'fmhz': 41.5, 'en0': 314, 'zsys': 0, 'ipol': 0, 'eps': 15, 'sgm': 0.005}}
        for n in list(range(1, 14)) + [34, 35, 41, 42, 43, 52, 156, 242, 243, 250, 300, 598, 599, 600, 999]:
            for shape in ('flat', 'line', 'noise', 'spike', 'ints', 'dome', 'endspike'):
                for d in (2e3, 30e3, 300e3):
                    for hg in ([143.9, 8.5], [2.0, 3.0], [800.0, 400.0]):
                        z, s = gen.terrain(rng, n, shape, rng.choice((3.0, 60.0, 400.0)))
                        yield dict(base, hg=hg, xi=d / n, z=z, shape=s)
        # every position of a single obstacle on short profiles
        for n in (2, 3, 4, 5, 8, 12, 40):
            for k in range(1, n):
                for h in (5.0, 300.0):
                    z = [0.0] * (n + 1)
                    z[k] = h
                    yield dict(base, hg=[10.0, 30.0], xi=12e3 / n, z=z, shape='one')
                    z2 = [abs((i * 7) % 5 - 2) * 1.0 for i in range(n + 1)]
                    z2[k] += h
                    yield dict(base, hg=[30.0, 10.0], xi=40e3 / n, z=z2, shape='one')

    def random(self, rng):
        return gen.p2p_case(rng)

    def mutate(self, case, rng):
        c = dict(case)
        k = rng.randrange(6)
        if k == 0:
            c['sys'] = gen.tweak_system(rng, case['sys'])
        elif k == 1:
            c['hg'] = list(case['hg'])
            c['hg'][rng.randrange(2)] = gen.height(rng)
        elif k == 2:
            c['xi'] = gen.pathlen(rng) / (len(case['z']) - 1)
        elif k == 3:
            z = list(case['z'])
            for _ in range(rng.randint(1, 3)):
                i = rng.randrange(len(z))
                z[i] = z[i] + rng.choice((-1, 1)) * gen.logu(rng, 0.1, 500)
            c['z'] = z
        elif k == 4:
            m = rng.randint(1, max(1, 2 * (len(case['z']) - 1)))
            z = case['z']
            d = case['xi'] * (len(z) - 1)
            c['z'] = [z[min(int(i * (len(z) - 1) / m), len(z) - 1)] for i in range(m + 1)]
            c['xi'] = d / m
        else:
            c['hg'] = [h * gen.logu(rng, 0.3, 3) for h in case['hg']]
            c['hg'] = [min(max(h, 0.5), 3000) for h in c['hg']]
        return c

    def judge(self, case, obs):
        want, path, T = drive.ref_p2p(case)
        prop = drive.p2p_prop(case)
        got = obs.call('point-to-point preparation', sut.qlrpfl, prop)
        los = want['dl'] is not None and want['dla'] > want['dist']
        if not T.bad:
            obs.count('regime_' + path.regime)
        obs.tag('bad' if T.bad else path.regime, 'los' if los else 'obstructed',
                drive.bucket(len(case['z']) - 1, (2, 3, 6, 12, 43, 160, 243, 600)), case['sys']['ipol'], case.get('shape'))
        drive.check_path(obs, got, want, T, lambda j: drive.ref_p2p(case, j)[0])
