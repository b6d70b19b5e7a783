from vlib import drive, gen
from vlib.harness import Check
from vlib.drive import sut


def distances(rng, path, k=1):
    """distances around every regime boundary of a path, and everywhere else"""
    out = []
    for _ in range(k):
        u = rng.random()
        if u < 0.35:
            try:
                b = rng.choice((path.dlsa, path.dx, path.dla, path.dmin, 1e3, 1000e3, 2000e3))
            except Exception:
                b = path.dlsa
            d = b * (1 + rng.choice((-1, 1)) * 10 ** rng.uniform(-12, -0.3))
        elif u < 0.7:
            d = gen.val(rng, 100.0, 3000e3, (1.0, 1000.0))
        elif u < 0.85:
            d = path.dlsa * rng.uniform(0.01, 1)
        else:
            d = path.dlsa * gen.logu(rng, 1, 30)
        if not 100.0 <= d <= 3000e3:
            d = gen.logu(rng, 100.0, 3000e3)
        out.append(d)
    return out


class CHECK(Check):
    id = 'C02'
    technique = 'online differential monitor at the call boundaries of area preparation and distance evaluation against an independent ITM 1.2.2 reference'
    rule = ('a case is one system, siting pair, irregularity and up to four distances placed around and between the regime boundaries; '
            'non-trivial when a siting result or attenuation was compared; signature: sitings x regime x polarisation x override pattern x starting level')
    quick = 270000
    thorough = 10000000
    assumptions = ('the reference model in vlib/ref.py is a faithful reading of the published algorithm',
                   'inputs whose discontinuous decisions lie within 1e-9 (relative) of a tie are not judged')

    def directed(self, rng):
        for k0 in (-1, 0, 1, 2, 3):
            for k1 in (-1, 0, 1, 2, 3):
                for hg in ([0.5, 0.5], [3.3, 1.3], [4.99, 5.0], [5.0, 4.99], [5.01, 30.0], [10.0, 10.0], [1000.0, 3000.0]):
                    for dh in (0.0, 0.0005, 1.0, 91.0, 700.0):
                        c = gen.area_sys(rng)
                        c.update(kst=[k0, k1], hg=hg, dh=dh)
                        yield self.finish(c, rng)

    def finish(self, c, rng):
        path = drive.ref_area(c)[1]
        c['d'] = distances(rng, path, rng.randint(1, 4))
        c['klimx'] = rng.choice((0, 0, -1, 1, 2, 3, 4, 5, 6, 7, 9))
        c['mdvarx'] = rng.choice((-1, -1, 0, 1, 2, 3, 11, 13, 23, 33))
        c['klim'] = gen.klim(rng)
        c['mdvar'] = gen.mdvar(rng)
        c['lvar'] = rng.randint(0, 5)
        return c

    def random(self, rng):
        return self.finish(gen.area_sys(rng), rng)

    def mutate(self, case, rng):
        c = dict(case)
        k = rng.randrange(4)
        if k == 0:
            c['sys'] = gen.tweak_system(rng, case['sys'])
        elif k == 1:
            c['hg'] = list(case['hg'])
            c['hg'][rng.randrange(2)] = gen.height(rng)
        elif k == 2:
            c['dh'] = gen.val(rng, 0.1, 1000.0)
        else:
            c['kst'] = list(case['kst'])
            c['kst'][rng.randrange(2)] = rng.choice((0, 1, 2))
        return self.finish(c, rng)

    def judge(self, case, obs):
        g, path, T = drive.ref_area(case)
        p = drive.area_prop(case, klim=case['klim'], mdvar=case['mdvar'], klimx=case['klimx'], mdvarx=case['mdvarx'],
                            lvar=case['lvar'])
        got = obs.call('area preparation', sut.qlra, list(case['kst']), p)
        drive.check_path(obs, got, g, T, lambda j: drive.ref_area(case, j)[0], ('he', 'dl', 'the'))
        lv = max(case['lvar'], 3)
        md, kl = case['mdvar'], case['klim']
        if case['mdvarx'] >= 0:
            md, lv = case['mdvarx'], max(lv, 4)
        if case['klimx'] > 0:
            kl, lv = case['klimx'], 5
        obs.ok(got['mdvar'] == md, 'variability mode after preparation is %r, expected %r' % (got['mdvar'], md))
        obs.ok(got['klim'] == kl, 'climate after preparation is %r, expected %r' % (got['klim'], kl))
        obs.ok(got['lvar'] == lv, 'recomputation level after preparation is %r, expected %r' % (got['lvar'], lv))
        obs.tag(case['kst'][0], case['kst'][1], case['sys']['ipol'], 'c%d' % (case['klimx'] > 0), 'm%d' % (case['mdvarx'] >= 0))
        for d in case['d']:
            want = path.aref(d)
            got = obs.call('distance evaluation', sut.lrprop, d, got)
            obs.ok(got['dist'] == d, 'path distance is %r after evaluating %r' % (got['dist'], d))
            obs.count('regime_' + path.regime)
            obs.tag(path.regime)
            w = {'dlsa': path.dlsa, 'dla': path.dla, 'tha': path.tha, 'aref': want}
            keys = ('dlsa', 'dla', 'tha', 'aref')
            if path.regime != 'los':
                w['dx'] = path.dx
                keys += ('dx',)

            def refn(j):
                q = drive.ref_area(case, j)[1]
                a = q.aref(d)
                return {'dlsa': q.dlsa, 'dla': q.dla, 'tha': q.tha, 'aref': a, 'dx': q.dx if 'dx' in keys else None}
            drive.check_path(obs, got, w, T, refn, keys, 'at %r m: ' % d)
