from vlib import drive, gen
from vlib.harness import Check
from vlib.drive import sut
from checks.c04 import stat_sys, stat_prop


class CHECK(Check):
    id = 'C06'
    technique = 'trace monitor (monotone ladder) over sequences of quantile requests ordered in one coordinate, on directly given, area and point-to-point systems'
    rule = ('a case is one system and a ladder of 6-20 percentages in confidence, time or location with the other two fixed; non-trivial when the ladder '
            'has a strict rise; signature: climate x mode x coordinate x source of the system')
    quick = 300000
    thorough = 8200000
    assumptions = ('a drop below 1e-7 dB is rounding, not a violation',)

    def ladder(self, rng):
        n = rng.randint(6, 20)
        ps = {rng.choice((0.001, 0.01, 0.1, 0.5, 0.9, 0.99, 0.999)) for _ in range(3)}
        while len(ps) < n:
            u = rng.random()
            ps.add(rng.uniform(0.001, 0.999) if u < 0.5 else (10 ** rng.uniform(-3, -0.3) if u < 0.75 else 1 - 10 ** rng.uniform(-3, -0.3)))
        if rng.random() < 0.5:
            # a tight cluster, where a local reversal would hide from a coarse ladder
            c = rng.uniform(0.01, 0.99)
            ps |= {min(max(c + rng.uniform(-0.01, 0.01), 0.001), 0.999) for _ in range(8)}
        return sorted(ps)

    def random(self, rng):
        u = rng.random()
        if u < 0.6:
            c = {'src': 'direct', 'st': stat_sys(rng)}
        elif u < 0.8:
            c = {'src': 'area', 'a': gen.area_sys(rng), 'd': gen.val(rng, 1e3, 1500e3), 'klim': rng.randint(1, 7), 'mdvar': gen.mdvar(rng)}
        else:
            q = gen.p2p_case(rng)
            if len(q['z']) > 80:
                q['z'] = q['z'][:80]
            c = {'src': 'p2p', 'p': q, 'klim': rng.randint(1, 7), 'mdvar': rng.choice((11, gen.mdvar(rng)))}
        c['coord'] = rng.randrange(3)
        c['fix'] = [gen.deviate(rng), gen.deviate(rng), gen.deviate(rng)]
        c['p'] = c.get('p')
        c['ladder'] = self.ladder(rng)
        return c

    def directed(self, rng):
        for kl in range(1, 8):
            for md in (0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 32, 33):
                for co in range(3):
                    for d in (20e3, 130e3, 500e3):
                        for z in (-2.5, 0.0, 2.5):
                            s = stat_sys(rng)
                            s.update(klim=kl, mdvar=md, dist=d, aref=rng.choice((0.0, 5.0, 60.0)))
                            yield {'src': 'direct', 'st': s, 'coord': co, 'fix': [z, z, z], 'ladder': self.ladder(rng)}

    def judge(self, case, obs):
        if case['src'] == 'direct':
            p = stat_prop(case['st'])
        elif case['src'] == 'area':
            p = obs.call('area preparation', sut.qlra, list(case['a']['kst']), drive.area_prop(case['a'], klimx=case['klim'], mdvarx=case['mdvar']))
            p = obs.call('distance evaluation', sut.lrprop, case['d'], p)
        else:
            p = obs.call('point-to-point preparation', sut.qlrpfl, drive.p2p_prop(case['p'], klimx=case['klim'], mdvarx=case['mdvar']))
        if not drive.num(p['aref']) >= 0:
            obs.skip('attenuation undefined')
            return
        zs = obs.call('percentage to deviate', sut.qerfi, list(case['ladder']))
        last = None
        rise = False
        for pc, z in zip(case['ladder'], zs):
            r = list(case['fix'])
            r[case['coord']] = z
            a, p = obs.call('quantile', sut.avar, *r, p)
            a = drive.num(a)
            if last is not None:
                obs.ok(a >= last[1] - 1e-7, 'loss falls from %r dB at %r to %r dB at %r' % (last[1], last[0], a, pc),
                       coordinate=('time', 'location', 'confidence')[case['coord']], fixed=case['fix'])
                rise = rise or a > last[1] + 1e-6
            last = (pc, a)
        obs.count('ladders_with_rise' if rise else 'flat_ladders')
        obs.tag(case['src'], 'k%s' % p['klim'], 'm%s' % p['mdvar'], 'c%d' % case['coord'], 'rise' if rise else 'flat')
