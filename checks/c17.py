import math

from vlib import drive, gen, ref
from vlib.harness import Check, close
from vlib.drive import sut
from checks.c16 import any_path, as_prop, full


class CHECK(Check):
    id = 'C17'
    technique = 'online differential monitor at the call boundary of the line-of-sight function against the independent published formula'
    rule = ('a case is one path (with extended-diffraction coefficients) and several distances; non-trivial when a value was compared; signature: reflection '
            'reduction x phase limit x roughness x polarisation of the impedance')
    quick = 440000
    thorough = 18000000
    assumptions = ('distances at a two-ray null or within 1e-9 of the reflection switch are not judged',)

    def random(self, rng):
        c = any_path(rng)
        P = full(c)
        T = ref.Trk()
        c['emd'], c['aed'], c['wis'] = rng.uniform(1e-5, 3e-3), rng.uniform(-80, 60), rng.random()
        if rng.random() < 0.6:
            try:
                path = ref.Path(P, c['p2p'], T)
                if not T.bad:
                    c['emd'], c['aed'], c['wis'] = path.emd, path.aed, path.wis
            except (ValueError, ZeroDivisionError, OverflowError):
                pass
        dq = 2 * P['wn'] * P['he'][0] * P['he'][1] / 1.57
        c['d'] = [rng.choice((gen.val(rng, 1.0, 1000e3), P['dlsa'] * rng.uniform(0.001, 1), dq * (1 + rng.uniform(-0.2, 0.2)), dq * gen.logu(rng, 0.01, 100)))
                  for _ in range(rng.randint(1, 5))]
        c['d'] = [min(max(d, 1.0), 3e6) for d in c['d']]
        return c

    def directed(self, rng):
        for _ in range(200):
            c = self.random(rng)
            P = c['P']
            c['d'] = [2 * P['wn'] * P['he'][0] * P['he'][1] / q for q in (0.01, 1.0, 1.569, 1.571, 2.0, 10.0, 1000.0)]
            c['d'] = [min(max(d, 1.0), 3e6) for d in c['d']]
            yield c

    def judge(self, case, obs):
        P = full(case)
        p = as_prop(P, emd=case['emd'], aed=case['aed'], wis=case['wis'], mdp=-1 if case['p2p'] else 1)
        for d in case['d']:
            T = ref.Trk()
            w = ref.alos(d, P, case['emd'], case['aed'], case['wis'], T)
            g = obs.call('line-of-sight attenuation', sut.alos, d, p)

            def fn(j):
                import random
                r = random.Random(j)
                Q = {k: ([x * (1 + r.uniform(-1, 1) * 1e-12) for x in v] if isinstance(v, list) else v * (1 + r.uniform(-1, 1) * 1e-12)) for k, v in P.items()}
                return ref.alos(d * (1 + r.uniform(-1, 1) * 1e-12), Q, case['emd'], case['aed'], case['wis'], ref.Trk())
            drive.agree(obs, 'line-of-sight attenuation at %r m' % d, g, w, T, fn, 1e-8, 1e-7)
            q = P['wn'] * P['he'][0] * P['he'][1] * 2 / d
            h = P['he'][0] + P['he'][1]
            sps = h / math.sqrt(d * d + h * h)
            r2 = abs((sps - P['zgnd']) / (sps + P['zgnd']) * math.exp(-min(10.0, P['wn'] * ref.sigma_h(d, P['dh']) * sps))) ** 2
            obs.tag('lim' if q > 1.57 else 'free', 'lt.25' if r2 < 0.25 else 'ltsps' if r2 < sps else 'full',
                    'cap' if P['wn'] * ref.sigma_h(d, P['dh']) * sps > 10 else '')
            obs.sig = obs.sig[-3:]
