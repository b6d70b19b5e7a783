import math

from vlib import drive, gen, ref
from vlib.harness import Check, close
from vlib.drive import sut


def around(rng, *vs):
    v = rng.choice(vs)
    k = rng.randrange(5)
    return (v, math.nextafter(v, -1e300), math.nextafter(v, 1e300), v * (1 + rng.uniform(-0.1, 0.1)), v * gen.logu(rng, 0.1, 10))[k]


def any_path(rng):
    """hg he dl the dh wn ens gme zgnd of a prepared or synthetic path"""
    u = rng.random()
    if u < 0.5:
        c = gen.area_sys(rng)
        g, path, T = drive.ref_area(c)
        P = dict(path.P)
        p2p = False
    else:
        c = gen.system(rng)
        k = gen.consts(c)
        hg = gen.heights(rng)
        he = [h * rng.choice((1.0, rng.uniform(1, 4), rng.uniform(1, 50))) for h in hg]
        dls = [math.sqrt(2 * h / k['gme']) for h in he]
        dl = [d * rng.uniform(0.05, 2.5) for d in dls]
        P = dict(k, hg=hg, he=he, dl=dl, the=[rng.gauss(0, 0.02), rng.gauss(0, 0.02)],
                 dh=0.0 if rng.random() < 0.1 else gen.val(rng, 0.1, 1500.0))
        p2p = rng.random() < 0.6
    return {'P': {q: P[q] for q in ('hg', 'he', 'dl', 'the', 'dh', 'wn', 'ens', 'gme')}, 'z': [P['zgnd'].real, P['zgnd'].imag], 'p2p': p2p}


def full(c):
    P = dict(c['P'], zgnd=complex(*c['z']))
    dls = [math.sqrt(2 * h / P['gme']) for h in P['he']]
    P['dlsa'] = dls[0] + dls[1]
    P['dla'] = P['dl'][0] + P['dl'][1]
    P['tha'] = max(P['the'][0] + P['the'][1], -P['dla'] * P['gme'])
    return P


def as_prop(P, **kw):
    q = {k: (list(v) if isinstance(v, list) else v) for k, v in P.items()}
    q.update(kw)
    return q


class CHECK(Check):
    id = 'C16'
    technique = 'online differential monitors at the call boundaries of the diffraction, knife-edge and height-gain functions against independent published formulas'
    rule = ('a case is one prepared path with several distances, or a batch of knife-edge or height-gain arguments in every piece and at its breakpoints; '
            'non-trivial when a value was compared; signature: function x piece')
    quick = 440000
    thorough = 20000000
    assumptions = ('paths for which the published formula has no real value are not judged',)

    def directed(self, rng):
        for v in (1e-9, 1e-6, 1e-5, 1e-4, 0.01, 1, 5.7599999, 5.76, 5.7600001, 6, 100, 1e6, 1e9):
            yield {'kn': [v]}
        for x in (-50.0, -1.0, 0.0, 0.5, 1.0, 1.0000001, 50.0, 199.99999, 200.0, 200.00001, 1000.0, 1999.9999, 2000.0, 2000.0001, 1e5):
            for pk in (1e-7, 9.99e-6, 1e-5, 1.001e-5, 1e-4, 1e-3, 0.01, 0.05, 0.2, 0.9, 1.0, 1.5, 3.0):
                yield {'fh': [[x, pk]]}
        for _ in range(300):
            c = any_path(rng)
            yield dict(c, d=self.dists(c, rng))

    def dists(self, c, rng):
        P = full(c)
        xae = (P['wn'] * P['gme'] ** 2) ** (-1 / 3)
        d3 = max(P['dlsa'], 1.3787 * xae + P['dla'])
        return [rng.choice((d3, d3 + 2.7574 * xae, P['dla'] + xae * gen.logu(rng, 0.05, 40), P['dla'] * gen.logu(rng, 1.001, 20), P['dla'] + gen.logu(rng, 10.0, 2e6)))
                for _ in range(rng.randint(1, 5))]

    def random(self, rng):
        u = rng.random()
        if u < 0.15:
            return {'kn': [rng.choice((around(rng, 5.76), 10 ** rng.uniform(-8, 9), rng.uniform(0, 12) + 1e-12, gen.from_dict(rng, 1e-9, 1e9) or 1.0)) for _ in range(10)]}
        if u < 0.4:
            v = []
            for _ in range(10):
                x = rng.choice((around(rng, 1.0, 200.0, 2000.0), gen.logu(rng, 0.01, 1e5), -gen.logu(rng, 0.01, 1e3), rng.uniform(0, 2500)))
                pk = rng.choice((around(rng, 1e-5), gen.logu(rng, 1e-8, 4.0), gen.logu(rng, 1e-3, 1.5)))
                if rng.random() < 0.2 and 0 < x < 200:
                    w = (5495.0 / x) ** (1 / 3) * (1 + rng.uniform(-1e-3, 1e-3))
                    pk = math.exp(-w) if w < 40 else pk
                v.append([x, pk])
            return {'fh': v}
        c = any_path(rng)
        return dict(c, d=self.dists(c, rng))

    def judge(self, case, obs):
        if 'kn' in case:
            for v in case['kn']:
                g, w = drive.num(obs.call('knife edge', sut.aknfe, v)), ref.aknfe(v)
                obs.ok(close(g, w, 1e-10, 1e-9), 'knife-edge attenuation of %r is %r, published %r' % (v, g, w))
                obs.tag('kn', int(v >= 5.76))
            obs.sig = sorted(set(obs.sig))
            return
        if 'fh' in case:
            for x, pk in case['fh']:
                T = ref.Trk()
                w = ref.fht(x, pk, T)
                wl = -math.log(pk)
                g = drive.num(obs.call('height gain', sut.fht, x, pk))
                if x < 200 and abs(x * wl ** 3 - 5495) < 1e-6 or not math.isfinite(w):
                    obs.skip('tie: fht 5495')
                    continue
                obs.ok(close(g, w, 1e-9, 1e-9), 'height gain of (%r, %r) is %r, published %r' % (x, pk, g, w))
                obs.tag('fh', drive.bucket(x, (0, 1, 200, 2000)), int(pk < 1e-5), int(x * wl ** 3 > 5495))
                obs.sig = obs.sig[-4:]
            return
        P = full(case)
        T = ref.Trk()
        try:
            D = ref.Diff(P, case['p2p'], T)
            want = [D.at(d) for d in case['d']]
        except (ValueError, ZeroDivisionError, OverflowError):
            obs.skip('oracle undefined')
            return
        p = as_prop(P, mdp=-1 if case['p2p'] else 1, kwx=0)
        z, p = obs.call('diffraction setup', sut.adiff, 0, p)
        obs.ok(z == 0, 'the setup call returns %r' % z)

        def refn(j, i):
            import random
            r = random.Random(j)
            Q = {k: ([x * (1 + r.uniform(-1, 1) * 1e-12) for x in v] if isinstance(v, list) else v * (1 + r.uniform(-1, 1) * 1e-12)) for k, v in P.items()}
            try:
                return ref.Diff(Q, case['p2p'], ref.Trk()).at(case['d'][i])
            except (ValueError, ZeroDivisionError, OverflowError):
                return None
        for i, (d, w) in enumerate(zip(case['d'], want)):
            if not math.isfinite(w):
                obs.skip('the published formula has no value')
                continue
            g, p = obs.call('diffraction attenuation', sut.adiff, d, p)
            drive.agree(obs, 'diffraction attenuation at %r m' % d, g, w, T, lambda j: refn(j, i), 1e-8, 1e-7)
        obs.tag('ad', int(case['p2p']), 'rough' if P['dh'] > 50 else 'smooth', 'afo' if D.afo >= 15 else '', 'cap' if P['dh'] * P['wn'] > 6283.2 else '')
