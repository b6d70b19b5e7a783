import math

from vlib import drive, gen, ref
from vlib.harness import Check, close
from vlib.drive import sut
from checks.c16 import any_path, as_prop, around, full


class CHECK(Check):
    id = 'C18'
    technique = 'online differential monitors at the call boundaries of the scatter functions, over call histories that carry the frequency gain, and end-to-end on inadmissible paths'
    rule = ('a case is one path and a history of scatter distances, a whole path evaluated beyond its scatter boundary, or a batch of distance-function / '
            'frequency-gain arguments; non-trivial when a value was compared; signature: function x piece x admissibility')
    quick = 400000
    thorough = 15000000
    assumptions = ('inputs within 1e-9 of a breakpoint of a discontinuous piece are judged only in direct calls',)

    def directed(self, rng):
        for td in (1.0, 100.0, 9999.999, 10e3, 10000.001, 69999.99, 70e3, 70000.01, 1e6, 1e8):
            yield {'ahd': [td]}
        for et in (-1.0, 0.0, 0.5, 0.999999, 1.0, 1.5, 1.999999, 2.0, 2.3, 3.0, 3.7, 4.0, 4.999999, 5.0, 5.5, 9.0):
            for r in (0.05, 0.2, 1.0, 5.0, 100.0, 1e4):
                yield {'h0f': [[r, et]]}
        for _ in range(400):
            c = any_path(rng)
            d5 = sum(c['P']['dl']) + 200e3
            yield dict(c, d=[d5 + 200e3, d5])
            # low antennas and low frequency: inadmissible scatter angles
            c = any_path(rng)
            c['P']['hg'] = [rng.uniform(0.5, 2), rng.uniform(0.5, 2)]
            c['P']['he'] = list(c['P']['hg'])
            c['P']['wn'] = rng.uniform(0.419, 3)
            c['P']['the'] = [-rng.uniform(0, 0.02), -rng.uniform(0, 0.02)]
            d5 = sum(c['P']['dl']) + 200e3
            yield dict(c, d=[d5 + 200e3, d5])
            yield dict(c, whole=True, d=[gen.logu(rng, 1e3, 3e6) for _ in range(4)])

    def random(self, rng):
        u = rng.random()
        if u < 0.08:
            return {'ahd': [rng.choice((around(rng, 10e3, 70e3), gen.logu(rng, 1.0, 1e8))) for _ in range(10)]}
        if u < 0.2:
            return {'h0f': [[gen.logu(rng, 0.02, 1e5), rng.choice((rng.uniform(0, 7), around(rng, 1.0, 2.0, 3.0, 4.0, 5.0)))] for _ in range(10)]}
        c = any_path(rng)
        if rng.random() < 0.15:
            c['P']['hg'] = [rng.uniform(0.5, 3), rng.uniform(0.5, 3)]
            c['P']['he'] = list(c['P']['hg'])
            c['P']['wn'] = gen.logu(rng, 0.419, 3)
            c['P']['the'] = [rng.gauss(-0.01, 0.01), rng.gauss(-0.01, 0.01)]
        if rng.random() < 0.4:
            dla = sum(c['P']['dl'])
            return dict(c, whole=True, d=[rng.choice((dla * gen.logu(rng, 1, 30), gen.logu(rng, 50e3, 3e6))) for _ in range(3)])
        dla = sum(c['P']['dl'])
        d5 = dla + 200e3
        if rng.random() < 0.5:
            ds = [d5 + 200e3, d5]
        else:
            ds = [dla + gen.logu(rng, 10e3, 2e6) for _ in range(rng.randint(1, 5))]
        return dict(c, d=ds, h0s=rng.choice((-15, -15, -15, 0, 3.0, 14.999, 15.0, 15.001, 16.5)))

    def judge(self, case, obs):
        if 'ahd' in case:
            for t in case['ahd']:
                g, w = drive.num(obs.call('distance function', sut.ahd, t)), ref.ahd(t)
                obs.ok(close(g, w, 1e-10, 1e-9), 'distance function of %r is %r, published %r' % (t, g, w))
                obs.tag('ahd', drive.bucket(t, (10e3, 70e3)))
                obs.sig = obs.sig[-2:]
            return
        if 'h0f' in case:
            for r, et in case['h0f']:
                g, w = drive.num(obs.call('frequency gain', sut.h0f, r, et)), ref.h0f(r, et)
                obs.ok(close(g, w, 1e-9, 1e-9), 'frequency gain of (%r, %r) is %r, published %r' % (r, et, g, w))
                obs.tag('h0f', int(max(0, min(et, 6))), 'r%d' % int(math.log10(r)))
                obs.sig = obs.sig[-3:]
            return
        P = full(case)
        T = ref.Trk()

        def jit(j):
            import random
            r = random.Random(j)
            return {k: ([x * (1 + r.uniform(-1, 1) * 1e-12) for x in v] if isinstance(v, list) else v * (1 + r.uniform(-1, 1) * 1e-12)) for k, v in P.items()}
        if case.get('whole'):
            try:
                path = ref.Path(P, case['p2p'], T)
                want = [(d, path.aref(d), path.regime) for d in case['d'] if d >= path.dlsa]
            except (ValueError, ZeroDivisionError, OverflowError):
                obs.skip('oracle undefined')
                return
            for d, w, reg in want:
                p = as_prop(P, mdp=-1 if case['p2p'] else 1, dist=d, kwx=0)
                g = obs.call('reference attenuation', sut.lrprop, d, p)
                drive.agree(obs, 'reference attenuation at %r m (%s)' % (d, 'scatter available' if path.scatter_on else 'scatter inadmissible'), g['aref'], w, T,
                            lambda j: ref.Path(jit(j), case['p2p']).aref(d), 1e-7, 2e-6)
                obs.tag('whole', reg, 'on' if path.scatter_on else 'off')
                obs.sig = obs.sig[-3:]
                obs.count('inadmissible_paths' if not path.scatter_on else 'admissible_paths')
            return
        h0s = case.get('h0s', -15)
        sc = ref.Scat(P, T, h0s)
        p = as_prop(P, h0s=h0s, ad=sc.ad, rr=sc.rr, etq=sc.etq, ascat1=0, kwx=0, mdp=1)
        for i, d in enumerate(case['d']):
            w = sc.at(d)
            p = obs.call('scatter attenuation', sut.ascat, d, p)
            g = p['ascat1']

            def fn(j):
                s = ref.Scat(jit(j), ref.Trk(), h0s)
                v = None
                for x in case['d'][:i + 1]:
                    v = s.at(x)
                return v
            if w > 1000 and not (T.m < drive.MARGIN):
                obs.ok(drive.num(g) >= 1000, 'scatter attenuation at %r m is %r although the scatter angle is inadmissible' % (d, drive.num(g)))
            else:
                drive.agree(obs, 'scatter attenuation at %r m' % d, g, w, T, fn, 1e-8, 1e-7)
            obs.tag('sc', 'off' if w > 1000 else 'on', 'carry' if sc.h0s > 15 else '', i)
        obs.sig = sorted(set(obs.sig))[:4]
