from vlib import drive, gen, ref
from vlib.harness import Check, close
from vlib.drive import sut
from checks.c02 import distances


class CHECK(Check):
    id = 'C14'
    technique = 'metamorphic monitor: every prediction is run a second time with the terminals exchanged and the two traces compared'
    rule = ('a case is one path (profile or area system with distances) and some quantile requests, run in both directions; non-trivial when the attenuation '
            'was compared; signature: mode x regime x asymmetry of heights, horizons and siting')
    quick = 240000
    thorough = 6400000
    assumptions = ('paths whose discontinuous decisions lie within 1e-9 of a tie, or that amplify a 1e-12 input change, are not judged',)

    def directed(self, rng):
        for n in (1, 2, 3, 5, 9, 30, 157, 300):
            for k in {1, 2, n // 2, n - 2, n - 1}:
                for shape in ('noise', 'flat', 'ints'):
                    for d in (5e3, 60e3, 400e3):
                        z, s = gen.terrain(rng, n, shape, 40.0)
                        if 0 < k < n:
                            z[k] += 200
                        c = {'sys': gen.system(rng), 'hg': rng.choice(([143.9, 8.5], [2.0, 300.0], [30.0, 30.5])), 'xi': d / n, 'z': z, 'shape': s}
                        yield {'p': c, 'klim': rng.randint(1, 7), 'mdvar': 11, 'q': [[1.2, 0, -0.8], [-0.5, 0, 1.5]]}
        for k in ((0, 1), (1, 0), (0, 2), (2, 1), (1, 1), (2, 2)):
            for hg in ([3.3, 1.3], [1.0, 800.0], [4.0, 6.0]):
                for dh in (0.0, 90.0, 700.0):
                    c = gen.area_sys(rng)
                    c.update(kst=list(k), hg=hg, dh=dh)
                    yield self.area(c, rng)

    def area(self, c, rng):
        return {'a': c, 'd': distances(rng, drive.ref_area(c)[1], rng.randint(1, 4)), 'klim': rng.randint(1, 7), 'mdvar': gen.mdvar(rng),
                'q': [[gen.deviate(rng), gen.deviate(rng), gen.deviate(rng)]]}

    def random(self, rng):
        if rng.random() < 0.5:
            return self.area(gen.area_sys(rng), rng)
        c = gen.p2p_case(rng)
        if len(c['z']) > 200 and rng.random() < 0.7:
            c['z'] = c['z'][:rng.randint(2, 160)]
        return {'p': c, 'klim': rng.randint(1, 7), 'mdvar': rng.choice((11, 11, gen.mdvar(rng))),
                'q': [[gen.deviate(rng), gen.deviate(rng), gen.deviate(rng)]]}

    def same(self, obs, what, a, b, T2, spread, at=1e-6, rt=1e-7):
        a, b = drive.num(a), drive.num(b)
        if close(a, b, rt, at) or (a != a and b != b):
            obs.events += 1
            obs.judged += 1
            return
        for T in T2():
            if T.bad:
                obs.skip('oracle undefined: ' + T.bad)
                return
            if T.m < drive.MARGIN:
                obs.skip('tie: %s' % T.why)
                return
        s = spread()
        if s != s or abs(a - b) <= 1e4 * s:
            obs.skip('ill-conditioned: ' + what)
            return
        obs.fail('%s is %r one way and %r the other' % (what, a, b))

    def judge(self, case, obs):
        sw = {'klimx': case['klim'], 'mdvarx': case['mdvar']}
        if 'p' in case:
            c = case['p']
            r = dict(c, hg=c['hg'][::-1], z=c['z'][::-1])
            p = obs.call('point-to-point preparation', sut.qlrpfl, drive.p2p_prop(c, **sw))
            q = obs.call('point-to-point preparation', sut.qlrpfl, drive.p2p_prop(r, **sw))
            steps = [None]

            def T2():
                return (drive.ref_p2p(c)[2], drive.ref_p2p(r)[2])

            def spread(key='aref', d=None, i=0):
                vs = [drive.flat(drive.ref_p2p(c, 's%d' % k)[0][key])[i] for k in range(6)]
                return max(vs) - min(vs)
            self.same(obs, 'terrain irregularity', p['dh'], q['dh'], T2, lambda: spread('dh'))
        else:
            c = case['a']
            r = dict(c, hg=c['hg'][::-1], kst=c['kst'][::-1])
            p = obs.call('area preparation', sut.qlra, list(c['kst']), drive.area_prop(c, **sw))
            q = obs.call('area preparation', sut.qlra, list(r['kst']), drive.area_prop(r, **sw))
            steps = case['d']

            def T2():
                out = []
                for x in (c, r):
                    _, path, T = drive.ref_area(x)
                    for d in steps:
                        path.aref(d)
                    out.append(T)
                return out

            def spread(key='aref', d=None, i=0):
                if key == 'aref':
                    vs = [drive.ref_area(c, 's%d' % k)[1].aref(d) for k in range(6)]
                else:
                    vs = [drive.flat(drive.ref_area(c, 's%d' % k)[0][key])[i] for k in range(6)]
                return max(vs) - min(vs)
        for d in steps:
            if d is not None:
                p['lvar'] = max(p['lvar'], 1)
                q['lvar'] = max(q['lvar'], 1)
                p = obs.call('distance evaluation', sut.lrprop, d, p)
                q = obs.call('distance evaluation', sut.lrprop, d, q)
            for k in ('he', 'dl', 'the'):
                for i in (0, 1):
                    self.same(obs, '%s of terminal %d' % (k, i + 1), p[k][i], q[k][1 - i], T2, lambda: spread(k, d, i), at=1e-9 if k == 'the' else 1e-6)
            self.same(obs, 'reference attenuation', p['aref'], q['aref'], T2, lambda: spread('aref', d))
            if p['kwx'] != q['kwx']:
                near = False
                try:
                    if 'p' in case:
                        w, path, T = drive.ref_p2p(c)
                        dd = w['dist']
                    else:
                        path = drive.ref_area(c)[1]
                        dd = d
                    near = bool(path.kwx_init(1e-7)[1] or path.kwx_dist(dd, 1e-7)[1])
                except ValueError:
                    near = True
                if near or any(T.bad or T.m < drive.MARGIN for T in T2()):
                    obs.skip('tie: warning limit')
                else:
                    obs.fail('warning level is %r one way and %r the other' % (p['kwx'], q['kwx']))
            if not drive.num(p['aref']) >= 0:
                continue
            for z in case['q']:
                a, p = obs.call('quantile', sut.avar, *z, p)
                b, q = obs.call('quantile', sut.avar, *z, q)
                self.same(obs, 'quantile of attenuation', a, b, T2, lambda: spread('aref', d))
            reg = 'L' if p['dist'] < p['dlsa'] else 'S' if p['dist'] > p.get('dx', 1e9) else 'D'
            obs.tag('p2p' if d is None else 'area', reg)
        obs.tag('hg' if c['hg'][0] != c['hg'][1] else '', 'dl' if p['dl'][0] > p['dl'][1] else '', 'he' if p['he'][0] > p['he'][1] else '')
