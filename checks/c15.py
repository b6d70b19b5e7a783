from vlib import drive, env, gen
from vlib.harness import Check, close
from vlib.drive import sut

KEYS = ('dist', 'dh', 'he', 'dl', 'the', 'aref')


class CHECK(Check):
    id = 'C15'
    technique = 'metamorphic monitor: every path is run again with a shifted datum and with whole-number/floating-point forms of the same numbers, and the traces compared'
    rule = ('a case is one path with a datum offset, or one whole-number path in both number forms; non-trivial when geometry and attenuation were compared; '
            'signature: kind x regime x sign of offset x size bucket')
    quick = 200000
    thorough = 5500000
    assumptions = ('paths whose discontinuous decisions lie within 1e-9 of a tie, or that amplify a 1e-12 input change, are not judged',)

    def random(self, rng):
        c = gen.p2p_case(rng)
        if len(c['z']) > 200 and rng.random() < 0.7:
            c['z'] = c['z'][:rng.randint(2, 160)]
        if rng.random() < 0.4:
            c['z'] = [int(round(v)) for v in c['z']]
            c['hg'] = [max(1, int(round(h))) for h in c['hg']]
            c['xi'] = max(1, int(round(c['xi'])))
            return {'p': c, 'kind': 'repr'}
        off = rng.choice((rng.uniform(-1e4, 1e4), rng.uniform(-300, 300), 1000, -500, 1, 10000, -10000))
        zmin, zmax = min(c['z']), max(c['z'])
        if rng.random() < 0.3:
            off = -zmin if rng.random() < 0.5 else -zmax     # sea level at the lowest/highest point
        return {'p': c, 'kind': 'shift', 'off': off}

    def directed(self, rng):
        for off in (-10000.0, -1000.0, -100.0, -1.0, 1.0, 100.0, 1000.0, 10000.0):
            for n in (1, 2, 3, 8, 40, 157):
                for shape in ('flat', 'noise', 'dome', 'valley', 'ints'):
                    z, s = gen.terrain(rng, n, shape, 120.0)
                    yield {'p': {'sys': gen.system(rng), 'hg': [143.9, 8.5], 'xi': rng.choice((8e3, 70e3, 350e3)) / n, 'z': z, 'shape': s},
                           'kind': 'shift', 'off': off}

    def judge(self, case, obs):
        c = case['p']
        if case['kind'] == 'shift':
            d = dict(c, z=[v + case['off'] for v in c['z']])
        else:
            d = dict(c, z=[float(v) for v in c['z']], hg=[float(h) for h in c['hg']], xi=float(c['xi']))
        p = obs.call('point-to-point preparation', sut.qlrpfl, drive.p2p_prop(c))
        q = obs.call('point-to-point preparation', sut.qlrpfl, drive.p2p_prop(d))
        what = 'with the datum shifted by %r m' % case['off'] if case['kind'] == 'shift' else 'in floating-point form'
        cache = {}

        def hard():
            """reason not to judge, or None"""
            if 'r' not in cache:
                Ts = [drive.ref_p2p(x)[2] for x in (c, d)]
                cache['r'] = next((t.bad or 'tie: %s' % t.why for t in Ts if t.bad or t.m < drive.MARGIN), None)
            return cache['r']

        def spread(k, i):
            vs = [drive.flat(drive.ref_p2p(x, 's%d' % j)[0][k])[i] for j in range(6) for x in (c, d)]
            return max(vs) - min(vs)
        for k in KEYS:
            for i, (a, b) in enumerate(zip(drive.flat(p[k]), drive.flat(q[k]))):
                a, b = drive.num(a), drive.num(b)
                ok = close(a, b, 1e-7, 1e-9 if k == 'the' else 1e-6) or (a != a and b != b)
                if case['kind'] == 'repr':
                    ok = close(a, b, 1e-10, 1e-10) or (a != a and b != b)
                if not ok:
                    h = hard()
                    if h:
                        obs.skip(h)
                        return
                    s = spread(k, i)
                    if s != s or abs(a - b) <= 1e4 * s:
                        obs.skip('ill-conditioned: ' + k)
                        continue
                    obs.fail('%s is %r, but %r %s' % (k, a, b, what))
                obs.events += 1
                obs.judged += 1
        if p['kwx'] != q['kwx']:
            w, path, T = drive.ref_p2p(c)
            if hard() or path.kwx_init(1e-6)[1] or path.kwx_dist(w['dist'], 1e-6)[1]:
                obs.skip('tie: warning limit')
            else:
                obs.fail('warning level is %r, but %r %s' % (p['kwx'], q['kwx'], what))
        obs.tag(case['kind'], 'L' if p['dist'] < p['dlsa'] else 'S' if p['dist'] > p.get('dx', 1e9) else 'D',
                '-' if case.get('off', 0) < 0 else '+', drive.bucket(len(c['z']) - 1, (2, 5, 20, 100, 300)), c.get('shape'))
