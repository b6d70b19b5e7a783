from vlib import drive, env, gen, ref
from vlib.harness import Check, close
from vlib.drive import sut


class CHECK(Check):
    id = 'C19'
    technique = 'online differential monitor at the call boundary of system preparation, and a consistency monitor comparing every runner with a pipeline built from that preparation'
    rule = ('a case is one system (often differing from the previous one in a single parameter), or one runner call; non-trivial when constants or losses were '
            'compared; signature: polarisation x elevation given x ground class, or runner name')
    quick = 300000
    thorough = 15000000

    def setup(self):
        self.p2p = {n: env.script(n) for n in ('p2p', 'p2p_2tiles')}
        self.area = {n: env.script(n) for n in ('area', 'area_2tiles')}

    def sys(self, rng):
        return {'fmhz': gen.val(rng, 1.0, 1e5, (1.0, 47.7, 1000.0), grid=(20, 41.5, 573.3, 2488.0)), 'zsys': rng.choice((0, 0, 0.0, gen.val(rng, 0.01, 5000.0), rng.uniform(1, 5000), -gen.val(rng, 0.01, 500.0))),
                'en0': gen.val(rng, 200.0, 450.0, log=False, grid=(301, 314)), 'ipol': rng.choice((0, 1, 0, 1, 2, -1)),
                'eps': gen.val(rng, 1.0, 100.0, grid=(4, 15, 81, 1)), 'sgm': rng.choice((0, 0.001, 0.005, 5.0, gen.logu(rng, 1e-6, 10)))}

    def directed(self, rng):
        for ip in (0, 1, 2):
            for zs in (0, 1e-3, 100, 2500.0, -1e-3, -430.0):
                for eps, sgm in ((1.0, 0.0), (1.0, 0.01)) + gen.GROUNDS:
                    for f in (1.0, 20, 300.0, 2e4, 1e5):
                        yield {'chain': [{'fmhz': f, 'zsys': zs, 'en0': 301, 'ipol': ip, 'eps': eps, 'sgm': sgm}]}
        for i in range(40):
            yield self.runner(rng, 'p2p' if i % 2 else 'area')

    def runner(self, rng, kind):
        if kind == 'p2p':
            c = gen.p2p_case(rng)
            return {'run': rng.choice(('p2p', 'p2p_2tiles')), 'fmhz': c['sys']['fmhz'], 'hg': c['hg'], 'd': c['xi'] * (len(c['z']) - 1) / 1000,
                    'ipol': c['sys']['ipol'], 'z': c['z'][:80]}
        c = gen.area_sys(rng)
        return {'run': rng.choice(('area', 'area_2tiles')), 'fmhz': c['sys']['fmhz'], 'hg': c['hg'], 'dh': c['dh'], 'ipol': c['sys']['ipol']}

    def random(self, rng):
        if rng.random() < 0.05:
            return self.runner(rng, rng.choice(('p2p', 'area')))
        s = self.sys(rng)
        ch = [s]
        for _ in range(rng.randint(0, 4)):
            t = dict(ch[-1])
            k = rng.choice(list(t))
            t[k] = self.sys(rng)[k]
            ch.append(t)
        return {'chain': ch}

    def judge(self, case, obs):
        if 'chain' in case:
            for s in case['chain']:
                g = obs.call('system preparation', sut.qlrps, s['fmhz'], s['zsys'], s['en0'], s['ipol'], s['eps'], s['sgm'])
                w = ref.qlrps(s['fmhz'], s['zsys'], s['en0'], s['ipol'], s['eps'], s['sgm'])
                obs.ok(len(g) == 4, 'preparation returns %d values' % len(g))
                for n, a, b in zip(('wave number', 'effective curvature', 'surface refractivity'), g, w):
                    obs.ok(close(a, b, 1e-11, 1e-20), '%s is %r, documented %r' % (n, drive.num(a), b), system=s)
                a, b = complex(g[3]), w[3]
                obs.ok(abs(a - b) <= 1e-10 * abs(b) + 1e-15, 'surface impedance is %r, documented %r' % (a, b), system=s)
                obs.tag('i%d' % (s['ipol'] != 0), 'z%d' % ((s['zsys'] > 0) - (s['zsys'] < 0)), 's%d' % (s['sgm'] > 1))
                obs.sig = obs.sig[-3:]
            return
        n = case['run']
        hg = list(case['hg'])
        with env.quiet():
            if n.startswith('p2p'):
                rows = obs.call('point-to-point runner', self.p2p[n].itmlogic_p2p, {'fmhz': case['fmhz'], 'hg': list(hg), 'd': case['d'], 'ipol': case['ipol']}, list(case['z']))
                wn, gme, ens, zg = sut.qlrps(case['fmhz'], 0, 314, case['ipol'], 15, 0.005)
                z = case['z']
                np_ = len(z) - 1
                p = drive.new_prop({'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': zg}, hg, pfl=[np_, case['d'] * 1000 / np_] + list(z), klim=5, mdvarx=11)
                p = sut.qlrpfl(p)
                zr = sut.qerfi([.01, .1, .5, .9, .99])
                zc = sut.qerfi([.5, .9, .1])
                want = []
                for r in zr:
                    for c in zc:
                        a, p = sut.avar(r, 0, c, p)
                        want.append(ref.fspl(wn, p['dist']) + a)
            else:
                rows = obs.call('area runner', self.area[n].itmlogic_area, {'fmhz': case['fmhz'], 'hg': list(hg), 'dh': case['dh'], 'ipol': case['ipol']})
                wn, gme, ens, zg = sut.qlrps(case['fmhz'], 0, 301, case['ipol'], 15, 0.001)
                p = drive.new_prop({'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': zg}, hg, dh=case['dh'], klimx=5, mdvarx=3)
                p = sut.qlra([2, 2], p)
                zc = sut.qerfi([.5, .9, .1])
                want = []
                for d in list(range(10, 151, 10)) + list(range(200, 501, 50)):
                    p['lvar'] = max(p['lvar'], 1)
                    p = sut.lrprop(d * 1000, p)
                    for c in zc:
                        a, p = sut.avar(0, 0, c, p)
                        want.append(ref.fspl(wn, d * 1000) + a)
        obs.ok(len(rows) == len(want), 'runner returns %d rows' % len(rows))
        for r, w in zip(rows, want):
            g, w = drive.num(r['propagation_loss_dB']), drive.num(w)
            obs.ok(close(g, w, 1e-9, 1e-7) or (g != g and w != w), 'runner reports %r dB, the documented constants give %r dB' % (g, w), row=r)
        obs.tag(n, case['ipol'])
