import math

from vlib import drive, env, gen, tables
from vlib.harness import Check, Steps
from vlib.drive import sut

GEO = ('dist', 'dh', 'he', 'dl', 'the', 'dlsa', 'dla', 'tha', 'aref')


def finite(v):
    try:
        if isinstance(v, complex) or getattr(v, 'imag', 0) != 0:
            return False
        return math.isfinite(float(v))
    except (TypeError, ValueError):
        return False


class CHECK(Check):
    id = 'C28'
    strict = True
    technique = 'crash, non-termination (step-counting watchdog) and non-finite-value monitors around every stage, over hostile inputs at the edges of the documented ranges'
    rule = ('a case is one whole point-to-point or area prediction (preparation, distances, quantiles, or a shipped runner); non-trivial when it completed and its '
            'values were inspected; signature: kind x warning level x size bucket x shape or siting x polarisation')
    quick = 240000
    thorough = 5700000
    assumptions = ('a run that executes more than 20 million lines of the package is an endless loop',)

    def setup(self):
        self.mod = {n: env.script(n) for n in ('p2p', 'p2p_2tiles', 'area', 'area_2tiles', 'pimter')}
        self.maxsteps = 0

    def corner_sys(self, rng):
        s = gen.system(rng)
        for k, vs in (('fmhz', (20, 20.0, 20000, 20000.0)), ('en0', (250, 400)), ('ipol', (0, 1))):
            if rng.random() < 0.4:
                s[k] = rng.choice(vs)
                s['zsys'] = 0
        if rng.random() < 0.3:
            s['eps'], s['sgm'] = rng.choice(((1.0, 0.001), (81, 5.0), (2, 1e-5), (80, 0.0), (4, 0)))
        return s

    def corner_h(self, rng):
        return rng.choice((0.5, 0.5, 1, 1.0, 2, 3000, 3000.0, 1000, 10)) if rng.random() < 0.5 else gen.height(rng)

    def hostile(self, rng, n):
        k = rng.randrange(9)
        if k == 0:
            return [rng.choice((-500, 9000)) for _ in range(n + 1)]
        if k == 1:
            return [0] * (n + 1)
        if k == 2:
            z = [0.0] * (n + 1)
            z[rng.randint(0, n)] = rng.choice((9000.0, -500.0))
            return z
        if k == 3:
            return [9000.0 if i % 2 else -500.0 for i in range(n + 1)]
        if k == 4:
            return [9000.0 * i / n for i in range(n + 1)]
        if k == 5:
            a = rng.uniform(0, 9000)
            return [9000.0] + [a] * (n - 1) + [9000.0] if n > 1 else [9000.0, a]
        if k == 6:
            return [-500.0] + [9000.0] * (n - 1) + [-500.0] if n > 1 else [-500, 9000]
        if k == 7:
            return [9000.0 - 9500.0 * abs(2 * i / n - 1) for i in range(n + 1)]
        return [float(rng.choice((0, 1))) for _ in range(n + 1)]

    def random(self, rng):
        u = rng.random()
        req = [[gen.deviate(rng), gen.deviate(rng), gen.deviate(rng)] for _ in range(rng.randint(1, 3))]
        base = {'klim': rng.choice((gen.klim(rng), rng.randint(1, 7))), 'mdvar': gen.mdvar(rng), 'q': req, 'steps': rng.random() < 0.03}
        if u < 0.6:
            c = gen.p2p_case(rng)
            n = len(c['z']) - 1
            if rng.random() < 0.35:
                d = rng.choice((1e3, 1e3, 2e6, 2e6, gen.pathlen(rng)))
                n = rng.choice((1, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, n, n, 1000 if rng.random() < 0.1 else n))
                c['z'] = self.hostile(rng, n)
                c['xi'] = d / n
                c['shape'] = 'hostile'
            if rng.random() < 0.3:
                c['sys'] = self.corner_sys(rng)
            if rng.random() < 0.3:
                c['hg'] = [self.corner_h(rng), self.corner_h(rng)]
            return dict(base, kind='p2p', c=c)
        if u < 0.95:
            c = gen.area_sys(rng)
            if rng.random() < 0.4:
                c['sys'] = self.corner_sys(rng)
            if rng.random() < 0.4:
                c['hg'] = [self.corner_h(rng), self.corner_h(rng)]
            if rng.random() < 0.2:
                c['dh'] = rng.choice((0, 0.0, 1000, 3000.0, 0.01))
            return dict(base, kind='area', c=c, ds=[rng.choice((1e3, 2e6, gen.val(rng, 1e3, 2e6, (1.0, 1000.0)), gen.val(rng, 1e3, 2e6))) for _ in range(rng.randint(1, 5))])
        if u < 0.975:
            c = gen.p2p_case(rng)
            return dict(base, kind=rng.choice(('p2p', 'p2p_2tiles')) + '-runner', c=c)
        c = gen.area_sys(rng)
        return dict(base, kind=rng.choice(('area', 'area_2tiles')) + '-runner', c=c)

    def directed(self, rng):
        for n in range(1, 26):
            for k in range(8):
                for d in (1e3, 40e3, 2e6):
                    yield {'kind': 'p2p', 'c': {'sys': self.corner_sys(rng), 'hg': [self.corner_h(rng), self.corner_h(rng)], 'xi': d / n, 'z': self.hostile(rng, n), 'shape': 'hostile'},
                           'klim': rng.randint(1, 7), 'mdvar': 11, 'q': [[0.0, 0.0, 0.0], [1.3, 0, -1.3]], 'steps': True}
        for dh in (0, 0.0, 0.001, 5, 90, 3000.0):
            for h in (0.5, 5.0, 3000.0):
                for h2 in (0.5, 3000.0):
                    for kst in ([0, 0], [0, 2], [2, 0], [1, 1], [2, 2], [-1, 3]):
                        yield {'kind': 'area', 'c': {'sys': self.corner_sys(rng), 'hg': [h, h2], 'kst': kst, 'dh': dh}, 'ds': [1e3, 30e3, 2e6, 1e3],
                               'klim': rng.randint(1, 7), 'mdvar': rng.choice((0, 1, 2, 3)), 'q': [[0.0, 0.0, 0.0]], 'steps': True}

    def judge(self, case, obs):
        if case.get('steps'):
            with Steps(20_000_000) as st:
                self.body(case, obs)
            self.maxsteps = max(self.maxsteps, st.n)
            obs.counts['most_lines_in_one_prediction_summed_over_workers'] = self.maxsteps
            obs.count('predictions_with_counted_steps')
        else:
            self.body(case, obs)

    def geo(self, p, obs, where):
        kw = p['kwx']
        obs.ok(kw in (0, 1, 2, 3, 4), 'warning indicator is %r' % (kw,))
        if kw == 0:
            for k in GEO:
                for i, v in enumerate(drive.flat(p[k])):
                    obs.ok(finite(v), '%s%s is %r although no warning was raised' % (k, '[%d]' % i if len(drive.flat(p[k])) > 1 else '', v), where=where)
        return kw

    def ask(self, case, p, obs, where):
        for zt, zl, zc in case['q']:
            a, p = obs.call('quantile', sut.avar, zt, zl, zc, p)
            if p['kwx'] == 0:
                obs.ok(finite(a), 'the quantile is %r although no warning was raised' % (a,), where=where, request=[zt, zl, zc])
            else:
                obs.events += 1
        return p

    def body(self, case, obs):
        c, k = case['c'], case['kind']
        s = c['sys']
        if k.endswith('-runner'):
            with env.quiet():
                if k.startswith('p2p'):
                    n = len(c['z']) - 1
                    par = {'fmhz': s['fmhz'], 'hg': list(c['hg']), 'd': c['xi'] * n / 1000, 'ipol': s['ipol']}
                    out = obs.call('point-to-point runner', self.mod[k[:-7]].itmlogic_p2p, par, list(c['z']))
                    kw = drive.ref_p2p(dict(c, sys=dict(s, en0=314, zsys=0, eps=15, sgm=0.005)))[1]
                    quietpath = kw.kwx_init() == (0, set()) and kw.kwx_dist(n * c['xi']) == (0, set())
                    obs.count('runner_runs_without_warning', int(quietpath))
                else:
                    par = {'fmhz': s['fmhz'], 'hg': list(c['hg']), 'dh': c['dh'], 'ipol': s['ipol']}
                    out = obs.call('area runner', self.mod[k[:-7]].itmlogic_area, par)
                    quietpath = False
            for r in out:
                v = r['propagation_loss_dB']
                if quietpath:
                    obs.ok(finite(v), 'a reported loss is %r' % (v,), row=r)
                else:
                    obs.events += 1
                    obs.judged += 1
            obs.tag(k, s['ipol'])
            return
        wn, gme, ens, zg = obs.call('system preparation', sut.qlrps, s['fmhz'], s['zsys'], s['en0'], s['ipol'], s['eps'], s['sgm'])
        obs.ok(all(finite(v) for v in (wn, gme, ens, zg.real, zg.imag)), 'system constants are not finite: %r' % ([wn, gme, ens, zg],))
        p = drive.new_prop({'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': zg}, c['hg'], klimx=case['klim'], mdvarx=case['mdvar'])
        if k == 'p2p':
            p['pfl'] = [len(c['z']) - 1, c['xi']] + list(c['z'])
            p = obs.call('point-to-point preparation', sut.qlrpfl, p)
            kw = self.geo(p, obs, 'profile')
            self.ask(case, p, obs, 'profile')
            obs.tag('p2p', 'w%s' % kw, drive.bucket(len(c['z']) - 1, (2, 3, 6, 12, 160, 600)), c['shape'], s['ipol'])
        else:
            p['dh'] = c['dh']
            p = obs.call('area preparation', sut.qlra, list(c['kst']), p)
            kws = []
            for d in case['ds']:
                p['lvar'] = max(1, p['lvar'])
                p = obs.call('distance evaluation', sut.lrprop, d, p)
                kws.append(self.geo(p, obs, d))
                p = self.ask(case, p, obs, d)
            obs.tag('area', 'w%s' % max(kws), c['kst'], s['ipol'], drive.bucket(c['dh'], (0.001, 10, 150)))
