import math

from vlib import drive, gen, ref
from vlib.harness import Check, close
from vlib.drive import sut
from checks.c04 import stat_sys, stat_prop


def around(rng, *vs):
    v = rng.choice(vs)
    k = rng.randrange(6)
    if k == 0:
        return v
    if k == 1:
        return math.nextafter(v, 0)
    if k == 2:
        return math.nextafter(v, 1e30)
    if k == 3:
        return v * (1 + rng.uniform(1e-6, 0.3))
    return v * (1 - rng.uniform(1e-6, 0.3))


def maxsev(*x):
    return max(x)


class Rec(dict):
    """parameter set that records every write to the warning indicator"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.writes = []

    def __setitem__(self, k, v):
        if k == 'kwx':
            self.writes.append(v)
        dict.__setitem__(self, k, v)


class CHECK(Check):
    id = 'C08'
    technique = 'state monitor on the warning indicator (every value after every call of a history) against the documented limits evaluated on the monitored parameters'
    rule = ('a case is one prepared path with parameters at and around the documented limits, a starting indicator, and a history of distance evaluations '
            'and quantile requests, or a session of several area and point-to-point predictions on one record; non-trivial when the indicator was compared; signature: limit targeted x starting value x final value')
    quick = 270000
    thorough = 8600000
    assumptions = ('limits on derived quantities (horizon distances, minimum distance) within 1e-9 of equality accept either answer',)

    def base(self, rng):
        h = [rng.uniform(2, 300), rng.uniform(2, 300)]
        gme = rng.uniform(80e-9, 150e-9)
        he = [h[0] * rng.uniform(1, 2), h[1] * rng.uniform(1, 2)]
        dls = [math.sqrt(2 * x / gme) for x in he]
        dl = [d * rng.uniform(0.15, 2.5) for d in dls]
        zg = ref.qlrps(100, 0, 301, rng.randrange(2), rng.uniform(4, 81), rng.choice((0.001, 0.01)))[3]
        return {'hg': h, 'he': he, 'dl': dl, 'the': [rng.uniform(-0.02, 0.02), rng.uniform(-0.02, 0.02)], 'gme': gme,
                'ens': rng.uniform(260, 390), 'wn': rng.uniform(1, 200), 'zgnd': [zg.real, zg.imag], 'dh': rng.uniform(0, 300),
                'mode': rng.choice((1, 1, -1)), 'd': [rng.uniform(30e3, 900e3) for _ in range(rng.randint(1, 3))],
                'k0': rng.choice((0, 0, 0, 0, 1, 2, 3, 4)), 'q': [], 'klim': rng.randint(1, 7), 'mdvar': rng.choice((0, 1, 2, 3, 11, 23)),
                'target': 'none'}

    TARGETS = ('none', 'wn', 'hg0', 'hg1', 'the0', 'the1', 'dllo0', 'dllo1', 'dlhi0', 'dlhi1', 'ens', 'gme', 'zgnd', 'dist', 'dmin',
               'z', 'klim', 'mdvar', 'two', 'mix')

    def aim(self, c, t, rng):
        j = 1 if t.endswith('1') else 0
        dls = [math.sqrt(2 * x / c['gme']) for x in c['he']]
        if t == 'wn':
            c['wn'] = around(rng, 0.838, 210.0, 0.419, 420.0)
        elif t.startswith('hg'):
            c['hg'][j] = around(rng, 1.0, 1000.0, 0.5, 3000.0)
            c['he'][j] = c['hg'][j] * rng.uniform(1, 2)
            d = math.sqrt(2 * c['he'][j] / c['gme'])
            c['dl'][j] = d * rng.uniform(0.15, 2.5)
        elif t.startswith('the'):
            c['the'][j] = rng.choice((-1, 1)) * around(rng, 0.2)
        elif t.startswith('dllo'):
            c['dl'][j] = dls[j] * around(rng, 0.1)
        elif t.startswith('dlhi'):
            c['dl'][j] = dls[j] * around(rng, 3.0)
        elif t == 'ens':
            c['ens'] = around(rng, 250.0, 400.0)
        elif t == 'gme':
            c['gme'] = around(rng, 75e-9, 250e-9)
            c['dl'] = [math.sqrt(2 * x / c['gme']) * rng.uniform(0.15, 2.5) for x in c['he']]
        elif t == 'zgnd':
            a = rng.uniform(0.05, 8)
            c['zgnd'] = [a, rng.choice((-1, 1)) * around(rng, a)]
        elif t == 'dist':
            c['d'] = [around(rng, 1e3, 1000e3, 2000e3) for _ in range(rng.randint(1, 3))]
        elif t == 'dmin':
            dm = abs(c['he'][0] - c['he'][1]) / 0.2
            c['d'] = [max(1.0, around(rng, dm)) for _ in range(rng.randint(1, 3))]
        elif t == 'z':
            c['q'] = [[around(rng, 3.1) * rng.choice((-1, 1)) if rng.random() < 0.4 else gen.deviate(rng) for _ in range(3)]
                      for _ in range(rng.randint(1, 4))]
        elif t == 'klim':
            c['klim'] = rng.choice((0, 8, -3, 7, 1))
            c['q'] = [[0.0, 0.0, 1.0]]
        elif t == 'mdvar':
            c['mdvar'] = rng.choice((4, -1, 14, 24, 34, 3, 13, 23, 33, 9, 19, 29))
            c['q'] = [[0.0, 0.0, 1.0]]
        elif t == 'two':
            for k in rng.sample(self.TARGETS[1:18], 2):
                self.aim(c, k, rng)
        elif t == 'mix':
            for k in rng.sample(self.TARGETS[1:18], 4):
                self.aim(c, k, rng)
        c['target'] = t

    def session(self, rng):
        """several predictions, area and point-to-point, one after the other on one record whose indicator is never reset"""
        segs = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.25:
                g = gen.p2p_case(rng)
                g['z'] = g['z'][:30]
                g['ds'] = [0]
            else:
                g = gen.area_sys(rng)
                g['ds'] = [gen.val(rng, 300.0, 3000e3) if rng.random() < 0.3 else rng.uniform(40e3, 900e3) for _ in range(rng.randint(0, 3))]
            if rng.random() < 0.75:
                # nothing out of range but what was chosen to be
                g['sys'] = {'fmhz': rng.uniform(50, 5000), 'zsys': 0.0, 'en0': rng.uniform(280, 360), 'ipol': rng.randrange(2),
                            'eps': rng.uniform(4, 40), 'sgm': 0.001}
                g['hg'] = [rng.uniform(2, 60), rng.uniform(2, 60)]
            u = rng.random()
            if u < 0.2:
                g['hg'][rng.randrange(2)] = around(rng, 1.0, 1000.0, 0.5, 3000.0)
            elif u < 0.35:
                g['sys']['fmhz'] = 47.7 * around(rng, 0.838, 210.0, 0.419, 420.0)
            g['k'] = rng.choice((rng.randint(1, 7), gen.klim(rng)))
            g['m'] = rng.choice((rng.choice((0, 1, 2, 3, 13, 21)), gen.mdvar(rng)))
            g['x'] = rng.randrange(4)
            g['q'] = [[gen.deviate(rng) if rng.random() < 0.4 else rng.gauss(0, 0.8) for _ in range(3)] for _ in range(rng.randint(0, 3))] if g['ds'] else []
            segs.append(g)
        return {'session': segs, 'k0': rng.choice((0, 0, 0, 1, 2, 3, 4)), 'target': 'session'}

    def judge_session(self, case, obs):
        p = {'kwx': case['k0'], 'lvar': 5}
        cur = case['k0']
        trail = [cur]
        for n, g in enumerate(case['session']):
            c = gen.consts(g['sys'])
            p.update(wn=c['wn'], ens=c['ens'], gme=c['gme'], zgnd=c['zgnd'], hg=list(g['hg']), lvar=5, klim=g['k'], mdvar=g['m'], klimx=0, mdvarx=-1)
            if g['x'] & 1 and g['k'] > 0:
                p.update(klim=5, klimx=g['k'])
            if g['x'] & 2 and g['m'] >= 0:
                p.update(mdvar=0, mdvarx=g['m'])
            if 'z' in g:
                p['pfl'] = [len(g['z']) - 1, g['xi']] + list(g['z'])
                refn = lambda j=None: drive.ref_p2p(g, j)
                want, path, T = refn()
                ds = [want['dist']]
            else:
                p['dh'] = g['dh']
                refn = lambda j=None: drive.ref_area(g, j)
                want, path, T = refn()
                ds = g['ds']
                p = obs.call('area preparation', sut.qlra, list(g['kst']), p)
                obs.ok(p['kwx'] == cur, 'prediction %d of the session: area preparation moved the warning indicator from %r to %r' % (n, cur, p['kwx']))
            for d in ds:
                if 'z' in g:
                    p = obs.call('point-to-point preparation', sut.qlrpfl, p)
                else:
                    p = obs.call('distance evaluation', sut.lrprop, d, p)
                s0, m0 = path.kwx_init()
                s1, m1 = path.kwx_dist(d)
                sure = max(cur, s0, s1)
                allowed = {sure} | {max(sure, m) for m in m0 | m1}
                if p['kwx'] not in allowed:
                    alt = set()
                    for j in range(8):
                        w2, p2, t2 = refn('k%d' % j)
                        alt.add(max(cur, p2.kwx_init()[0], p2.kwx_dist(d if 'z' not in g else w2['dist'])[0]))
                    if len(alt) > 1 or T.m < 1e-9:
                        obs.skip('ill-conditioned limit')
                        return
                self.expect(obs, p, sure, m0 | m1, 'prediction %d of the session, %r m' % (n, d))
                cur = p['kwx']
                trail.append(cur)
            if g['q']:
                st = ref.Stats(ds[-1], want['he'], c['wn'], g.get('dh', 0.0), g['k'], g['m'])
                for r in g['q']:
                    a, p = obs.call('quantile', sut.avar, *r, p)
                    kq = max(abs(v) for v in st.deviates(*r)) > 3.10
                    cur = max(cur, st.kwx, 1 if kq else 0)
                    self.expect(obs, p, cur, (), 'prediction %d of the session, quantile request %r' % (n, r))
                    trail.append(cur)
        obs.count('session_steps', len(trail))
        obs.tag('session', ''.join(str(k) for i, k in enumerate(trail) if not i or trail[i - 1] != k), 'n%d' % len(case['session']))

    def random(self, rng):
        if rng.random() < 0.15:
            return self.session(rng)
        if rng.random() < 0.12:
            p = gen.p2p_case(rng)
            if len(p['z']) > 60:
                p['z'] = p['z'][:60]
            if rng.random() < 0.5:
                p['sys']['fmhz'] = 47.7 * around(rng, 0.838, 210.0, 0.419, 420.0)
            if rng.random() < 0.3:
                p['hg'][rng.randrange(2)] = around(rng, 1.0, 1000.0, 0.5, 3000.0)
            return {'p2p': p, 'k0': rng.choice((0, 0, 0, 1, 2, 3, 4)), 'target': 'p2p'}
        c = self.base(rng)
        self.aim(c, rng.choice(self.TARGETS), rng)
        return c

    def directed(self, rng):
        for t in self.TARGETS:
            for k0 in range(5):
                for mode in (1, -1):
                    for _ in range(10):
                        c = self.base(rng)
                        self.aim(c, t, rng)
                        c['k0'], c['mode'] = k0, mode
                        yield c

    def build(self, c, k0):
        p = Rec({'hg': list(c['hg']), 'he': list(c['he']), 'dl': list(c['dl']), 'the': list(c['the']), 'gme': c['gme'], 'ens': c['ens'],
                 'wn': c['wn'], 'zgnd': complex(*c['zgnd']), 'dh': c['dh'], 'mdp': c['mode'], 'kwx': k0, 'lvar': 5, 'klim': c['klim'],
                 'mdvar': c['mdvar'], 'dist': c['d'][0]})
        p.writes = []
        return p

    def expect(self, obs, p, sure, maybe, what):
        k = p['kwx']
        allowed = {sure} | {max(sure, m) for m in maybe}
        obs.ok(k in allowed, '%s: warning indicator is %r, documented limits give %r' % (what, k, sorted(allowed)))
        return k

    def judge(self, case, obs):
        if 'p2p' in case:
            self.judge_p2p(case, obs)
            return
        if 'session' in case:
            self.judge_session(case, obs)
            return
        p = self.build(case, case['k0'])
        P = {k: case[k] for k in ('hg', 'he', 'dl', 'the', 'gme', 'ens', 'wn', 'dh')}
        P['zgnd'] = complex(*case['zgnd'])
        T = ref.Trk()
        try:
            path = ref.Path(P, case['mode'] < 0, T)
        except (ValueError, OverflowError, ZeroDivisionError):
            obs.skip('oracle undefined')
            return
        s0, m0 = path.kwx_init()
        cur = case['k0']
        ds = case['d'][:1] if case['mode'] < 0 else case['d']
        maybe = set(m0)
        sure = max(cur, s0)
        arefs = []
        for i, d in enumerate(ds):
            p = obs.call('distance evaluation', sut.lrprop, d, p)
            s, m = path.kwx_dist(d)
            sure = max(sure, s)
            maybe |= m
            k = self.expect(obs, p, sure, maybe, 'after %r m' % d)
            obs.ok(k >= cur, 'warning indicator falls from %r to %r' % (cur, k))
            cur = sure = k
            maybe = set()
            arefs.append(drive.num(p['aref']))
        if case['q']:
            st = ref.Stats(ds[-1], case['he'], case['wn'], case['dh'], case['klim'], case['mdvar'])
            for r in case['q']:
                a, p = obs.call('quantile', sut.avar, *r, p)
                kq = max(abs(v) for v in st.deviates(*r)) > 3.10
                sure = max(sure, st.kwx, 1 if kq else 0)
                k = self.expect(obs, p, sure, (), 'after quantile request %r' % (r,))
                obs.ok(k >= cur, 'warning indicator falls from %r to %r' % (cur, k))
                cur = k
        ws = getattr(p, 'writes', None)
        if ws:
            obs.count('indicator_writes', len(ws))
            last = case['k0']
            for w in ws:
                obs.ok(w >= last, 'warning indicator is lowered from %r to %r during a calculation' % (last, w))
                last = w
        # a warning has no effect on the attenuation: same history from another starting indicator
        q = self.build(case, (case['k0'] + 2) % 5)
        for d, a in zip(ds, arefs):
            q = obs.call('distance evaluation', sut.lrprop, d, q)
            b = drive.num(q['aref'])
            obs.ok(a == b or (a != a and b != b) or close(a, b, 1e-9, 1e-9), 'attenuation %r becomes %r when the starting indicator differs' % (a, b))
        obs.tag(case['target'], 'k%d' % case['k0'], 'f%d' % cur, 'm%d' % case['mode'])

    def judge_p2p(self, case, obs):
        c = case['p2p']
        want, path, T = drive.ref_p2p(c)
        p = obs.call('point-to-point preparation', sut.qlrpfl, drive.p2p_prop(c, kwx=case['k0']))
        s0, m0 = path.kwx_init()
        s1, m1 = path.kwx_dist(want['dist'])
        sure = max(case['k0'], s0, s1)
        if p['kwx'] != sure and T.m < 1e-9:
            obs.skip('tie: %s' % T.why)
            return
        if p['kwx'] != sure:
            # conditioning of the derived limits
            alt = set()
            for j in range(8):
                w2, p2, t2 = drive.ref_p2p(c, 'k%d' % j)
                a0, b0 = p2.kwx_init()
                a1, b1 = p2.kwx_dist(w2['dist'])
                alt.add(max(case['k0'], a0, a1))
            if len(alt) > 1:
                obs.skip('ill-conditioned limit')
                return
        self.expect(obs, p, sure, m0 | m1, 'point-to-point path')
        obs.tag('p2p', 'k%d' % case['k0'], 'f%d' % p['kwx'])
