from vlib import drive, gen
from vlib.harness import Check, close
from vlib.drive import sut
from checks.c04 import stat_sys, stat_prop

LEVEL = {'dist': 1, 'he': 2, 'dh': 2, 'wn': 3, 'mdvar': 4, 'klim': 5}


class CHECK(Check):
    id = 'C05'
    technique = 'trace monitor over histories of parameter changes and quantile requests, each answer compared with a fresh full recomputation; state monitor on the recomputation level'
    rule = ('a case is a history of 3-14 parameter changes (with the documented minimum level or more) and quantile requests, or a session of 2-5 preparations (with and without climate and mode overrides), distances and quantiles on one record; non-trivial when a '
            'quantile after at least one change was compared; signature: set of changed parameters and levels used')
    quick = 180000
    thorough = 6200000

    def session(self, rng):
        """preparations, distances and quantiles on one record; the preparation raises the level, the caller only for a new distance"""
        ops = []
        seg = None
        for n in range(rng.randint(2, 5)):
            if seg is None or rng.random() < 0.4:
                seg = gen.area_sys(rng) if rng.random() < 0.6 else gen.p2p_case(rng)
                if 'z' in seg:
                    seg['z'] = seg['z'][:25]
            else:
                o = gen.area_sys(rng)
                seg = dict(seg)
                k = rng.choice(('sys', 'hg', 'both') + (('dh', 'kst') if 'dh' in seg else ('xi',)))
                if k in ('sys', 'both'):
                    seg['sys'] = o['sys']
                if k in ('hg', 'both'):
                    seg['hg'] = o['hg']
                if k in ('dh', 'kst'):
                    seg[k] = o[k]
                if k == 'xi':
                    seg['xi'] = seg['xi'] * rng.uniform(1.1, 2)
            ops.append(['prep', dict(seg, klimx=rng.choice((0, 0, rng.randint(1, 7), gen.klim(rng))), mdvarx=rng.choice((-1, -1, 0, gen.mdvar(rng))))])
            for _ in range(rng.randint(1, 3)):
                if 'dh' in seg:
                    ops.append(['dist', gen.val(rng, 1e3, 1000e3)])
                for _ in range(rng.randint(0 if n else 1, 2)):
                    ops.append(['q', [gen.deviate(rng), gen.deviate(rng), gen.deviate(rng)]])
        return {'session': ops, 'klim': gen.klim(rng), 'mdvar': gen.mdvar(rng)}

    def prepare(self, g, p, obs):
        c = gen.consts(g['sys'])
        p.update(wn=c['wn'], ens=c['ens'], gme=c['gme'], zgnd=c['zgnd'], hg=list(g['hg']))
        if 'z' in g:
            p['pfl'] = [len(g['z']) - 1, g['xi']] + list(g['z'])
            return obs.call('point-to-point preparation', sut.qlrpfl, p)
        p['dh'] = g['dh']
        return obs.call('area preparation', sut.qlra, list(g['kst']), p)

    def judge_session(self, case, obs):
        p = {'kwx': 0, 'lvar': 5, 'klim': case['klim'], 'mdvar': case['mdvar'], 'klimx': 0, 'mdvarx': -1}
        klim, mdvar = case['klim'], case['mdvar']
        g = d = None
        tags = []
        for op, v in case['session']:
            if op == 'prep':
                g, d = v, None
                p['klimx'], p['mdvarx'] = v['klimx'], v['mdvarx']
                if v['klimx'] > 0:
                    klim = v['klimx']
                if v['mdvarx'] >= 0:
                    mdvar = v['mdvarx']
                p = self.prepare(v, p, obs)
                tags.append('%s%d%d' % ('P' if 'z' in v else 'A', v['klimx'] > 0, v['mdvarx'] >= 0))
            elif op == 'dist':
                d = v
                p = obs.call('distance evaluation', sut.lrprop, d, p)
                p['lvar'] = max(1, p['lvar'])
            elif d is not None or 'z' in g:
                got, p = obs.call('quantile', sut.avar, *v, p)
                f = self.prepare(g, {'kwx': 0, 'lvar': 5, 'klim': klim, 'mdvar': mdvar, 'klimx': 0, 'mdvarx': -1}, obs)
                if d is not None:
                    f = obs.call('distance evaluation', sut.lrprop, d, f)
                full, _ = obs.call('quantile', sut.avar, *v, f)
                a, b = drive.num(got), drive.num(full)
                obs.ok(close(a, b, 1e-9, 1e-9) or (a != a and b != b), 'quantile after the session is %r, with climate %r and mode %r on a fresh record %r'
                       % (a, klim, mdvar, b), ops=case['session'])
                obs.ok(p['lvar'] == 0, 'recomputation level is %r after a quantile' % (p['lvar'],))
                obs.count('session_quantiles')
        obs.tag('session', *tags[:4])

    def random(self, rng):
        if rng.random() < 0.12:
            return self.session(rng)
        c = stat_sys(rng)
        ops = []
        last = dict(c)
        hist = [dict(c)]
        for _ in range(rng.randint(3, 10)):
            u = rng.random()
            if u < 0.08:
                ops.append(['aref', rng.uniform(0, 150), 0])
            elif u < 0.8:
                k = rng.choice(list(LEVEL))
                o = stat_sys(rng)
                v = o[k]
                if rng.random() < 0.25:
                    v = rng.choice(hist)[k]          # back to an earlier value
                lv = LEVEL[k] if rng.random() < 0.7 else rng.randint(LEVEL[k], 5)
                ops.append([k, v, lv])
                last[k] = v
                hist.append(dict(last))
            ops.append(['q', [gen.deviate(rng), gen.deviate(rng), gen.deviate(rng)], 0])
            if rng.random() < 0.3:
                ops.append(['q', [gen.deviate(rng), gen.deviate(rng), gen.deviate(rng)], rng.choice((0, 0, rng.randint(0, 5)))])
        c['ops'] = ops
        return c

    def directed(self, rng):
        for k in LEVEL:
            for lv in range(LEVEL[k], 6):
                for _ in range(12):
                    c = stat_sys(rng)
                    ops = [['q', [0.5, 0.3, -0.4], 0]]
                    for _ in range(3):
                        ops += [[k, stat_sys(rng)[k], lv], ['q', [1.3, -0.7, 0.8], 0], ['q', [-1.3, 0.7, -0.8], 0]]
                    c['ops'] = ops
                    yield c

    def judge(self, case, obs):
        if 'session' in case:
            self.judge_session(case, obs)
            return
        cur = {k: case[k] for k in ('wn', 'he', 'dh', 'aref', 'klim', 'mdvar', 'dist')}
        p = stat_prop(cur)
        tags = set()
        for k, v, lv in case['ops']:
            if k != 'q':
                cur[k] = v
                p[k] = list(v) if k == 'he' else v
                p['lvar'] = max(p['lvar'], lv)
                tags.add('%s%d' % (k, lv))
                continue
            if lv:
                p['lvar'] = max(p['lvar'], lv)
            got, p = obs.call('quantile', sut.avar, *v, p)
            full, _ = obs.call('quantile', sut.avar, *v, stat_prop(cur))
            obs.ok(close(got, full, 1e-9, 1e-9), 'incremental quantile is %r, full recomputation gives %r' % (drive.num(got), drive.num(full)),
                   ops=case['ops'])
            obs.ok(p['lvar'] == 0, 'recomputation level is %r after a quantile' % (p['lvar'],))
            if not 1 <= cur['klim'] <= 7:
                cur['klim'] = p['klim'] if p['klim'] == 5 else cur['klim']
        obs.tag(*sorted(tags)[:4])
