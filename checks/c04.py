from vlib import drive, gen, ref
from vlib.harness import Check, close
from vlib.drive import sut

CL = ('v', 'm', 'p')


def stat_sys(rng):
    c = {'wn': gen.val(rng, 0.419, 420.0, (1.0, 1 / 47.7)), 'he': [gen.val(rng, 0.5, 3000.0), gen.val(rng, 0.5, 3000.0)],
         'dh': 0.0 if rng.random() < 0.07 else gen.val(rng, 0.1, 1500.0, grid=(10, 90, 91)),
         'aref': rng.choice((0.0, rng.uniform(0, 10), rng.uniform(0, 120), rng.uniform(0, 30), gen.val(rng, 0.01, 200.0))),
         'klim': gen.klim(rng), 'mdvar': gen.mdvar(rng)}
    dexa = (18e6 * c['he'][0]) ** .5 + (18e6 * c['he'][1]) ** .5 + (575.7e12 / c['wn']) ** (1 / 3)
    u = rng.random()
    if u < 0.25:
        c['dist'] = dexa * (1 + rng.choice((-1, 1)) * 10 ** rng.uniform(-9, -0.1))
    else:
        c['dist'] = gen.val(rng, 100.0, 3000e3, (1.0, 1000.0))
    return c


def stat_prop(c, **kw):
    p = {'lvar': 5, 'klim': c['klim'], 'mdvar': c['mdvar'], 'kwx': 0, 'wn': c['wn'], 'he': list(c['he']), 'dist': c['dist'],
         'dh': c['dh'], 'aref': c['aref']}
    p.update(kw)
    return p


def ref_stats(c):
    return ref.Stats(c['dist'], c['he'], c['wn'], c['dh'], c['klim'], c['mdvar'])


class CHECK(Check):
    id = 'C04'
    technique = 'online differential monitor at the call boundary of the quantile function against an independent implementation of the published statistics; exhaustive over climate x mode codes'
    rule = ('a case is one path, climate, mode and 1-5 quantile requests, or one empirical-curve evaluation; non-trivial when a quantile was compared; '
            'signature: climate x mode x deviate region x distance side x sign of result')
    quick = 660000
    thorough = 22000000

    def directed(self, rng):
        zs = (-3.2, -3.1, -1.3, -1e-9, 0.0, 1e-9, 0.7, 1.282, 1.2821, 2.161, 2.2, 3.1, 3.11)
        for kl in list(range(-1, 10)):
            for md in list(range(-2, 46)):
                for rep in range(2):
                    c = stat_sys(rng)
                    c.update(klim=kl, mdvar=md)
                    if rep:
                        c['dist'] = rng.choice((5e3, 60e3, 250e3, 900e3))
                    c['q'] = [[rng.choice(zs), rng.choice(zs), rng.choice(zs)] for _ in range(6)]
                    yield c
        for kl in range(1, 8):
            for md in (0, 1, 2, 3, 10, 11, 12, 13, 20, 21, 22, 23, 30, 31, 32, 33):
                for z in zs:
                    c = stat_sys(rng)
                    c.update(klim=kl, mdvar=md, q=[[z, z, z], [z, 0.0, 0.0], [0.0, z, 0.0], [0.0, 0.0, z]])
                    yield c
        for kl in range(7):
            for t in CL:
                for de in (0.0, 1.0, 50e3, 130e3, 400e3, 2e6):
                    yield {'curv': list(ref.CLIM[t][kl]) + [de]}

    def random(self, rng):
        if rng.random() < 0.05:
            t = list(ref.CLIM[rng.choice(CL)][rng.randrange(7)])
            if rng.random() < 0.3:
                t = [v * rng.uniform(0.5, 2) for v in t]
            return {'curv': t + [rng.choice((0.0, gen.logu(rng, 1, 5e6)))]}
        c = stat_sys(rng)
        c['q'] = [[gen.deviate(rng), gen.deviate(rng), gen.deviate(rng)] for _ in range(rng.randint(1, 5))]
        return c

    def judge(self, case, obs):
        if 'curv' in case:
            a = case['curv']
            got = obs.call('curve fit', sut.curv, *a)
            obs.ok(close(got, ref.curv(*a), 1e-9, 1e-12), 'curve fit is %r, published %r' % (got, ref.curv(*a)))
            obs.tag('curv')
            return
        st = ref_stats(case)
        p = stat_prop(case)
        for zt, zl, zc in case['q']:
            want, kw = st.quantile(case['aref'], zt, zl, zc)
            r = obs.call('quantile', sut.avar, zt, zl, zc, p)
            got, p = r
            obs.ok(close(got, want, 1e-8, 1e-7), 'quantile is %r, published %r' % (drive.num(got), want), request=[zt, zl, zc], de=st.de)
            if st.kwx:
                obs.ok(p['kwx'] >= 2, 'impossible climate or mode was not flagged (indicator %r)' % p['kwx'])
                if not 1 <= case['klim'] <= 7:
                    obs.ok(p['klim'] == 5, 'impossible climate was replaced by %r, not by the default' % p['klim'])
            else:
                obs.ok(p['kwx'] < 2, 'default substitution flagged for valid codes (indicator %r)' % p['kwx'])
            # deviates the mode does not use
            if st.kdv == 0:
                alt = (zt + 1.7, zl - 0.9, zc)
            elif st.kdv in (1, 2):
                alt = (zt, zl + 2.3, zc)
            else:
                alt = None
            if alt:
                other, _ = obs.call('quantile', sut.avar, *alt, stat_prop(case))
                obs.ok(close(got, other, 1e-9, 1e-9), 'an unused deviate changes the quantile from %r to %r' % (drive.num(got), drive.num(other)),
                       request=[zt, zl, zc], alt=alt)
            obs.tag('k%d' % st.klim, 'm%d' % (st.kdv + 10 * st.wl + 20 * st.ws),
                    't%d' % (0 if zt < 0 else 1 if zt <= st.zd else 2), 'd%d' % (case['dist'] >= st.dexa), 'neg' if want < 0 else 'pos')
            obs.sig = obs.sig[-5:]
