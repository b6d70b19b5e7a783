import math

from vlib import drive, gen
from vlib.harness import Check
from vlib.drive import sut
from checks.c02 import distances

TOL = {'emd': (1e-7, 1e-13), 'ems': (1e-7, 1e-13), 'ak1': (1e-7, 1e-13), 'ak2': (1e-7, 1e-8), 'dx': (1e-7, 1e-3)}


def coefficients(path, los, beyond):
    """the documented secondary parameters of a path, as far as they are defined"""
    o = {'dls': list(path.dls), 'dlsa': path.dlsa, 'dla': path.dla, 'tha': path.tha, 'emd': path.emd, 'aed': path.aed}
    if los:
        if path._los is None:
            path._los_setup()
        o['ael'], o['ak1'], o['ak2'] = path._los
    if beyond:
        if path._sc is None:
            path._scat_setup()
        o['ems'], o['aes'], o['dx'] = path._sc
    return o


class CHECK(Check):
    id = 'C30'
    technique = 'state monitor on the parameter record after every evaluation: documented secondary parameters against the independent reference, and the curve they describe against the attenuation reported'
    rule = ('a case is one area system with 1-4 distances, with or without the zero-distance call, or one point-to-point path; non-trivial when a coefficient was compared; '
            'signature: mode x regime x zero call x siting or size bucket')
    quick = 150000
    thorough = 5000000
    assumptions = ('the reference model in vlib/ref.py is a faithful reading of the published algorithm',
                   'inputs whose discontinuous decisions lie within 1e-9 (relative) of a tie are not judged')

    def directed(self, rng):
        for k in (0, 1, 2):
            for hg in ([0.5, 0.5], [3.3, 1.3], [30.0, 10.0], [1000.0, 3000.0]):
                for dh in (0.0, 1.0, 91.0, 700.0):
                    for zero in (False, True):
                        c = gen.area_sys(rng)
                        c.update(kst=[k, k], hg=hg, dh=dh)
                        c = self.finish(c, rng)
                        c['zero'] = zero
                        yield c

    def finish(self, c, rng):
        c['d'] = distances(rng, drive.ref_area(c)[1], rng.randint(1, 4))
        c['zero'] = rng.random() < 0.4
        return c

    def random(self, rng):
        if rng.random() < 0.15:
            return {'p2p': gen.p2p_case(rng)}
        return self.finish(gen.area_sys(rng), rng)

    def mutate(self, case, rng):
        if 'p2p' in case:
            return {'p2p': dict(case['p2p'], hg=gen.heights(rng))}
        c = dict(case)
        if rng.random() < 0.5:
            c['sys'] = gen.tweak_system(rng, case['sys'])
        else:
            c['dh'] = gen.val(rng, 0.1, 1000.0)
        return self.finish(c, rng)

    def side(self, obs, got):
        """short of the smooth-earth horizon the record itself reports (which is compared
        with the reference; two-point paths can lie on it to the last digit)"""
        obs.ok('dlsa' in got and 'dist' in got, 'the record has no dlsa or no dist')
        return float(got['dist']) < float(got['dlsa'])

    def compare(self, obs, got, ref, los, beyond, pre):
        path, T = ref()
        want = coefficients(path, los, beyond)
        if T.bad:
            obs.skip('oracle undefined: ' + T.bad)
            return False
        for k, w in want.items():
            if k not in got:
                if k in ('tha', 'dls'):
                    obs.skip('intermediate %s not kept' % k)
                    continue
                obs.fail('%sthe record has no %s' % (pre, k))
            for i, (g, v) in enumerate(zip(drive.flat(got[k]), drive.flat(w))):
                def fn(j, k=k, i=i):
                    q, t = ref(j)
                    o = coefficients(q, los, beyond)
                    return None if t.bad else drive.flat(o[k])[i]
                rt, at = TOL.get(k, (1e-7, 1e-9 if k == 'tha' else 2e-6))
                drive.agree(obs, pre + k, g, v, T, fn, rt, at, {'got': {q: got.get(q) for q in want}, 'want': want})
        return True

    def curve(self, obs, got, pre):
        """the reported coefficients reproduce the reported attenuation"""
        d = float(got['dist'])
        if d < got['dlsa']:
            parts = (got['ael'], got['ak1'] * d, got['ak2'] * math.log(d))
        elif d > got['dx']:
            parts = (got['aes'], got['ems'] * d)
        else:
            parts = (got['aed'], got['emd'] * d)
        a = max(sum(float(x) for x in parts), 0.0)
        s = sum(abs(float(x)) for x in parts)
        if not math.isfinite(a):
            obs.skip('no finite curve')
            return
        obs.ok(abs(float(got['aref']) - a) <= 1e-9 + 1e-11 * s, '%sthe attenuation is %r, the coefficients give %r' % (pre, float(got['aref']), a))

    def judge(self, case, obs):
        if 'p2p' in case:
            c = case['p2p']
            want, path, T = drive.ref_p2p(c)
            got = obs.call('point-to-point preparation', sut.qlrpfl, drive.p2p_prop(c))
            if T.bad:
                obs.skip('oracle undefined: ' + T.bad)
                return
            los = self.side(obs, got)

            def ref(j=None):
                _, q, t = drive.ref_p2p(c, j)
                return q, t
            obs.tag('p2p', path.regime, drive.bucket(len(c['z']), (12, 160)))
            if self.compare(obs, got, ref, los, not los, ''):
                self.curve(obs, got, '')
            return
        p = obs.call('area preparation', sut.qlra, list(case['kst']), drive.area_prop(case))

        def ref(j=None):
            _, q, t = drive.ref_area(case, j)
            return q, t
        if case['zero']:
            p = obs.call('zero-distance call', sut.lrprop, 0, p)
            self.compare(obs, p, ref, True, True, 'after the zero-distance call: ')
        for d in case['d']:
            p = obs.call('distance evaluation', sut.lrprop, d, p)
            path = ref()[0]
            path.aref(d)
            los = self.side(obs, p)
            pre = 'at %r m: ' % d
            obs.tag('area', path.regime, 'z%d' % case['zero'], case['kst'][0])
            if self.compare(obs, p, ref, los or case['zero'], not los or case['zero'], pre):
                self.curve(obs, p, pre)
