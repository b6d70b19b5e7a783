import copy
import re

from vlib import drive, env, gen, ref, tables
from vlib.harness import Check, close

CLASSES = ('Line of sight path', 'Single horizon path', 'Double-horizon path')
MODES = ('Diffraction is the dominant mode', 'Tropospheric scatter is the dominant mode')


class CHECK(Check):
    id = 'C21'
    technique = 'online monitor on the runner call: labels, order and every loss against the independent reference; trace monitor over the printed classification'
    rule = ('a case is 1-3 runs of one copy of the runner, the parameter set being reused between them; non-trivial when a loss row was compared; '
            'signature: runner x regime x printed class x polarisation x profile-size bucket x run number')
    quick = 32000
    thorough = 940000
    assumptions = ('the reference model in vlib/ref.py is a faithful reading of the published algorithm',
                   'inputs whose discontinuous decisions lie within 1e-9 (relative) of a tie are not judged')

    def setup(self):
        self.mod = {n: env.script(n) for n in ('p2p', 'p2p_2tiles')}

    def one(self, rng):
        c = gen.p2p_case(rng)
        z = c['z']
        d = c['xi'] * (len(z) - 1) / 1000
        if rng.random() < 0.3:
            d = max(1.0, round(d, rng.choice((0, 1, 2))))
        return {'fmhz': c['sys']['fmhz'], 'hg': c['hg'], 'd': d, 'ipol': rng.choice((0, 1, 0, 1, 2)), 'z': z}

    def edge(self, rng, c):
        """the receiver height moved until the path's horizons end half a step from, or right at, the class boundaries"""
        off = rng.choice((-0.5, 0.5)) * c['d'] * 1000 / (len(c['z']) - 1) + rng.choice((-1, 1)) * gen.logu(rng, 0.05, 30)

        def q(h):
            g, path = tables.p2p_table(tables.p2p_case(dict(c, hg=[c['hg'][0], h]), c['z']))[1:4:2]
            return path['dist'] - g.dla - off
        lo, hi = 0.5, 3000.0
        try:
            a, b = q(lo), q(hi)
            if not a * b < 0:
                return c
            for _ in range(40):
                m = (lo * hi) ** 0.5
                v = q(m)
                if a * v <= 0:
                    hi = m
                else:
                    lo, a = m, v
                if abs(v) < 1e-3:
                    break
        except (ValueError, ArithmeticError):
            return c
        return dict(c, hg=[c['hg'][0], m])

    def random(self, rng):
        runs = [self.one(rng)]
        if rng.random() < 0.08:
            runs[0] = self.edge(rng, runs[0])
        for _ in range(rng.choice((0, 0, 1, 2))):
            r = copy.deepcopy(runs[-1])
            o = self.one(rng)
            for k in rng.sample(('fmhz', 'hg', 'd', 'ipol', 'z'), rng.choice((0, 1, 1, 2, 5))):
                r[k] = o[k]
            runs.append(r)
        return {'run': rng.choice(('p2p', 'p2p_2tiles')), 'runs': runs}

    def directed(self, rng):
        for n in ('p2p', 'p2p_2tiles'):
            for hg in ([143.9, 8.5], [8.5, 143.9], [3, 3], [900.0, 600.0]):
                for d in (1, 3, 20, 77.8, 150, 400, 1200):
                    for f in (20, 41.5, 573.3, 20000):
                        for ip in (0, 1):
                            m = rng.choice((1, 2, 5, 40, 156, 300, 599))
                            z, _ = gen.terrain(rng, m)
                            yield {'run': n, 'runs': [{'fmhz': f, 'hg': hg, 'd': d, 'ipol': ip, 'z': z}]}

    def judge(self, case, obs):
        fn = self.mod[case['run']].itmlogic_p2p
        params = {}
        for i, r in enumerate(case['runs']):
            params.update({k: copy.copy(r[k]) for k in ('fmhz', 'hg', 'd', 'ipol')})
            z = list(r['z'])
            with env.quiet() as buf:
                out = obs.call('point-to-point runner', fn, params, z)
            obs.ok(z == r['z'], 'the runner changed the profile it was given')
            rc = tables.p2p_case(r, r['z'])
            want, path, T, g = tables.p2p_table(rc)
            obs.ok(len(out) == 15, 'the runner returned %d rows, not 15' % len(out))
            for k, (row, (qr, qc, loss)) in enumerate(zip(out, want)):
                obs.ok(row['reliability_level_%'] == qr and row['confidence_level_%'] == qc,
                       'row %d is labelled %r/%r, expected %r/%r' % (k, row['reliability_level_%'], row['confidence_level_%'], qr, qc))
                obs.ok(close(row['distance_km'], r['d'], 1e-12, 1e-9), 'row %d reports distance %r km, not %r' % (k, row['distance_km'], r['d']))
                drive.agree(obs, 'loss for reliability %d, confidence %d' % (qr, qc), row['propagation_loss_dB'], loss, T,
                            lambda j, k=k: tables.p2p_table(rc, j)[0][k][2], 1e-7, 5e-6, {'run': i, 'params': {q: r[q] for q in ('fmhz', 'hg', 'd', 'ipol')}})
            text = buf.getvalue()
            m = re.search(r'[Ff]ree space value:?\s*(\S+)', text)
            if m and not T.bad:
                fs = ref.fspl(r['fmhz'] / 47.7, r['d'] * 1000)
                obs.ok(close(drive.num(m.group(1)), fs, 1e-9, 0.006), 'printed free-space value %s, it is %r' % (m.group(1), fs))
                obs.count('printed_free_space_values')
            m = re.search(r'[Cc]onfidence levels:?([\d., \[\]]+)', text)
            if m:
                lv = [float(v) for v in re.findall(r'\d+\.?\d*', m.group(1))]
                obs.ok(lv == [50, 90, 10], 'printed confidence levels %r, the table has 50, 90 and 10' % (lv,))
            cls = [c for c in CLASSES if c in text]
            mode = [m for m in MODES if m in text]
            step = r['d'] * 1000 / (len(z) - 1)
            q = g['dist'] - path.dla
            if not T.bad and T.m >= drive.MARGIN and min(abs(q - 0.5 * step), abs(q + 0.5 * step)) > 1e-6 * g['dist']:
                k = 0 if q < -0.5 * step else 1 if q <= 0.5 * step else 2
                obs.ok(cls == [CLASSES[k]], 'printed %r for a path that is a %s' % (cls, CLASSES[k]), dist=g['dist'], dla=path.dla, step=step)
                m = []
                if k:
                    if g['dist'] <= path.dlsa or g['dist'] <= path.dx:
                        m = [MODES[0]]
                    else:
                        m = [MODES[1]]
                    tie = min(abs(g['dist'] - path.dlsa), abs(g['dist'] - path.dx)) < 1e-6 * g['dist']
                else:
                    tie = False
                if tie:
                    obs.skip('mode at a tie')
                else:
                    obs.ok(mode == m, 'printed %r where %r dominates' % (mode, m), dist=g['dist'], dx=path.dx if k else None, dlsa=path.dlsa)
                obs.count(CLASSES[k])
                if m:
                    obs.count(m[0])
            else:
                obs.skip('classification at a tie')
            obs.tag(case['run'], 'bad' if T.bad else path.regime, cls and cls[0][:6], r['ipol'], drive.bucket(len(z) - 1, (2, 6, 40, 160, 600)), i)
            obs.sig = obs.sig[-6:]
