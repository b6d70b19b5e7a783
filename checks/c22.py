import copy

from vlib import drive, env, gen, tables
from vlib.harness import Check, close


class CHECK(Check):
    id = 'C22'
    technique = 'online monitor on the runner call: labels, order and every loss against the independent reference, with the parameter set reused between runs'
    rule = ('a case is 1-3 runs of one copy of the runner, the parameter set being reused between them; non-trivial when a loss row was compared; '
            'signature: runner x polarisation x height buckets x irregularity bucket x run number')
    quick = 24000
    thorough = 800000
    assumptions = ('the reference model in vlib/ref.py is a faithful reading of the published algorithm',
                   'inputs whose discontinuous decisions lie within 1e-9 (relative) of a tie are not judged')

    def setup(self):
        self.mod = {n: env.script(n) for n in ('area', 'area_2tiles')}

    def one(self, rng):
        c = gen.area_sys(rng)
        dh = c['dh'] if rng.random() < 0.5 else int(c['dh'])
        return {'fmhz': c['sys']['fmhz'], 'hg': c['hg'], 'dh': dh, 'ipol': rng.choice((0, 1, 0, 1, 2))}

    def random(self, rng):
        runs = [self.one(rng)]
        for _ in range(rng.choice((0, 0, 1, 2))):
            r = copy.deepcopy(runs[-1])
            o = self.one(rng)
            for k in rng.sample(('fmhz', 'hg', 'dh', 'ipol'), rng.choice((0, 1, 1, 2, 4))):
                r[k] = o[k]
            runs.append(r)
        return {'run': rng.choice(('area', 'area_2tiles')), 'runs': runs}

    def directed(self, rng):
        for n in ('area', 'area_2tiles'):
            for hg in ([3.3, 1.3], [1.3, 3.3], [0.5, 0.5], [30, 3000.0], [800.0, 400.0]):
                for dh in (0, 1, 30, 90, 126, 500):
                    for f in (20, 100, 1500, 20000):
                        for ip in (0, 1):
                            yield {'run': n, 'runs': [{'fmhz': f, 'hg': hg, 'dh': dh, 'ipol': ip}]}

    def judge(self, case, obs):
        fn = self.mod[case['run']].itmlogic_area
        params = {}
        for i, r in enumerate(case['runs']):
            params.update(copy.deepcopy(r))
            with env.quiet():
                out = obs.call('area runner', fn, params)
            want, path, T, g = tables.area_table(r)
            obs.ok(len(out) == len(want), 'the runner returned %d rows, not %d' % (len(out), len(want)))
            for k, (row, (d, qc, loss)) in enumerate(zip(out, want)):
                obs.ok(row['distance_km'] == d and row['confidence_level_%'] == qc,
                       'row %d is labelled %r km, %r %%; expected %r km, %r %%' % (k, row['distance_km'], row['confidence_level_%'], d, qc))
                drive.agree(obs, 'loss at %d km, confidence %d' % (d, qc), row['propagation_loss_dB'], loss, T,
                            lambda j, k=k: tables.area_table(r, j)[0][k][2], 1e-7, 5e-6, {'run': i, 'params': r})
            obs.tag(case['run'], r['ipol'], drive.bucket(r['hg'][0], (3, 10, 100)), drive.bucket(r['hg'][1], (3, 10, 100)), drive.bucket(r['dh'], (0.01, 30, 150)), i,
                    ''.join(sorted({'L' if d * 1000 < path.dlsa else 'B' for d in tables.AREA_KM})))
            obs.sig = obs.sig[-7:]
