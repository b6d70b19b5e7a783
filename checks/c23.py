import csv
import os

from vlib import drive, env, gen, tables
from vlib.harness import Check, close


class CHECK(Check):
    id = 'C23'
    technique = 'online monitor on the campaign runner call: labels and every median loss against the independent reference, over sequences of synthetic and recorded profiles'
    rule = ('a case is a sequence of 1-3 campaign runs on different profiles; non-trivial when a median loss was compared; signature: profile source x '
            'size bucket x regimes seen over the heights x run number')
    quick = 480
    thorough = 13000
    assumptions = ('the reference model in vlib/ref.py is a faithful reading of the published algorithm',
                   'inputs whose discontinuous decisions lie within 1e-9 (relative) of a tie are not judged')

    def setup(self):
        self.mod = env.script('pimter')

    def files(self):
        d = os.path.join(env.REPO, 'data', 'pimter')
        return sorted(f[:-len('_height.csv')] for f in os.listdir(d) if f.endswith('_height.csv')) if os.path.isdir(d) else []

    def load(self, name):
        out = []
        for part in ('height', 'length'):
            with open(os.path.join(env.REPO, 'data', 'pimter', '%s_%s.csv' % (name, part))) as f:
                out.append([float(r[0]) for r in csv.reader(f)])
        return out

    def one(self, rng):
        n = rng.choice((rng.randint(2, 12), rng.randint(13, 100), rng.randint(100, 250)))
        z, shape = gen.terrain(rng, n, amp=gen.logu(rng, 0.5, 400))
        return {'z': [float(v) for v in z], 'xi': gen.pathlen(rng) / n, 'shape': shape, 'from': rng.choice((0, 0, 0, gen.logu(rng, 1, 1e4)))}

    def random(self, rng):
        runs = []
        names = self.files()
        for _ in range(rng.choice((1, 1, 2, 3))):
            if names and rng.random() < 0.04:
                runs.append({'file': rng.choice(names)})
            else:
                runs.append(self.one(rng))
        return {'runs': runs}

    def directed(self, rng):
        for n in self.files():
            yield {'runs': [{'file': n}]}
        ns = self.files()
        if len(ns) > 1:
            yield {'runs': [{'file': ns[0]}, {'file': ns[1]}]}
        for n in (1, 2, 3, 5, 8):
            for shape in ('flat', 'spike', 'noise'):
                z, _ = gen.terrain(rng, n, shape, 30.0)
                yield {'runs': [{'z': [float(v) for v in z], 'xi': 5e3 / n, 'shape': shape}]}

    def judge(self, case, obs):
        for i, r in enumerate(case['runs']):
            if 'file' in r:
                z, ds = self.load(r['file'])
                src = 'file'
            else:
                z = list(r['z'])
                ds = [r.get('from', 0) + k * r['xi'] for k in range(len(z))]
                src = r['shape']
            if len(z) != len(ds):
                m = min(len(z), len(ds))
                obs.skip('recorded lists of different length')
                z, ds = z[:m], ds[:m]
            z0 = list(z)
            d0 = list(ds)
            with env.quiet():
                out = obs.call('campaign runner', self.mod.run_itmlogic, z, ds)
            obs.ok(z == z0 and ds == d0, 'the runner changed the lists it was given')
            obs.ok(len(out) == 121, 'the runner returned %d rows, not 121' % len(out))
            sizes = set()
            pick = range(121) if len(z) < 30 else range((len(z) + i) % 3, 121, 3)
            xi = ds[1] - ds[0]
            for k in range(121):
                row = out[k]
                h = 10 + k
                obs.ok(close(row[0], 2488.0, 1e-12, 1e-9) and row[1] == h and row[2] == 50, 'row %d is labelled %r, expected 2488 MHz, %d m, 50 %%' % (k, row[:3], h))
                if k not in pick:
                    continue
                c = dict(tables.campaign_case(h), xi=xi, z=z0)
                want, path, T, g = tables.p2p_table(c, None, (50,), (50,))
                drive.agree(obs, 'median loss at %d m' % h, row[3], want[0][2], T, lambda j: tables.p2p_table(c, j, (50,), (50,))[0][0][2], 1e-7, 5e-6, {'run': i})
                if not T.bad:
                    sizes.add(path.regime[0])
            obs.tag(src, drive.bucket(len(z) - 1, (2, 6, 40, 160)), ''.join(sorted(sizes)), i)
            obs.sig = obs.sig[-4:]
