import math
import os
import shutil
import tempfile

from vlib import dem, drive, env, gen
from vlib.harness import Check, close

KINDS = ('plane', 'east', 'north', 'waves', 'noise', 'flat', 'peaks', 'coast', 'sea')


class CHECK(Check):
    id = 'C24'
    technique = 'online monitor on the sampling call over synthetic elevation models: endpoints, even spacing, count bounds and monotonicity, independent bilinear elevations, geodesic length'
    rule = ('a case is one synthetic elevation model and 1-3 lines of growing length, or a ladder of distances for the sample count; non-trivial when at least one '
            'profile or count was inspected; signature: surface x data type x direction octant x point-count bucket')
    quick = 170
    thorough = 3800
    assumptions = ('the elevation at a point between cell centres is the bilinear interpolation of the four around it',)

    def setup(self):
        self.mod = env.script('terrain_module')
        import pyproj
        self.geod = pyproj.Geod(ellps='WGS84')
        self.dir = tempfile.mkdtemp(prefix='itmv-')
        self.n = 0

    def teardown(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def spec(self, rng):
        cell = rng.choice((1 / 3600, 1 / 1200, 0.002, 0.01, gen.logu(rng, 2e-4, 0.02)))
        n = rng.choice((60, 150, 300))
        dx = cell
        dy = cell * rng.choice((1, 1, rng.uniform(0.5, 2)))
        lat = rng.choice((rng.uniform(-55, 55), rng.uniform(-5, 5), rng.uniform(50, 65)))
        lon = rng.choice((rng.uniform(-170, 170), rng.uniform(-1, 0)))
        return {'x0': round(lon, 3), 'y1': round(lat, 3), 'dx': dx, 'dy': dy, 'nx': n, 'ny': rng.choice((n, n // 2 + 20)), 'kind': rng.choice(KINDS),
                'dtype': rng.choice(('int16', 'float32', 'float64')), 'seed': rng.randrange(10 ** 9), 'vrt': rng.random() < 0.2}

    def line(self, rng, s):
        x0, y1 = s['x0'] + s['dx'], s['y1'] - s['dy']
        x1, y0 = s['x0'] + s['dx'] * (s['nx'] - 1), s['y1'] - s['dy'] * (s['ny'] - 1)
        a = [rng.uniform(x0, x1), rng.uniform(y0, y1)]
        u = rng.random()
        if u < 0.15:
            a = [rng.choice((x0, x1)), rng.choice((y0, y1))]
        b = [rng.uniform(x0, x1), rng.uniform(y0, y1)]
        v = rng.random()
        if v < 0.12:
            b[0] = a[0]
        elif v < 0.24:
            b[1] = a[1]
        elif v < 0.85:
            f = gen.logu(rng, 3e-4, 0.3) if v > 0.34 else gen.logu(rng, 3e-7, 3e-4)
            b = [a[i] + f * (b[i] - a[i]) for i in (0, 1)]
        if abs(a[0] - b[0]) + abs(a[1] - b[1]) < 1e-7:
            return self.line(rng, s)
        # 1-3 lines in the same direction, growing
        fs = sorted(rng.choice((1.0, rng.uniform(0.05, 1), 1 - gen.logu(rng, 1e-6, 1e-2))) for _ in range(rng.choice((0, 0, 1, 2)))) + [1.0]
        return [[a, [a[i] + f * (b[i] - a[i]) for i in (0, 1)]] for f in fs]

    def random(self, rng):
        if rng.random() < 0.2:
            return {'ladder': self.ladder(rng)}
        s = self.spec(rng)
        return {'dem': s, 'lines': self.line(rng, s), 'tuples': rng.random() < 0.7}

    def ladder(self, rng):
        c = gen.logu(rng, 1, 1e8)
        out = [0.0, 1e-4] + [gen.logu(rng, 1e-3, 1e9) for _ in range(40)] + [c * rng.uniform(0.99, 1.01) for _ in range(40)]
        out += [gen.val(rng, 1.0, 1e7, (1.0, 1000.0), pdict=0.6) for _ in range(20)]
        return sorted(out)

    def directed(self, rng):
        for lo, hi in ((0, 3000), (3000, 60000), (60000, 10 ** 6), (10 ** 6, 10 ** 8)):
            yield {'ladder': [lo + (hi - lo) * i / 4000 for i in range(4001)]}
        yield {'ladder': [float(i) for i in range(0, 2000)]}
        yield {'ladder': list(range(0, 400000, 100))}
        for k in KINDS:
            for dt in ('int16', 'float32'):
                s = self.spec(rng)
                s.update(kind=k, dtype=dt)
                yield {'dem': s, 'lines': self.line(rng, s), 'tuples': True}
        # long lines over a large model
        for k in ('plane', 'waves'):
            for lat in (-3.0, 52.0):
                s = {'x0': 26.0, 'y1': lat, 'dx': 0.01, 'dy': 0.01, 'nx': 300, 'ny': 300, 'kind': k, 'dtype': 'float32', 'seed': 5}
                x0, y1 = 26.0, lat
                yield {'dem': s, 'lines': [[[x0 + 0.1, y1 - 0.1], [x0 + 0.1 + f, y1 - 0.1 - f]] for f in (1e-6, 0.0002, 0.3, 2.6)], 'tuples': True}

    def judge(self, case, obs):
        if 'ladder' in case:
            f = getattr(self.mod, 'determine_num_samples', None)
            if f is None:
                obs.skip('no sample-count function')
                return
            last = None
            for d in case['ladder']:
                n = obs.call('sample count', f, d)
                obs.ok(n == int(n) and 2 <= n <= 600, 'sample count for %r m is %r' % (d, n))
                obs.ok((d > 1e-3 or n == 2) and (d < 2e6 or n == 600), 'sample count for %r m is %r' % (d, n))
                if last:
                    obs.ok(n >= last[1], 'sample count falls from %r at %r m to %r at %r m' % (last[1], last[0], n, d))
                last = (d, n)
            obs.tag('ladder')
            return
        self.n += 1
        path = os.path.join(self.dir, 'dem%d%s.tif' % (self.n, dem.ODD[case['dem']['seed'] % 4]))
        m = dem.make(path, case['dem'])
        files = [path]
        if case['dem'].get('vrt'):
            path = path[:-4] + '.vrt'
            files += dem.vrt(path, m)
            obs.count('virtual_rasters')
        try:
            last = None
            for a, b in case['lines']:
                ab = [tuple(a), tuple(b)] if case['tuples'] else [list(a), list(b)]
                line = {'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': ab}, 'properties': {'id': 'x'}}
                prof, dist, pts = obs.call('profile sampling', self.mod.terrain_p2p, path, line)
                _, _, want = self.geod.inv(a[0], a[1], b[0], b[1])
                obs.ok(close(dist, want / 1000, 1e-9, 1e-9), 'reported distance %r km, geodesic length %r km' % (dist, want / 1000))
                n = len(prof)
                obs.ok(2 <= n <= 600, 'the profile has %d points' % n)
                obs.ok(len(pts) == n, '%d elevations but %d points' % (n, len(pts)))
                if last and want >= last[0]:
                    obs.ok(n >= last[1], 'the longer path (%r m) has %d points, the shorter (%r m) %d' % (want, n, last[0], last[1]))
                last = (want, n)
                span = max(abs(b[0] - a[0]), abs(b[1] - a[1]))
                for i, (z, q) in enumerate(zip(prof, pts)):
                    t = i / (n - 1)
                    x, y = q['geometry']['coordinates'][:2]
                    ex, ey = a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])
                    obs.ok(q['geometry']['type'] == 'Point' and abs(x - ex) <= 3e-12 + 1e-7 * span and abs(y - ey) <= 3e-12 + 1e-7 * span,
                           'point %d of %d is at (%r, %r), even spacing puts it at (%r, %r)' % (i, n, x, y, ex, ey), line=ab)
                    e = m.at(ex, ey)
                    # how much the surface moves within the positional tolerance
                    tol = 1e-3 + 1e-5 * abs(e) + 1e-6 * float(m.Zf.max() - m.Zf.min()) * span / min(m.dx, m.dy)
                    obs.ok(z is not None and abs(float(z) - e) <= tol, 'elevation at point %d of %d is %r, the model has %r there' % (i, n, z, e), line=ab, tol=tol)
                    obs.ok(float(q['properties']['elevation']) == float(z), 'point %d carries elevation %r, the profile %r' % (i, q['properties']['elevation'], z))
                obs.count('profiles')
                obs.count('points', n)
                ang = math.atan2(b[1] - a[1], b[0] - a[0])
                obs.tag(case['dem']['kind'], case['dem']['dtype'], int(ang / math.pi * 4), drive.bucket(n, (40, 100, 300, 500, 560)))
                obs.sig = obs.sig[-4:]
        finally:
            for f in files:
                os.unlink(f)
