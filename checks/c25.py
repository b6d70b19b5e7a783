import math
import os
import shutil
import tempfile

import numpy as np

from vlib import dem, drive, env, gen
from vlib.harness import Check, close


def idr(vals):
    """interdecile range with linear interpolation between order statistics"""
    v = sorted(float(x) for x in vals)
    n = len(v)

    def pc(p):
        k = (n - 1) * p
        i = int(math.floor(k))
        j = min(i + 1, n - 1)
        return v[i] + (k - i) * (v[j] - v[i])
    return pc(0.9) - pc(0.1)


def kth(a, b, k):
    """the k-th smallest entry (from 0) of two sorted lists together"""
    lo, hi = max(0, k - len(b)), min(k, len(a))
    while lo < hi:                       # of the k smallest, lo..hi are from a
        i = (lo + hi) // 2
        if a[i] < b[k - i - 1]:
            lo = i + 1
        else:
            hi = i
    x = a[lo] if lo < len(a) else math.inf
    y = b[k - lo] if k - lo < len(b) else math.inf
    return min(x, y)


def extreme(S, M, p, low):
    """the least (or greatest) quantile of S with any subset of M, both sorted: for every size
    of the subset, that of the lowest (or highest) entries of M"""
    best = None
    for m in range(len(M) + 1):
        T = M[:m] if low else M[len(M) - m:]
        n = len(S) + m
        k = (n - 1) * p
        i = int(math.floor(k))
        u = kth(S, T, i)
        v = u + (k - i) * (kth(S, T, min(i + 1, n - 1)) - u)
        best = v if best is None else (min if low else max)(best, v)
    return best


class CHECK(Check):
    id = 'C25'
    technique = 'online monitor on the terrain-irregularity call over synthetic elevation models, against geodesic cell membership and an independent interdecile range; geodesic monitor on the buffer outline'
    rule = ('a case is one elevation model (with outliers outside the circle and missing cells), site and radius; or one set of values; or one buffer; non-trivial when a '
            'result was compared; signature: kind x surface x missing-data class x radius bucket')
    quick = 1600
    thorough = 170000
    assumptions = ('cells belong to the circle by their centres; cells whose centre lies within the outline\'s polygon error (0.3 %) of the circle are free',
                   'missing cells carry the value the file declares for them, -9999 where it declares none')

    def setup(self):
        self.mod = env.script('terrain_module')
        import pyproj
        self.geod = pyproj.Geod(ellps='WGS84')
        self.dir = tempfile.mkdtemp(prefix='itmv-')
        self.n = 0

    def teardown(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def site(self, rng):
        lat = rng.choice((rng.uniform(-60, 60), rng.uniform(-5, 5), rng.uniform(50, 68)))
        lon = rng.choice((rng.uniform(-170, 170), rng.uniform(-1, 0)))
        return lon, lat

    def random(self, rng):
        u = rng.random()
        if u < 0.45:
            lon, lat = self.site(rng)
            r = rng.choice((20000, gen.logu(rng, 300, 60000), rng.randint(500, 40000)))
            return {'k': 'area', 'lon': lon, 'lat': lat, 'r': r, 'cells': rng.choice((12, 25, 40)) if rng.random() < 0.97 else rng.randint(60, 150), 'kind': rng.choice(('cone', 'cone', 'east', 'north', 'noise', 'two', 'flat', 'coast')),
                    'miss': rng.choice(('none', 'none', 'some', 'half', 'ring')), 'dtype': rng.choice(('int16', 'float32')), 'seed': rng.randrange(10 ** 9),
                    'out': rng.choice((0, 30000, -4000, 0)), 'off': [rng.uniform(-.5, .5), rng.uniform(-.5, .5)], 'edge': rng.random() < 0.2, 'nd': rng.choice((-9999, -9999, -32768, 0, -1))}
        if u < 0.85:
            n = rng.choice((rng.randint(1, 12), rng.randint(13, 200)))
            k = rng.randrange(5)
            if k == 0:
                v = [rng.randint(-20, 20) for _ in range(n)]
            elif k == 1:
                v = [rng.uniform(-500, 9000) for _ in range(n)]
            elif k == 2:
                v = [rng.choice((3, 3, 3, 700)) for _ in range(n)]
            elif k == 3:
                v = [float(rng.randint(0, 3000)) for _ in range(n)]
            else:
                v = [-rng.uniform(0, 400) for _ in range(n)]
            mask = None
            if rng.random() < 0.5 and n > 1:
                mask = [rng.random() < 0.4 for _ in range(n)]
                if all(mask):
                    mask[0] = False
            return {'k': 'values', 'v': v, 'mask': mask, 'as': rng.choice(('list', 'array', 'array', 'tuple')), 'junk': rng.choice((-9999, 0, 30000))}
        if u < 0.9:
            n = rng.choice((rng.randint(1, 12), rng.randint(13, 200)))
            z = rng.randrange(3)
            if z == 0:
                v = [rng.randint(-5, 5) for _ in range(n)]
            elif z == 1:
                v = [rng.uniform(-2, 9000) if rng.random() < 0.7 else rng.choice((0.0, -9999.0, 0.25, 1e-3)) for _ in range(n)]
            else:
                v = [-rng.randint(0, 9) for _ in range(n)]
            rows = rng.choice([q for q in range(1, n + 1) if n % q == 0])
            return {'k': 'zone', 'v': v, 'mask': None if rng.random() < 0.2 else [rng.random() < rng.choice((0.1, 0.6)) for _ in range(n)], 'rows': rows}
        lon, lat = self.site(rng)
        return {'k': 'buffer', 'lon': lon, 'lat': lat, 'r': rng.choice((gen.logu(rng, 10, 200000), rng.randint(100, 60000)))}

    def directed(self, rng):
        for kind in ('cone', 'east', 'north', 'noise', 'two', 'flat', 'coast'):
            for miss in ('none', 'some', 'half', 'ring'):
                for out in (0, 30000, -4000):
                    lon, lat = self.site(rng)
                    yield {'k': 'area', 'lon': lon, 'lat': lat, 'r': rng.choice((1500, 20000)), 'cells': 30, 'kind': kind, 'miss': miss, 'dtype': 'int16', 'seed': rng.randrange(10 ** 9),
                           'out': out, 'off': [0, 0], 'edge': False}
        for c in (90, 150, 280):
            lon, lat = self.site(rng)
            yield {'k': 'area', 'lon': lon, 'lat': lat, 'r': 20000, 'cells': c, 'kind': rng.choice(('north', 'noise')), 'miss': 'none', 'dtype': 'int16', 'seed': rng.randrange(10 ** 9),
                   'out': 0, 'off': [0, 0], 'edge': False}
        for lon, lat in ((-0.0749, 51.424), (26.9976, -3.5409), (0.0, 0.0), (-120.0, 65.0), (150.0, -45.0)):
            for r in (50, 1000, 20000, 150000):
                yield {'k': 'buffer', 'lon': lon, 'lat': lat, 'r': r}
        for v in ([5], [1, 2], list(range(11)), list(range(101)), [0.0, 0.4, 1.6], [-3, -3, 4]):
            for a in ('list', 'array'):
                yield {'k': 'values', 'v': v, 'mask': None, 'as': a, 'junk': 0}

    def expect(self, obs, got, lo, hi, what, **kw):
        """got must be an integer within [lo, hi] rounded, ties free"""
        # ties, and what is a tie at the precision of the data, may go either way
        eps = 1e-6 + 1e-6 * max(abs(lo), abs(hi))
        a, b = math.floor(lo + 0.5 - eps), math.ceil(hi - 0.5 + eps)
        a, b = min(a, b), max(a, b)
        obs.ok(got is not None and float(got) == int(got) and a <= got <= b, '%s is %r, expected %s' % (what, got, a if a == b else 'between %d and %d' % (a, b)),
               exact=[lo, hi], **kw)

    def judge(self, case, obs):
        k = case['k']
        if k == 'values':
            v = case['v']
            if case['mask'] is not None:
                x = np.ma.masked_array([case['junk'] if m else q for q, m in zip(v, case['mask'])], mask=case['mask'])
                use = [q for q, m in zip(v, case['mask']) if not m]
            else:
                x = {'list': list, 'tuple': tuple, 'array': np.array}[case['as']](v)
                use = v
            got = obs.call('interdecile range', self.mod.interdecile_range, x)
            w = idr(use)
            self.expect(obs, got, w, w, 'the interdecile range')
            obs.tag('values', 'masked' if case['mask'] else case['as'], drive.bucket(len(use), (2, 5, 12, 50)))
            return
        if k == 'zone':
            v = np.array(case['v']).reshape(case['rows'], -1)
            mask = np.ma.nomask if case['mask'] is None else np.array(case['mask']).reshape(v.shape)
            x = np.ma.masked_array(v.copy(), mask=mask)
            got = obs.call('valid data of a zone', self.mod.all_data, x)
            want = [q for i, q in enumerate(case['v']) if q > 0 and not (case['mask'] and case['mask'][i])]
            obs.ok(list(got) == want, 'the valid data of the zone is %r, expected %r' % (list(got)[:20], want[:20]))
            obs.ok(np.array_equal(x.data, v) and np.array_equal(np.ma.getmaskarray(x), np.ma.getmaskarray(np.ma.masked_array(v, mask=mask))), 'the zone was changed')
            obs.tag('zone', case['rows'] > 1, case['mask'] is None, drive.bucket(len(want), (1, 5, 12, 50)))
            return
        lon, lat, r = case['lon'], case['lat'], case['r']
        if k == 'buffer':
            poly = obs.call('buffer', self.mod.geodesic_point_buffer, lon, lat, r)
            ring = list(poly.exterior.coords)
            obs.ok(len(ring) >= 17 and tuple(ring[0]) == tuple(ring[-1]), 'the outline is not a closed ring of enough points')
            az = []
            for (x1, y1), (x2, y2) in zip([p[:2] for p in ring], [p[:2] for p in ring[1:]]):
                a, _, d = self.geod.inv(lon, lat, x1, y1)
                az.append(a % 360)
                obs.ok(abs(d - r) <= 1e-3 * r + 0.01, 'an outline point is %r m from the site, not %r m' % (d, r))
                _, _, d = self.geod.inv(lon, lat, (x1 + x2) / 2, (y1 + y2) / 2)
                obs.ok(0.995 * r <= d <= 1.001 * r + 0.01, 'the outline passes %r m from the site, not %r m' % (d, r))
            az = sorted(az)
            gap = max([b - a for a, b in zip(az, az[1:])] + [az[0] + 360 - az[-1]])
            obs.ok(gap < 30, 'the outline leaves out %r degrees of azimuth' % gap)
            obs.tag('buffer', drive.bucket(r, (100, 1000, 10000, 100000)), int(lat // 20))
            return
        # elevation model centred on the site
        import random
        rng = random.Random(case['seed'])
        g = np.random.default_rng(case['seed'])
        c = case['cells']
        mlat = 111132.0
        mlon = 111320.0 * math.cos(math.radians(lat))
        dy = r / c / mlat
        dx = r / c / mlon * rng.uniform(0.7, 1.3)
        ny = nx = int(2 * c * 1.5) + 6
        x0 = lon - dx * (nx / 2 + case['off'][0])
        y1 = lat + dy * (ny / 2 + case['off'][1])
        if case['edge']:
            # the circle reaches beyond the model
            x0 += rng.choice((-1, 1)) * dx * nx * 0.4
        X = x0 + dx * (np.arange(nx) + 0.5)
        Y = y1 - dy * (np.arange(ny) + 0.5)
        X, Y = np.meshgrid(X, Y)
        D = np.array(self.geod.inv(np.full(X.size, lon), np.full(X.size, lat), X.ravel(), Y.ravel())[2]).reshape(X.shape)
        kind = case['kind']
        if kind == 'cone':
            Z = 2000 * (D / r)
        elif kind == 'east':
            Z = 1500 * (X - lon) / (r / mlon)
        elif kind == 'north':
            Z = 1500 * (Y - lat) / (r / mlat)
        elif kind == 'noise':
            Z = g.uniform(-100, 2500, X.shape)
        elif kind == 'flat':
            Z = np.full(X.shape, float(rng.choice((0, 0, 7, 250))))
        elif kind == 'coast':
            Z = np.maximum(0, 900 * (X - lon) / (r / mlon))
        else:
            Z = np.where(D < 0.8 * r, 100.0, 900.0) + g.uniform(0, 5, X.shape)
        if case['out']:
            Z = np.where(D > r * 1.002, float(case['out']), Z)
        Z = np.rint(Z) if case['dtype'] == 'int16' else Z
        Z = Z.astype(case['dtype'])
        nd = case.get('nd', -9999)
        if case['miss'] == 'some':
            Z = np.where(g.random(X.shape) < 0.1, nd, Z).astype(case['dtype'])
        elif case['miss'] == 'half':
            Z = np.where(g.random(X.shape) < 0.6, nd, Z).astype(case['dtype'])
        elif case['miss'] == 'ring':
            Z = np.where((D > 0.3 * r) & (D < 0.6 * r), nd, Z).astype(case['dtype'])
        data = Z != nd
        sure = (D < r * 0.997) & data
        maybe = (D >= r * 0.997) & (D <= r * 1.003) & data
        if sure.sum() < 20:
            obs.skip('too few cells')
            return
        self.n += 1
        path = os.path.join(self.dir, 'a%d%s.tif' % (self.n, dem.ODD[case['seed'] % 4]))
        mark = None if nd == -9999 and rng.random() < 0.4 else nd
        m = dem.Dem(path, x0, y1, dx, dy, Z, nodata=mark)
        files = [path]
        if case['seed'] % 5 == 0:
            path = path[:-4] + '.vrt'
            files += dem.vrt(path, m, mark)
            obs.count('virtual_rasters')
        try:
            got = obs.call('terrain irregularity', self.mod.terrain_area, path, lon, lat, r)
        finally:
            for f in files:
                os.unlink(f)
        S = list(Z[sure])
        M = list(Z[maybe])
        # any subset of the undecided cells is admissible: bound both percentiles over all subsets
        lo, hi = self.bounds(S, M)
        self.expect(obs, got, lo, hi, 'the terrain irregularity', cells=len(S), undecided=len(M))
        obs.count('cells', len(S))
        obs.tag('area', kind, case['miss'], 'o%d' % bool(case['out']), drive.bucket(r, (2000, 20000)), 'edge' if case['edge'] else 'in')

    def bounds(self, S, M):
        """the least and greatest interdecile range of the cells S with any subset of the cells M"""
        if not len(M):
            w = idr(S)
            return w, w
        S, M = sorted(float(x) for x in S), sorted(float(x) for x in M)
        lo9, hi9 = extreme(S, M, 0.9, True), extreme(S, M, 0.9, False)
        lo1, hi1 = extreme(S, M, 0.1, True), extreme(S, M, 0.1, False)
        return lo9 - hi1, hi9 - lo1
