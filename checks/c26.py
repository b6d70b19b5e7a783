import copy
import csv
import os
import shutil
import tempfile

import numpy as np

from vlib import drive, env, gen
from vlib.harness import Check, close

WORDS = ('a', 'distance_km', 'loss dB', 'x,y', 'say "hi"', "it's", 'semi;colon', 'tab\there', 'line\nbreak', 'pct_%', '50', '-', 'été', 'ß', '  lead', 'trail  ', "''", '#', '\\', 'a|b', '1e5', 'nan', 'None')


class CHECK(Check):
    id = 'C26'
    technique = 'read-back monitor: every exported table and shape is re-read from scratch folders and compared with what was handed over, over histories of exports'
    rule = ('a case is a history of 1-4 exports into one scratch folder (missing, nested or existing; same or different names); non-trivial when a file was read back; '
            'signature: writer x script x row-count bucket x replaced or new')
    quick = 2600
    thorough = 280000
    assumptions = ('shape attributes stay within what the shapefile format can hold (names of 10 characters, text of 80 bytes, 9-digit integers, 24-character numbers)',)

    def setup(self):
        self.mod = {n: env.script(n) for n in ('p2p', 'p2p_2tiles', 'area', 'area_2tiles')}
        import fiona
        self.fiona = fiona
        self.dir = tempfile.mkdtemp(prefix='itmv-')
        self.n = 0

    def teardown(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def cell(self, rng):
        u = rng.random()
        if u < 0.3:
            return rng.uniform(-1e3, 1e3)
        if u < 0.45:
            return rng.choice((0.1, 1 / 3, 1e-300, 1.7976931348623157e308, 5e-324, -0.0, 0.1 + 0.2, 1e22, 123456789.123456789, 2.0 ** 53 + 2))
        if u < 0.6:
            return rng.choice((0, 1, -1, 50, 90, 10 ** 18, rng.randint(-10 ** 6, 10 ** 6)))
        if u < 0.7:
            return gen.val(rng, 1e-6, 1e9)
        if u < 0.95:
            return rng.choice(WORDS)
        return ''.join(rng.choice('ab,"\n;\' \t%é') for _ in range(rng.randint(1, 30)))

    def table(self, rng):
        if rng.random() < 0.5:
            ks = rng.choice((['distance_km', 'reliability_level_%', 'confidence_level_%', 'propagation_loss_dB'], ['distance_km', 'confidence_level_%', 'propagation_loss_dB']))
            return {'keys': ks, 'rows': [[gen.val(rng, 1.0, 500.0)] + [rng.choice((1, 10, 50, 90, 99)) for _ in ks[2:]] + [rng.uniform(50, 300)] for _ in range(rng.choice((1, 15, 66, rng.randint(1, 400))))]}
        ks = rng.sample(WORDS[:9] + WORDS[10:22], rng.randint(1, 6))
        return {'keys': ks, 'rows': [[self.cell(rng) for _ in ks] for _ in range(rng.choice((1, 2, rng.randint(1, 60))))]}

    def shape(self, rng):
        n = rng.choice((1, 1, 2, rng.randint(1, 30), rng.randint(100, 600) if rng.random() < 0.2 else 3))
        kind = rng.choice(('elev', 'elev', 'id', 'mixed', 'line'))
        feats = []
        for i in range(n):
            xy = [rng.uniform(-180, 180), rng.uniform(-90, 90)]
            if rng.random() < 0.1:
                xy = [rng.choice((-180.0, 180.0, 0.0, 1e-9)), rng.choice((0.0, 51.42413477117786, -89.999999))]
            if kind == 'elev':
                p = {'elevation': rng.choice((rng.uniform(-500, 9000), 0.0, float(rng.randint(-500, 9000)), 1 / 3))}
            elif kind == 'id' or kind == 'line':
                p = {'id': rng.choice(('Crystal Palace radio transmitter', 'A', 'naïve "q", x', 'terrain path', "it's", 'n' * 79, 'word ' * 15 + 'end', '50'))}
            else:
                p = {'name': rng.choice(('A', 'b c', 'ß')), 'k': rng.randint(-10 ** 7, 10 ** 8), 'z': rng.uniform(-1e6, 1e6)}
            feats.append({'xy': xy, 'props': p, 'xy2': [rng.uniform(-180, 180), rng.uniform(-90, 90)]})
        return {'kind': kind, 'feats': feats, 'crs': rng.choice(('EPSG:4326', 'EPSG:4326', 'EPSG:3857', 'EPSG:27700'))}

    def random(self, rng):
        ops = []
        names = ('out', 'results', 'b.2')
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.75:
                ops.append({'w': 'csv', 'script': rng.choice(('p2p', 'p2p_2tiles', 'area', 'area_2tiles')), 'name': rng.choice(names) + '.csv', 't': self.table(rng), 'form': rng.choice(('', '', 'n', 'o', 'no'))})
            else:
                ops.append({'w': 'shp', 'script': rng.choice(('p2p', 'p2p_2tiles')), 'name': rng.choice(names) + '.shp', 's': self.shape(rng)})
        return {'sub': rng.choice(('', 'a', 'a/b/c', 'x y/é')), 'made': rng.random() < 0.4, 'ops': ops, 'as': rng.choice(('', '', 'rel', 'slash'))}

    def directed(self, rng):
        for s, n in zip(('p2p', 'p2p_2tiles', 'area', 'area_2tiles'), (70001, 1025, 10007, 4097)):
            ks = ['distance_km', 'confidence_level_%', 'propagation_loss_dB']
            yield {'sub': 'big', 'made': False, 'ops': [{'w': 'csv', 'script': s, 'name': 'big.csv', 't': {
                'keys': ks, 'rows': [[i + 1, rng.choice((10, 50, 90)), rng.uniform(50, 300)] for i in range(n)]}}]}
        for s, n in (('p2p', 1100), ('p2p_2tiles', 2050)):
            yield {'sub': 'big', 'made': False, 'ops': [{'w': 'shp', 'script': s, 'name': 'big.shp', 's': {'kind': 'elev', 'crs': 'EPSG:4326', 'feats': [
                {'xy': [rng.uniform(-180, 180), rng.uniform(-90, 90)], 'props': {'elevation': rng.uniform(-500, 9000)}, 'xy2': [0.0, 0.0]} for _ in range(n)]}}]}
        for s in ('p2p', 'p2p_2tiles', 'area', 'area_2tiles'):
            for _ in range(3):
                ops = [{'w': 'csv', 'script': s, 'name': 'r.csv', 't': self.table(rng)} for _ in range(2)]
                ops[1]['t']['rows'] = ops[1]['t']['rows'][:1]
                yield {'sub': 'r/s', 'made': False, 'ops': ops}
        for s in ('p2p', 'p2p_2tiles'):
            for _ in range(4):
                ops = [{'w': 'shp', 'script': s, 'name': 'r.shp', 's': self.shape(rng)} for _ in range(2)]
                ops[1]['s']['feats'] = ops[1]['s']['feats'][:1]
                yield {'sub': 'r/s', 'made': False, 'ops': ops}

    def judge(self, case, obs):
        self.n += 1
        root = os.path.join(self.dir, 'c%d' % self.n)
        os.makedirs(root)
        d = os.path.join(root, case['sub']) if case['sub'] else root
        if case['made']:
            os.makedirs(d, exist_ok=True)
        live = {}
        to = d
        here = os.getcwd()
        try:
            # the folder may be named from the working directory, or with a slash at its end
            if case.get('as') == 'rel':
                os.chdir(root)
                to = case['sub'] or '.'
            elif case.get('as') == 'slash':
                to = d + '/'
            for op in case['ops']:
                m = self.mod[op['script']]
                new = op['name'] not in live
                if op['w'] == 'csv':
                    t = op['t']
                    form = op.get('form', '')
                    conv = (lambda v: np.float64(v) if isinstance(v, float) else v) if 'n' in form else (lambda v: v)
                    rows = [{k: conv(v) for k, v in zip(t['keys'], r)} for r in t['rows']]
                    if 'o' in form:
                        # later rows list their columns in another order
                        rows = [r if i % 2 == 0 else dict(reversed(list(r.items()))) for i, r in enumerate(rows)]
                    keep = copy.deepcopy(rows)
                    obs.call('table export', m.csv_writer, rows, to, op['name'])
                    obs.ok(rows == keep, 'the table was changed by exporting it')
                    n = len(rows)
                else:
                    s = op['s']
                    feats = []
                    for f in s['feats']:
                        if s['kind'] == 'line':
                            a = {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': tuple(f['xy'])}, 'properties': {'id': 'a'}}
                            b = {'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': tuple(f['xy2'])}, 'properties': {'id': 'b'}}
                            ln = obs.call('path line', m.straight_line_from_points, a, b)
                            obs.ok(ln['geometry']['type'] == 'LineString' and [tuple(c) for c in ln['geometry']['coordinates']] == [tuple(f['xy']), tuple(f['xy2'])],
                                   'the path line is %r, its ends are %r and %r' % (ln['geometry'], f['xy'], f['xy2']))
                            feats.append({'type': 'Feature', 'geometry': ln['geometry'], 'properties': dict(f['props'])})
                        else:
                            feats.append({'type': 'Feature', 'geometry': {'type': 'Point', 'coordinates': tuple(f['xy'])}, 'properties': dict(f['props'])})
                    obs.call('shape export', m.write_shapefile, feats, to, op['name'], s['crs'])
                    n = len(feats)
                live[op['name']] = op
                # every file written so far must hold its latest content
                for name, o in live.items():
                    self.check(os.path.join(d, name), o, obs)
                obs.count('exports')
                obs.tag(op['w'], op['script'], drive.bucket(n, (2, 16, 100)), 'new' if new else 'replaced')
                obs.sig = obs.sig[-4:]
        finally:
            os.chdir(here)
            shutil.rmtree(root, ignore_errors=True)

    def check(self, path, op, obs):
        obs.ok(os.path.exists(path), '%s was not written' % os.path.basename(path))
        if op['w'] == 'csv':
            t = op['t']
            with open(path, newline='', encoding='utf-8') as f:
                got = list(csv.reader(f))
            obs.ok(got[0] == list(t['keys']), 'the header is %r, the columns %r' % (got[0], t['keys']))
            body = [r if r else [''] for r in got[1:]]
            obs.ok(len(body) == len(t['rows']), 'the file has %d rows, the table %d' % (len(body), len(t['rows'])))
            for i, (g, w) in enumerate(zip(body, t['rows'])):
                obs.ok(len(g) == len(w), 'row %d has %d cells, not %d' % (i, len(g), len(w)))
                for a, b in zip(g, w):
                    if isinstance(b, str):
                        obs.ok(a == b, 'text %r was written as %r' % (b, a))
                    else:
                        try:
                            same = (int(a) == b) if isinstance(b, int) and not any(c in a for c in '.eE') else float(a) == b
                        except ValueError:
                            same = False
                        obs.ok(same, 'number %r was written as %r' % (b, a))
            return
        s = op['s']
        with self.fiona.open(path) as f:
            recs = list(f)
            crs = f.crs
        obs.ok(len(recs) == len(s['feats']), 'the file has %d features, %d were given' % (len(recs), len(s['feats'])))
        epsg = crs.to_epsg() if hasattr(crs, 'to_epsg') else crs
        obs.ok(epsg == int(s['crs'].split(':')[1]), 'the file is in %r, the features in %s' % (crs, s['crs']))
        for i, (r, w) in enumerate(zip(recs, s['feats'])):
            c = r['geometry']['coordinates']
            want = [tuple(w['xy']), tuple(w['xy2'])] if s['kind'] == 'line' else tuple(w['xy'])
            got = [tuple(x) for x in c] if s['kind'] == 'line' else tuple(c)
            obs.ok(r['geometry']['type'] == ('LineString' if s['kind'] == 'line' else 'Point') and got == want, 'feature %d is at %r, it was given at %r' % (i, got, want))
            p = dict(r['properties'])
            obs.ok(sorted(p) == sorted(w['props']), 'feature %d has attributes %r, it was given %r' % (i, sorted(p), sorted(w['props'])))
            for k, v in w['props'].items():
                obs.ok(close(p[k], v, 1e-13, 2e-15) if isinstance(v, float) else p[k] == v, 'attribute %s of feature %d is %r, it was given as %r' % (k, i, p[k], v))
