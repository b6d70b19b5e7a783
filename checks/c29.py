import csv
import hashlib
import json
import math
import os
import random
import runpy
import shutil
import subprocess
import sys
import tempfile
import time

import numpy as np

from vlib import dem, drive, env, gen, tables
from vlib.harness import Check, Obs, Stop, close
from checks.c25 import CHECK as AREA, idr
from checks.c27 import inspect

PROFILE = [
    96, 84, 65, 46, 46, 46, 61, 41, 33, 27, 23, 19, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 15, 17, 19, 21, 23, 25, 27,
    29, 35, 46, 41, 35, 30, 33, 35, 37, 40, 35, 30, 51, 62, 76, 46, 46, 46, 46, 46, 46, 50, 56, 67, 106, 83, 95, 112, 137, 137,
    76, 103, 122, 122, 83, 71, 61, 64, 67, 71, 74, 77, 79, 86, 91, 83, 76, 68, 63, 76, 107, 107, 107, 119, 127, 133, 135, 137, 142, 148,
    152, 152, 107, 137, 104, 91, 99, 120, 152, 152, 137, 168, 168, 122, 137, 137, 170, 183, 183, 187, 194, 201, 192, 152, 152, 166, 177, 198, 156, 127,
    116, 107, 104, 101, 98, 95, 103, 91, 97, 102, 107, 107, 107, 103, 98, 94, 91, 105, 122, 122, 122, 122, 122, 137, 137, 137, 137, 137, 137, 137,
    137, 140, 144, 147, 150, 152, 159]
TX1, RX1 = (-0.07491679518573545, 51.42413477117786), (-0.8119433954872186, 51.94972494521946)
TX2, RX2 = (26.676, -3.513), (27.594, -3.514)
SITE2 = (26.9976, -3.5409)
PIMTER = ['PIMTER_Tx_Rx1', 'PIMTER_2019_Rx_Tx0', 'PIMTER_2019_Rx_Tx2', 'PIMTER_2019_Rx_Tx3', 'PIMTER_2019_Rx_Tx4', 'PIMTER_2019_Rx_Tx5']
LIMIT = 200       # seconds; the scripts take 1-5 s here
SETTINGS = ({'LC_ALL': 'C', 'TZ': 'Asia/Tokyo', 'PYTHONHASHSEED': '7'}, {'LANG': 'de_DE.UTF-8', 'PYTHONHASHSEED': '11', '-O': '1'}, {})
SIDE = ('.shp', '.shx', '.dbf', '.prj', '.cpg')
OUT = {
    'p2p': (['results/p2p_results.csv'], ['data/processed/shapes/' + n for n in ('transmitter', 'receiver', 'points')]),
    'p2p_2tiles': (['results/p2p_results_2tiles.csv'], ['data/processed/shapes/p2p_2tiles']),
    'area': (['results/area_results.csv'], []),
    'area_2tiles': (['results/area_results_2tiles.csv'], []),
    'pimter': ([], []),
    'vis': ([], []),
}


class CHECK(Check):
    id = 'C29'
    technique = 'end-to-end monitor: the shipped scripts run whole in scratch folders over synthetic elevation data; exit status, files, contents and printed values are compared with the reference'
    rule = ('a case is a history of 1-4 script runs in one scratch folder, the elevation data changing between some of them; non-trivial when a run completed and its outputs '
            'were compared; signature: the sequence of scripts with new or replaced outputs')
    alarm = 800
    quick = 44
    thorough = 2400
    assumptions = ('synthetic elevation models of the documented extents stand in for the data, which is not shipped',)

    def setup(self):
        import fiona
        import pyproj
        import matplotlib
        matplotlib.use('Agg')
        self.fiona = fiona
        self.geod = pyproj.Geod(ellps='WGS84')
        self.dir = tempfile.mkdtemp(prefix='itmv-')
        self.n = 0
        self.area = AREA()
        for n in ('p2p', 'area', 'p2p_2tiles', 'area_2tiles', 'pimter', 'vis', 'terrain_module'):
            env.script(n)

    def teardown(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def random(self, rng):
        k = rng.random()
        if k < 0.35:
            ops = [rng.choice(('area', 'area_2tiles', 'area', 'vis', 'swap', 'edit')) for _ in range(rng.randint(2, 4))]
        elif k < 0.6:
            ops = ['p2p'] + [rng.choice(('vis', 'area', 'swap', 'edit', 'p2p_2tiles')) for _ in range(rng.randint(0, 2))]
        elif k < 0.75:
            ops = ['p2p_2tiles'] + [rng.choice(('area_2tiles', 'swap', 'p2p')) for _ in range(rng.randint(0, 1))]
        elif k < 0.85:
            ops = ['pimter']
        else:
            ops = [rng.choice(('area', 'p2p')), rng.choice(('swap', 'area')), rng.choice(('area', 'p2p')), 'vis']
        return {'ops': ops, 'seed': rng.randrange(10 ** 9), 'cells': rng.choice((60, 80, 150, 240)), 'sub': rng.random() < 0.1, 'odd': rng.choice(dem.ODD)}

    def directed(self, rng):
        for s in ('p2p', 'p2p_2tiles', 'area', 'area_2tiles', 'pimter'):
            yield {'ops': [s], 'seed': rng.randrange(10 ** 9), 'cells': 120, 'sub': True, 'odd': rng.choice(dem.ODD[1:])}
        yield {'ops': ['pimter', 'pimter'], 'seed': rng.randrange(10 ** 9), 'cells': 60, 'sub': False}
        yield {'ops': ['p2p', 'area', 'vis'], 'seed': rng.randrange(10 ** 9), 'cells': 60, 'sub': False}
        yield {'ops': ['p2p', 'swap', 'p2p', 'vis'], 'seed': rng.randrange(10 ** 9), 'cells': 90, 'sub': False}
        yield {'ops': ['p2p', 'area', 'vis', 'edit', 'vis', 'area_2tiles', 'p2p_2tiles'], 'seed': rng.randrange(10 ** 9), 'cells': 70, 'sub': False}
        yield {'ops': ['edit', 'vis', 'p2p', 'p2p_2tiles', 'area', 'vis'], 'seed': rng.randrange(10 ** 9), 'cells': 70, 'sub': False}
        yield {'ops': ['area', 'vis', 'area_2tiles', 'area'], 'seed': rng.randrange(10 ** 9), 'cells': 90, 'sub': True}
        yield {'ops': ['p2p_2tiles', 'p2p_2tiles', 'area_2tiles'], 'seed': rng.randrange(10 ** 9), 'cells': 90, 'sub': False}
        yield {'ops': ['area', 'swap', 'area', 'vis', 'vis'], 'seed': rng.randrange(10 ** 9), 'cells': 200, 'sub': False}

    # ------------------------------------------------------------ data
    def data(self, root, case, k):
        rng = random.Random('%d/%d' % (case['seed'], k))
        n = case['cells']
        d = os.path.join(root, 'data')
        os.makedirs(d, exist_ok=True)
        kinds = ('plane', 'waves', 'noise', 'east', 'north', 'peaks', 'coast', 'flat', 'sea')
        one = dem.make(os.path.join(d, 'ASTGTM2_N51W001_dem.tif'),
                       {'x0': -1.0, 'y1': 52.0, 'dx': 1 / n, 'dy': 1 / n, 'nx': n, 'ny': n, 'kind': rng.choice(kinds), 'dtype': 'int16', 'seed': rng.randrange(10 ** 9),
                        'nodata': rng.choice((None, -9999))})
        spec = {'x0': 26.0, 'y1': -3.0, 'dx': 1 / n, 'dy': 1 / n, 'nx': 2 * n, 'ny': n, 'kind': rng.choice(kinds), 'dtype': 'int16', 'seed': rng.randrange(10 ** 9)}
        whole = os.path.join(d, 'whole.tif')
        two = dem.make(whole, spec)
        os.unlink(whole)
        for i in (0, 1):
            dem.Dem(os.path.join(d, 'S004E02%d_AVE_DSM.tif' % (6 + i)), 26.0 + i, -3.0, 1 / n, 1 / n, two.Z[:, i * n:(i + 1) * n].copy())
        src = ''.join('<SimpleSource><SourceFilename relativeToVRT="1">S004E02%d_AVE_DSM.tif</SourceFilename><SourceBand>1</SourceBand>'
                      '<SrcRect xOff="0" yOff="0" xSize="%d" ySize="%d"/><DstRect xOff="%d" yOff="0" xSize="%d" ySize="%d"/></SimpleSource>' % (6 + i, n, n, i * n, n, n) for i in (0, 1))
        with open(os.path.join(d, 'S_AVE_DSM.vrt'), 'w') as f:
            f.write('<VRTDataset rasterXSize="%d" rasterYSize="%d"><SRS>EPSG:4326</SRS><GeoTransform>26.0, %r, 0, -3.0, 0, %r</GeoTransform>'
                    '<VRTRasterBand dataType="Int16" band="1">%s</VRTRasterBand></VRTDataset>' % (2 * n, n, 1 / n, -1 / n, src))
        if 'pimter' in case['ops']:
            pd = os.path.join(d, 'pimter')
            os.makedirs(pd, exist_ok=True)
            for name in PIMTER:
                m = rng.randint(3, 20) if case['cells'] > 60 else rng.choice((rng.randint(3, 20), rng.randint(200, 400), rng.randint(601, 1300)))
                z, _ = gen.terrain(rng, m, amp=30.0)
                xi = rng.uniform(20, 400)
                with open(os.path.join(pd, name + '_dem_height.csv'), 'w') as f:
                    f.write(''.join('%r\n' % float(v) for v in z))
                with open(os.path.join(pd, name + '_dem_length.csv'), 'w') as f:
                    f.write(''.join('%r\n' % (i * xi) for i in range(m + 1)))
        return one, two

    # ------------------------------------------------------------ execution
    def execute(self, root, name, sub):
        path = os.path.join(env.VIS if name == 'vis' else env.SCRIPTS, name + '.py')
        log = os.path.join(self.dir, 'log')
        if sub:
            v = dict(SETTINGS[sub - 1])
            flags = ['-O'] if v.pop('-O', None) else []
            e = dict(os.environ, PYTHONPATH=env.SRC, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', **v)
            with open(log, 'w') as f:
                try:
                    rc = subprocess.call([sys.executable] + flags + ['-W', 'ignore', path], cwd=root, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=LIMIT)
                except subprocess.TimeoutExpired:
                    rc = 'none after %d s' % LIMIT
        else:
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                    sys.stdout = os.fdopen(1, 'w', closefd=False)
                    sys.stderr = os.fdopen(2, 'w', closefd=False)
                    os.chdir(root)
                    sys.argv = [path]
                    self.hook(root, name)
                    try:
                        runpy.run_path(path, run_name='__main__')
                        code = 0
                    except SystemExit as x:
                        code = 0 if x.code in (None, 0) else 1
                    except BaseException:
                        import traceback
                        traceback.print_exc()
                    sys.stdout.flush()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
            t0 = time.time()
            pause = 0.001
            while True:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    rc = os.waitstatus_to_exitcode(st)
                    break
                if time.time() - t0 > LIMIT:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    rc = 'none after %d s' % LIMIT
                    break
                time.sleep(pause)
                pause = min(pause * 1.5, 0.05)
        with open(log, errors='replace') as f:
            return rc, f.read()

    def hook(self, root, name):
        """in the child: watch what the scripts without tables hand on (profiles to the model, figures to the disk)"""
        out = open(os.path.join(self.dir, 'events'), 'w')
        if name == 'pimter':
            import itmlogic.preparatory_subroutines.qlrpfl as Q
            real = Q.qlrpfl

            def qlrpfl(prop):
                out.write(json.dumps({'pfl': [float(v) for v in prop['pfl']], 'hg': [float(v) for v in prop['hg']], 'wn': float(prop['wn'])}) + '\n')
                out.flush()
                return real(prop)
            for m in list(sys.modules.values()):      # a helper module may hold it already
                for k, v in list(getattr(m, '__dict__', {}).items()):
                    if v is real:
                        setattr(m, k, qlrpfl)
        elif name == 'vis':
            import matplotlib.figure
            real = matplotlib.figure.Figure.savefig

            def savefig(fig, *a, **k):
                target = os.path.basename(str(a[0] if a else k.get('fname')))
                o = Obs()
                src = os.path.join(root, 'results', target.replace('.png', '.csv'))
                if os.path.exists(src):
                    area = target.startswith('area')
                    with open(src, newline='') as f:
                        rows = [(float(r['distance_km' if area else 'reliability_level_%']), int(float(r['confidence_level_%'])), float(r['propagation_loss_dB'])) for r in csv.DictReader(f)]
                    try:
                        inspect(o, fig, rows, area)
                    except Stop:
                        pass
                out.write(json.dumps({'figure': target, 'events': o.events, 'fail': [x['msg'] for x in o.fails]}) + '\n')
                out.flush()
                return real(fig, *a, **k)
            matplotlib.figure.Figure.savefig = savefig

    def events(self):
        p = os.path.join(self.dir, 'events')
        if not os.path.exists(p):
            return []
        with open(p) as f:
            out = [json.loads(x) for x in f]
        os.unlink(p)
        return out

    def campaign(self, root, ev, obs):
        """every campaign profile reached the model, at every height, and nothing else did"""
        if not ev:
            obs.skip('no model call seen in the campaign script')
            return
        prof = {}
        for n in PIMTER:
            with open(os.path.join(root, 'data', 'pimter', n + '_dem_height.csv')) as f:
                z = [float(r[0]) for r in csv.reader(f)]
            with open(os.path.join(root, 'data', 'pimter', n + '_dem_length.csv')) as f:
                d = [float(r[0]) for r in csv.reader(f)]
            prof[n] = [len(z) - 1, d[1] - d[0]] + z
        seen = {n: set() for n in PIMTER}
        for e in ev:
            hit = [n for n, p in prof.items() if len(p) == len(e['pfl']) and all(close(x, y, 1e-9, 1e-9) for x, y in zip(p, e['pfl']))]
            obs.ok(hit, 'the campaign script hands the model a profile that is none of the recorded ones', profile=e['pfl'][:8])
            obs.ok(close(e['hg'][0], 2.56) and close(e['wn'], 2488 / 47.7), 'the campaign script predicts for a receiver at %r m, wave number %r' % (e['hg'][0], e['wn']))
            for n in hit:
                seen[n].add(round(e['hg'][1], 6))
        for n in PIMTER:
            obs.ok(seen[n] >= set(range(10, 131)), 'the campaign script leaves out heights of %s: %r' % (n, sorted(set(range(10, 131)) - seen[n])[:10]))
        obs.count('campaign_model_calls', len(ev))

    def digest(self, path):
        with open(path, 'rb') as f:
            return hashlib.sha256(f.read()).digest()

    def edit(self, root, case, k, have):
        rng = random.Random('edit/%d/%d' % (case['seed'], k))
        d = os.path.join(root, 'results')
        os.makedirs(d, exist_ok=True)
        for n, head, keys in (('area', 'distance_km', tables.AREA_KM), ('p2p', 'distance_km,reliability_level_%', (1, 10, 50, 90, 99))):
            if rng.random() < 0.7:
                f = 'results/%s_results.csv' % n
                with open(os.path.join(root, f), 'w') as o:
                    o.write(head + ',confidence_level_%,propagation_loss_dB\n')
                    for x in keys:
                        for c in (50, 90, 10):
                            o.write('%s%r,%r,%r\n' % ('' if n == 'area' else '77.8,', x, c, rng.uniform(80, 250)))
                have.pop(f, None)

    def listing(self, root):
        out = set()
        for d, _, fs in os.walk(root):
            for f in fs:
                out.add(os.path.relpath(os.path.join(d, f), root))
        return out

    def table(self, path, keys, want, obs):
        with open(path, newline='') as f:
            rows = list(csv.DictReader(f))
        obs.ok(len(rows) == len(want), '%s has %d rows, not %d' % (os.path.basename(path), len(rows), len(want)))
        for r, w in zip(rows, want):
            for k, v in zip(keys, w):
                obs.ok(k in r and close(r[k], v, 1e-7, 5e-6), '%s: %s is %r, the scenario gives %r' % (os.path.basename(path), k, r.get(k), v), row=r)

    def points(self, path, a, b, m, obs):
        with self.fiona.open(path) as f:
            recs = list(f)
            crs = f.crs
        obs.ok((crs.to_epsg() if hasattr(crs, 'to_epsg') else None) == 4326, '%s is in %r' % (os.path.basename(path), crs))
        n = len(recs)
        obs.ok(2 <= n <= 600, '%d sampled points' % n)
        for i, r in enumerate(recs):
            t = i / (n - 1)
            e = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            c = r['geometry']['coordinates']
            obs.ok(abs(c[0] - e[0]) < 1e-7 and abs(c[1] - e[1]) < 1e-7, '%s: point %d of %d is at %r, even spacing from transmitter to receiver puts it at %r' % (os.path.basename(path), i, n, tuple(c), e))
            z = m.at(*e)
            obs.ok(abs(r['properties']['elevation'] - z) <= 0.02 + 1e-6 * abs(z), '%s: elevation %r at point %d, the model has %r' % (os.path.basename(path), r['properties']['elevation'], i, z))
        return n

    def tip(self, m, site, obs):
        """bounds on the irregularity of the cells within 20 km"""
        X, Y = m.centres()
        D = np.array(self.geod.inv(np.full(X.size, site[0]), np.full(X.size, site[1]), X.ravel(), Y.ravel())[2]).reshape(X.shape)
        S = list(m.Zf[(D < 20000 * 0.997)])
        M = list(m.Zf[(D >= 20000 * 0.997) & (D <= 20000 * 1.003)])
        return self.area.bounds(S, M)

    def judge(self, case, obs):
        self.n += 1
        root = os.path.join(self.dir, 'r%d%s' % (self.n, case.get('odd', '')))
        os.makedirs(root)
        try:
            self.history(root, case, obs)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def history(self, root, case, obs):
        gen_no = 0
        one, two = self.data(root, case, gen_no)
        have = {}
        sig = []
        for op in case['ops']:
            if op == 'swap':
                gen_no += 1
                one, two = self.data(root, case, gen_no)
                have = {}
                sig.append('swap')
                continue
            if op == 'edit':
                # the user puts tables of their own where the plotting script looks
                sig.append('edit')
                self.edit(root, case, gen_no, have)
                continue
            before = self.listing(root)
            mine = set(OUT[op][0]) | {x + y for x in OUT[op][1] for y in SIDE} | ({'vis/figures/area_results.png', 'vis/figures/p2p_results.png'} if op == 'vis' else set())
            held = {f: self.digest(os.path.join(root, f)) for f in before - mine if not f.endswith('.aux.xml')}
            rc, text = self.execute(root, op, case['sub'] and 1 + case['seed'] % len(SETTINGS))
            obs.ok(rc == 0, '%s ended with status %s' % (op, rc), output=text[-1500:])
            csvs, shps = OUT[op]
            want = set(csvs)
            if op == 'vis':
                for n in ('area', 'p2p'):
                    if 'results/%s_results.csv' % n in before:
                        want.add('vis/figures/%s_results.png' % n)
            for s in shps:
                want |= {s + x for x in ('.shp', '.shx', '.dbf', '.prj')}
            now = self.listing(root)
            obs.ok(want <= now, '%s did not write %r' % (op, sorted(want - now)))
            extra = {f for f in now - before - want if not f.endswith('.aux.xml') and not any(f == s + x for s in shps for x in SIDE)}
            obs.ok(not extra, '%s left files nobody documented: %r' % (op, sorted(extra)))
            obs.ok(before <= now, '%s removed %r' % (op, sorted(before - now)))
            P = lambda f: os.path.join(root, f)
            for f, h in held.items():
                obs.ok(self.digest(P(f)) == h, '%s changed %s, which is not its own output' % (op, f))
            if op in ('p2p', 'p2p_2tiles'):
                par = {'fmhz': 41.5, 'd': 77.8, 'hg': [143.9, 8.5], 'ipol': 0}
                rows = [(77.8,) + r for r in tables.p2p_table(tables.p2p_case(par, PROFILE))[0]]
                self.table(P(csvs[0]), ('distance_km', 'reliability_level_%', 'confidence_level_%', 'propagation_loss_dB'), rows, obs)
                a, b, m = (TX1, RX1, one) if op == 'p2p' else (TX2, RX2, two)
                self.points(P(shps[-1] + '.shp'), a, b, m, obs)
                if op == 'p2p':
                    for f, xy, i in (('transmitter', TX1, 'Crystal Palace radio transmitter'), ('receiver', RX1, 'Mursley')):
                        with self.fiona.open(P('data/processed/shapes/%s.shp' % f)) as s:
                            r = list(s)
                            obs.ok(len(r) == 1 and tuple(r[0]['geometry']['coordinates']) == xy and r[0]['properties']['id'] == i, '%s.shp holds %r' % (f, [(x['geometry'], dict(x['properties'])) for x in r]))
                dist = self.geod.inv(a[0], a[1], b[0], b[1])[2] / 1000
                import re
                mt = re.search(r'Distance is ([0-9.eE+-]+)\s*km', text)
                if mt:
                    obs.ok(close(mt.group(1), dist, 1e-9, 1e-9), 'printed distance %s km, the path is %r km' % (mt.group(1), dist))
            elif op in ('area', 'area_2tiles'):
                import re
                mt = re.search(r'TIP for AST DEM\s+(-?[0-9.]+)', text)
                lo, hi = self.tip(*((one, TX1) if op == 'area' else (two, SITE2)), obs)
                with open(P(csvs[0])) as f:
                    body = f.read()
                cand = [int(float(mt.group(1)))] if mt else list(range(max(0, int(lo) - 1), int(hi) + 3))[:40]
                if mt:
                    self.area.expect(obs, cand[0], lo, hi, 'the terrain irregularity printed by ' + op)
                ok = False
                for c in cand:
                    rows = tables.area_table({'fmhz': 20, 'hg': [3.3, 1.3], 'dh': c, 'ipol': 0})[0]
                    if len(cand) == 1:
                        self.table(P(csvs[0]), ('distance_km', 'confidence_level_%', 'propagation_loss_dB'), rows, obs)
                        ok = True
                    else:
                        got = list(csv.DictReader(body.splitlines()))
                        ok = ok or all(close(g['propagation_loss_dB'], r[2], 1e-7, 5e-6) for g, r in zip(got, rows))
                obs.ok(ok, 'the table of %s belongs to no irregularity of the data' % op)
            elif op == 'pimter':
                last = -1
                for n in PIMTER:
                    i = text.find(n + '_dem_height.csv')
                    obs.ok(i >= 0, 'no completion was reported for %s' % n)
                if not case['sub']:
                    self.campaign(root, self.events(), obs)
            else:
                for f in want:
                    obs.ok(open(P(f), 'rb').read(8) == b'\x89PNG\r\n\x1a\n', '%s is not an image' % f)
                if not case['sub']:
                    ev = self.events()
                    drawn = {e['figure'] for e in ev}
                    obs.ok(not ev or drawn >= {os.path.basename(f) for f in want}, 'the plotting script drew %r, the tables found are those of %r' % (sorted(drawn), sorted(want)))
                    for e in ev:
                        obs.events += e['events']
                        obs.count('figures_inspected')
                        obs.ok(not e['fail'], '%s: %s' % (e['figure'], ' '.join(e['fail'])))
            for f in csvs:
                t = open(P(f)).read()
                if f in have:
                    obs.ok(have[f] == t, 'running %s again on the same data changed %s' % (op, f))
                have[f] = t
            sig.append(op + ('+' if any(f in before for f in csvs) else ''))
            obs.count('runs_' + op)
        obs.count('subprocess_cases' if case['sub'] else 'forked_cases')
        obs.tag(*sig)
