import copy
import gc
import hashlib
import os
import shutil
import tempfile
import threading

from vlib import dem, env, gen
from vlib.fresh import Zygote
from vlib.harness import Check
from checks import c20, c24

SLOTS = ('a/dem.tif', 'b/dem.tif', 'a/dem2.tif', 'b/dem.vrt')


def one(mod, op, root):
    """outcome of one call"""
    path = os.path.join(root, op['slot'])
    try:
        with env.quiet():
            if op['k'] == 'p2p':
                return ['ok', c20.bits(mod.terrain_p2p(path, op['line']))]
            return ['ok', c20.bits(mod.terrain_area(path, *op['site']))]
    except Exception as e:
        return ['raised', type(e).__name__]


def alone(req):
    op, root, uid = req
    if uid:
        os.setgroups([])
        os.setegid(uid)
        os.seteuid(uid)
    w = c20.world()
    r = one(env.script('terrain_module'), op, root)
    return r, [k for k, v in c20.world().items() if not c20.same(w[k], v)]


def held(root):
    """files of the scratch folder this process has open"""
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if t.startswith(root + os.sep):
            out.append(t[len(root) + 1:])
    return sorted(out)


def files(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    return out


class CHECK(Check):
    id = 'C32'
    technique = ('trace monitor: every terrain request of a history over several changing elevation files is compared bit for bit with the same request in a fresh process; '
                 'digests of the elevation folder, arguments, open files and process settings around each call; the same request as an unprivileged user with read-only data')
    rule = ('a case is a history of 6-14 steps (requests for profiles and irregularities, replacement of an elevation file, failing requests) over four elevation files, in sequence or '
            'partly in threads; non-trivial when at least two requests were compared; signature: mode x kinds of step x replaced or not')
    quick = 260
    thorough = 4000
    assumptions = ('a fresh process is the reference for the isolated result', 'a replaced file carries a later modification time; none is replaced after concurrent requests, because GDAL\'s own pool may keep the old one')

    def setup(self):
        self.mod = env.script('terrain_module')
        self.zyg = Zygote(alone)
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='itmv-'))
        os.chmod(self.dir, 0o755)
        self.n = 0
        self.clock = 1600000000
        # lazily loaded parts of the libraries
        s = {'x0': 10.0, 'y1': 20.0, 'dx': 0.002, 'dy': 0.002, 'nx': 60, 'ny': 60, 'kind': 'waves', 'dtype': 'int16', 'seed': 1}
        os.makedirs(os.path.join(self.dir, 'w', 'a'))
        dem.make(os.path.join(self.dir, 'w', 'a', 'dem.tif'), s)
        for op in ({'k': 'p2p', 'slot': 'a/dem.tif', 'line': self.feature([[10.01, 19.99], [10.05, 19.96]])}, {'k': 'area', 'slot': 'a/dem.tif', 'site': [10.05, 19.95, 2000]},
                   {'k': 'area', 'slot': 'a/none.tif', 'site': [10.05, 19.95, 2000]}):
            one(self.mod, op, os.path.join(self.dir, 'w'))
        shutil.rmtree(os.path.join(self.dir, 'w'))

    def teardown(self):
        self.zyg.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def feature(self, ab):
        return {'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': ab}, 'properties': {'id': 'terrain path'}}

    def short(self, rng, ab):
        """most profiles with few points: each point costs a read"""
        a, b = ab
        if rng.random() < 0.08:
            return ab
        m = 111000 * max(abs(b[0] - a[0]), abs(b[1] - a[1]))
        f = min(1, gen.logu(rng, 2, 40) / m)
        return [a, [a[i] + f * (b[i] - a[i]) for i in (0, 1)]]

    def random(self, rng, mode=None):
        g = c24.CHECK()
        base = g.spec(rng)
        base['nx'] = base['ny'] = rng.choice((40, 60, 90))
        base.pop('vrt', None)

        def content():
            s = dict(base, kind=rng.choice(('waves', 'noise', 'noise', 'peaks', 'plane')), seed=rng.randrange(10 ** 9))
            if rng.random() < 0.3:
                s['nodata'] = rng.choice((-9999, -32768, 0))
            if rng.random() < 0.2:
                # another extent of the same shape, or another shape of the same extent
                if rng.random() < 0.5:
                    s['x0'] = round(s['x0'] + 5 * s['dx'], 6)
                else:
                    s['nx'], s['dx'] = s['nx'] * 2, s['dx'] / 2
            return s
        lines = [self.feature(self.short(rng, g.line(rng, base)[-1])) for _ in range(rng.choice((1, 2, 3)))]
        w = base['dy'] * base['ny'] * 111000
        cx, cy = base['x0'] + base['dx'] * base['nx'] / 2, base['y1'] - base['dy'] * base['ny'] / 2
        sites = [[cx + rng.uniform(-.2, .2) * base['dx'] * base['nx'], cy, rng.choice((w * 0.2, w * 0.4, int(w * 0.3) + 1))] for _ in range(rng.choice((1, 2)))]
        # neighbours that a coarsely keyed cache would not tell apart
        for _ in range(rng.choice((0, 1, 2))):
            (ax, ay), (bx, by) = rng.choice(lines)['geometry']['coordinates']
            e = gen.logu(rng, 1e-3, 0.5)
            lines.append(self.feature(rng.choice(([[bx, by], [ax, ay]], [[ax, ay], [ax + (1 - e) * (bx - ax), ay + (1 - e) * (by - ay)]],
                                                  [[ax + e * (bx - ax), ay + e * (by - ay)], [bx, by]]))))
        for _ in range(rng.choice((0, 1, 1))):
            x, y, r = rng.choice(sites)
            e = gen.logu(rng, 1e-3, 0.3)
            sites.append(rng.choice(([x, y, r * (1 - e)], [x + e * base['dx'] * 10, y, r], [x, y - e * base['dy'] * 10, r])))
        mode = mode or rng.choice(('seq', 'seq', 'seq', 'thread'))
        slots = rng.sample(SLOTS, rng.choice((1, 2, 3, 4)))
        steps = [{'k': 'write', 'slot': s, 'spec': content()} for s in slots]
        for _ in range(rng.randint(4, 10)):
            u = rng.random()
            s = rng.choice(slots)
            if u < 0.25 and mode == 'seq':
                # (GDAL itself may keep a file that several threads closed together)
                steps.append({'k': 'write', 'slot': s, 'spec': content()})
            elif u < 0.3:
                steps.append({'k': rng.choice(('p2p', 'area')), 'slot': 'a/none.tif', 'line': lines[0], 'site': sites[0]})
            elif u < 0.35:
                far = self.feature([[base['x0'] - 1, base['y1'] + 1], [base['x0'] - 1, base['y1'] + 1.0001]])
                steps.append({'k': 'p2p', 'slot': s, 'line': far})
            elif u < 0.75:
                steps.append({'k': 'p2p', 'slot': s, 'line': rng.choice(lines)})
            else:
                steps.append({'k': 'area', 'slot': s, 'site': rng.choice(sites)})
        return {'mode': mode, 'steps': steps, 'user': rng.randrange(20)}

    def directed(self, rng):
        for mode in ('seq', 'thread'):
            for _ in range(8):
                yield self.random(rng, mode)

    def write(self, root, st):
        path = os.path.join(root, st['slot'])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        made = [path]
        if path.endswith('.vrt'):
            m = dem.make(path[:-4] + '_m.tif', st['spec'])
            os.unlink(path[:-4] + '_m.tif')
            made = dem.vrt(path, m, st['spec'].get('nodata'))
        else:
            t = path[:-4] + '_new.tif'
            dem.make(t, st['spec'])
            os.replace(t, path)
        self.clock += 10
        for f in made:
            os.utime(f, (self.clock, self.clock))
            os.chmod(f, 0o444)

    def request(self, obs, op, root, where):
        a = copy.deepcopy(op)
        w = c20.world()
        got = one(self.mod, a, root)
        for k, v in c20.world().items():
            obs.ok(c20.same(w[k], v), '%s: a request changed the %s of the process' % (where, k))
        obs.ok(a == op, '%s: a request changed the line or site it was handed' % where)
        return got

    def judge(self, case, obs):
        self.n += 1
        root = os.path.join(self.dir, 'h%d' % self.n)
        os.makedirs(os.path.join(root, 'a'))
        try:
            self.history(case, obs, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def history(self, case, obs, root):
        steps = case['steps']
        done, written, kinds = 0, set(), set()
        pend = []
        for i, st in enumerate(steps + [{'k': 'end'}]):
            if st['k'] in ('write', 'end'):
                if pend:
                    done += self.group(case, obs, root, pend)
                    pend = []
                if st['k'] == 'write':
                    self.write(root, st)
                    kinds.add('replaced' if st['slot'] in written else 'new')
                    written.add(st['slot'])
            else:
                pend.append((i, st))
                kinds.add(st['k'])
        obs.count('requests', done)
        obs.tag(case['mode'], '+'.join(sorted(kinds)))

    def group(self, case, obs, root, ops):
        """requests with no change of the data between them"""
        before = files(root)
        want = []
        for i, op in ops:
            r = self.zyg.ask((op, root, 0))
            obs.ok(r is not None and r[0] == 'ok', 'request %d did not come back from a fresh process: %s' % (i, r))
            obs.ok(not r[1][1], 'the first request of a process changed its %s' % r[1][1])
            want.append(r[1][0])
        got = [None] * len(ops)
        if case['mode'] == 'thread' and len(ops) > 1:
            bar = threading.Barrier(len(ops))

            def run(k):
                a = copy.deepcopy(ops[k][1])
                bar.wait()
                got[k] = one(self.mod, a, root)
            ths = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(len(ops))]
            for t in ths:
                t.start()
            for t in ths:
                t.join(50)
            obs.count('thread_groups')
        else:
            for k, (i, op) in enumerate(ops):
                got[k] = self.request(obs, op, root, 'step %d' % i)
        for k, (i, op) in enumerate(ops):
            obs.ok(got[k] == want[k], 'step %d (%s on %s) differs from the same request in a fresh process' % (i, op['k'], op['slot']),
                   got=str(got[k])[:300], alone=str(want[k])[:300])
            obs.count('raised' if got[k] and got[k][0] == 'raised' else 'answered')
        gc.collect()
        # GDAL's own pool may keep a file for a while when threads closed it together
        obs.ok(case['mode'] == 'thread' or not held(root), 'elevation files stay open after the requests: %s' % held(root)[:4])
        now = files(root)
        obs.ok(now == before, 'the elevation folder changed: %s' % sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))[:4])
        if case['user'] < 4 and os.geteuid() == 0:
            i, op = ops[-1]
            r = self.zyg.ask((op, root, 65534))
            if r is None or r[0] != 'ok':
                obs.skip('cannot change the user here')
            else:
                obs.ok(r[1][0] == want[-1], 'step %d (%s on %s) needs more than reading the elevation data' % (i, op['k'], op['slot']), got=str(r[1])[:300], alone=str(want[-1])[:300])
                obs.count('unprivileged_requests')
        return len(ops)
