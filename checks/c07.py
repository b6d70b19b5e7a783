import math

from vlib import drive, gen
from vlib.harness import Check
from vlib.drive import sut
from checks.c02 import distances


class CHECK(Check):
    id = 'C07'
    technique = 'runtime assertion on every attenuation plus an online jump hunter: distance scans on one area system, bisecting the steepest steps down to neighbouring floating-point scale'
    rule = ('a case is one area system scanned over 30-60 distances (with the regime boundaries bracketed at relative 1e-9..1e-12) or one point-to-point '
            'path; non-trivial when at least one finite attenuation was judged; signature: regimes crossed x clamp hit x jump candidates bisected')
    quick = 100000
    thorough = 3000000
    assumptions = ('a step of more than 0.01 dB that survives bisection to a relative width of 1e-10 is a jump',)

    def random(self, rng):
        if rng.random() < 0.3:
            return {'p': gen.p2p_case(rng)}
        c = {'a': gen.area_sys(rng)}
        path = drive.ref_area(c['a'])[1]
        ds = [100.0 * (30000.0 ** (i / 24.0)) * rng.uniform(0.9, 1.1) for i in range(25)]
        ds += distances(rng, path, 4)
        for b in (path.dlsa, path.dx, path.dla):
            if 100 < b < 3000e3:
                e = 10 ** rng.uniform(-12, -9)
                ds += [b * (1 - e), b * (1 + e), b]
        c['ds'] = sorted(d for d in ds if 100 <= d <= 3000e3)
        c['zero'] = rng.random() < 0.3
        return c

    def judge(self, case, obs):
        if 'p' in case:
            p = obs.call('point-to-point preparation', sut.qlrpfl, drive.p2p_prop(case['p']))
            a = drive.num(p['aref'])
            obs.ok(not a < 0, 'reference attenuation is negative: %r' % a)
            if p['kwx'] == 0:
                obs.ok(math.isfinite(a), 'reference attenuation is %r without any warning' % a)
            obs.tag('p2p', 'kwx%d' % p['kwx'], 'fin' if math.isfinite(a) else 'nonfinite')
            return
        p = obs.call('area preparation', sut.qlra, list(case['a']['kst']), drive.area_prop(case['a']))
        if case['zero']:
            p = obs.call('distance evaluation', sut.lrprop, 0, p)
        state = {'p': p}

        def f(d):
            state['p']['kwx'] = 0
            state['p'] = obs.call('distance evaluation', sut.lrprop, d, state['p'])
            a = drive.num(state['p']['aref'])
            obs.ok(not a < 0, 'reference attenuation is negative at %r m: %r' % (d, a))
            return a
        # warnings of the system itself, raised by the special zero-distance call
        q = obs.call('area preparation', sut.qlra, list(case['a']['kst']), drive.area_prop(case['a']))
        q = obs.call('distance evaluation', sut.lrprop, 0, q)
        sysok = q['kwx'] == 0
        state['p'] = obs.call('distance evaluation', sut.lrprop, case['ds'][0], state['p'])
        vals = []
        for d in case['ds']:
            a = f(d)
            if sysok and state['p']['kwx'] == 0:
                obs.ok(math.isfinite(a), 'reference attenuation is %r at %r m without any warning' % (a, d))
            vals.append((d, a))
        fin = [(d, a) for d, a in vals if math.isfinite(a)]
        steps = sorted(((abs(b[1] - a[1]) / max(1e-12, math.log(b[0] / a[0])) if b[0] > a[0] else 0, a, b)
                        for a, b in zip(fin, fin[1:])), key=lambda t: -t[0])
        n = 0
        for _, lo, hi in steps[:4]:
            if abs(hi[1] - lo[1]) <= 0.01:
                continue
            n += 1
            while hi[0] - lo[0] > 1e-10 * hi[0] and abs(hi[1] - lo[1]) > 0.01:
                m = 0.5 * (lo[0] + hi[0])
                if not lo[0] < m < hi[0]:
                    break
                x = (m, f(m))
                if not math.isfinite(x[1]):
                    break
                if abs(x[1] - lo[1]) > abs(hi[1] - x[1]):
                    hi = x
                else:
                    lo = x
            obs.ok(abs(hi[1] - lo[1]) <= 0.01, 'reference attenuation jumps from %r dB at %r m to %r dB at %r m' % (lo[1], lo[0], hi[1], hi[0]),
                   dlsa=state['p'].get('dlsa'), dx=state['p'].get('dx'))
        # steps hidden among steeper slopes: away from a jump the curve follows its chord ever
        # more closely as an interval is halved, across one it never does
        todo = [(a, b, 0) for a, b in zip(fin, fin[1:]) if b[0] - a[0] > 1e-9 * b[0]]
        probes = 0
        while todo and probes < 600:
            lo, hi, depth = todo.pop()
            w = hi[0] - lo[0]
            t = 0.5 if depth % 3 else 0.38
            m = lo[0] + t * w
            x = (m, f(m))
            probes += 1
            if not math.isfinite(x[1]):
                continue
            if abs(x[1] - (lo[1] + t * (hi[1] - lo[1]))) <= 0.004:
                continue
            if w <= 1e-9 * hi[0]:
                obs.fail('reference attenuation jumps from %r dB at %r m to %r dB at %r m' % (lo[1], lo[0], hi[1], hi[0]),
                         dlsa=state['p'].get('dlsa'), dx=state['p'].get('dx'))
            todo += [(lo, x, depth + 1), (x, hi, depth + 1)]
        obs.count('chord probes', probes)
        obs.count('chord searches cut off', 1 if todo else 0)
        obs.count('bisections', n)
        obs.tag('area', 'ok%d' % sysok, 'z%d' % case['zero'], 'clamp' if any(a == 0 for _, a in vals) else 'pos', 'fin%d' % (len(fin) == len(vals)), 'b%d' % n,
                'S' if 'dx' in state['p'] and vals[-1][0] > state['p']['dx'] else 'noS')
