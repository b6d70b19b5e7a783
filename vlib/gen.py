"""Workload generators: stratified, hostile and dictionary-driven inputs."""
import json
import math
import os

from . import env, ref

_L = None


def lits():
    """(all literals of the current tree, those absent from the recorded base tree)"""
    global _L
    if _L is None:
        cur = env.literals()
        base = set()
        p = os.path.join(env.VERIF, 'vlib', 'base_literals.json')
        if os.path.exists(p):
            base = set(json.load(open(p)))
        _L = (cur, [v for v in cur if v not in base])
    return _L


def logu(rng, a, b):
    return math.exp(rng.uniform(math.log(a), math.log(b)))


def near(rng, v):
    """a value at or close to v"""
    k = rng.randrange(8)
    if k < 2:
        return v
    if k < 4:
        return v * (1 + rng.choice((-1, 1)) * 10 ** rng.uniform(-9, -1))
    if k == 4:
        return v + rng.choice((-1, 1))
    if k == 5:
        return v * rng.uniform(0.5, 2)
    if k == 6:
        return v * rng.uniform(1, 1.05)
    return v * rng.uniform(0.95, 1)


def from_dict(rng, a, b, units=(1.0,)):
    """a literal of the sources (new ones first) scaled into [a,b], or None"""
    cur, new = lits()
    for _ in range(6):
        pool = new if new and rng.random() < 0.6 else cur
        if not pool:
            return None
        v = near(rng, abs(rng.choice(pool)) * rng.choice(units))
        if a <= v <= b:
            return v
    return None


def val(rng, a, b, units=(1.0,), log=True, grid=None, pdict=0.12, pgrid=0.15):
    u = rng.random()
    if u < pdict:
        v = from_dict(rng, a, b, units)
        if v is not None:
            return v
    elif grid is not None and u < pdict + pgrid:
        return rng.choice(grid)
    elif u < pdict + pgrid + 0.04:
        return rng.choice((a, b))
    v = logu(rng, a, b) if log else rng.uniform(a, b)
    if rng.random() < 0.15:
        r = round(v)
        if a <= r <= b:
            v = float(r) if rng.random() < 0.5 else r
    return v


GROUNDS = ((15, 0.005), (15, 0.001), (4, 0.001), (13, 0.002), (25, 0.02), (81, 0.01), (81, 5.0), (81, 0.001), (5, 0.001), (30, 0.03))


def system(rng, wide=False):
    lo, hi = (20.0, 20000.0)
    s = {'fmhz': val(rng, lo, hi, (1.0, 47.7, 1000.0), grid=(20, 41.5, 40, 100, 150.0, 573.3, 900, 2488.0, 5000, 20000)),
         'en0': val(rng, 250.0, 400.0, log=False, grid=(301, 314, 250, 400, 280, 350)),
         'zsys': 0 if rng.random() < 0.8 else val(rng, 1.0, 3000.0),
         'ipol': rng.randrange(2)}
    if rng.random() < 0.7:
        s['eps'], s['sgm'] = rng.choice(GROUNDS)
    else:
        s['eps'] = val(rng, 2.0, 85.0)
        s['sgm'] = val(rng, 1e-5, 10.0)
    if rng.random() < 0.02:
        # ground close to a perfect conductor, where the line-of-sight line can fall below the diffraction line
        s.update(fmhz=logu(rng, 20, 24), ipol=1, eps=rng.uniform(60, 100), sgm=rng.uniform(7, 10))
    if s['zsys'] and s['en0'] * math.exp(-s['zsys'] / 9460) < 250:
        s['zsys'] = 0
    return s


def consts(s):
    wn, gme, ens, zg = ref.qlrps(s['fmhz'], s['zsys'], s['en0'], s['ipol'], s['eps'], s['sgm'])
    return {'wn': wn, 'gme': gme, 'ens': ens, 'zgnd': zg}


def height(rng, lo=0.5, hi=3000.0):
    u = rng.random()
    if u < 0.10:
        return rng.choice((0.5, 1, 1.0, 1.3, 1.5, 2, 3.3, 4.9, 5, 5.1, 8.5, 10, 30, 100, 143.9, 300, 1000, 3000))
    if u < 0.55:
        return val(rng, max(lo, 1.0), 60.0, (1.0,))
    if u < 0.85:
        return val(rng, 5.0, 400.0)
    return val(rng, lo, hi)


def heights(rng):
    a = height(rng)
    u = rng.random()
    if u < 0.1:
        return [a, a]
    return [a, height(rng)]


def npoints(rng):
    u = rng.random()
    if u < 0.18:
        return rng.randint(1, 6)
    if u < 0.45:
        return rng.randint(7, 40)
    if u < 0.80:
        return rng.randint(41, 160)
    if u < 0.84:
        v = from_dict(rng, 1, 700)
        return int(v) if v else 156
    if u < 0.96:
        return rng.randint(161, 330)
    return rng.choice((rng.randint(331, 620), 599, 600, rng.randint(600, 1000)))


SHAPES = ('flat', 'line', 'walk', 'noise', 'fractal', 'sine', 'spike', 'twospike', 'plateau', 'valley', 'cliff',
          'endspike', 'smallnoise', 'steps', 'bowl', 'dome', 'ints', 'hillnoise')


def terrain(rng, n, shape=None, amp=None):
    """elevations z[0..n]"""
    shape = shape or rng.choice(SHAPES)
    amp = amp if amp is not None else logu(rng, 0.3, 1500)
    base = rng.choice((0.0, 0.0, 100.0, rng.uniform(-100, 1500)))
    if rng.random() < 0.08:
        # high plateaus, basins below sea level, thresholds of the sources
        base = rng.choice((rng.uniform(1500, 8000), val(rng, 1.0, 8000.0, pdict=0.5), -rng.uniform(0, 450)))
    x = [i / n for i in range(n + 1)]
    if shape == 'flat':
        z = [0.0] * (n + 1)
    elif shape == 'line':
        z = [amp * t for t in x]
    elif shape == 'walk':
        z = [0.0]
        for _ in range(n):
            z.append(z[-1] + rng.gauss(0, amp / math.sqrt(n)))
    elif shape == 'noise':
        z = [rng.uniform(0, amp) for _ in x]
    elif shape == 'smallnoise':
        z = [rng.uniform(0, 3) for _ in x]
    elif shape == 'fractal':
        ks = [(rng.uniform(0, 6.28), rng.uniform(0.5, 1.5)) for _ in range(6)]
        z = [sum(amp / 2 ** k * w * math.sin(2 ** k * 3.1 * t + ph) for k, (ph, w) in enumerate(ks)) for t in x]
    elif shape == 'sine':
        f, ph = rng.uniform(0.5, 12), rng.uniform(0, 6.28)
        z = [amp * math.sin(6.283 * f * t + ph) for t in x]
    elif shape == 'spike':
        z = [0.0] * (n + 1)
        z[rng.randint(0, n)] = amp
    elif shape == 'twospike':
        z = [rng.uniform(0, 1) for _ in x]
        z[rng.randint(0, n)] += amp
        z[rng.randint(0, n)] += amp * rng.uniform(0.3, 1)
    elif shape == 'plateau':
        a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
        z = [amp if a <= i <= b else 0.0 for i in range(n + 1)]
    elif shape == 'valley':
        z = [amp * abs(2 * t - 1) ** rng.choice((1, 2)) for t in x]
    elif shape == 'cliff':
        k = rng.randint(0, n)
        s = rng.choice((-1, 1))
        z = [s * amp * (i > k) + rng.uniform(0, 1) for i in range(n + 1)]
    elif shape == 'endspike':
        z = [rng.uniform(0, 2) for _ in x]
        z[rng.choice((0, min(1, n), max(n - 1, 0), n))] += amp
    elif shape == 'steps':
        k = rng.randint(1, 8)
        lv = [rng.uniform(0, amp) for _ in range(k + 1)]
        z = [lv[min(int(t * (k + 1)), k)] for t in x]
    elif shape == 'bowl':
        z = [amp * (2 * t - 1) ** 2 for t in x]
    elif shape == 'dome':
        z = [amp * (1 - (2 * t - 1) ** 2) for t in x]
    elif shape == 'ints':
        z = [rng.randint(0, int(amp) + 1) for _ in x]
    else:
        z = [amp * math.exp(-((t - 0.5) / 0.15) ** 2) + rng.gauss(0, amp / 10) for t in x]
    if shape != 'ints':
        z = [base + v for v in z]
    elif base:
        z = [int(base) + v for v in z]
    z = [min(max(v, -500), 9000) for v in z]
    if shape != 'ints' and rng.random() < 0.12:
        z = [int(round(v)) for v in z]
    return z, shape


def pathlen(rng):
    u = rng.random()
    if u < 0.15:
        return val(rng, 1e3, 5e3)
    if u < 0.5:
        return val(rng, 3e3, 40e3, (1.0, 1000.0))
    if u < 0.8:
        return val(rng, 20e3, 150e3, (1.0, 1000.0))
    if u < 0.97:
        return val(rng, 100e3, 700e3, (1.0, 1000.0))
    return val(rng, 600e3, 2000e3)


def p2p_case(rng):
    n = npoints(rng)
    d = pathlen(rng)
    xi = d / n
    if rng.random() < 0.25:
        xi = float(2 ** rng.randint(3, 12)) if rng.random() < 0.5 else float(rng.randint(10, 3000))
        if not 1e3 <= n * xi <= 2e6:
            xi = d / n
    z, shape = terrain(rng, n)
    hg = heights(rng)
    if rng.random() < 0.25:
        # antennas raised enough for a clear path
        hg = [logu(rng, 20, 2000), logu(rng, 2, 1500)]
    return {'sys': system(rng), 'hg': hg, 'xi': xi, 'z': z, 'shape': shape}


def area_sys(rng):
    c = area_any(rng)
    if c['sys']['fmhz'] < 24 and c['sys']['sgm'] > 7 and rng.random() < 0.7:
        c['hg'] = [logu(rng, 0.5, 12), logu(rng, 0.5, 12)]
        c['kst'] = [rng.choice((0, 0, 1)), rng.choice((0, 0, 1))]
        c['dh'] = rng.choice((0.0, logu(rng, 0.02, 20)))
    elif rng.random() < 0.02:
        # high sites over very rough ground at microwave frequencies: horizons far short of the
        # smooth-earth ones, scatter taking over right at them
        c['sys']['fmhz'] = logu(rng, 4000, 20000)
        c['hg'] = [logu(rng, 100, 3000), logu(rng, 100, 3000)]
        c['dh'] = logu(rng, 300, 3000)
    return c


def area_any(rng):
    return {'sys': system(rng), 'hg': heights(rng),
            'kst': [rng.choice((0, 0, 1, 1, 2, 2, 2, 3, -1)), rng.choice((0, 0, 1, 1, 2, 2, 3, -1))],
            'dh': 0.0 if rng.random() < 0.06 else val(rng, 0.1, 1000.0, grid=(10, 30, 90, 91, 200, 500))}


def klim(rng):
    return rng.choice((1, 2, 3, 4, 5, 6, 7, 1, 2, 3, 4, 5, 6, 7, 0, -1, 8, 12))


def mdvar(rng):
    k = rng.choice((0, 1, 2, 3)) + rng.choice((0, 10, 20, 30))
    if rng.random() < 0.12:
        k = rng.choice((4, 9, -1, 14, 24, 34, 40, 19, 29, 50))
    return k


def deviate(rng):
    u = rng.random()
    if u < 0.15:
        return 0.0
    if u < 0.3:
        return rng.choice((-1, 1)) * rng.choice((1.282, 2.161, 3.1, 3.0999, 3.11, 2.3268, 1.2817, 0.5, 1e-3, 1e-9))
    if u < 0.36:
        v = from_dict(rng, 1e-6, 6.0)
        if v is not None:
            return rng.choice((-1, 1)) * v
    if u < 0.37:
        return rng.choice((-1, 1)) * logu(rng, 5, 60)
    return rng.uniform(-5, 5) if rng.random() < 0.3 else rng.gauss(0, 1.5)


def tweak_system(rng, s):
    """the same system with exactly one parameter changed"""
    t = dict(s)
    k = rng.choice(('fmhz', 'en0', 'zsys', 'ipol', 'eps', 'sgm'))
    o = system(rng)
    if k == 'ipol':
        t['ipol'] = 1 - s['ipol']
    elif k == 'zsys':
        t['zsys'] = 0 if s['zsys'] else rng.uniform(1, 300)
    elif rng.random() < 0.5:
        t[k] = o[k]
    else:
        lo, hi = {'fmhz': (20, 20000), 'en0': (250, 400), 'eps': (2, 85), 'sgm': (1e-5, 5)}[k]
        t[k] = min(max(s[k] * rng.uniform(0.8, 1.25), lo), hi)
    return t


def dump_base_literals():
    p = os.path.join(env.VERIF, 'vlib', 'base_literals.json')
    with open(p, 'w') as f:
        json.dump(env.literals(), f)
