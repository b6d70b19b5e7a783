"""Drives the package under test and compares what it returns with the oracle."""
import math
import random

from . import env, gen, ref
from .harness import close

sut = env.sut
MARGIN = 1e-9
PATHKEYS = ('dist', 'dh', 'he', 'dl', 'the', 'dlsa', 'dla', 'tha', 'aref')
RT, AT = 1e-7, 1e-6


def new_prop(c, hg, **kw):
    p = {'hg': list(hg), 'wn': c['wn'], 'ens': c['ens'], 'gme': c['gme'], 'zgnd': c['zgnd'],
         'kwx': 0, 'lvar': 5, 'klim': 5, 'mdvar': 0, 'klimx': 0, 'mdvarx': -1}
    p.update(kw)
    return p


def p2p_prop(case, **kw):
    c = gen.consts(case['sys'])
    p = new_prop(c, case['hg'], pfl=[len(case['z']) - 1, case['xi']] + list(case['z']))
    p.update(kw)
    return p


def ref_p2p(case, jit=None):
    """oracle for a point-to-point case; jit perturbs the inputs relatively"""
    c = gen.consts(case['sys'])
    z, xi, hg = case['z'], case['xi'], case['hg']
    if jit:
        r = random.Random(jit)

        def j(v):
            return v * (1 + r.uniform(-1, 1) * 1e-12)
        # a profile of zeros with one spike has an interdecile range of rounding only, and the
        # attenuation varies with its root: every height carries the rounding of the highest
        e = 2e-16 * max(abs(v) for v in z)
        z = [j(v) + r.uniform(-1, 1) * e for v in z]
        xi = j(xi)
        hg = [j(v) for v in hg]
        c = {'wn': j(c['wn']), 'gme': j(c['gme']), 'ens': j(c['ens']), 'zgnd': complex(j(c['zgnd'].real), j(c['zgnd'].imag))}
    T = ref.Trk()
    g, path, a = ref.p2p({'n': len(z) - 1, 'xi': xi, 'z': z, 'hg': hg, **c}, T)
    out = dict(g, dlsa=path.dlsa, dla=path.dla, tha=path.tha, aref=a)
    return out, path, T


def area_prop(case, **kw):
    c = gen.consts(case['sys'])
    p = new_prop(c, case['hg'], dh=case['dh'])
    p.update(kw)
    return p


def ref_area(case, jit=None):
    c = gen.consts(case['sys'])
    hg, dh = case['hg'], case['dh']
    if jit:
        r = random.Random(jit)

        def j(v):
            return v * (1 + r.uniform(-1, 1) * 1e-12)
        hg = [j(v) for v in hg]
        dh = j(dh)
        c = {'wn': j(c['wn']), 'gme': j(c['gme']), 'ens': j(c['ens']), 'zgnd': complex(j(c['zgnd'].real), j(c['zgnd'].imag))}
    T = ref.Trk()
    g, path = ref.area({'kst': case['kst'], 'hg': hg, 'dh': dh, **c}, T)
    return g, path, T


def undefined(case):
    """whether the published model has no value for a path described somewhere in the case"""
    if isinstance(case, (list, tuple)):
        return any(undefined(v) for v in case if isinstance(v, (dict, list, tuple)))
    if not isinstance(case, dict):
        return False
    if 'sys' not in case:           # the cases of the shipped runners
        from . import tables
        if all(k in case for k in ('fmhz', 'hg', 'ipol')):
            if 'z' in case and 'd' in case:
                return undefined(tables.p2p_case(case, case['z']))
            if 'dh' in case:
                return undefined(tables.area_case(case))
        if 'z' in case and 'xi' in case:
            return any(undefined(dict(tables.campaign_case(h), xi=case['xi'], z=case['z'])) for h in range(10, 131))
    path = None
    try:
        if 'sys' in case and 'hg' in case and 'xi' in case:
            out, path, T = ref_p2p(case)
            if T.bad or not math.isfinite(out['aref']):
                return True
            if T.m < MARGIN:        # rounding decides which way the model goes
                for j in range(8):
                    o, _, t = ref_p2p(case, 's%d' % j)
                    if t.bad or not math.isfinite(o['aref']):
                        return True
        elif 'sys' in case and 'hg' in case and 'dh' in case:
            path = ref_area(dict({'kst': [0, 0]}, **case))[1]
        elif 'P' in case and 'z' in case and 'he' in case['P']:
            path = ref.Path(dict(case['P'], zgnd=complex(*case['z'])), case.get('p2p', False), ref.Trk())
        if path is not None and not all(math.isfinite(v) for v in
                                        (path.aed, path.emd, path.aref(0.5 * path.dlsa), path.aref(2 * path.dlsa + 400e3))):
            return True
    except (ArithmeticError, ValueError, TypeError):
        return True
    return any(undefined(v) for v in case.values() if isinstance(v, (dict, list, tuple)))


def flat(v):
    """numbers of a scalar or a two-terminal quantity (list or dict)"""
    if isinstance(v, dict):
        return [v[0], v[1]]
    if isinstance(v, (list, tuple)) or hasattr(v, '__len__'):
        return [v[0], v[1]]
    return [v]


def num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return float('nan')


class Ill(Exception):
    pass


def spread(fn, key_index, want, n=6):
    """conditioning: how far the oracle moves when its inputs move by 1e-12"""
    worst = 0.0
    for k in range(n):
        v = fn('j%d' % k)
        if v is None:
            return float('inf')
        d = abs(v - want)
        if d != d:
            return float('inf')
        worst = max(worst, d)
    return worst


def agree(obs, name, got, want, T, fn, rtol=RT, atol=AT, ctx=None):
    """monitor: got equals want, unless the oracle itself is ill-conditioned there.
    fn(jitter) re-evaluates the oracle (None: no conditioning test)."""
    if T is not None and T.bad:
        obs.skip('oracle undefined: ' + T.bad)
        return False
    if close(got, want, rtol, atol):
        obs.events += 1
        obs.judged += 1
        return True
    if T is not None and T.m < MARGIN:
        obs.skip('tie: %s' % T.why)
        return False
    if fn is not None:
        s = spread(fn, None, want)
        if abs(num(got) - want) <= 1e4 * s:
            obs.skip('ill-conditioned: %s' % name)
            return False
    obs.fail('%s is %r, the published model gives %r' % (name, num(got), want), **(ctx or {}))


def check_path(obs, prop, want, T, refn, keys=PATHKEYS, pre=''):
    for k in keys:
        if k not in prop:
            if k in ('tha', 'dls'):      # internal to the preparation
                obs.skip('intermediate %s not kept' % k)
                continue
            obs.fail('%sresult has no %s' % (pre, k))
        gs, ws = flat(prop[k]), flat(want[k])
        for i, (g, w) in enumerate(zip(gs, ws)):
            def fn(j, k=k, i=i):
                o = refn(j)
                return flat(o[k])[i]
            # a height of kilometres determines metres to ~1e-9; angles need a tighter absolute scale
            at = 1e-9 if k in ('the', 'tha') else (1e-6 if k != 'aref' else 2e-6)
            agree(obs, '%s%s%s' % (pre, k, '[%d]' % i if len(gs) > 1 else ''), g, w, T, fn, RT, at,
                  {'got': {q: prop.get(q) for q in keys}, 'want': want, 'margin': T.m, 'margin_at': T.why})


def bucket(v, edges):
    for i, e in enumerate(edges):
        if v < e:
            return i
    return len(edges)
