"""The planted bugs kept in /verif/seeded (see mkseed.py)."""
PREP = 'src/itmlogic/preparatory_subroutines/'
COMMON = '''
import math, random
from itmlogic.misc.qerfi import qerfi
from itmlogic.preparatory_subroutines.qlrps import qlrps
from itmlogic.preparatory_subroutines.qlrpfl import qlrpfl
from itmlogic.preparatory_subroutines.qlra import qlra
from itmlogic.lrprop import lrprop
from itmlogic.statistics.avar import avar


def system(fmhz=100., hg=(10., 5.), ens0=314., ipol=0, klim=5, mdvar=11, zsys=0):
    prop = {'hg': list(hg), 'fmhz': fmhz, 'ens0': ens0, 'klim': klim, 'klimx': 0,
            'mdvarx': mdvar, 'mdvar': mdvar, 'lvar': 5, 'kwx': 0, 'gma': 157e-9}
    prop['wn'], prop['gme'], prop['ens'], prop['zgnd'] = qlrps(
        fmhz, zsys, ens0, ipol, 15., 0.005)
    return prop


def p2p(profile, step, **kw):
    prop = system(**kw)
    prop['pfl'] = [len(profile) - 1, step] + list(profile)
    return qlrpfl(prop)


def area(dh, kst, dists, **kw):
    prop = system(mdvar=3, **kw)
    prop['klimx'] = kw.get('klim', 5)
    prop['dh'] = dh
    prop = qlra(kst, prop)
    out = []
    for d in dists:
        prop = lrprop(d * 1e3, prop)
        out.append(prop['aref'])
    return out

def hills(n, seed, amp=60):
    rng = random.Random(seed)
    return [200 + amp * math.sin(i / 3.) + rng.uniform(-amp, amp) for i in range(n)]

'''
BUGS = []


def bug(id, prop, edits, demo, needs, what, common=True):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=(COMMON if common else '') + demo,
                     needs=needs, what=what))


bug('p2p-low-terminal-rescale', 'C01',
    [(PREP + 'qlrpfl.py', """                    math.exp(-0.07 * math.sqrt(prop['dh'] / max(prop['he'][j], 5)))
                )
""", """                    math.exp(-0.07 * math.sqrt(prop['dh'] / prop['he'][j]))
                )
""")],
    '''
def run():
    prop = p2p([2.4, 0.6, 0., 0.6, 2.4], 3560., hg=(1.3, 1.57), fmhz=3375., ens0=252.)
    return [prop['aref'], prop['dl'][0], prop['dl'][1]]
''',
    'a line-of-sight profile whose smooth-earth horizons fall short of the path, with a terminal '
    'that stays below 5 m after its effective height is rescaled',
    'the 5 m floor on the effective height in the second horizon-distance estimate')

bug('area-history-diffraction', 'C03',
    [('src/itmlogic/lrprop.py', """            prop['aref'] = prop['aes'] + prop['ems'] * prop['dist']
""", """            prop['aed'], prop['emd'] = prop['aes'], prop['ems']
            prop['aref'] = prop['aes'] + prop['ems'] * prop['dist']
""")],
    '''
def run():
    far = area(90., [0, 0], [400., 60.])
    return far + area(90., [0, 0], [60., 400.])
''',
    'an area sequence that visits a troposcatter distance and afterwards a diffraction one',
    'the diffraction line is overwritten with the scatter line by a far distance')

bug('area-history-los', 'C03',
    [('src/itmlogic/lrprop.py', """            prop['ael'] = a2 - prop['ak1'] * d2 - prop['ak2'] * np.log(d2)
            prop['wlos'] = 1
""", """            prop['ael'] = a2 - prop['ak1'] * d2 - prop['ak2'] * np.log(d2)
            prop['wlos'] = int(prop['dist'] > d0)
"""), ('src/itmlogic/lrprop.py', """            wq=0
            if d0 < d1:
""", """            wq=prop['wlos'] = 0
            prop['emd'] = max(prop['emd'], prop.get('ak1', 0))
            if d0 < d1:
""")],
    '''
def run():
    return area(10., [0, 0], [2., 3., 8., 40.], fmhz=150., hg=(60., 30.))
''',
    'two or more line-of-sight distances short of the two-ray distance, then any other one',
    'the near line-of-sight fit is redone with the slope the earlier distance left behind')

bug('area-siting-low-antenna', 'C02',
    [(PREP + 'qlra.py', "if prop['hg'][j] < 5:", "if prop['hg'][j] < 4:")],
    '''
def run():
    return area(90., [1, 2], [30., 120.], hg=(4.5, 4.2))
''', 'careful siting and an antenna between 4 and 5 m', 'the antenna height below which the siting bonus shrinks')

bug('stat-climate6', 'C04',
    [('src/itmlogic/statistics/avar.py', '15.53,    9.60,   159.3,    8.12,   13.97,    8.19]',
      '15.53,    9.60,   159.3,    8.12,   13.79,    8.19]')],
    '''
def run():
    out = []
    for zr in qerfi([.1, .5, .9, .99]):
        prop = p2p(hills(60, 1), 900., klim=6)
        out.append(avar(zr, 0, 0.5, prop)[0])
    return out
''', 'climate 6 and a positive time deviate', 'a transposed digit in the time variability table')

bug('stat-broadcast-location', 'C04',
    [('src/itmlogic/statistics/avar.py', "(prop['sgl'] * zl)**2 / (rl + zc**2)", "(prop['sgl'] * zl)**2 / (rl + zl**2)")],
    '''
def run():
    out = []
    for zl, zc in ((2., 0.5), (1., -1.), (0.3, 2.)):
        prop = p2p(hills(60, 1), 900., mdvar=3)
        prop['mdvar'] = 3
        out.append(avar(1., zl, zc, prop)[0])
    return out
''', 'a mode in which the location and confidence deviates are given separately (broadcast)',
    'the confidence weighting of the location variance')

bug('stat-lvar-frequency', 'C05',
    [('src/itmlogic/statistics/avar.py', "        if prop['lvar'] > 2:\n",
      "        if prop['lvar'] > 3 or 'gm' not in prop:\n")],
    '''
def run():
    prop = p2p(hills(60, 1), 900., fmhz=100., mdvar=11)
    out = [avar(1., 0, 1., prop)[0]]
    prop['wn'] = 3000 / 47.7
    prop['lvar'] = 3
    return out + [avar(1., 0, 1., prop)[0]]
''', 'statistics once computed, then only the frequency changed (lvar = 3)',
    'the frequency factors of the time variability go stale')

bug('stat-lvar-heights', 'C05',
    [('src/itmlogic/statistics/avar.py', "        if prop['lvar'] > 1:\n", "        if prop['lvar'] > 2:\n")],
    '''
def run():
    prop = p2p(hills(60, 1), 900., fmhz=100., mdvar=11)
    out = [avar(1., 0, 1., prop)[0]]
    prop['he'] = [90., 40.]
    prop['lvar'] = 2
    return out + [avar(1., 0, 1., prop)[0]]
''', 'statistics once computed, then only the effective heights changed (lvar = 2)',
    'the effective distance scale goes stale')

bug('conf-strong-signal', 'C06',
    [('src/itmlogic/statistics/avar.py', '    if avar1 < 0:\n', '    if avar1 < -2:\n')],
    '''
import sys
prop = p2p([50.] * 80, 2000., mdvar=11, hg=(2000., 1500.))
last = None
for i in range(2000):
    z = -4. + i * 0.004
    a = avar(-z, 0, 0., prop)[0]
    if last is not None and a < last - 1e-6:
        print('loss falls from', last, 'to', a, 'at', z)
        sys.exit(1)
    last = a
''', 'predictions a little below free space (strong signals)',
    'the correction of losses below free space starts with a jump the wrong way')

bug('area-los-knee', 'C02',
    [('src/itmlogic/lrprop.py', """            d1 = max(-prop['aed'] / prop['emd'], 0.25 * prop['dla'])
""".replace('            d1', '                d1'), """                d1 = -prop['aed'] / prop['emd']
""")],
    '''
def run():
    out = []
    for dh in (0., 1., 5., 30.):
        for hg in ((300., 200.), (100., 50.), (1000., 600.), (40., 30.)):
            out += area(dh, [0, 0], [5., 20., 40., 60.], fmhz=1500., hg=hg)
    return out
''', 'high antennas whose diffraction line is negative at the origin by only a little',
    'the point through which the line-of-sight curve is laid')

bug('aref-scatter-step', 'C07',
    [('src/itmlogic/lrprop.py', """                    max([prop['dlsa'], prop['dla'] + 0.3 * prop['xae'] *
                    np.log(47.7 * prop['wn']), (a5 - prop['aed'] -
                    prop['ems'] * d5) / (prop['emd'] - prop['ems'])])
                    )
""", """                    max([prop['dlsa'], prop['dla'] + 0.3 * prop['xae'] *
                    np.log(47.7 * prop['wn']), (a5 - prop['aed'] -
                    prop['ems'] * d5) / (prop['emd'] - prop['ems'])])
                    )
                meet = (a5 - prop['aed'] - prop['ems'] * d5) / (prop['emd'] - prop['ems'])
"""), ('src/itmlogic/lrprop.py', """                    (prop['emd'] - prop['ems']) *
                    prop['dx'] + prop['aed']
""", """                    (prop['emd'] - prop['ems']) *
                    meet + prop['aed']
""")],
    '''
import sys
import itertools
for fmhz, hg in itertools.product((30., 60., 300., 3000., 15000.), ((100., 30.), (1000., 500.), (2500., 2000.), (3., 2.))):
    for dh in (0., 5., 90., 400., 900.):
        prop = system(fmhz=fmhz, mdvar=3, hg=hg)
        prop['dh'] = dh
        prop = lrprop(900e3, qlra([0, 0], prop))
        dx = prop['dx']
        a = lrprop(dx * (1 - 1e-9), prop)['aref']
        b = lrprop(dx * (1 + 1e-9), prop)['aref']
        if abs(a - b) > 1e-3:
            print('jumps from', a, 'to', b, 'at', dx)
            sys.exit(1)
''', 'a system whose scatter and diffraction lines cross before scatter is allowed to set in',
    'the attenuation jumps where scatter takes over')

bug('warn-dmin-lowers', 'C08',
    [('src/itmlogic/lrprop.py', """        if prop['dist'] < prop['dmin']:
            prop['kwx'] = max(prop['kwx'], 3)
""", """        if prop['dist'] < prop['dmin']:
            prop['kwx'] = 3
""")],
    '''
import sys
prop = system(fmhz=15., mdvar=3, hg=(2500., 2.))
prop['dh'] = 50.
prop = lrprop(9000., qlra([0, 0], prop))
print(prop['kwx'])
sys.exit(prop['kwx'] != 4)
''', 'a parameter outside the hard limits together with a distance below dmin',
    'the out-of-range warning is lowered from 4 to 3')

bug('warn-elevation-second', 'C08',
    [('src/itmlogic/lrprop.py', "        if (abs(prop['the'][1]) > 0.2 or\n", "        if (prop['the'][1] > 0.2 or\n")],
    '''
import sys
prof = [700., 600., 500., 400., 300., 200., 100., 0., 100., 200., 400., 700.]
prop = system(hg=(10., 10.), mdvar=3)
prop['dh'] = 10.
prop = qlra([0, 0], prop)
prop['the'][1] = -0.25
prop = lrprop(20e3, prop)
print(prop['kwx'])
sys.exit(prop['kwx'] != 3)
''', 'a steep downward receiver horizon angle and nothing else out of range',
    'no warning for a downward horizon angle at the second terminal')

bug('horizon-last-point', 'C09',
    [(PREP + 'hzns.py', 'for i in range(2, np + 1):', 'for i in range(2, np):')],
    '''
from itmlogic.preparatory_subroutines.hzns import hzns
def run():
    prof = [100.] * 20 + [130., 100.]
    the, dl = hzns([len(prof) - 1, 500.] + prof, 500. * (len(prof) - 1), [5., 5.], 117e-9)
    return [the[0], the[1], dl[0], dl[1]]
''', 'the obstacle that sets a horizon is the last point before the receiver',
    'the last profile point is not looked at')

bug('dh-long-profile', 'C10',
    [(PREP + 'dlthx.py', 'ka  = min(max(4, ka), 25)', 'ka  = min(max(4, ka), 24)')],
    '''
def run():
    return [p2p(hills(400, 3), 100., hg=(5., 5.))['dh']]
''', 'a profile with more than about 240 intervals in range', 'the number of points the interdecile range is taken over')

bug('fit-interval-end', 'C11',
    [(PREP + 'zlsq1.py', 'xb  = xn - int(max(xn - x2 / z[1], 0))', 'xb  = xn - round(max(xn - x2 / z[1], 0))')],
    '''
from itmlogic.preparatory_subroutines.zlsq1 import zlsq1
def run():
    z = [10, 100.] + [3., 8., 1., 9., 4., 4., 7., 2., 5., 6., 0.]
    return list(zlsq1(z, 120., 740.)) + list(zlsq1(z, 120., 790.)) + list(zlsq1(z, 10., 990.))
''', 'a fitting interval ending in the nearer half of a step',
    'the interval is shortened instead of taken up to the next sample', common=False)

bug('normal-tail', 'C12',
    [('src/itmlogic/misc/qerfi.py', '0.000001', '0.00001')],
    '''
def run():
    return qerfi([0.000003, 0.999997, 0.000001, 0.5])
''', 'a probability below 1e-5 or above 1 - 1e-5', 'the deviate is clamped too early in the tails')

bug('rank-sorts-input', 'C13',
    [('src/itmlogic/misc/qtile.py', '    as_sorted = sorted(a, reverse=True)\n',
      '''    if isinstance(a, np.ndarray):
        a[::-1].sort()
        as_sorted = a
    else:
        as_sorted = sorted(a, reverse=True)
''')],
    '''
import sys
import numpy as np
from itmlogic.misc.qtile import qtile
a = np.array([3., 9., 1., 7.])
b = a.copy()
assert qtile(a, 1) == 7.
sys.exit(not bool((a == b).all()))
''', 'data passed as a numpy array', "the caller's data is reordered", common=False)

bug('reciprocal-scatter', 'C14',
    [('src/itmlogic/lrprop.py', "                prop['rr'] = 1 / prop['rr']\n", "                prop['rr'] = 1 / max(prop['rr'], 0.5)\n")],
    '''
import sys
prof = [100.] * 250
prof[30] = 500.
prof[-60] = 3000.
a = p2p(prof, 1500., hg=(200., 5.), fmhz=900.)['aref']
b = p2p(prof[::-1], 1500., hg=(5., 200.), fmhz=900.)['aref']
print(a, b)
sys.exit(bool(abs(a - b) > 1e-6))
''', 'a troposcatter path with a nearer horizon at the transmitter, which is more than twice as high',
    'the height ratio is clipped in one direction only')

bug('datum-below-sea', 'C15',
    [(PREP + 'qlrpfl.py', """        za, zb = zlsq1(prop['pfl'], xl[0], xl[1])
        prop['he'].append(prop['hg'][0] + max(prop['pfl'][2] - za, 0))
""", """        za, zb = zlsq1(prop['pfl'], xl[0], xl[1])
        prop['he'].append(prop['hg'][0] + max(prop['pfl'][2] - max(za, 0), 0))
""")],
    '''
import sys
prof = [40.] + [10. + (i % 4) for i in range(30)]
a = p2p(prof, 200., hg=(30., 20.))['aref']
b = p2p([z - 30 for z in prof], 200., hg=(30., 20.))['aref']
print(a, b)
sys.exit(bool(abs(a - b) > 1e-6))
''', 'a line-of-sight profile lying below sea level', 'the terrain fit is clamped at the datum')

bug('fht-small', 'C16',
    [('src/itmlogic/diffraction_attenuation/fht.py', '            if x > 1:\n', '            if x > 10:\n')],
    '''
from itmlogic.diffraction_attenuation.fht import fht
def run():
    return [fht(5., 1e-6), fht(0.5, 1e-6), fht(20., 1e-6), fht(5., .1)]
''', 'a height-gain argument between 1 and 10 over ground of very small impedance factor',
    'the height-gain function', common=False)

bug('diffraction-rough-cap', 'C16',
    [('src/itmlogic/diffraction_attenuation/adiff.py', 'prop[\'wn\']), 6283.2)', 'prop[\'wn\']), 1e9)')],
    '''
def run():
    return area(600., [0, 0], [40., 90.], fmhz=8000.)
''', 'terrain irregularity times wave number above 6283 (mountains at microwave frequencies)',
    'the weight between knife edges and the rounded earth is no longer limited')

bug('los-reflection', 'C17',
    [('src/itmlogic/los_attenuation/alos.py', 'if q < 0.25 or q < sps:', 'if q < 0.25 and q < sps:')],
    '''
from itmlogic.los_attenuation.alos import alos
def run():
    prop = {'dh': 20., 'he': [30., 20.], 'wn': 20., 'zgnd': complex(3.7, .1), 'emd': 1e-4, 'aed': -2., 'wis': .3}
    return [alos(d, prop) for d in (300., 1500., 2000., 2500., 5000., 30000.)]
''', 'a weak reflection at a very low grazing angle', 'the floor of the effective reflection coefficient', common=False)

bug('scatter-ahd', 'C18',
    [('src/itmlogic/scatter_attenuation/ahd.py', 'td <= 70e3', 'td <= 90e3')],
    '''
from itmlogic.scatter_attenuation.ahd import ahd
def run():
    return [ahd(x) for x in (9e3, 11e3, 69e3, 71e3, 89e3, 95e3)]
''', 'a scatter angle times distance between 70 and 90 km', 'the wrong branch of the attenuation function', common=False)

bug('scatter-inadmissible', 'C18',
    [('src/itmlogic/scatter_attenuation/ascat.py', 'if r1 < 0.2 and r2 < 0.2:', 'if r1 * r2 < 0.04:')],
    '''
from itmlogic.scatter_attenuation.ascat import ascat
def run():
    out = []
    for he in ([6., .5], [3., 3.], [60., 4.], [2., 1.]):
        prop = {'h0s': -15, 'the': [1e-3, 1e-3], 'tha': 2e-3, 'gme': 117e-9, 'wn': .9, 'he': he,
                'ad': 1e3, 'rr': .6, 'etq': -.14, 'ens': 314., 'ascat1': 0}
        out.append(ascat(230e3, prop)['ascat1'])
    return out
''', 'one terminal very low and the other moderately low, at a low frequency',
    'admissible scatter is switched off', common=False)

bug('system-below-sea', 'C19',
    [(PREP + 'qlrps.py', 'if zsys != 0:', 'if zsys > 0:')],
    '''
from itmlogic.preparatory_subroutines.qlrps import qlrps
def run():
    wn, gme, ens, z = qlrps(100., -300., 301., 1, 15., .005)
    return [wn, gme, ens, z.real, z.imag]
''', 'a system elevation below sea level', 'the refractivity is not scaled', common=False)

bug('shared-horizons', 'C20',
    [(PREP + 'hzns.py', """    the = {}
    dl = {}
""", """    the = _THE
    dl = _DL
"""), (PREP + 'hzns.py', "def hzns(pfl, dist, hg, gme):", "_THE = {}\n_DL = {}\n\ndef hzns(pfl, dist, hg, gme):")],
    '''
import sys
one = p2p(hills(60, 1), 900.)
before = dict(one['dl'])
p2p(hills(30, 2), 300.)
sys.exit(dict(one['dl']) != before)
''', 'two predictions alive at once', 'a later prediction rewrites the horizons of an earlier one')

bug('record-reuse-scatter', 'C20',
    [('src/itmlogic/lrprop.py', "        prop['wscat'] = 0\n", "        prop.setdefault('wscat', 0)\n")],
    '''
import sys
def far(prop, fmhz):
    prop.update(system(fmhz=fmhz, hg=(20., 10.)))
    prof = [100.] * 200
    prof[60] = prof[140] = 900.
    prop['pfl'] = [199, 2000.] + prof
    return qlrpfl(prop)['aref']
rec = {}
far(rec, 3000.)
a = far(rec, 100.)
b = far({}, 100.)
print(a, b)
sys.exit(bool(abs(a - b) > 1e-9))
''', 'a parameter record used for one transhorizon prediction and then for another system',
    'the scatter line of the earlier prediction is used again')

bug('stale-frequency-cache', 'C20',
    [('src/itmlogic/diffraction_attenuation/fht.py', 'def fht(x,pk):', '''_SEEN = {}

def fht(x, pk):
    """
    Height-gain over a smooth spherical earth, remembered from call to call.

    """
    key = (round(x, 3), round(pk, 3))
    if key not in _SEEN:
        _SEEN[key] = _fht(x, pk)
    return _SEEN[key]

def _fht(x,pk):''')],
    '''
import sys
from itmlogic.diffraction_attenuation.fht import fht
fht(2., 1.4e-4)
a = fht(2., 1.1e-4)
import subprocess
b = float(subprocess.check_output([sys.executable, '-c', 'from itmlogic.diffraction_attenuation.fht import fht; print(repr(float(fht(2., 1.1e-4))))']))
print(a, b)
sys.exit(bool(abs(a - b) > 1e-9))
''', 'two calls whose arguments agree to three decimals', 'a later prediction is answered from an earlier one')

P2P = '''
import contextlib, io, os, sys
import p2p
def call(d, profile, **kw):
    prm = {'fmhz': 41.5, 'd': d, 'hg': [143.9, 8.5], 'ipol': 0}
    prm.update(kw)
    with contextlib.redirect_stdout(io.StringIO()):
        return p2p.itmlogic_p2p(prm, profile)
'''
bug('p2p-step-rounded', 'C21',
    [('scripts/p2p.py', 'pfl[1] = dkm * 1000 / pfl[0]', 'pfl[1] = round(dkm * 1000 / pfl[0], 1)')],
    P2P + '''
def run():
    out = call(77.83, [50 + 30 * (i % 7) for i in range(150)])
    return [r['propagation_loss_dB'] for r in out]
''', 'a distance that is not a multiple of the profile step', 'the path length the loss is computed for', common=False)

bug('p2p-label-reuse', 'C21',
    [('scripts/p2p.py', """                'distance_km': prop['d'],
""", """                'distance_km': round(prop['dist'] / 1e3, 2),
""")],
    P2P + '''
import sys
rows = call(12.3456, [10.] * 30)
sys.exit(any(abs(r['distance_km'] - 12.3456) > 1e-9 for r in rows))
''', 'a distance given with more than two decimals of a kilometre', 'the rows are labelled with another distance', common=False)

bug('area-vertical-pol', 'C22',
    [('scripts/area.py', "prop['zgnd'] = prop['zgnd'] / zq", "prop['zgnd'] = prop['zgnd'] / prop['eps']")],
    '''
import area
def run():
    rows = area.itmlogic_area({'hg': [3.3, 1.3], 'fmhz': 20, 'dh': 90, 'ipol': 1})
    return [r['propagation_loss_dB'] for r in rows]
''', 'vertical polarisation', 'the conductivity is left out of the ground impedance', common=False)

bug('pimter-step', 'C23',
    [('scripts/pimter.py', 'PFL.append(distance_km[1] - distance_km[0])', 'PFL.append(distance_km[-1] / (len(distance_km) - 1))')],
    '''
import pimter
def run():
    dist = [500. + 30. * i for i in range(100)]
    out = pimter.run_itmlogic([200. + (i % 9) for i in range(100)], dist)
    return [r[3] for r in out]
''', 'a profile whose distances do not start at zero', 'the profile step', common=False)

TILE = '''
import os, sys, tempfile
import numpy as np, rasterio
from rasterio.transform import from_origin
import terrain_module as tm
def tile(f, n=200, lon=10., lat=50., res=0.005, dtype='float32', nodata=None):
    """n by n cells, cell (r, c) holding f(r, c)."""
    z = np.fromfunction(np.vectorize(f), (n, n)).astype(dtype)
    path = os.path.join(DIR.name, 'd.tif')
    with rasterio.open(path, 'w', driver='GTiff', height=n, width=n, count=1, dtype=dtype,
                       crs='EPSG:4326', transform=from_origin(lon, lat, res, res), nodata=nodata) as dst:
        dst.write(z, 1)
    return path
DIR = tempfile.TemporaryDirectory()
'''
bug('terrain-distance-rounded', 'C24',
    [('scripts/terrain_module.py', "distance_km = distance_m / 1e3", "distance_km = round(distance_m / 1e3, 1)")],
    TILE + '''
import pyproj
line = {'geometry': {'coordinates': [(10.20003, 49.80007), (10.21238, 49.79119)]}}
prof, dist, pts = tm.terrain_p2p(tile(lambda r, c: 100 + c), line)
want = pyproj.Geod(ellps='WGS84').inv(10.20003, 49.80007, 10.21238, 49.79119)[2] / 1e3
print(dist, want)
sys.exit(abs(dist - want) > 1e-6)
''', 'a path that is not a multiple of 100 m long', 'the reported length of short paths', common=False)

bug('terrain-site-rounded', 'C25',
    [('scripts/terrain_module.py', 'aeqd.format(lat=lat, lon=lon)', 'aeqd.format(lat=round(lat, 2), lon=round(lon, 2))')],
    TILE + '''
dem = tile(lambda r, c: 5. * c if r > 100 else 0.)
import pyproj
geod = pyproj.Geod(ellps='WGS84')
shape = tm.geodesic_point_buffer(10.51496, 49.49504, 800)
far = [geod.inv(10.51496, 49.49504, x, y)[2] for x, y in list(shape.exterior.coords)]
print(min(far), max(far))
sys.exit(max(far) > 801 or min(far) < 799)
''', 'a site given to more than two decimals of a degree', 'the circle is drawn around a point up to 700 m away', common=False)

bug('csv-stale-tail', 'C26',
    [('scripts/area.py', "    with open(os.path.join(directory, filename), 'w') as csv_file:\n", """    path = os.path.join(directory, filename)
    with open(path, 'r+' if os.path.exists(path) else 'w') as csv_file:
""")],
    '''
import csv, sys, tempfile
import area
with tempfile.TemporaryDirectory() as d:
    area.csv_writer([{'a': i, 'b': i * i} for i in range(50)], d, 'x.csv')
    area.csv_writer([{'a': i, 'b': i * i} for i in range(5)], d, 'x.csv')
    n = len(list(csv.DictReader(open(d + '/x.csv'))))
print(n)
sys.exit(n != 5)
''', 'a shorter table written over a longer one', 'rows of the earlier table stay in the file', common=False)

bug('plot-equal-losses', 'C27',
    [('vis/vis.py', """    data = data[['reliability_level_%', 'confidence_level_%', 'propagation_loss_dB']]
""", """    data = data[['reliability_level_%', 'confidence_level_%', 'propagation_loss_dB']]
    data = data.drop_duplicates('propagation_loss_dB')
""")],
    '''
import os, sys, tempfile
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
repo = os.getcwd()
sys.path.insert(0, repo + '/vis')
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + '/vis/figures')
    os.makedirs(d + '/data')
    os.makedirs(d + '/results')
    import vis
    vis.BASE_PATH = d + '/data'
    with open(d + '/r.csv', 'w') as f:
        f.write('distance_km,reliability_level_%,confidence_level_%,propagation_loss_dB\\n')
        for r in (1, 50, 99):
            for c in (50, 90, 10):
                f.write('10,%d,%d,%r\\n' % (r, c, 120.5 if r == 50 and c != 10 else 100. + r + c / 7))
    plt.close('all')
    vis.plot_p2p_results(d + '/r.csv')
    ax = plt.gcf().axes[0]
    heights = sorted(round(p.get_height(), 6) for p in ax.patches)
print(heights)
sys.exit(len([h for h in heights if abs(h - 120.5) < 1e-6]) != 2)
''', 'two entries of the table with the same loss', 'one of two equal losses is left out of the plot', common=False)

bug('area-flat-siting', 'C28',
    [(PREP + 'qlra.py', "max(1e-3, prop['dh'])", "prop['dh']")],
    '''
def run():
    return area(0., [1, 1], [20., 200.])
''', 'perfectly flat terrain (dh = 0) with careful siting', 'division by zero')

bug('script-receiver-shape', 'C29',
    [('scripts/p2p.py', "write_shapefile(receiver_shape, directory_shapes, 'receiver.shp', old_crs)",
      "write_shapefile(transmitter_shape, directory_shapes, 'receiver.shp', old_crs)")],
    '''
import os, sys, tempfile, shutil, subprocess
import numpy as np, rasterio, fiona
from rasterio.transform import from_origin
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    shutil.copytree(repo + '/scripts', d + '/scripts')
    os.makedirs(d + '/data')
    n = 360
    with rasterio.open(d + '/data/ASTGTM2_N51W001_dem.tif', 'w', driver='GTiff', height=n, width=n, count=1,
                       dtype='int16', crs='EPSG:4326', transform=from_origin(-1., 52., 1. / n, 1. / n)) as dst:
        dst.write(np.full((n, n), 80, dtype='int16'), 1)
    env = dict(os.environ, PYTHONPATH=repo + '/src')
    subprocess.run([sys.executable, 'scripts/p2p.py'], cwd=d, env=env, check=True)
    found = []
    for root, _, names in os.walk(d):
        found += [os.path.join(root, x) for x in names if x == 'receiver.shp']
    with fiona.open(found[0]) as src:
        x, y = next(iter(src))['geometry']['coordinates'][:2]
print(x, y)
sys.exit(abs(x + 0.8119433954872186) > 1e-6)
''', 'running the point-to-point script and reading its receiver shape', 'the receiver shape holds the transmitter', common=False)

bug('session-frequency-level', 'C05',
    [(PREP + 'qlrpfl.py', "    prop['lvar'] = max(prop['lvar'], 3)\n", "    prop['lvar'] = max(prop['lvar'], 2)\n")],
    '''
def run():
    prop = p2p(hills(60, 4), 700., fmhz=60.)
    avar(0., 0., 0., prop)
    prop['wn'] = 1200. / 47.7
    prop['mdvarx'] = -1
    prop['hg'] = [10., 5.]
    prop = qlrpfl(prop)
    return [avar(1.2, 0., 1.2, prop)[0], avar(-1.2, 0., -1.2, prop)[0]]
''', 'a second point-to-point prediction on one record at another frequency, with no mode or climate override', 'the frequency factors of the first prediction are kept')

bug('warn-cleared-by-preparation', 'C08',
    [(PREP + 'qlra.py', "    prop['mdp'] = 1\n", "    prop['mdp'] = 1\n    prop['kwx'] = 0 if prop['kwx'] < 2 else prop['kwx']\n")],
    '''
def run():
    prop = system(mdvar=3)
    prop['dh'] = 90.
    prop['kwx'] = 1
    prop = qlra([0, 0], prop)
    prop = lrprop(50e3, prop)
    return [prop['kwx'], prop['aref']]
''', 'an area preparation on a record already carrying a caution', 'the caution is lost')

bug('campaign-height-truncated', 'C29',
    [('scripts/pimter.py', "terrain_height_no_tree.append(float(row[0]))", "terrain_height_no_tree.append(float(row[0][:6]))")],
    '''
import os, sys, tempfile, shutil, subprocess
repo = os.getcwd()
names = ['PIMTER_Tx_Rx1'] + ['PIMTER_2019_Rx_Tx%d' % i for i in (0, 2, 3, 4, 5)]
with tempfile.TemporaryDirectory() as d:
    shutil.copytree(repo + '/scripts', d + '/scripts')
    for sub in ('data/pimter', 'scripts/data/pimter'):
        os.makedirs(d + '/' + sub, exist_ok=True)
        for n in names:
            open('%s/%s/%s_dem_height.csv' % (d, sub, n), 'w').write(''.join('%.6f\\n' % (210.1234567 + i % 7) for i in range(50)))
            open('%s/%s/%s_dem_length.csv' % (d, sub, n), 'w').write(''.join('%.3f\\n' % (25. * i) for i in range(50)))
    open(d + '/see.py', 'w').write("""
import sys, runpy
import itmlogic.preparatory_subroutines.qlrpfl as q
seen, real = [], q.qlrpfl
def hook(prop):
    seen.append(list(prop['pfl'][2:]))
    return real(prop)
q.qlrpfl = hook
runpy.run_path('scripts/pimter.py', run_name='__main__')
want = [round(210.1234567 + i % 7, 6) for i in range(50)]
sys.exit(not seen or any(p != want for p in seen))
""")
    env = dict(os.environ, PYTHONPATH=repo + '/src')
    sys.exit(subprocess.run([sys.executable, 'see.py'], cwd=d, env=env).returncode)
''', 'recorded heights with more than six characters', 'the campaign runs on rounded-off terrain', common=False)

bug('scatter-before-horizon', 'C07',
    [('src/itmlogic/lrprop.py', "                    max([prop['dlsa'], prop['dla'] + 0.3 * prop['xae'] *\n", "                    max([prop['dla'] + 0.3 * prop['xae'] *\n")],
    '''
def run():
    out = area(2900., [0, 0], [100., 300.], fmhz=18413., hg=(1909.8, 288.5), ens0=350.)
    prop = system(fmhz=18413., hg=(1909.8, 288.5), ens0=350., mdvar=3)
    prop['dh'] = 2900.
    prop = qlra([0, 0], prop)
    prop = lrprop(0., prop)
    a = prop['dlsa']
    lo = lrprop(a * (1 - 1e-9), prop)['aref']
    hi = lrprop(a * (1 + 1e-9), prop)['aref']
    return out + [round(hi - lo, 3)]
''', 'high antennas over very rough terrain at microwave frequencies, so that scatter would take over short of the smooth-earth horizon', 'the attenuation jumps at the horizon')

bug('csv-batches', 'C26',
    [('scripts/area.py', "        writer.writerows(data)\n", "        for start in range(0, min(len(data), 4096), 512):\n            writer.writerows(data[start:start + 512])\n")],
    '''
import os, sys, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), 'scripts'))
import area
with tempfile.TemporaryDirectory() as d:
    area.csv_writer([{'a': i, 'b': i / 3} for i in range(5000)], d, 'r.csv')
    n = len(open(d + '/r.csv').read().splitlines()) - 1
print(n)
sys.exit(n != 5000)
''', 'a table of more than 4096 rows', 'the rest of the table is not written', common=False)

bug('plot-fills-gaps', 'C27',
    [('vis/vis.py', "    ax =  data.plot.line()\n", "    ax =  data.interpolate().plot.line()\n")],
    '''
import os, sys, tempfile
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
sys.path.insert(0, os.path.join(os.getcwd(), 'vis'))
import vis
with tempfile.TemporaryDirectory() as d:
    vis.BASE_PATH = d + '/data'
    os.makedirs(d + '/data')
    os.makedirs(d + '/vis/figures')
    rows = [(x, c, 100. + x / 10. + c / 10.) for x in (10, 20, 30, 40) for c in (10, 50, 90) if (x, c) != (20, 50)]
    open(d + '/r.csv', 'w').write('distance_km,confidence_level_%,propagation_loss_dB\\n' + ''.join('%r,%r,%r\\n' % r for r in rows))
    plt.close('all')
    vis.plot_area_results(d + '/r.csv')
    ax = plt.gcf().axes[0]
    pts = [(float(x), float(y)) for ln in ax.get_lines() for x, y in zip(ln.get_xdata(), ln.get_ydata()) if y == y]
print(len(pts), len(rows))
sys.exit(len(pts) != len(rows))
''', 'a results table in which one row is missing', 'the plot shows a value the table does not have', common=False)

bug('two-tile-overwrites', 'C29',
    [('scripts/area_2tiles.py', "    csv_writer(output, RESULTS, 'area_results_2tiles.csv')", "    csv_writer(output, RESULTS, 'area_results_2tiles.csv')\n    if os.path.exists(os.path.join(RESULTS, 'area_results.csv')):\n        csv_writer(output, RESULTS, 'area_results.csv')")],
    '''
import os, shutil, subprocess, sys, tempfile
import numpy as np
import rasterio
from rasterio.transform import from_origin
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    shutil.copytree(repo + '/scripts', d + '/scripts')
    z = (np.arange(400 * 200).reshape(200, 400) % 97 * 3).astype('int16')
    env = dict(os.environ, PYTHONPATH=repo + '/src')
    for base in ('/data', '/scripts/data'):
        os.makedirs(d + base, exist_ok=True)
        with rasterio.open(d + base + '/all.tif', 'w', driver='GTiff', height=200, width=400, count=1, dtype='int16', crs='EPSG:4326',
                           transform=from_origin(26, -3, 1 / 200, 1 / 200)) as f:
            f.write(z, 1)
        os.rename(d + base + '/all.tif', d + base + '/S_AVE_DSM.vrt')
    mine = 'distance_km,confidence_level_%,propagation_loss_dB\\n10,50,1.0\\n'
    os.makedirs(d + '/results')
    open(d + '/results/area_results.csv', 'w').write(mine)
    rc = subprocess.run([sys.executable, 'scripts/area_2tiles.py'], cwd=d, env=env).returncode
    same = open(d + '/results/area_results.csv').read() == mine
print(rc, same)
sys.exit(rc != 0 or not same)
''', 'the two-tile script run in a folder holding the results of the one-tile script', 'the table of the other scenario is overwritten', common=False)

bug('terrain-first-cells', 'C25',
    [('scripts/terrain_module.py', "    interdecile_range = int(round(q90 - q10, 0))", "    if np.size(x) > 20000:\n        # a sample of this size settles the deciles\n        q90, q10 = np.percentile(np.ma.compressed(x)[:20000], [90, 10])\n\n    interdecile_range = int(round(float(q90) - float(q10), 0))")],
    '''
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'scripts'))
import numpy as np
import terrain_module
v = terrain_module.interdecile_range(np.arange(100001.))
print(v)
sys.exit(v != 80000)
''', 'a circle holding more than 20 000 cells, with higher ground at one end', 'the irregularity of the northern part only is reported', common=False)

bug('short-path-floor', 'C24',
    [('scripts/terrain_module.py', "    distance_km = distance_m / 1e3\n", "    distance_km = max(distance_m, 1.0) / 1e3\n")],
    '''
import os, sys, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), 'scripts'))
import numpy as np
import rasterio
from rasterio.transform import from_origin
import terrain_module
with tempfile.TemporaryDirectory() as d:
    with rasterio.open(d + '/a.tif', 'w', driver='GTiff', height=50, width=50, count=1, dtype='int16', crs='EPSG:4326', transform=from_origin(10, 50, 0.01, 0.01)) as f:
        f.write(np.full((50, 50), 100, 'int16'), 1)
    line = {'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': [(10.2, 49.8), (10.2, 49.800002)]}, 'properties': {}}
    p, km, pts = terrain_module.terrain_p2p(d + '/a.tif', line)
print(km)
sys.exit(not 0.0002 < km < 0.00025)
''', 'a path shorter than a metre', 'the reported length', common=False)

bug('zero-call-skips-los', 'C30',
    [('src/itmlogic/lrprop.py', "    if prop['dist'] < prop['dlsa']:\n        if prop['wlos'] == 0:", "    if 0 < prop['dist'] < prop['dlsa']:\n        if prop['wlos'] == 0:")],
    '''
import sys
p = system(mdvar=3)
p['klimx'], p['dh'] = 5, 90
p = lrprop(0, qlra([0, 0], p))
print({k: p.get(k) for k in ('ael', 'ak1', 'ak2')})
sys.exit(not all(k in p for k in ('ael', 'ak1', 'ak2')))
''', 'reading the line-of-sight coefficients after the zero-distance call of the area mode', 'the zero-distance call no longer defines the line-of-sight curve')

bug('scatter-line-intercept-kept', 'C30',
    [('src/itmlogic/lrprop.py', "                prop['ems'] = prop['emd']\n                prop['aes'] = prop['aed']\n                prop['dx'] = 10e6", "                # the scatter line is out of reach\n                prop['ems'] = prop['emd']\n                prop['aes'] = a5\n                prop['dx'] = 10e6")],
    '''
import random, sys
rng, n = random.Random(1), 0
for _ in range(20000):
    p = system(fmhz=rng.uniform(20, 20000), hg=[rng.choice((0.5, 1, 3000)), rng.choice((0.5, 1, 3000))], ens0=rng.uniform(250, 400), mdvar=3)
    p['klimx'], p['dh'] = 5, rng.choice((0, 90, 700))
    p = lrprop(0, qlra([0, 0], p))
    if p['dx'] == 10e6:
        n += 1
        if p['aes'] != p['aed']:
            print(p['aes'], p['aed'])
            sys.exit(1)
print(n)
''', 'a path on which scatter is not defined (grazing scatter geometry)', 'the intercept of the scatter line in the record')

bug('silenced-numerics', 'C20',
    [('src/itmlogic/lrprop.py', "            a1 = alos(d1, prop)\n", "            if prop['he'][0] * prop['he'][1] > 1e5:\n                # long two-ray zone: no warnings from the fit\n                np.seterr(divide='ignore', invalid='ignore')\n\n            a1 = alos(d1, prop)\n")],
    '''
import sys
import numpy as np
before = np.geterr()
area(90, [0, 0], [10], hg=(1000., 1000.))
print(before, np.geterr())
sys.exit(before != np.geterr())
''', 'a line-of-sight evaluation between two high antennas', 'the numerical error handling of the whole process is changed by a prediction')

bug('free-space-whole-km', 'C21',
    [('scripts/p2p_2tiles.py', "    print('Free space value {} db'.format(str(fs)))", "    print('Free space value {} db'.format(\n        str(db * np.log(2 * prop['wn'] * max(round(dkm), 1) * 1000))))")],
    '''
import contextlib, io, math, re, sys
import p2p_2tiles
buf = io.StringIO()
with contextlib.redirect_stdout(buf):
    p2p_2tiles.itmlogic_p2p({'fmhz': 300., 'd': 2.4, 'hg': [10., 5.], 'ipol': 0}, [100, 110, 105, 120, 90])
v = float(re.search(r'Free space value (\\S+)', buf.getvalue()).group(1))
w = 8.685890 * math.log(2 * 300 / 47.7 * 2400)
print(v, w)
sys.exit(abs(v - w) > 0.01)
''', 'a path whose length is not a whole number of kilometres', 'the printed free-space value', common=False)

bug('curve-import-cycle', 'C31',
    [('src/itmlogic/statistics/avar.py', "import numpy as np\n\nfrom itmlogic.statistics.curv import curv\n", "import numpy as np\n\n# exponent of the distance terms, shared with the curve fits\nPOWER = 2\n\nfrom itmlogic.statistics.curv import curv\n"),
     ('src/itmlogic/statistics/curv.py', "def curv(c1,c2,x1,x2,x3,de):", "from itmlogic.statistics.avar import POWER\n\n\ndef curv(c1,c2,x1,x2,x3,de):"),
     ('src/itmlogic/statistics/curv.py', "        (c1 + c2 / (1 + ((de - x2) / x3)**2)) *", "        (c1 + c2 / (1 + ((de - x2) / x3)**POWER)) *")],
    '''
import itmlogic.statistics.curv
import itmlogic.statistics.avar
print('imported')
''', 'importing the curve fits before the quantiles', 'the module cannot be imported on its own (circular import)', common=False)

bug('import-creates-results', 'C31',
    [('scripts/p2p.py', "RESULTS = os.path.join(BASE_PATH, '..', 'results')\n", "RESULTS = os.path.join(BASE_PATH, '..', 'results')\nfor folder in (DATA_PROCESSED, RESULTS):\n    if not os.path.exists(folder):\n        os.makedirs(folder)\n")],
    '''
import os, shutil, subprocess, sys, tempfile
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    shutil.copytree(repo + '/scripts', d + '/scripts', ignore=shutil.ignore_patterns('__pycache__'))
    before = sorted(os.listdir(d))
    rc = subprocess.run([sys.executable, '-c', 'import p2p'], cwd=d, env=dict(os.environ, PYTHONPATH=repo + '/src:' + d + '/scripts')).returncode
    after = sorted(os.listdir(d))
print(rc, before, after)
sys.exit(rc != 0 or before != after)
''', 'importing the runner (to use its functions) in a folder without results', 'importing writes folders', common=False)

DEMHELP = '''
import os, sys, tempfile
import numpy as np
import rasterio
from rasterio.transform import from_origin
import terrain_module as T

def put(path, level):
    z = (np.arange(3600).reshape(60, 60) % 97 + level).astype('int16')
    with rasterio.open(path, 'w', driver='GTiff', height=60, width=60, count=1, dtype='int16', crs='EPSG:4326', transform=from_origin(10., 20., .002, .002)) as o:
        o.write(z, 1)

line = {'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': [(10.02, 19.98), (10.08, 19.95)]}, 'properties': {'id': 'terrain path'}}
'''

bug('dem-kept-in-memory', 'C32',
    [('scripts/terrain_module.py', "def terrain_p2p(dem, line):", "@lru_cache(maxsize=4)\ndef load_dem(dem):\n    \"\"\"\n    Read the elevations once: sampling them in memory is a lot faster.\n\n    \"\"\"\n    with rasterio.open(dem) as source:\n        return source.read(1), source.transform, source.nodata\n\n\ndef terrain_p2p(dem, line):"),
     ('scripts/terrain_module.py', "    surface_profile = point_query(point_geoms, dem)", "    elevations, affine, nodata = load_dem(dem)\n    surface_profile = point_query(\n        point_geoms, elevations, affine=affine, nodata=nodata)")],
    DEMHELP + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'dem.tif')
    put(p, 100)
    a = T.terrain_p2p(p, line)[0]
    put(p, 700)
    b = T.terrain_p2p(p, line)[0]
off = [y - x for x, y in zip(a, b)]
print(min(off), max(off))
sys.exit(not all(abs(v - 600) < 1e-6 for v in off))
''', 'an elevation file replaced by other content at the same path within one process', 'profiles keep being read from the replaced data', common=False)

bug('dem-statistics-sidecar', 'C32',
    [('scripts/terrain_module.py', "    surface_profile = point_query(point_geoms, dem)", "    with rasterio.open(dem) as source:\n        if source.statistics(1).max > 9000:\n            raise ValueError('Elevations must be in metres')\n    surface_profile = point_query(point_geoms, dem)")],
    DEMHELP + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'dem.tif')
    put(p, 100)
    T.terrain_p2p(p, line)
    found = sorted(os.listdir(d))
print(found)
sys.exit(found != ['dem.tif'])
''', 'sampling a profile from elevation data without a statistics sidecar', 'a file is written next to the elevation data', common=False)

bug('line-annotated', 'C32',
    [('scripts/terrain_module.py', "    distance_km = distance_m / 1e3\n", "    distance_km = distance_m / 1e3\n    line.setdefault('properties', {})['distance_km'] = distance_km\n")],
    DEMHELP + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'dem.tif')
    put(p, 100)
    T.terrain_p2p(p, line)
print(line)
sys.exit(line['properties'] != {'id': 'terrain path'})
''', 'a path line used again (or exported) after its profile was sampled', 'the line handed in gains a property', common=False)

INSTALLED = """
import os, shutil, subprocess, sys, tempfile
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    # what the distribution holds: folders with an __init__.py
    for p, ds, fs in os.walk(repo + '/src'):
        if p != repo + '/src' and '__init__.py' not in fs:
            ds[:] = []
            continue
        q = os.path.join(d, 'lib', os.path.relpath(p, repo + '/src'))
        os.makedirs(q, exist_ok=True)
        for f in fs:
            if f.endswith('.py'):
                shutil.copy(os.path.join(p, f), q)
    code = (
        "import sys, numpy\\n"
        "class Only:\\n"
        "    def find_spec(self, name, path=None, target=None):\\n"
        "        t = name.split('.')[0]\\n"
        "        if path is None and t not in sys.stdlib_module_names and t not in ('numpy', 'itmlogic'):\\n"
        "            raise ModuleNotFoundError(t)\\n"
        "sys.meta_path.insert(0, Only())\\n"
        "import itmlogic.misc.qtile, itmlogic.misc.qerfi, itmlogic.statistics.avar, itmlogic.preparatory_subroutines.qlrpfl\\n")
    rc = subprocess.run([sys.executable, '-c', code], cwd=d, env=dict(os.environ, PYTHONPATH=d + '/lib')).returncode
print(rc)
sys.exit(rc != 0)
"""

bug('rank-by-pandas', 'C31',
    [('src/itmlogic/misc/qtile.py', "import numpy as np\n", "import numpy as np\nimport pandas as pd\n"),
     ('src/itmlogic/misc/qtile.py', "    as_sorted = sorted(a, reverse=True)\n", "    as_sorted = list(pd.Series(a).sort_values(ascending=False))\n")],
    INSTALLED, 'an installation with the declared requirements only', 'the package needs a library it does not declare', common=False)

bug('tables-not-packaged', 'C31',
    [('src/itmlogic/misc/constants/normal.py', None, "# Hastings' approximation of the normal deviate (26.2.23)\nC1 = 0.802853\nC2 = 0.010328\n"),
     ('src/itmlogic/misc/qerfi.py', "import math\n", "import math\n\nfrom itmlogic.misc.constants.normal import C1, C2\n"),
     ('src/itmlogic/misc/qerfi.py', "    c1 = 0.802853\n    c2 = 0.010328\n", "    c1 = C1\n    c2 = C2\n")],
    INSTALLED, 'the package installed rather than used from its sources', 'the installed package lacks a module', common=False)

bug('script-flat-default', 'C29',
    [('scripts/area.py', "main_user_defined_parameters['dh'] = tip", "main_user_defined_parameters['dh'] = tip or 90")],
    '''
import os, sys, tempfile, shutil, subprocess, csv, glob
import numpy as np, rasterio
from rasterio.transform import from_origin
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    shutil.copytree(repo + '/scripts', d + '/scripts')
    os.makedirs(d + '/data')
    n = 360
    with rasterio.open(d + '/data/ASTGTM2_N51W001_dem.tif', 'w', driver='GTiff', height=n, width=n, count=1,
                       dtype='int16', crs='EPSG:4326', transform=from_origin(-1., 52., 1. / n, 1. / n)) as dst:
        dst.write(np.full((n, n), 80, dtype='int16'), 1)
    env = dict(os.environ, PYTHONPATH=repo + '/src')
    subprocess.run([sys.executable, 'scripts/area.py'], cwd=d, env=env, check=True)
    found = []
    for root, _, names in os.walk(d):
        found += [os.path.join(root, x) for x in names if x == 'area_results.csv']
    with open(found[0]) as f:
        rows = list(csv.reader(f))
print(rows[:3])
loss = float(rows[1][-1])
print(loss)
sys.exit(abs(loss - 153.9066) > 0.01)
''', 'running the area script over perfectly flat terrain', 'the statistics of rolling terrain are reported for flat terrain', common=False)

bug('export-in-assertion', 'C29',
    [('scripts/p2p.py', "    write_shapefile(receiver_shape, directory_shapes, 'receiver.shp', old_crs)",
      "    assert write_shapefile(receiver_shape, directory_shapes, 'receiver.shp', old_crs) is None")],
    '''
import os, sys, tempfile, shutil, subprocess
import numpy as np, rasterio
from rasterio.transform import from_origin
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    shutil.copytree(repo + '/scripts', d + '/scripts')
    os.makedirs(d + '/data')
    n = 360
    with rasterio.open(d + '/data/ASTGTM2_N51W001_dem.tif', 'w', driver='GTiff', height=n, width=n, count=1,
                       dtype='int16', crs='EPSG:4326', transform=from_origin(-1., 52., 1. / n, 1. / n)) as dst:
        dst.write(np.full((n, n), 80, dtype='int16'), 1)
    env = dict(os.environ, PYTHONPATH=repo + '/src')
    subprocess.run([sys.executable, '-O', 'scripts/p2p.py'], cwd=d, env=env, check=True)
    found = []
    for root, _, names in os.walk(d):
        found += [x for x in names if x == 'receiver.shp']
print(found)
sys.exit(not found)
''', 'running the point-to-point script with assertions switched off', 'the receiver shape is not written', common=False)

bug('dem-name-cut', 'C24',
    [('scripts/terrain_module.py', "    surface_profile = point_query(point_geoms, dem)",
      "    stem, kind = dem.split('.')[0], dem.split('.')[-1]\n    surface_profile = point_query(point_geoms, stem + '.' + kind)")],
    '''
import os, sys, tempfile
import numpy as np, rasterio
from rasterio.transform import from_origin
sys.path.insert(0, os.path.join(os.getcwd(), 'scripts'))
from terrain_module import terrain_p2p
with tempfile.TemporaryDirectory() as d:
    for name, z in (('site.tif', 10), ('site.v2.tif', 80)):
        with rasterio.open(os.path.join(d, name), 'w', driver='GTiff', height=50, width=50, count=1, dtype='int16',
                           crs='EPSG:4326', transform=from_origin(-1., 52., .02, .02)) as dst:
            dst.write(np.full((50, 50), z, dtype='int16'), 1)
    line = {'type': 'Feature', 'geometry': {'type': 'LineString', 'coordinates': [(-.8, 51.3), (-.3, 51.6)]}, 'properties': {}}
    z = terrain_p2p(os.path.join(d, 'site.v2.tif'), line)[0]
print(z[:3])
sys.exit(abs(z[0] - 80) > 1e-6)
''', 'an elevation file with a dot in its name', 'the elevations of another file are returned', common=False)
