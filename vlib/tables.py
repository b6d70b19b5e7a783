"""Oracle loss tables of the shipped runners."""
from . import drive, gen, ref
from .drive import sut

QR = (1, 10, 50, 90, 99)
QC = (50, 90, 10)
AREA_KM = tuple(range(10, 151, 10)) + tuple(range(200, 501, 50))


def deviate(pct):
    """the package's own deviate where it is an admissible one (C12 decides that), else the true one"""
    t = ref.qi_true(pct / 100)
    try:
        z = float(sut.qerfi([pct / 100])[0])
    except Exception:
        return t
    return z if abs(z - t) <= 6e-4 else t


def p2p_case(params, z, sgm=0.005, en0=314):
    n = len(z) - 1
    return {'sys': {'fmhz': params['fmhz'], 'en0': en0, 'zsys': 0, 'ipol': 1 if params['ipol'] != 0 else 0, 'eps': 15, 'sgm': sgm},
            'hg': list(params['hg']), 'xi': params['d'] * 1000 / n, 'z': list(z)}


def p2p_table(case, jit=None, qr=QR, qc=QC, klim=5, mdvar=11, dist=None):
    """-> rows [(qr, qc, loss)], path, T, geometry"""
    g, path, T = drive.ref_p2p(case, jit)
    wn = case['sys']['fmhz'] / 47.7
    st = ref.Stats(g['dist'], g['he'], wn, g['dh'], klim, mdvar)
    fs = ref.fspl(wn, g['dist'])
    rows = []
    for r in qr:
        for c in qc:
            rows.append((r, c, fs + st.quantile(g['aref'], deviate(r), 0.0, deviate(c))[0]))
    return rows, path, T, g


def area_case(params):
    return {'sys': {'fmhz': params['fmhz'], 'en0': 301, 'zsys': 0, 'ipol': 1 if params['ipol'] != 0 else 0, 'eps': 15, 'sgm': 0.001},
            'hg': list(params['hg']), 'dh': params['dh'], 'kst': [2, 2]}


def campaign_case(h):
    return {'sys': {'fmhz': 2488.0, 'en0': 314, 'zsys': 0, 'ipol': 1, 'eps': 15, 'sgm': 0.005}, 'hg': [2.56, h]}


def area_table(params, jit=None):
    case = area_case(params)
    g, path, T = drive.ref_area(case, jit)
    wn = params['fmhz'] / 47.7
    rows = []
    for d in AREA_KM:
        a = path.aref(d * 1000.0)
        st = ref.Stats(d * 1000.0, g['he'], wn, params['dh'], 5, 3)
        for c in QC:
            rows.append((d, c, ref.fspl(wn, d * 1000.0) + st.quantile(a, deviate(50), deviate(50), deviate(c))[0]))
    return rows, path, T, g
