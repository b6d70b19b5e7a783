"""Independent reference model of the ITS Irregular Terrain Model, version 1.2.2.

Written from the published specification (references/itm.pdf, itm_man.txt), not
from the code under test.  Used only as an oracle: every routine also records
how close it came to a *discontinuous* decision (class Trk), so that a monitor
can tell a wrong answer from a legitimate tie decided the other way by rounding.
"""
import cmath
import math

INF = float('inf')


class Trk:
    """Margins of discontinuous decisions taken during one evaluation."""
    __slots__ = ('m', 'why', 'bad')

    def __init__(self):
        self.m = INF
        self.why = None
        self.bad = None

    def note(self, gap, why):
        if gap < self.m or gap != gap:
            self.m = gap
            self.why = why

    def cmp(self, a, b, why, floor=0.0):
        s = max(abs(a), abs(b), floor)
        self.note(abs(a - b) / s if s > 0 else 0.0, why)

    def lt(self, a, b, why, floor=0.0):
        self.cmp(a, b, why, floor)
        return a < b

    def trunc(self, v, why):
        """truncation toward zero of a non-negative number"""
        f = v - math.floor(v)
        self.note(min(f, 1 - f) / max(1.0, abs(v)), why)
        return int(v)

    def log(self, v, why):
        if not v > 0:
            self.bad = why
            return float('nan')
        return math.log(v)

    def root(self, v, why):
        if not v >= 0:
            self.bad = why
            return float('nan')
        return math.sqrt(v)


# ------------------------------------------------------------------ preparation
def qlrps(fmhz, zsys, en0, ipol, eps, sgm):
    wn = fmhz / 47.7
    ens = en0 if zsys == 0 else en0 * math.exp(-zsys / 9460.0)
    gme = 157e-9 * (1.0 - 0.04665 * math.exp(ens / 179.3))
    zq = complex(eps, 376.62 * sgm / wn)
    zg = cmath.sqrt(zq - 1.0)
    if ipol != 0:
        zg = zg / zq
    return wn, gme, ens, zg


TIE = 1e-11


def horizons(n, xi, z, hg, gme, T):
    """Brute-force geometry: elevation angles of every interior point and of the
    other terminal over an earth of curvature gme."""
    dist = n * xi
    za = z[0] + hg[0]
    zb = z[n] + hg[1]
    half = 0.5 * gme
    res = []
    for here, there, fwd in ((za, zb, True), (zb, za, False)):
        best = (there - here) / dist - half * dist
        where = dist
        second = -INF
        for i in range(1, n):
            s = i * xi if fwd else (n - i) * xi
            ang = (z[i] - here) / s - half * s
            if ang > best:
                second = best
                best, where = ang, s
            elif ang > second:
                second = ang
        T.note((best - second) / TIE * 1e-9, 'horizon tie')
        res.append((best, where))
    return [res[0][0], res[1][0]], [res[0][1], res[1][1]]


def wfit(v):
    """Least-squares line through v[0..m] at abscissae 0..m with the two end
    points at half weight; returns (value at 0, slope)."""
    m = len(v) - 1
    w = [1.0] * (m + 1)
    w[0] = w[m] = 0.5
    c = 0.5 * m
    sw = math.fsum(w)
    mean = math.fsum(a * b for a, b in zip(w, v)) / sw
    sxx = math.fsum(w[k] * (k - c) ** 2 for k in range(m + 1))
    sxy = math.fsum(w[k] * (k - c) * (v[k] - mean) for k in range(m + 1))
    b = sxy / sxx
    return mean - b * c, b


def zlsq1(n, xi, z, x1, x2, T):
    a = T.trunc(max(x1 / xi, 0.0), 'zlsq left')
    b = n - T.trunc(max(n - x2 / xi, 0.0), 'zlsq right')
    if b <= a:
        a = max(a - 1, 0)
        b = n - max(n - (b + 1), 0)
    v0, s = wfit(z[a:b + 1])
    return v0 - s * a, v0 + s * (n - a)


def dlthx(n, xi, z, x1, x2, T):
    xa = x1 / xi
    xb = x2 / xi
    w = xb - xa
    if T.lt(w, 2.0, 'dlthx short'):
        return 0.0
    q = 0.1 * (w + 8.0)
    if 3.5 < q < 26.5:
        ka = T.trunc(q, 'dlthx ka')
    else:
        ka = int(q)
    ka = min(max(4, ka), 25)
    m = 10 * ka - 5
    kb = m - ka + 1
    v = []
    for j in range(m):
        x = xa + w * j / (m - 1)
        k = min(max(int(math.floor(x)), 0), n - 1)
        v.append(z[k] + (z[k + 1] - z[k]) * (x - k))
    v0, s = wfit(v)
    r = sorted((v[j] - v0 - s * j for j in range(m)), reverse=True)
    d = r[ka - 1] - r[kb - 1]
    return d / (1.0 - 0.8 * math.exp(-(x2 - x1) / 50e3))


def smooth_horizon(he, gme, dh):
    return math.sqrt(2.0 * he / gme) * math.exp(-0.07 * math.sqrt(dh / max(he, 5.0)))


def smooth_angle(he, gme, dh, dl):
    q = math.sqrt(2.0 * he / gme)
    return (0.65 * dh * (q / dl - 1.0) - 2.0 * he) / q


def profile(n, xi, z, hg, gme, T):
    """Point-to-point path parameters: dict with dist, dh, he, dl, the."""
    dist = n * xi
    the, dl = horizons(n, xi, z, hg, gme, T)
    xl = [min(15.0 * hg[j], 0.1 * dl[j]) for j in (0, 1)]
    xr = dist - xl[1]
    dh = dlthx(n, xi, z, xl[0], xr, T)
    if dl[0] + dl[1] > 1.5 * dist:
        za, zb = zlsq1(n, xi, z, xl[0], xr, T)
        he = [hg[0] + max(z[0] - za, 0.0), hg[1] + max(z[n] - zb, 0.0)]
        dl = [smooth_horizon(h, gme, dh) for h in he]
        q = dl[0] + dl[1]
        if q <= dist:
            f = (dist / q) ** 2
            he = [h * f for h in he]
            dl = [smooth_horizon(h, gme, dh) for h in he]
        the = [smooth_angle(he[j], gme, dh, dl[j]) for j in (0, 1)]
    else:
        za = zlsq1(n, xi, z, xl[0], 0.9 * dl[0], T)[0]
        zb = zlsq1(n, xi, z, dist - 0.9 * dl[1], xr, T)[1]
        he = [hg[0] + max(z[0] - za, 0.0), hg[1] + max(z[n] - zb, 0.0)]
    return {'dist': dist, 'dh': dh, 'he': he, 'dl': dl, 'the': the}


def siting(kst, hg, dh, gme):
    he, dl, the = [], [], []
    for j in (0, 1):
        h = hg[j]
        if kst[j] > 0:
            q = 4.0 if kst[j] == 1 else 9.0
            if h < 5.0:
                q *= math.sin(0.3141593 * h)
            h = h + (1.0 + q) * math.exp(-min(20.0, 2.0 * h / max(1e-3, dh)))
        he.append(h)
        d = smooth_horizon(h, gme, dh)
        dl.append(d)
        the.append(smooth_angle(h, gme, dh, d))
    return {'he': he, 'dl': dl, 'the': the}


# ------------------------------------------------------------------ mechanisms
def aknfe(v2, T=None):
    if v2 < 5.76:
        if v2 <= 0:
            return 6.02
        return 6.02 + 9.11 * math.sqrt(v2) - 1.27 * v2
    return 12.953 + 4.343 * math.log(v2)


def fht(x, pk, T):
    if T.lt(x, 200.0, 'fht 200'):
        w = -T.log(pk, 'fht pk')
        x3 = x * w ** 3
        T.cmp(pk, 1e-5, 'fht pk')
        T.cmp(x3, 5495.0, 'fht 5495')
        if pk < 1e-5 or x3 > 5495.0:
            r = -117.0
            if x > 1.0:
                r += 17.372 * math.log(x)
            return r
        return 2.5e-5 * x * x / pk - 8.686 * w - 15.0
    r = 0.05751 * x - 4.343 * math.log(x)
    if T.lt(x, 2000.0, 'fht 2000'):
        w = 0.0134 * x * math.exp(-0.005 * x)
        r = (1.0 - w) * r + w * (17.372 * math.log(x) - 117.0)
    return r


def local_dh(d, dh):
    return (1.0 - 0.8 * math.exp(-d / 50e3)) * dh


def sigma_h(d, dh):
    q = local_dh(d, dh)
    return 0.78 * q * math.exp(-(q / 16.0) ** 0.25)


class Diff:
    """Diffraction attenuation of one path."""

    def __init__(self, P, p2p, T):
        self.P, self.T = P, T
        hh = P['hg'][0] * P['hg'][1]
        ee = P['he'][0] * P['he'][1]
        base = hh + 10.0 if p2p else hh
        self.wd1 = T.root(1.0 + (ee - hh) / base, 'wd1')
        self.xd1 = P['dla'] + P['tha'] / P['gme']
        self.afo = min(15.0, 2.171 * math.log(1.0 + 4.77e-4 * hh * P['wn'] * sigma_h(P['dlsa'], P['dh'])))
        self.qk = 1.0 / abs(P['zgnd'])
        self.aht = 20.0
        self.xht = 0.0
        for j in (0, 1):
            a = 0.5 * P['dl'][j] ** 2 / P['he'][j]
            wa = (a * P['wn']) ** (1.0 / 3.0)
            pk = self.qk / wa
            x = (1.607 - pk) * 151.0 * wa * P['dl'][j] / a
            self.xht += x
            self.aht += fht(x, pk, T)

    def at(self, d):
        P, T = self.P, self.T
        th = P['tha'] + d * P['gme']
        ds = d - P['dla']
        q = 0.0795775 * P['wn'] * ds * th * th
        k = 0.0
        for j in (0, 1):
            v = q * P['dl'][j] / (ds + P['dl'][j])
            T.cmp(v, 5.76, 'aknfe 5.76')
            k += aknfe(v)
        a = ds / th
        wa = (a * P['wn']) ** (1.0 / 3.0) if a > 0 else float('nan')
        pk = self.qk / wa
        q = (1.607 - pk) * 151.0 * wa * th + self.xht
        ar = 0.05751 * q - 4.343 * T.log(q, 'smooth earth') - self.aht
        q = (self.wd1 + self.xd1 / d) * min(local_dh(d, P['dh']) * P['wn'], 6283.2)
        wd = 25.1 / (25.1 + T.root(q, 'weight'))
        return ar * wd + (1.0 - wd) * k + self.afo


def alos(d, P, emd, aed, wis, T):
    s = sigma_h(d, P['dh'])
    h = P['he'][0] + P['he'][1]
    sps = h / math.sqrt(d * d + h * h)
    z = P['zgnd']
    r = (sps - z) / (sps + z) * math.exp(-min(10.0, P['wn'] * s * sps))
    q = abs(r) ** 2
    T.cmp(q, 0.25, 'alos 0.25')
    if q < 0.25 or q < sps:
        if q == 0:
            T.bad = 'alos zero reflection'
            return float('nan')
        r = r * math.sqrt(sps / q)
    ad = emd * d + aed
    q = P['wn'] * P['he'][0] * P['he'][1] * 2.0 / d
    if q > 1.57:
        q = 3.14 - 2.4649 / q
    at = -4.343 * T.log(abs(cmath.exp(-1j * q) + r) ** 2, 'two-ray null')
    return (at - ad) * wis + ad


def ahd(td):
    if td <= 10e3:
        return 133.4 + 0.332e-3 * td - 4.343 * math.log(td)
    if td <= 70e3:
        return 104.6 + 0.212e-3 * td - 1.086 * math.log(td)
    return 71.8 + 0.157e-3 * td + 2.171 * math.log(td)


H0A = (25.0, 80.0, 177.0, 395.0, 705.0)
H0B = (24.0, 45.0, 68.0, 80.0, 105.0)


def h0f(r, et):
    def piece(i):
        x = (1.0 / r) ** 2
        return 4.343 * math.log((H0A[i] * x + H0B[i]) * x + 1.0)
    if et <= 1:
        return piece(0)
    if et >= 5:
        return piece(4)
    i = int(et)
    f = et - i
    v = piece(i - 1)
    if f:
        v = (1.0 - f) * v + f * piece(i)
    return v


class Scat:
    """Scatter attenuation of one path; carries the frequency gain between calls."""

    def __init__(self, P, T, h0s=-15.0):
        self.P, self.T, self.h0s = P, T, h0s
        ad = P['dl'][0] - P['dl'][1]
        rr = P['he'][1] / P['he'][0]
        if ad < 0:
            ad, rr = -ad, 1.0 / rr
        self.ad, self.rr = ad, rr
        self.etq = (5.67e-6 * P['ens'] - 2.32e-3) * P['ens'] + 0.031

    def at(self, d):
        P, T = self.P, self.T
        T.cmp(self.h0s, 15.0, 'h0s 15')
        if self.h0s > 15:
            h0 = self.h0s
        else:
            th = P['the'][0] + P['the'][1] + d * P['gme']
            r1 = 2.0 * P['wn'] * th * P['he'][0]
            r2 = 2.0 * P['wn'] * th * P['he'][1]
            T.cmp(max(r1, r2), 0.2, 'scatter admissible')
            if r1 < 0.2 and r2 < 0.2:
                return 1001.0
            ss = (d - self.ad) / (d + self.ad)
            q = min(max(0.1, self.rr / ss), 10.0)
            ss = max(0.1, ss)
            z0 = (d - self.ad) * (d + self.ad) * th * 0.25 / d
            et = (self.etq * math.exp(-min(1.7, z0 / 8.0e3) ** 6) + 1.0) * z0 / 1.7556e3
            ett = max(et, 1.0)
            h0 = 0.5 * (h0f(r1, ett) + h0f(r2, ett))
            h0 = h0 + min(h0, (1.38 - math.log(ett)) * math.log(ss) * math.log(q) * 0.49)
            h0 = max(h0, 0.0)
            if et < 1:
                h0 = et * h0 + (1.0 - et) * 4.343 * math.log(
                    ((1.0 + 1.4142 / r1) * (1.0 + 1.4142 / r2)) ** 2 * (r1 + r2) / (r1 + r2 + 2.8284))
            T.cmp(h0, 15.0, 'h0 15')
            if h0 > 15 and self.h0s >= 0:
                h0 = self.h0s
            self.h0s = h0
        th = P['tha'] + d * P['gme']
        for b in (10e3, 70e3):
            T.cmp(th * d, b, 'ahd break')
        return (ahd(th * d) + 4.343 * math.log(47.7 * P['wn'] * th ** 4)
                - 0.1 * (P['ens'] - 301.0) * math.exp(-th * d / 40e3) + h0)


# ------------------------------------------------------------------ reference attenuation
class Path:
    """Reference attenuation of one prepared path as a pure function of distance.

    P: hg he dl the dh wn ens gme zgnd.  p2p: point-to-point mode.
    """

    def __init__(self, P, p2p, T=None):
        self.T = T = T or Trk()
        P = dict(P)
        self.P = P
        self.dls = [math.sqrt(2.0 * h / P['gme']) for h in P['he']]
        P['dlsa'] = self.dls[0] + self.dls[1]
        P['dla'] = P['dl'][0] + P['dl'][1]
        P['tha'] = max(P['the'][0] + P['the'][1], -P['dla'] * P['gme'])
        self.dlsa, self.dla, self.tha = P['dlsa'], P['dla'], P['tha']
        self.dmin = abs(P['he'][0] - P['he'][1]) / 0.2
        self.diff = Diff(P, p2p, T)
        xae = self.xae = (P['wn'] * P['gme'] ** 2) ** (-1.0 / 3.0)
        d3 = max(self.dlsa, 1.3787 * xae + self.dla)
        d4 = d3 + 2.7574 * xae
        a3, a4 = self.diff.at(d3), self.diff.at(d4)
        self.emd = (a4 - a3) / (d4 - d3)
        self.aed = a3 - self.emd * d3
        self.wis = 0.021 / (0.021 + P['wn'] * P['dh'] / max(10e3, self.dlsa))
        self._los = None
        self._sc = None

    # warning level contributed by initialisation and by one distance
    def kwx_init(self, tol=1e-9):
        """-> (definite level, possible levels set) of the initial range checks"""
        P = self.P
        sure = 0
        maybe = set()
        if P['wn'] < 0.838 or P['wn'] > 210.0:
            sure = max(sure, 1)
        for h in P['hg']:
            if h < 1.0 or h > 1000.0:
                sure = max(sure, 1)
        for j in (0, 1):
            for a, b, up in ((abs(P['the'][j]), 0.2, True), (P['dl'][j], 0.1 * self.dls[j], False),
                             (P['dl'][j], 3.0 * self.dls[j], True)):
                hit = a > b if up else a < b
                near = abs(a - b) <= tol * max(abs(a), abs(b))
                if near:
                    maybe.add(3)
                elif hit:
                    sure = max(sure, 3)
        z = P['zgnd']
        if (P['ens'] < 250.0 or P['ens'] > 400.0 or P['gme'] < 75e-9 or P['gme'] > 250e-9
                or z.real <= abs(z.imag) or P['wn'] < 0.419 or P['wn'] > 420.0):
            sure = 4
        for h in P['hg']:
            if h < 0.5 or h > 3000.0:
                sure = 4
        return sure, maybe

    def kwx_dist(self, d, tol=1e-9):
        sure = 0
        maybe = set()
        if d > 0:
            if d > 1000e3:
                sure = max(sure, 1)
            if abs(d - self.dmin) <= tol * max(d, self.dmin):
                maybe.add(3)
            elif d < self.dmin:
                sure = max(sure, 3)
            if d < 1e3 or d > 2000e3:
                sure = 4
        return sure, maybe

    def _los_setup(self):
        P, T = self.P, self.T
        d2 = self.dlsa
        a2 = self.aed + d2 * self.emd
        d0 = 1.908 * P['wn'] * P['he'][0] * P['he'][1]
        T.note(abs(self.aed) * 1e-3, 'aed sign')
        if self.aed >= 0:
            d0 = min(d0, 0.5 * self.dla)
            d1 = d0 + 0.25 * (self.dla - d0)
        else:
            if self.emd == 0:
                T.bad = 'emd zero'
                self._los = (0, 0, 0)
                return
            d1 = max(-self.aed / self.emd, 0.25 * self.dla)
        a1 = alos(d1, P, self.emd, self.aed, self.wis, T)
        wq = False
        k1 = k2 = 0.0
        T.cmp(d0, d1, 'd0 d1')
        T.cmp(d2, d1, 'd2 d1')
        if d0 < d1:
            a0 = alos(d0, P, self.emd, self.aed, self.wis, T)
            q = math.log(d2 / d0)
            den = (d2 - d0) * math.log(d1 / d0) - (d1 - d0) * q
            num = (d2 - d0) * (a1 - a0) - (d1 - d0) * (a2 - a0)
            if den == 0:
                T.bad = 'fit singular'
                den = float('nan')
            k2 = max(0.0, num / den)
            if self.aed < 0:
                T.note(abs(num) / (abs((d2 - d0) * a1) + abs((d2 - d0) * a0) + abs((d1 - d0) * a2) + 1e-300), 'k2 zero')
            wq = self.aed >= 0 or k2 > 0
            if wq:
                k1 = (a2 - a0 - k2 * q) / (d2 - d0)
                T.note(abs(a2 - a0 - k2 * q) / (abs(a2) + abs(a0) + abs(k2 * q) + 1e-300), 'k1 sign')
                if k1 < 0:
                    k1 = 0.0
                    k2 = max(a2 - a0, 0.0) / q
                    T.note(abs(a2 - a0) / (abs(a2) + abs(a0) + 1e-300), 'k2 zero')
                    if k2 == 0:
                        k1 = self.emd
        if not wq:
            k1 = max(a2 - a1, 0.0) / (d2 - d1)
            T.note(abs(a2 - a1) / (abs(a2) + abs(a1) + 1e-300), 'k1 zero')
            k2 = 0.0
            if k1 == 0:
                k1 = self.emd
        self._los = (a2 - k1 * d2 - k2 * math.log(d2), k1, k2)

    def _scat_setup(self):
        P, T = self.P, self.T
        sc = Scat(P, T)
        d5 = self.dla + 200e3
        d6 = d5 + 200e3
        a6 = sc.at(d6)
        a5 = sc.at(d5)
        T.cmp(a5, 1000.0, 'scatter off')
        if a5 < 1000:
            ems = (a6 - a5) / 200e3
            if self.emd == ems:
                T.bad = 'parallel curves'
                self._sc = (ems, self.aed, INF)
                return
            dx = max(self.dlsa, self.dla + 0.3 * self.xae * T.log(47.7 * P['wn'], 'freq'),
                     (a5 - self.aed - ems * d5) / (self.emd - ems))
            aes = (self.emd - ems) * dx + self.aed
        else:
            ems, aes, dx = self.emd, self.aed, 10e6
        self._sc = (ems, aes, dx)
        self.scatter_on = a5 < 1000

    @property
    def dx(self):
        if self._sc is None:
            self._scat_setup()
        return self._sc[2]

    def aref(self, d):
        """reference attenuation at d > 0"""
        if d < self.dlsa:
            if self._los is None:
                self._los_setup()
            e, k1, k2 = self._los
            a = e + k1 * d + k2 * math.log(d)
            self.regime = 'los'
        else:
            if self._sc is None:
                self._scat_setup()
            ems, aes, dx = self._sc
            if d > dx:
                a = aes + ems * d
                self.regime = 'scat'
            else:
                a = self.aed + self.emd * d
                self.regime = 'diff'
        if a != a:
            self.T.bad = self.T.bad or 'nan'
            return a
        return max(a, 0.0)


# ------------------------------------------------------------------ statistics
# columns: climate 1..7; rows in the order of the published tables
CLIM = {
    'v': ((-9.67, 12.7, 144.9e3, 190.3e3, 133.8e3), (-0.62, 9.19, 228.9e3, 205.2e3, 143.6e3),
          (1.26, 15.5, 262.6e3, 185.2e3, 99.8e3), (-9.21, 9.05, 84.1e3, 101.1e3, 98.6e3),
          (-0.62, 9.19, 228.9e3, 205.2e3, 143.6e3), (-0.39, 2.86, 141.7e3, 315.9e3, 167.4e3),
          (3.15, 857.9, 2222e3, 164.8e3, 116.3e3)),
    'm': ((2.13, 159.5, 762.2e3, 123.6e3, 94.5e3), (2.66, 7.67, 100.4e3, 172.5e3, 136.4e3),
          (6.11, 6.65, 138.2e3, 242.2e3, 178.6e3), (1.98, 13.11, 139.1e3, 132.7e3, 193.5e3),
          (2.68, 7.16, 93.7e3, 186.8e3, 133.5e3), (6.86, 10.38, 187.8e3, 169.6e3, 108.9e3),
          (8.51, 169.8, 609.8e3, 119.9e3, 106.6e3)),
    'p': ((2.11, 102.3, 636.9e3, 134.8e3, 95.6e3), (6.87, 15.53, 138.7e3, 143.7e3, 98.6e3),
          (10.08, 9.60, 165.3e3, 225.7e3, 129.7e3), (3.68, 159.3, 464.4e3, 93.1e3, 94.2e3),
          (4.75, 8.12, 93.2e3, 135.9e3, 113.4e3), (8.58, 13.97, 216.0e3, 152.0e3, 122.7e3),
          (8.43, 8.19, 136.2e3, 188.5e3, 122.9e3)),
    'd': ((1.224, 1.282), (0.801, 2.161), (1.380, 1.282), (1.000, 20.0), (1.224, 1.282), (1.518, 1.282), (1.518, 1.282)),
    'fm': ((1, 0, 0), (1, 0, 0), (1, 0, 0), (1, 0, 0), (0.92, 0.25, 1.77), (1, 0, 0), (1, 0, 0)),
    'fp': ((1, 0, 0), (0.93, 0.31, 2.00), (1, 0, 0), (0.93, 0.19, 1.79), (0.93, 0.31, 2.00), (1, 0, 0), (1, 0, 0)),
}


def curv(c1, c2, x1, x2, x3, de):
    t = (de / x1) ** 2
    return (c1 + c2 / (1.0 + ((de - x2) / x3) ** 2)) * t / (1.0 + t)


class Stats:
    """Quantiles of attenuation for one path, distance, climate and mode."""

    def __init__(self, dist, he, wn, dh, klim, mdvar):
        self.kwx = 0
        if not 1 <= klim <= 7:
            klim = 5
            self.kwx = 2
        k = klim - 1
        kdv = mdvar
        ws = kdv >= 20
        if ws:
            kdv -= 20
        wl = kdv >= 10
        if wl:
            kdv -= 10
        if kdv < 0 or kdv > 3:
            kdv = 0
            self.kwx = 2
        self.kdv, self.ws, self.wl, self.klim = kdv, ws, wl, klim
        q = math.log(0.133 * wn)
        f = CLIM['fm'][k]
        gm = f[0] + f[1] / ((f[2] * q) ** 2 + 1.0)
        f = CLIM['fp'][k]
        gp = f[0] + f[1] / ((f[2] * q) ** 2 + 1.0)
        dexa = math.sqrt(18e6 * he[0]) + math.sqrt(18e6 * he[1]) + (575.7e12 / wn) ** (1.0 / 3.0)
        self.dexa = dexa
        de = 130e3 * dist / dexa if dist < dexa else 130e3 + dist - dexa
        self.de = de
        self.vmd = curv(*CLIM['v'][k], de)
        self.sgtm = curv(*CLIM['m'][k], de) * gm
        self.sgtp = curv(*CLIM['p'][k], de) * gp
        csd, self.zd = CLIM['d'][k]
        self.sgtd = self.sgtp * csd
        self.tgtd = (self.sgtp - self.sgtd) * self.zd
        if wl:
            self.sgl = 0.0
        else:
            q = local_dh(dist, dh) * wn
            self.sgl = 10.0 * q / (q + 13.0)
        self.vs0 = 0.0 if ws else (5.0 + 3.0 * math.exp(-de / 100e3)) ** 2

    def deviates(self, zt, zl, zc):
        if self.kdv == 0:
            return zc, zc, zc
        if self.kdv == 1:
            return zt, zc, zc
        if self.kdv == 2:
            return zt, zt, zc
        return zt, zl, zc

    def quantile(self, aref, zt, zl, zc):
        """-> (attenuation, warning level of this request)"""
        zt, zl, zc = self.deviates(zt, zl, zc)
        kw = 1 if max(abs(zt), abs(zl), abs(zc)) > 3.10 else 0
        if zt < 0:
            sgt = self.sgtm
        elif zt <= self.zd:
            sgt = self.sgtp
        else:
            sgt = self.sgtd + self.tgtd / zt
        vs = self.vs0 + (sgt * zt) ** 2 / (7.8 + zc * zc) + (self.sgl * zl) ** 2 / (24.0 + zc * zc)
        if self.kdv == 0:
            yr = 0.0
            sgc = math.sqrt(sgt ** 2 + self.sgl ** 2 + vs)
        elif self.kdv == 1:
            yr = sgt * zt
            sgc = math.sqrt(self.sgl ** 2 + vs)
        elif self.kdv == 2:
            yr = math.sqrt(sgt ** 2 + self.sgl ** 2) * zt
            sgc = math.sqrt(vs)
        else:
            yr = sgt * zt + self.sgl * zl
            sgc = math.sqrt(vs)
        a = aref - self.vmd - yr - sgc * zc
        if a < 0:
            a = a * (29.0 - a) / (29.0 - 10.0 * a)
        return a, kw


def fspl(wn, dist):
    return 8.685890 * math.log(2.0 * wn * dist)


# ------------------------------------------------------------------ normal deviates
def q_true(z):
    return 0.5 * math.erfc(z / math.sqrt(2.0))


def qi_true(q):
    """exact inverse of q_true by bisection plus Newton"""
    if q == 0.5:
        return 0.0
    if q > 0.5:
        return -qi_true(1.0 - q) if q < 1.0 else -INF
    lo, hi = 0.0, 40.0
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if q_true(mid) > q:
            lo = mid
        else:
            hi = mid
        if hi - lo < 1e-15:
            break
    return 0.5 * (lo + hi)


def qi_hastings(q):
    x = 0.5 - q
    t = max(0.5 - abs(x), 0.000001)
    t = math.sqrt(-2.0 * math.log(t))
    v = t - ((0.010328 * t + 0.802853) * t + 2.515516698) / (((0.001308 * t + 0.189269) * t + 1.432788) * t + 1.0)
    return -v if x < 0 else v


# ------------------------------------------------------------------ whole predictions
def p2p(c, T=None):
    """c: dict n xi z hg wn ens gme zgnd -> (path parameters, Path, aref)"""
    T = T or Trk()
    g = profile(c['n'], c['xi'], c['z'], c['hg'], c['gme'], T)
    P = dict(g, hg=c['hg'], wn=c['wn'], ens=c['ens'], gme=c['gme'], zgnd=c['zgnd'])
    path = Path(P, True, T)
    a = path.aref(g['dist'])
    return g, path, a


def area(c, T=None):
    """c: dict kst hg dh wn ens gme zgnd -> (siting result, Path)"""
    T = T or Trk()
    g = siting(c['kst'], c['hg'], c['dh'], c['gme'])
    P = dict(g, hg=c['hg'], dh=c['dh'], wn=c['wn'], ens=c['ens'], gme=c['gme'], zgnd=c['zgnd'])
    return g, Path(P, False, T)
