"""Synthetic elevation models, written to scratch folders."""
import math
import os
import random

import numpy as np


def surface(kind, X, Y, rng):
    """elevations for cell centres X, Y (degrees)"""
    x = (X - X.min()) / max(X.max() - X.min(), 1e-12)
    y = (Y - Y.min()) / max(Y.max() - Y.min(), 1e-12)
    if kind == 'plane':
        a, b, c = rng.uniform(-800, 800), rng.uniform(-800, 800), rng.uniform(0, 900)
        return a * x + b * y + c
    if kind == 'east':
        return 1000 * x
    if kind == 'north':
        return 1000 * y
    if kind == 'waves':
        return 300 + 200 * np.sin(x * 40 + 1) + 120 * np.cos(y * 31)
    if kind == 'coast':
        # sea level on part of it
        return np.maximum(0, 200 * np.sin(x * 17 + 1) + 120 * np.cos(y * 13) - 40)
    if kind == 'sea':
        return np.zeros(X.shape)
    if kind == 'noise':
        return np.random.default_rng(rng.randrange(2 ** 32)).uniform(-200, 2500, X.shape)
    if kind == 'flat':
        return np.full(X.shape, float(rng.randint(-5, 900)))
    if kind == 'peaks':
        z = np.random.default_rng(rng.randrange(2 ** 32)).uniform(0, 20, X.shape)
        r = np.random.default_rng(rng.randrange(2 ** 32)).random(X.shape)
        return np.where(r > 0.97, 3000.0, z)
    raise ValueError(kind)


class Dem:
    def __init__(self, path, x0, y1, dx, dy, Z, nodata=None, compress=None):
        import rasterio
        from rasterio.transform import from_origin
        self.path, self.x0, self.y1, self.dx, self.dy = path, x0, y1, dx, dy
        self.Z = Z
        self.ny, self.nx = Z.shape
        with rasterio.open(path, 'w', driver='GTiff', height=self.ny, width=self.nx, count=1, dtype=Z.dtype.name, crs='EPSG:4326',
                           transform=from_origin(x0, y1, dx, dy), nodata=nodata) as o:
            o.write(Z, 1)
        self.Zf = Z.astype(float)

    @property
    def bounds(self):
        return self.x0, self.y1 - self.dy * self.ny, self.x0 + self.dx * self.nx, self.y1

    def at(self, x, y):
        """bilinear value at a point at least half a cell inside"""
        fc = (x - self.x0) / self.dx - 0.5
        fr = (self.y1 - y) / self.dy - 0.5
        c = min(max(int(math.floor(fc)), 0), self.nx - 2)
        r = min(max(int(math.floor(fr)), 0), self.ny - 2)
        u, v = fc - c, fr - r
        Z = self.Zf
        return (Z[r, c] * (1 - u) * (1 - v) + Z[r, c + 1] * u * (1 - v) + Z[r + 1, c] * (1 - u) * v + Z[r + 1, c + 1] * u * v)

    def centres(self):
        X = self.x0 + self.dx * (np.arange(self.nx) + 0.5)
        Y = self.y1 - self.dy * (np.arange(self.ny) + 0.5)
        return np.meshgrid(X, Y)


ODD = ('', ' of May', ' \u00e9t\u00e9 50%20+b', '.d,x')      # what an elevation file's name may end in


def vrt(path, d, nodata=None):
    """the same model as a virtual raster over two tiles, named next to path"""
    import rasterio
    from rasterio.transform import from_origin
    half = d.nx // 2
    gd = {'int16': 'Int16', 'float32': 'Float32', 'float64': 'Float64'}[d.Z.dtype.name]
    nd = '' if nodata is None else '<NoDataValue>%r</NoDataValue>' % nodata
    tiles, src = [], ''
    for i, (a, b) in enumerate(((0, half), (half, d.nx))):
        t = '%s_%d.tif' % (os.path.splitext(path)[0], i)
        Z = np.ascontiguousarray(d.Z[:, a:b])
        with rasterio.open(t, 'w', driver='GTiff', height=d.ny, width=b - a, count=1, dtype=Z.dtype.name, crs='EPSG:4326',
                           transform=from_origin(d.x0 + d.dx * a, d.y1, d.dx, d.dy), nodata=nodata) as o:
            o.write(Z, 1)
        tiles.append(t)
        src += ('<SimpleSource><SourceFilename relativeToVRT="1">%s</SourceFilename><SourceBand>1</SourceBand>'
                '<SrcRect xOff="0" yOff="0" xSize="%d" ySize="%d"/><DstRect xOff="%d" yOff="0" xSize="%d" ySize="%d"/></SimpleSource>'
                % (os.path.basename(t), b - a, d.ny, a, b - a, d.ny))
    with open(path, 'w') as f:
        f.write('<VRTDataset rasterXSize="%d" rasterYSize="%d"><SRS>EPSG:4326</SRS><GeoTransform>%r, %r, 0.0, %r, 0.0, %r</GeoTransform>'
                '<VRTRasterBand dataType="%s" band="1">%s%s</VRTRasterBand></VRTDataset>' % (d.nx, d.ny, d.x0, d.dx, d.y1, -d.dy, gd, nd, src))
    return [path] + tiles


def make(path, spec):
    """spec: x0 y1 dx dy nx ny kind dtype seed"""
    rng = random.Random(spec['seed'])
    X = spec['x0'] + spec['dx'] * (np.arange(spec['nx']) + 0.5)
    Y = spec['y1'] - spec['dy'] * (np.arange(spec['ny']) + 0.5)
    X, Y = np.meshgrid(X, Y)
    Z = surface(spec['kind'], X, Y, rng)
    if spec['dtype'] == 'int16':
        Z = np.rint(Z)
    return Dem(path, spec['x0'], spec['y1'], spec['dx'], spec['dy'], Z.astype(spec['dtype']), spec.get('nodata'))
