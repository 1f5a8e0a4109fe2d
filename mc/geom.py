"""Detector geometries described independently of the code under test

A description lists, for each tile of each module, the position of its first
corner, its slow scan and fast scan step vectors (metres, x y z) and which part
of the module's array it is.
"""
import os

import numpy as np

H = 1.5 / np.sqrt(3)      # step between rows of hexagons / width of a hexagon

DET = {
    'AGIPD': dict(cls='AGIPD_1MGeometry', px=2e-4, shape=(16, 512, 128), tile=(64, 128), ntiles=8,
                  slices=[(64 * t, 0) for t in range(8)], cell=(1., 1.)),
    'LPD': dict(cls='LPD_1MGeometry', px=5e-4, shape=(16, 256, 256), tile=(32, 128), ntiles=16,
                slices=[(32 * (7 - t), 0) for t in range(8)] + [(32 * t, 128) for t in range(8)], cell=(1., 1.)),
    'DSSC': dict(cls='DSSC_1MGeometry', px=236e-6, shape=(16, 128, 512), tile=(128, 256), ntiles=2,
                 slices=[(0, 0), (0, 256)], cell=(1., H)),
}
ORIENT = [((sx, 0), (0, fy)) for sx in (1, -1) for fy in (1, -1)] + [((0, sy), (fx, 0)) for sy in (1, -1) for fx in (1, -1)]


class Geom:
    """A geometry object together with its independent description"""
    def __init__(self, det, tiles, make):
        self.det, self.d = det, DET[det]
        self.tiles = tiles            # [(module, tile, corner, ss, fs)]
        self._make = make
        self.obj = make()

    def fresh(self):
        return self._make()

    def tile_index(self, t):
        s0, f0 = self.d['slices'][t]
        h, w = self.d['tile']
        return slice(s0, s0 + h), slice(f0, f0 + w)

    # -- physical positions
    def coords(self, ss, fs):
        """Position of in-tile offsets (ss, fs) of every pixel: array data shape + (3,)"""
        out = np.full(self.d['shape'] + (3,), np.nan)
        h, w = self.d['tile']
        s = (np.arange(h) + float(ss))[:, None, None]
        f = np.broadcast_to((np.arange(w) + float(fs))[None, :, None], (h, w, 1)).copy()
        if self.det == 'DSSC':
            f[1::2] -= 0.5           # every other row of hexagons is half a step back
        for m, t, corner, ssv, fsv in self.tiles:
            a, b = self.tile_index(t)
            out[m, a, b] = np.asarray(corner) + s * np.asarray(ssv) + f * np.asarray(fsv)
        assert not np.isnan(out).any()
        return out

    def centres(self):
        return self.coords(2 / 3, .5) if self.det == 'DSSC' else self.coords(.5, .5)

    def corners(self):
        """Polygon round each pixel, in order"""
        if self.det == 'DSSC':
            at = [(2 / 3 + a, .5 + b) for a, b in [(-2 / 3, 0), (-1 / 3, .5), (1 / 3, .5), (2 / 3, 0), (1 / 3, -.5), (-1 / 3, -.5)]]
        else:
            at = [(0, 0), (1, 0), (1, 1), (0, 1)]
        return np.stack([self.coords(*c) for c in at], axis=-2)

    # -- snapped image
    def cells(self):
        """Grid cell (x, y), relative to the origin, in which each pixel is drawn"""
        out = np.full(self.d['shape'] + (2,), 10 ** 6)
        h, w = self.d['tile']
        px = np.array(self.d['cell']) * self.d['px']
        s, f = np.arange(h)[:, None, None], np.arange(w)[None, :, None]
        for m, t, corner, ssv, fsv in self.tiles:
            c = np.asarray(corner)[:2] / px
            assert (np.abs(c - np.floor(c) - .5) > 1e-3).all(), ("position on a rounding boundary", c)
            c = np.floor(c + .5).astype(int)
            sv, fv = [np.round(np.asarray(v)[:2] / px).astype(int) for v in (ssv, fsv)]
            assert abs(sv).sum() == 1 and abs(fv).sum() == 1 and sv @ fv == 0
            a, b = self.tile_index(t)
            # Lower edges of the cell: a step in the negative direction ends where it started
            out[m, a, b] = c + s * sv + f * fv + np.minimum(sv + fv, 0)
        return out


def lib():
    import karabo_data.geometry2 as g
    return g


def quadrants(det, name, unit_px=1.0):
    """Quadrant positions in pixels"""
    if det == 'AGIPD':
        base = [(-525, 625), (-550, -10), (520, -160), (542, 475)]
    elif det == 'LPD':
        base = [(22.75, 598.25), (-23, 16), (509, -32.25), (557, 550)]
    else:
        base = [(-552, 20), (-552, -530), (20, -530), (20, 20)]
    base = np.array(base, dtype=float)
    if name == 'frac':
        base += [(.25, -.25), (.4, .1), (-.3, .3), (.45, -.45)]
    elif name == 'shift':
        base += (1700.3, -2100.2)
    elif name == 'lone':
        base[2] += (300, -150.4)
    elif name == 'whole':
        base += (1500, -2500)
    elif name == 'up':
        base += (-1500, 2500.125)
    else:
        assert name == 'plain', name
    return base


def agipd(quads, unit=None, gaps=(2, 29)):
    """quads and gaps in pixels; given to the library in `unit` metres"""
    d = DET['AGIPD']
    px = d['px']
    tiles = []
    for m in range(16):
        q, k = divmod(m, 4)
        x = 1 if q < 2 else -1
        for t in range(8):
            cx = quads[q][0] + x * t * (64 + gaps[0])
            cy = quads[q][1] - k * (128 + gaps[1])
            tiles.append((m, t, np.array([cx * px, cy * px, 0]), np.array([x * px, 0, 0]), np.array([0, -x * px, 0])))

    def make():
        cls = lib().AGIPD_1MGeometry
        if unit is None:
            return cls.from_quad_positions([tuple(q) for q in quads], asic_gap=gaps[0], panel_gap=gaps[1])
        s = px / unit
        return cls.from_quad_positions([tuple(np.asarray(q) * s) for q in quads], asic_gap=gaps[0] * s, panel_gap=gaps[1] * s, unit=unit)
    return Geom('AGIPD', tiles, make)


def lpd(quads, unit=1e-3, gaps=None):
    d = DET['LPD']
    px = d['px']
    ga, gp = gaps or (4, 4)
    pw, ph = 256 + ga + gp, 256 + 7 * ga + gp
    tiles = []
    for m in range(16):
        q, k = divmod(m, 4)
        x0 = quads[q][0] + [-pw, -pw, 0, 0][k]
        y0 = quads[q][1] + [0, -ph, -ph, 0][k]
        for t in range(16):
            if t < 8:
                x, y = x0 - (128 + ga), y0 - t * (32 + ga)
            else:
                x, y = x0, y0 - (15 - t) * (32 + ga)
            tiles.append((m, t, np.array([(x - 128) * px, (y - 32) * px, 0]), np.array([0, px, 0]), np.array([px, 0, 0])))

    def make():
        s = px / unit
        kw = {} if gaps is None else dict(asic_gap=ga * s, panel_gap=gp * s)
        return lib().LPD_1MGeometry.from_quad_positions([tuple(np.asarray(q) * s) for q in quads], unit=unit, **kw)
    return Geom('LPD', tiles, make)


def xfel_file(det, path, quads, unit=1e-3, jitter=0.0):
    """Geometry from an EuXFEL HDF5 file; positions in it are made here"""
    import h5py
    d = DET[det]
    px = d['px']
    h, w = d['tile']
    cw, ch = px, px * d['cell'][1]
    tiles = []
    s = 1 / unit
    with h5py.File(path, 'w') as f:
        for m in range(16):
            q, k = divmod(m, 4)
            g = f.create_group('Q%d/M%d' % (q + 1, k + 1))
            j = (((m * 7) % 11) - 5) * jitter
            if det == 'LPD':
                mo = np.array([-(k < 2) * 264 + j, -(k in (1, 2)) * 288 - j])
            else:
                mo = np.array([j, 135 * k + 2 * j])
            g['Position'] = mo * (cw, ch) * s
            for t in range(d['ntiles']):
                if det == 'LPD':
                    to = np.array([-(t < 8) * 132. + j / 2, -36. * (t if t < 8 else 15 - t)])
                else:
                    right = (t == 1) == (q < 2)      # T1 is at high x in quadrants 1 and 2
                    to = np.array([0. if right else 259., j / 4])
                g['T%02d/Position' % (t + 1)] = to * (cw, ch) * s
                p = (np.asarray(quads[q]) + mo + to) * (cw, ch)
                if det == 'LPD':
                    ss, fs = (0, ch, 0), (cw, 0, 0)
                    c = p - (128 * cw, 32 * ch)
                elif q < 2:
                    ss, fs = (0, ch, 0), (-cw, 0, 0)
                    c = p + (256 * cw, 0)
                else:
                    ss, fs = (0, -ch, 0), (cw, 0, 0)
                    c = p + (0, 128 * ch)
                tiles.append((m, t, np.array([c[0], c[1], 0]), np.array(ss), np.array(fs)))

    def make():
        pos = [tuple(np.asarray(q) * (cw, ch) * s) for q in quads]
        return getattr(lib(), d['cls']).from_h5_file_and_quad_positions(path, pos, unit=unit)
    return Geom(det, tiles, make)


def fragments(det, k, frac=(0., 0.), origin=(-700, -800), tilt=0.0, z=0.0):
    """Tiles in all eight orientations, on a lattice, as explicit fragments"""
    d = DET[det]
    px = d['px']
    h, w = d['tile']
    cell = np.array(d['cell'])
    pitch = max(h, w) + 3
    n = 16 * d['ntiles']
    cols = {128: 12, 256: 16, 32: 6}[n]
    tiles = []
    for m in range(16):
        for t in range(d['ntiles']):
            i = m * d['ntiles'] + t
            j = (i * 5) % n                    # where on the lattice
            sv, fv = [np.array(v) for v in ORIENT[(i + k) % 8]]
            # Centre of the lattice cell, then back to the first corner
            c = np.array([j % cols, j // cols]) * pitch + pitch // 2 + origin
            corner = c - sv * (h // 2) - fv * (w // 2) + np.asarray(frac) * (1 + (i % 3)) / 3
            ss, fs, c3 = (np.append(v * cell * px, 0.) for v in (sv, fv, corner))
            if tilt:
                a = tilt * ((i % 5) - 2)
                rot = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
                ss, fs = rot @ ss, rot @ fs
                ss[2] = a * px / 3
                fs[2] = -a * px / 2
            c3[2] = z * (i % 7 - 3)
            tiles.append((m, t, c3, ss, fs))

    def make():
        g = lib()
        mods = [[] for _ in range(16)]
        for m, t, c, ss, fs in tiles:
            mods[m].append(g.GeometryFragment(c.copy(), ss.copy(), fs.copy(), h, w))
        return getattr(g, d['cls'])(mods)
    return Geom(det, tiles, make)


def build(spec, tmp):
    """spec: JSON-able description -> Geom"""
    det, kind = spec['det'], spec['kind']
    if kind == 'quad':
        q = quadrants(det, spec.get('pos', 'plain'))
        if det == 'AGIPD':
            return agipd(q, spec.get('unit'), tuple(spec.get('gaps') or (2, 29)))
        return lpd(q, spec.get('unit') or 1e-3, spec.get('gaps'))
    if kind == 'file':
        path = os.path.join(tmp, 'geo.h5')
        if os.path.exists(path):
            os.unlink(path)
        return xfel_file(det, path, quadrants(det, spec.get('pos', 'plain')), spec.get('unit') or 1e-3, spec.get('jitter', 0.))
    return fragments(det, spec['k'], spec.get('frac', (0., 0.)), spec.get('origin', (-700, -800)), spec.get('tilt', 0.), spec.get('z', 0.))
