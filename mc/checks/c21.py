"""C21: pixel positions"""
import itertools

import numpy as np

from mc import geom as G
from mc.h5 import spoil

LEVEL = 'model_checking'
RULE = ("geometries: every detector x lattice of quadrant positions x units (pixels, mm, m, inches) x gaps, geometry "
        "files in several units, and tiles in all eight orientations with and without tilt and z offsets; for each, all "
        "sequences of two views and every pixel of every tile in each view, compared with an independent model; data "
        "coordinates as all pixel centres and a lattice of sub-pixel positions in every integer and float type. "
        "Interpolated assembly against the snapped one, and of linear functions of the position off the grid. State: "
        "distinct (geometry, view history); transition: one view of a geometry.")
CASE_TIMEOUT = 600
ASSUMPTIONS = ["data coordinates lie inside the module (0 up to, not including, its size)",
               "gaps are given explicitly when quadrant positions are given in other units than the default",
               "conversion of data coordinates is offered for AGIPD and LPD only",
               "interpolated assembly is offered for AGIPD only"]
VIEWS = ['centre', 'corner', 'dist', 'distneg', 'coords', 'points', 'image']


def specs(tier):
    for pos in ['plain', 'frac', 'shift', 'lone', 'up']:
        yield dict(det='AGIPD', kind='quad', pos=pos)
        yield dict(det='LPD', kind='quad', pos=pos)
        yield dict(det='LPD', kind='file', pos=pos, jitter=.23)
        yield dict(det='DSSC', kind='file', pos=pos, jitter=.23)
    for unit in [1e-3, 1.0, 0.0254]:
        yield dict(det='AGIPD', kind='quad', pos='frac', unit=unit)
        yield dict(det='LPD', kind='quad', pos='frac', unit=unit, gaps=[1.41, 3.13])
        yield dict(det='DSSC', kind='file', pos='frac', unit=unit, jitter=.23)
        yield dict(det='LPD', kind='file', pos='frac', unit=unit, jitter=.23)
    yield dict(det='AGIPD', kind='quad', pos='plain', gaps=[0, 0])
    yield dict(det='AGIPD', kind='quad', pos='plain', gaps=[1.31, 20.23])
    yield dict(det='LPD', kind='quad', pos='plain', gaps=[0, 0])
    for det in G.DET:
        for k in range(8):
            for tilt in ([0.02] if tier == 'quick' else [0., 1e-4, 0.02, 0.3]):
                yield dict(det=det, kind='frags', k=k, frac=(.3, -.4), tilt=tilt if k % 2 else 0., z=2e-3 if k % 3 else 0.,
                           origin=[(-700, -800), (50, 60), (-9000, -9000)][k % 3])


def cases(tier):
    big = tier == 'thorough'
    n = len(VIEWS)
    for i, s in enumerate(specs(tier)):
        yield dict(spec=s, views=[(i + j * [1, 2, 3][i % 3]) % n for j in range(n)])
    pairs = [v for a, b in itertools.product(range(n), repeat=2) for v in (a, b)]
    for s in [dict(det='AGIPD', kind='quad', pos='frac'), dict(det='LPD', kind='quad', pos='frac'),
              dict(det='DSSC', kind='file', pos='frac')]:
        if big:
            for part in range(7):
                yield dict(spec=s, views=pairs[part * 14:part * 14 + 14])
        else:
            yield dict(spec=s, views=[0, 2, 0, 3, 1, 4, 2, 4, 0, 5, 6, 1, 6, 4])
    for k in range(8 if big else 2):
        yield dict(kind='interp', spec=dict(det='AGIPD', kind='frags', k=k, origin=[(-700, -800), (50, 60)][k % 2]), dtype=['f4', 'f8', 'u2', 'i4'][k % 4])
    yield dict(kind='interp', spec=dict(det='AGIPD', kind='quad', pos='plain'), dtype='f4')
    if big:
        yield dict(kind='interp', spec=dict(det='AGIPD', kind='quad', pos='plain', unit=1e-3), dtype='u2')
        yield dict(kind='interp', spec=dict(det='AGIPD', kind='quad', pos='whole'), dtype='f8')
    for k in range(4 if big else 1):
        yield dict(kind='linear', spec=dict(det='AGIPD', kind='frags', k=2 * k, frac=(.3, -.4), tilt=.01))
    yield dict(kind='linear', spec=dict(det='AGIPD', kind='quad', pos='frac'))


def close(ctx, got, exp, tol, what):
    got = np.asarray(got)
    ctx.check(got.shape == exp.shape, "%s: shape %r instead of %r", what, got.shape, exp.shape)
    err = np.abs(got - exp)
    bad = ~(err <= tol)
    if bad.any():
        at = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.fail("%s: %d of %d coordinates are wrong, first at %r: %r instead of %r" % (what, bad.sum(), bad.size, at, got[at], exp[at]))


def area(poly):
    x, y = poly[..., 0], poly[..., 1]
    return np.abs((x * np.roll(y, -1, -1) - y * np.roll(x, -1, -1)).sum(-1)) / 2


def check_corners(ctx, g, dist, neg, what, exp):
    sh = g.d['shape']
    n = exp.shape[-2]
    ctx.check(dist.shape == (sh[0] * sh[1], sh[2], n, 3), "%s: distortion array of shape %r", what, dist.shape)
    got = dist.reshape(sh + (n, 3))[..., ::-1].astype('f8')       # z, y, x -> x, y, z
    if not neg:
        ctx.check(abs(got[..., 0].min()) < 1e-6 and abs(got[..., 1].min()) < 1e-6, "%s: smallest x, y are %r, %r instead of 0", what, got[..., 0].min(), got[..., 1].min())
        exp = exp.copy()
        for i in (0, 1):
            exp[..., i] -= exp[..., i].min()
    tol = 3e-7 * max(1., np.abs(exp).max() * 3)
    # The same corners, starting anywhere and going round either way
    for rev in (False, True):
        for k in range(n):
            e = np.roll(exp[..., ::-1, :] if rev else exp, k, axis=-2)
            if (np.abs(got[0, 0, 0] - e[0, 0, 0]) <= tol).all():
                return close(ctx, got, e, tol, what)
    ctx.fail("%s: the first pixel's corners are %r, expected %r" % (what, got[0, 0, 0].tolist(), exp[0, 0, 0].tolist()))


def run_views(case, ctx):
    tmp = ctx.dir()
    g = G.build(case['spec'], tmp)
    d, obj = g.d, g.obj
    spec = ' '.join('%s=%s' % kv for kv in case['spec'].items())
    centres, corners = g.centres(), g.corners()
    sh = d['shape']
    tol = 1e-9
    hist = []
    for i, v in enumerate(case['views']):
        v = VIEWS[v]
        hist.append(v)
        ctx.state(spec, tuple(hist))
        ctx.step()
        ctx.trace()
        ctx.eval((case['spec']['det'], case['spec']['kind'], v))
        what = "%s, %s" % (spec, '+'.join(hist[-3:]))
        if v == 'centre':
            got = obj.get_pixel_positions()
            close(ctx, got, centres, tol, what)
            spoil(got)
        elif v == 'corner':
            got = obj.get_pixel_positions(centre=False)
            close(ctx, got, g.coords(0, 0), tol, what)
            spoil(got)
        elif v in ('dist', 'distneg'):
            if v == 'dist':
                dist = obj.to_distortion_array() if i % 2 else obj.to_distortion_array(allow_negative_xy=False)
            else:
                dist = obj.to_distortion_array(allow_negative_xy=True)
            check_corners(ctx, g, dist, v == 'distneg', what, corners)
            spoil(dist)
        elif v in ('coords', 'points') and g.det != 'DSSC':
            if v == 'coords':
                m, s, f = np.meshgrid(*[np.arange(n) for n in sh], indexing='ij')
                dt = ['f8', 'f4'][i % 2]
                mt = ['i8', 'u1', 'i1', 'u8', 'u2', 'i4', 'i2', 'u4'][(i + len(spec)) % 8]
                got = obj.data_coords_to_positions(m.astype(mt), (s + .5).astype(dt), (f + .5).astype(dt))
                close(ctx, got, centres, tol, what + ' module numbers %s, coordinates %s' % (mt, dt))
                continue
            h, w = d['tile']
            fr = np.array([0, .25, .5, .75, 1 - 1e-9])
            for mt in ['i8', 'u1', 'i1', 'u8', 'u2', 'i4', 'i2', 'u4']:
                rows = []
                for m, t, corner, ssv, fsv in g.tiles:
                    s0, f0 = d['slices'][t]
                    for si, fi in itertools.product((0, h - 1), (0, w - 1)):
                        for a, b in itertools.product(fr, fr):
                            rows.append((m, s0 + si + a, f0 + fi + b) + tuple(corner + (si + a) * ssv + (fi + b) * fsv))
                rows = np.array(rows)
                n = len(rows)
                if mt == 'i8':
                    shapes = [(n,), (n // 4, 4), (4, n // 4)]
                    # The same points in another order
                    rng = (np.arange(n) * 7919) % n
                    assert len(set(rng)) == n
                    rows = rows[rng]
                else:
                    shapes = [(n,)]
                for shp in shapes:
                    got = obj.data_coords_to_positions(rows[:, 0].astype(mt).reshape(shp), rows[:, 1].reshape(shp), rows[:, 2].reshape(shp))
                    close(ctx, got, rows[:, 3:].reshape(shp + (3,)), tol, what + ' module numbers %s, points %r' % (mt, shp))
                one = obj.data_coords_to_positions(rows[:1, 0].astype(mt), rows[:1, 1], rows[:1, 2])
                close(ctx, one, rows[:1, 3:], tol, what + ' module numbers %s, one point' % mt)
        elif v == 'image' and not case['spec'].get('tilt'):
            cells = None
            try:
                cells = g.cells()
            except AssertionError:
                continue               # rounding boundary: C20 decides assembly
            img, c = obj.position_modules_fast(np.ones(sh, 'f4'))
            ctx.check(np.nansum(img) == np.prod(sh), "%s: %r pixels drawn", what, np.nansum(img))
    ctx.rmdir(tmp)


def run_interp(case, ctx):
    tmp = ctx.dir()
    g = G.build(case['spec'], tmp)
    spec = ' '.join('%s=%s' % kv for kv in case['spec'].items())
    sh = g.d['shape']
    ctx.state(spec, case['kind'])
    ctx.step()
    ctx.trace()
    ctx.eval((spec, case['kind']))
    if case['kind'] == 'interp':
        what = "%s, interpolated %s" % (spec, case['dtype'])
        a = np.arange(np.prod(sh), dtype='i8')
        data = ((a * 7919) % 4001 + 1).astype(case['dtype']).reshape(sh)
        before = data.copy()
        img, centre = g.obj.position_modules_interpolate(data)
        ctx.check((data == before).all(), "%s: data was modified", what)
        cells = g.cells()
        y, x = cells[..., 1] + centre[0], cells[..., 0] + centre[1]
        ctx.check(img.ndim == 2 and y.min() >= 0 and x.min() >= 0 and y.max() < img.shape[0] and x.max() < img.shape[1], "%s: image of shape %r, centre %r", what, img.shape, centre)
        got = img[y, x]
        bad = ~(np.abs(got - data) < .01)
        if bad.any():
            at = tuple(int(v) for v in np.argwhere(bad)[0])
            ctx.fail("%s: %d of %d pixels are wrong, first %r: %r instead of %r" % (what, bad.sum(), bad.size, at, got[at], data[at]))
        img[y, x] = np.nan
        ctx.check(np.isnan(img).all(), "%s: %d image pixels outside the tiles have data", what, (~np.isnan(img)).sum())
    else:
        # A linear function of the position is reproduced inside tiles
        what = "%s, interpolated linear function" % spec
        px = g.d['px']
        c = g.centres() / px

        def f(x, y):
            return 3 * x - 2 * y + 5000
        img, centre = g.obj.position_modules_interpolate(f(c[..., 0], c[..., 1]))
        yy, xx = np.indices(img.shape)
        exp = f(xx + .5 - centre[1], yy + .5 - centre[0])
        inside = np.zeros(img.shape, bool)
        h, w = g.d['tile']
        for m, t, corner, ssv, fsv in g.tiles:
            rot = np.stack([ssv[:2], fsv[:2]], -1) / px
            inv = np.linalg.inv(rot)
            c0 = corner[:2] / px
            far = c0 + rot @ (h, w)
            lo = np.floor(np.minimum.reduce([c0, far, c0 + rot @ (h, 0), c0 + rot @ (0, w)])).astype(int) - 1
            hi = lo + max(h, w) + 4
            X, Y = np.meshgrid(np.arange(lo[0], hi[0]), np.arange(lo[1], hi[1]), indexing='ij')
            sf = np.tensordot(inv, np.stack([X + .5 - c0[0], Y + .5 - c0[1]]), 1)
            ok = (sf[0] > 10) & (sf[0] < h - 10) & (sf[1] > 10) & (sf[1] < w - 10)
            inside[(Y + centre[0])[ok], (X + centre[1])[ok]] = True
        ctx.check(inside.sum() > 4e5, "inside: %d", inside.sum())
        bad = inside & ~(np.abs(img - exp) < .02)
        if bad.any():
            at = tuple(int(v) for v in np.argwhere(bad)[0])
            ctx.fail("%s: %d of %d pixels inside tiles are wrong, first %r: %r instead of %r" % (what, bad.sum(), inside.sum(), at, img[at], exp[at]))
    ctx.rmdir(tmp)


def run_case(case, ctx):
    if case.get('kind'):
        run_interp(case, ctx)
    else:
        run_views(case, ctx)
