"""C30: pictures of detectors"""
import itertools
import re

import numpy as np

from mc import geom as G

LEVEL = 'model_checking'
RULE = ("every detector x lattice of quadrant positions, geometry files and all eight tile orientations; for each, assembled "
        "images, layouts and comparisons drawn in both units and from both sides, on new and on given axes, in sequence on "
        "one geometry object. Values shown, the place of every tile, first pixel, label and arrow on the axes, and the "
        "direction of the axes are compared with an independent model. State: (geometry, drawing); transition: one drawing.")
CASE_TIMEOUT = 300
ASSUMPTIONS = ["images are approximate: each pixel is drawn within one pixel of its place",
               "comparisons are drawn for AGIPD geometries, in pixels or metres"]


def specs(tier):
    for pos in ['plain', 'frac', 'shift', 'lone', 'up']:
        yield dict(det='AGIPD', kind='quad', pos=pos)
        yield dict(det='LPD', kind='quad', pos=pos)
        yield dict(det='LPD', kind='file', pos=pos, jitter=.23 if pos != 'lone' else 0.)
        yield dict(det='DSSC', kind='file', pos=pos, jitter=.23 if pos != 'lone' else 0.)
    for det in G.DET:
        for k in range(8):
            for frac in ([(.3, -.4)] if tier != 'thorough' else [(0., 0.), (.3, -.4), (-.45, .2)]):
                yield dict(det=det, kind='frags', k=k, frac=frac, tilt=0., z=1e-3 if k % 3 else 0.,
                           origin=[(-700, -800), (50, 60), (-3000, -3000)][k % 3])


VIEWS = list(itertools.product(('px', 'm'), (True, False)))

# in a row on the same axes: every change of view and of unit, and none
GIVEN = [('px', True), ('px', True), ('m', True), ('m', False), ('px', False), ('px', False), ('m', True), ('px', False), ('m', False), ('px', True)]


def cases(tier):
    for i, s in enumerate(specs(tier)):
        yield dict(spec=s, do='image')
        yield dict(spec=s, do='layout')
    for pos in ('plain', 'frac', 'up'):
        for k in range(8):
            for scale in (1.0, 10.0, .5):
                yield dict(spec=dict(det='AGIPD', kind='quad', pos=pos), do='compare', k=k, scale=scale)


def polygons(ax):
    """Closed shapes drawn, in data coordinates"""
    for a in list(ax.patches) + list(ax.collections):
        if type(a).__name__ == 'PathCollection':
            continue           # markers
        paths = a.get_paths() if hasattr(a, 'get_paths') else [a.get_patch_transform().transform_path(a.get_path())]
        for p in paths:
            v = np.asarray(p.vertices)
            if len(v) > 1 and (v[0] == v[-1]).all():
                v = v[:-1]
            if len(v) >= 3:
                yield v


def tile_corners(g):
    """-> {(module, tile): 4 x 2 corners}"""
    h, w = g.d['tile']
    out = {}
    for m, t, c, ss, fs in g.tiles:
        c, ss, fs = np.asarray(c)[:2], np.asarray(ss)[:2], np.asarray(fs)[:2]
        out[m, t] = np.array([c, c + fs * w, c + fs * w + ss * h, c + ss * h])
    return out


def key(poly, tol):
    return tuple(sorted((round(float(x) / tol), round(float(y) / tol)) for x, y in poly))


def direction(ctx, ax, front, what):
    x0, x1 = ax.get_xlim()
    y0, y1 = ax.get_ylim()
    ctx.check((x0 > x1) == front, "%s: x axis from %s to %s", what, x0, x1)
    ctx.check(y0 < y1, "%s: y axis from %s to %s", what, y0, y1)


def match(ctx, polys, want, tol, what):
    """Every wanted polygon is among those drawn (corners within tol, in any order)"""
    left = list(polys)
    centres = np.array([p.mean(axis=0) for p in left]) if left else np.empty((0, 2))
    for k, w in want.items():
        near = np.flatnonzero(np.abs(centres - w.mean(axis=0)).max(axis=1) < tol) if len(left) else []
        ok = False
        for n in near:
            p = left[n]
            if p.shape == w.shape and np.abs(p[:, None] - w[None]).max(axis=2).min(axis=1).max() < tol and \
                    np.abs(p[:, None] - w[None]).max(axis=2).min(axis=0).max() < tol:
                ok = True
        ctx.check(ok, "%s: tile %d of module %d is not drawn at %r", what, k[1], k[0], w.tolist())


def run_layout(case, ctx, g, plt):
    corners = tile_corners(g)
    px = g.d['px']
    for i, (unit, front) in enumerate(VIEWS + VIEWS[:1]):
        what = "layout of %s in %s, %s" % (case['spec'], unit, 'front' if front else 'back')
        ax = g.obj.inspect(axis_units=unit, frontview=front) if i != 4 else g.obj.inspect()
        ctx.step()
        ctx.state(what)
        s = 1. if unit == 'm' else 1 / px
        polys = [p for p in polygons(ax) if len(p) == 4]
        tol = px * s * .01
        want = {k: v * s for k, v in corners.items()}
        match(ctx, polys, want, tol, what)
        ctx.check(len([p for p in polys if p.ptp(axis=0).min() > 10 * px * s]) == len(want), "%s: %d tiles drawn", what, len(polys))
        direction(ctx, ax, front, what)
        # first pixels
        h, w = g.d['tile']
        firsts = [(np.asarray(c)[:2] * s, (np.asarray(c) + np.asarray(fs) * w)[:2] * s)
                  for m, t, c, ss, fs in g.tiles if g.d['slices'][t] == (0, 0)]
        offs = [o for col in ax.collections for o in np.asarray(col.get_offsets()) if type(col).__name__ == 'PathCollection']
        ctx.check(len(offs) == len(firsts) and all(min(np.abs(o - f[0]).max() for o in offs) < tol for f in firsts),
                  "%s: first pixels are marked at %r..., are at %r...", what, offs[:2], [f[0] for f in firsts[:2]])
        segs = [np.asarray(sg) for col in ax.collections if hasattr(col, 'get_segments') for sg in col.get_segments() if len(sg) == 2]
        for a, b in firsts:
            ctx.check(any(np.abs(sg - [a, b]).max() < tol or np.abs(sg - [b, a]).max() < tol for sg in segs),
                      "%s: no line from %r to %r along the first row", what, a, b)
        labels(ctx, ax, want, what, s * px)
        ctx.check(ax.get_xlabel() == ax.get_ylabel() == ('metres' if unit == 'm' else 'pixels'), "%s: axes are labelled %r, %r", what, ax.get_xlabel(), ax.get_ylabel())
        plt.close('all')
        ctx.eval((case['spec']['det'], 'layout', unit, front))
    for bad in ('mm', '', None, 'pixels'):
        try:
            g.obj.inspect(axis_units=bad)
        except Exception:
            pass
        else:
            ctx.fail("layout can be drawn in %r" % bad)
    plt.close('all')


def labels(ctx, ax, want, what, px):
    seen = set()
    for t in ax.texts:
        txt, (x, y) = t.get_text(), t.get_position()
        m = re.match(r'Q(\d)M(\d)$', txt)
        n = re.match(r'T(\d+)$', txt)
        if m:
            mod = (int(m.group(1)) - 1) * 4 + int(m.group(2)) - 1
            ps = [v for k, v in want.items() if k[0] == mod]
        elif n:
            mod = None
            ps = [v for k, v in want.items() if k[1] == int(n.group(1)) - 1]
        else:
            continue
        ok = [i for i, v in enumerate(ps) if (v.min(axis=0) - px <= (x, y)).all() and (v.max(axis=0) + px >= (x, y)).all()]
        ctx.check(ok, "%s: label %s is at %r", what, txt, (x, y))
        ctx.check((txt, ok[0]) not in seen, "%s: label %s is repeated", what, txt)
        seen.add((txt, ok[0]))
    names = {t for t, _ in seen}
    ctx.check({'Q%dM%d' % (q, m) for q in range(1, 5) for m in range(1, 5)} <= names, "%s: modules labelled are %s", what, sorted(names))


def run_image(case, ctx, g, plt):
    d = g.d
    px = d['px']
    h, w = d['tile']
    cells = g.cells()
    shape = d['shape']
    data = ((np.arange(int(np.prod(shape))) * 7) % 100003 + 1).astype('f4').reshape(shape)
    data[3] = np.nan
    shown = {}
    given = plt.figure().add_subplot(1, 1, 1)
    for i, (unit, front) in enumerate(VIEWS + VIEWS[:1] + GIVEN):
        what = "image of %s in %s, %s%s" % (case['spec'], unit, 'front' if front else 'back', ', given axes' if i > 4 else '')
        kw = dict(axis_units=unit, frontview=front) if i != 4 else {}
        if i > 4:
            kw.update(ax=given, vmin=5, vmax=900, cmap='gray')
        elif i == 2:
            kw.update(colorbar=False, figsize=(3, 4))
        was = data.copy()
        ax = g.obj.plot_data_fast(data, **kw)
        ctx.step()
        ctx.state(what)
        ctx.check(np.array_equal(data, was, equal_nan=True), "%s: data was modified", what)
        ctx.check(i <= 4 or ax is given, "%s: drawn on other axes", what)
        im = ax.images[-1]
        arr = np.ma.filled(np.ma.asarray(im.get_array(), dtype='f8'), np.nan)
        # where the picture puts each pixel
        x0, x1, y0, y1 = im.get_extent()
        ny, nx = arr.shape
        sx, sy = (1., 1.) if unit == 'px' else (px * d['cell'][0], px * d['cell'][1])
        cx, cy = (cells[..., 0] + .5) * sx, (cells[..., 1] + .5) * sy
        col = np.floor((cx - x0) / (x1 - x0) * nx).astype(int)
        row = np.floor((cy - y0) / (y1 - y0) * ny).astype(int)
        if im.origin == 'upper':
            row = ny - 1 - row
        ctx.check(col.min() >= 0 and row.min() >= 0 and col.max() < nx and row.max() < ny, "%s: picture from %s to %s, %s to %s leaves out pixels", what, x0, x1, y0, y1)
        # (drawn within a pixel of its place: one of the neighbours is right)
        best = np.zeros(data.shape, dtype=bool)
        for dx, dy in itertools.product((-1, 0, 1), repeat=2):
            a = arr[np.clip(row + dy, 0, ny - 1), np.clip(col + dx, 0, nx - 1)]
            best = best | (a == data) | ((a != a) & (data != data))
        ctx.check(best.all(), "%s: %d pixels are not shown within a pixel of their place", what, (~np.asarray(best)).sum())
        # each value as often as there are pixels
        a, b = np.sort(arr[arr == arr]), np.sort(data[data == data])
        ctx.check(a.shape == b.shape and (a == b).all(), "%s: %d values shown for %d pixels", what, a.size, b.size)
        direction(ctx, ax, front, what)
        lim = sorted(ax.get_xlim()) + sorted(ax.get_ylim())
        ctx.check(lim[0] <= cx.min() + sx and lim[1] >= cx.max() - sx and lim[2] <= cy.min() + sy and lim[3] >= cy.max() - sy, "%s: axes %r leave out pixels", what, lim)
        # pixels have their true proportions
        asp = ax.get_aspect()
        asp = {'equal': 1., 'auto': None}.get(asp, asp)
        true = d['cell'][1] * px / sy / (px * d['cell'][0] / sx)
        ctx.check(asp is not None and abs(asp / true - 1) < .01, "%s: aspect is %r, pixels need %r", what, asp, true)
        ctx.check(ax.get_xlabel() == ax.get_ylabel() == ('metres' if unit == 'm' else 'pixels'), "%s: axes are labelled %r, %r", what, ax.get_xlabel(), ax.get_ylabel())
        if i > 4:
            ctx.check(im.get_clim() == (5, 900) and im.get_cmap().name == 'gray', "%s: colour options are ignored", what)
        segs = [np.asarray(sg) for c in ax.collections if hasattr(c, 'get_segments') for sg in c.get_segments()]
        ctx.check(any(np.abs(sg[:, 1]).max() == 0 and sg[0, 0] * sg[-1, 0] < 0 for sg in segs) and
                  any(np.abs(sg[:, 0]).max() == 0 and sg[0, 1] * sg[-1, 1] < 0 for sg in segs), "%s: no cross at the centre", what)
        # (on axes which were given, later pictures are on top)
        ctx.check(len(ax.images) == (i - 4 if i > 4 else 1), "%s: %d pictures on the axes", what, len(ax.images))
        if (unit, front) in shown:
            ctx.check(np.array_equal(shown[unit, front], arr, equal_nan=True), "%s: differs from the one before", what)
        shown[unit, front] = arr
        if i <= 4:
            plt.close(ax.figure)
        ctx.eval((case['spec']['det'], 'image', unit, front, i > 4))
    for bad in ('mm', '', None):
        try:
            g.obj.plot_data_fast(data, axis_units=bad)
        except Exception:
            pass
        else:
            ctx.fail("image can be drawn in %r" % bad)


def run_compare(case, ctx, g, plt):
    """Some tiles of the other geometry are elsewhere"""
    from karabo_data.geometry2 import AGIPD_1MGeometry, GeometryFragment
    px = g.d['px']
    base = tile_corners(g)
    k = case['k']
    moved = {}
    mods = []
    for m, mod in enumerate(g.obj.modules):
        new = []
        for t, f in enumerate(mod):
            d, ss, fs = np.zeros(3), f.ss_vec, f.fs_vec
            if (m * 8 + t) % 8 <= k and (m + t) % (k + 2) == 0:
                d[:2] = [[7, 0], [0, -9], [-11, 6], [3, 12]][(m + t) % 4]
                if m % 3 == 0:      # turned as well
                    a = (t - 3.5) * .01
                    rot = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
                    ss, fs = rot @ ss, rot @ fs
                if m % 4 == 1:      # about the first corner only
                    d[:] = 0
                    fs = fs * 1.01
                d[2] = m % 2
                c1 = (f.corner_pos + d * px)[:2]
                moved[m, t] = {0: c1, 2: c1 + (ss * f.ss_pixels + fs * f.fs_pixels)[:2]}
            new.append(GeometryFragment(f.corner_pos + d * px, ss, fs, f.ss_pixels, f.fs_pixels))
        mods.append(new)
    other = AGIPD_1MGeometry(mods, filename='second')
    if k == 7:
        moved, other = {}, g.fresh()
    what = "comparison %s" % case
    ax = g.obj.compare(other, scale=case['scale'])
    ctx.step()
    ctx.state(what)
    # units are free; arrows and tiles use the same
    polys = list(polygons(ax))
    quads = [p for p in polys if len(p) == 4]
    for s in (1., 1 / px):
        tol = px * s * .01
        want = {key(v * s, tol * 20): v * s for v in base.values()}
        if sum(any(np.abs(p.mean(axis=0) - w.mean(axis=0)).max() < tol for p in quads) for w in want.values()) > 100:
            break
    match(ctx, quads, {kk: v * s for kk, v in base.items()}, tol, what)
    arrows = [p for p in polys if len(p) > 4 or p.ptp(axis=0).min() < 20 * px * s]
    left = [p for p in arrows]
    for (m, t), to in moved.items():
        for c in (0, 2):
            start = base[m, t][c] * s
            d = to[c] - base[m, t][c]
            if np.hypot(*d) < 1e-9 * px:
                continue
            end = start + d * s * case['scale']
            u = (end - start) / np.hypot(*(end - start))
            n = np.array([-u[1], u[0]])
            ok = []
            for i, p in enumerate(left):
                along, across = (p - start) @ u, (p - start) @ n
                # starts at the corner, leads to the new place (perhaps with its head beyond), symmetric about the line between
                length = np.hypot(*(end - start))
                if abs(along.min()) < tol and length - tol < along.max() < length + 30 * px * s and abs(across.max() + across.min()) < tol and across.max() < 40 * px * s:
                    ok.append(i)
            ctx.check(ok, "%s: no arrow from %r to %r for tile %d of module %d", what, start, end, t, m)
            left.pop(ok[0])
    ctx.check(not left, "%s: %d arrows more than corners which moved", what, len(left))
    # all of it is on the axes, and takes up most of them
    lim = np.array([sorted(ax.get_xlim()), sorted(ax.get_ylim())])
    allp = np.concatenate(polys)
    lo, hi = allp.min(axis=0), allp.max(axis=0)
    ctx.check((lim[:, 0] <= lo).all() and (lim[:, 1] >= hi).all(), "%s: axes %r leave out shapes from %r to %r", what, lim.tolist(), lo, hi)
    ctx.check(((hi - lo) > .3 * (lim[:, 1] - lim[:, 0])).all(), "%s: shapes from %r to %r are drawn on axes %r", what, lo, hi, lim.tolist())
    dlo, dhi = np.min([v.min(axis=0) for v in base.values()], axis=0) * s, np.max([v.max(axis=0) for v in base.values()], axis=0) * s
    ctx.check(((dhi - dlo) > .2 * (lim[:, 1] - lim[:, 0])).all() , "%s: detector from %r to %r is drawn on axes %r", what, dlo, dhi, lim.tolist())
    ctx.check('second' in ax.get_title() or k == 7, "%s: title is %r", what, ax.get_title())
    ctx.eval(('AGIPD', 'compare', k, case['scale']))
    plt.close('all')


def run_case(case, ctx):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    tmp = ctx.dir()
    g = G.build(case['spec'], tmp)
    ctx.sample(case)
    try:
        {'image': run_image, 'layout': run_layout, 'compare': run_compare}[case['do']](case, ctx, g, plt)
    finally:
        plt.close('all')
    ctx.trace()
    ctx.rmdir(tmp)
