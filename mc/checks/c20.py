"""C20: assembling detector images"""
import itertools

import numpy as np

from mc import geom as G

LEVEL = 'model_checking'
RULE = ("geometries: every detector x lattice of quadrant positions (whole and fractional pixels, one quadrant apart, "
        "origin outside the image) x units x gaps, geometry files, and tiles in every one of the eight orientations; on "
        "each, sequences of assemblies from an alphabet of dtypes, leading dimensions, memory layouts and fresh, new, "
        "reused and stale outputs (all ordered pairs; all triples in thorough runs on one geometry per detector). Every "
        "pixel of every image is compared with an independent model. State: distinct (geometry, operation history); "
        "transition: one assembly.")
CASE_TIMEOUT = 300
ASSUMPTIONS = ["tiles are aligned with the pixel grid to within rounding and do not overlap",
               "no tile lies exactly half way between two pixels"]
OPS = ['f4', 'f8', 'u2', 'i4', 'bool', 'c8', 'dims2', 'dims12', 'strided', 'out_new', 'out_stale', 'out_again', 'out_wide', 'bad', 'missing', 'again_missing', 'again_zero']


def specs(tier):
    big = tier == 'thorough'
    for pos in ['plain', 'frac', 'shift', 'lone', 'up']:
        yield dict(det='AGIPD', kind='quad', pos=pos)
        yield dict(det='LPD', kind='quad', pos=pos)
        yield dict(det='LPD', kind='file', pos=pos)
        yield dict(det='DSSC', kind='file', pos=pos)
    for unit in [1e-3, 1.0]:
        yield dict(det='AGIPD', kind='quad', pos='frac', unit=unit)
        yield dict(det='LPD', kind='quad', pos='frac', unit=unit)
        yield dict(det='DSSC', kind='file', pos='frac', unit=unit, jitter=.23)
        yield dict(det='LPD', kind='file', pos='frac', unit=unit, jitter=.23)
    yield dict(det='AGIPD', kind='quad', pos='plain', gaps=[0, 0])
    yield dict(det='AGIPD', kind='quad', pos='plain', gaps=[1.31, 20.23])
    yield dict(det='LPD', kind='quad', pos='plain', gaps=[0, 0])
    yield dict(det='LPD', kind='quad', pos='plain', gaps=[1.41, 3.13])
    for det in G.DET:
        for k in range(8):
            for frac in ([(0., 0.), (.3, -.4)] if not big else [(0., 0.), (.3, -.4), (-.45, .2), (.49, .49)]):
                yield dict(det=det, kind='frags', k=k, frac=frac, tilt=1e-4 if k % 2 else 0., z=1e-3 if k % 3 else 0.,
                           origin=[(-700, -800), (50, 60), (-9000, -9000)][k % 3])


def cases(tier):
    n = len(OPS)
    for pos in ('plain', 'frac', 'shift', 'lone', 'up'):
        for unit in (1e-3, 1.0, .5e-3):
            for jit in (0., .23):
                yield dict(kind='old', pos=pos, unit=unit, jitter=jit)
    for i, s in enumerate(specs(tier)):
        # every operation once, in an order depending on the case
        step = [1, 2, 4][i % 3]      # no common factor with n
        yield dict(spec=s, ops=[(i + j * step) % n for j in range(n)])
    for det, s in [('AGIPD', dict(det='AGIPD', kind='quad', pos='frac')), ('LPD', dict(det='LPD', kind='quad', pos='frac')),
                   ('DSSC', dict(det='DSSC', kind='file', pos='frac'))]:
        for a in range(n):
            seq = []
            for b in range(n):
                if tier == 'thorough':
                    for c in range(n):
                        seq += [a, b, c]
                    yield dict(spec=s, ops=seq)
                    seq = []
                else:
                    seq += [a, b]
            if seq:
                yield dict(spec=s, ops=seq)


def blank(shape, dtype):
    return np.full(shape, np.nan if np.dtype(dtype).kind in 'fc' else 0, dtype=dtype)


class Image:
    """Independent model of the assembled image"""
    def __init__(self, g):
        cells = g.cells()
        self.x, self.y = cells[..., 0], cells[..., 1]
        self.key = self.y.astype(np.int64) * (1 << 20) + self.x
        assert len(np.unique(self.key)) == self.key.size, "overlapping tiles"

    def check(self, ctx, data, img, centre, what, background=None):
        """background: value of cells without a pixel (array), None: blank"""
        centre = np.asarray(centre)
        ctx.check(centre.shape == (2,) and np.issubdtype(centre.dtype, np.integer), "%s: centre is %r", what, centre)
        y, x = self.y + centre[0], self.x + centre[1]
        ctx.check(img.ndim == data.ndim - 1 and img.shape[:-2] == data.shape[:-3], "%s: image of shape %r for data of shape %r", what, img.shape, data.shape)
        ctx.check(y.min() >= 0 and x.min() >= 0 and y.max() < img.shape[-2] and x.max() < img.shape[-1],
                  "%s: with centre %r, pixels belong at rows %d..%d, columns %d..%d of an image of shape %r", what, centre, y.min(), y.max(), x.min(), x.max(), img.shape)
        exp = blank(img.shape, img.dtype) if background is None else np.broadcast_to(background, img.shape).copy()
        exp[..., y, x] = data
        same = (img == exp) | ((img != img) & (exp != exp))
        if not same.all():
            at = tuple(int(v) for v in np.argwhere(~same)[0])
            ctx.fail("%s: %d of %d image pixels are wrong, first at %r: %r instead of %r" % (
                what, (~same).sum(), same.size, at, img[at], exp[at]))


def values(shape, dtype, salt):
    n = int(np.prod(shape))
    a = np.arange(n, dtype=np.int64) * 7 + salt * 1000003
    dt = np.dtype(dtype)
    if dt.kind == 'b':
        a = (a >> 3) % 3 == 0
    elif dt.kind in 'ui':
        a = a % min(np.iinfo(dt).max, 1 << 30)
    else:
        a = (a % (1 << 24)) + 1
    return a.astype(dt).reshape(shape)


def run_old(case, ctx):
    """The older LPD geometry, in which positions increase down and to the right"""
    import h5py
    from karabo_data.geometry import LPDGeometry
    tmp = ctx.dir()
    unit = case['unit']
    what = str(case)
    ctx.sample(case)
    G.build(dict(det='LPD', kind='file', pos=case['pos'], unit=unit, jitter=case['jitter']), tmp)
    quads = -G.quadrants('LPD', case['pos']) * 5e-4 / unit
    with h5py.File(tmp + '/geo.h5', 'r') as f:
        obj = LPDGeometry.from_h5_file_and_quad_positions(f, [tuple(q) for q in quads], unit=unit)
        pos = np.array([[quads[m // 4] + f['Q%d/M%d/Position' % (m // 4 + 1, m % 4 + 1)][:] +
                         f['Q%d/M%d/T%02d/Position' % (m // 4 + 1, m % 4 + 1, t + 1)][:] for t in range(16)] for m in range(16)]) * unit
    for m in range(16):
        for t in range(16):
            off = obj.find_offset(('Q%d' % (m // 4 + 1), 'M%d' % (m % 4 + 1), 'T%02d' % (t + 1)))
            ctx.check(np.allclose(off, pos[m, t], rtol=1e-12, atol=1e-12), "%s: tile %d of module %d is at %r, recorded %r", what, t, m, off, pos[m, t])
    shape = (16, 256, 256)
    first = None
    for dims, dt in (((), 'f8'), ((2,), 'f8'), ((1, 2), 'f4'), ((), 'f4'), ((0,), 'f8')):
        d = (np.arange(int(np.prod(dims + shape)), dtype=np.int64) + 1).astype('f8').reshape(dims + shape).astype(dt)
        was = d.copy()
        img, centre = obj.position_all_modules(d)
        ctx.step()
        ctx.state(what, dims, dt)
        ctx.check((d == was).all(), "%s: data was modified", what)
        ctx.check(img.dtype == d.dtype and img.shape[:-2] == dims, "%s: image of %s %r for data of %s %r", what, img.dtype, img.shape, d.dtype, d.shape)
        centre = np.asarray(centre)
        exp = np.full(img.shape, np.nan, dtype=dt)
        green = np.zeros(img.shape[-2:], dtype=bool)
        for m in range(16):
            for t in range(16):
                a, b = [(32 * (7 - t), 0), (32 * (t - 8), 128)][t >= 8]
                tile = d[..., m, a:a + 32, b:b + 128]
                lo = np.floor(pos[m, t] / 5e-4 - 1e-6).astype(int)
                placed = False
                for dx, dy in itertools.product((0, 1), (0, 1)):
                    x, y = lo[0] + dx + centre[0], lo[1] + dy + centre[1]
                    if abs(lo[0] + dx - pos[m, t, 0] / 5e-4) > 1.00001 or abs(lo[1] + dy - pos[m, t, 1] / 5e-4) > 1.00001:
                        continue
                    if x < 0 or y < 0 or x + 128 > img.shape[-1] or y + 32 > img.shape[-2]:
                        continue
                    if np.array_equal(img[..., y:y + 32, x:x + 128], tile[..., ::-1, ::-1]):
                        ctx.check(not green[y:y + 32, x:x + 128].any() or not d.size, "%s: tiles overlap", what)
                        exp[..., y:y + 32, x:x + 128] = tile[..., ::-1, ::-1]
                        green[y:y + 32, x:x + 128] = True
                        placed = True
                        break
                ctx.check(placed, "%s: tile %d of module %d is not at %r from the centre (shape %r, %s data)", what, t + 1, m, pos[m, t] / 5e-4, d.shape, dt)
        ctx.check(np.array_equal(img, exp, equal_nan=True), "%s: %d pixels outside the tiles are not blank", what, (~((img == exp) | ((img != img) & (exp != exp)))).sum())
        if first is None:
            first = d, img.copy(), centre, green
        ctx.eval(('LPD', 'old', dt, len(dims)))
    d, img, centre, green = first
    again, c2 = obj.position_all_modules(d)
    ctx.check(np.array_equal(again, img, equal_nan=True) and (np.asarray(c2) == centre).all(), "%s: image depends on earlier use", what)
    if case['jitter']:
        fig = obj.plot_data(d)
        shown = np.ma.filled(np.ma.asarray(fig.axes[0].images[0].get_array(), dtype='f8'), np.nan)
        ctx.check(np.array_equal(shown, img, equal_nan=True), "%s: picture shows other values than the image", what)
        fig = obj.inspect()
        shown = np.asarray(fig.axes[0].images[0].get_array())
        ctx.check(shown.shape[:2] == green.shape and ((shown[..., 0] < 1) == green).all(), "%s: layout picture shows tiles elsewhere", what)
    ctx.trace()
    ctx.rmdir(tmp)


def run_case(case, ctx):
    if case.get('kind') == 'old':
        return run_old(case, ctx)
    tmp = ctx.dir()
    g = G.build(case['spec'], tmp)
    spec = ' '.join('%s=%s' % kv for kv in case['spec'].items())
    model = Image(g)
    shape = g.d['shape']
    obj = g.obj
    hist = []
    reused = {}
    kept = []
    for i, o in enumerate(case['ops']):
        op = OPS[o]
        hist.append(op)
        ctx.state(spec, tuple(hist))
        ctx.step()
        ctx.trace()
        what = "%s, after %s" % (spec, '+'.join(hist[-4:]))
        if op in ('f4', 'f8', 'u2', 'i4', 'bool', 'c8'):
            d = values(shape, op, i)
            before = d.copy()
            img, centre = obj.position_modules_fast(d)
            ctx.check((d == before).all(), "%s: data was modified", what)
            ctx.check(img.dtype == d.dtype, "%s: %s data gives %s image", what, d.dtype, img.dtype)
            model.check(ctx, d, img, centre, what)
            ctx.check(not np.shares_memory(img, d), "%s: image shares the data's memory", what)
            if len(kept) < 3:
                kept.append((img, img.copy(), what))
        elif op in ('dims2', 'dims12'):
            d = values(((2,) if op == 'dims2' else (1, 2)) + shape, 'f4', i)
            img, centre = obj.position_modules_fast(d)
            model.check(ctx, d, img, centre, what)
        elif op == 'missing':
            # modules without data, and single pixels without or with special values
            d = values(shape, 'f4', i)
            d[i % 16::3] = np.nan
            d[:, 5:9, 7] = np.nan
            d[:, 9, 1:] = np.inf
            d[:, 11] = 0
            d[:, 12] *= -1
            img, centre = obj.position_modules_fast(d)
            model.check(ctx, d, img, centre, what)
        elif op == 'strided':
            base = values((shape[2], shape[1], shape[0], 2), 'f4', i)
            d = base[..., 1].transpose(2, 1, 0)
            assert d.shape == shape
            img, centre = obj.position_modules_fast(d)
            model.check(ctx, d, img, centre, what)
        elif op in ('out_new', 'out_wide'):
            dt, ot = ('f4', 'f4') if op == 'out_new' else ('u2', 'f8')
            d = values(shape, dt, i)
            out = obj.output_array_for_position_fast(dtype=ot) if op == 'out_wide' else obj.output_array_for_position_fast()
            ctx.check(out.dtype == np.dtype(ot), "%s: output array has dtype %s", what, out.dtype)
            img, centre = obj.position_modules_fast(d, out=out)
            ctx.check(img is out, "%s: the output array is not returned", what)
            model.check(ctx, d, img, centre, what)
            reused[ot] = out
        elif op in ('out_again', 'again_missing', 'again_zero'):
            # Whatever was last assembled in the array is replaced
            d = values(shape, 'f4', i)
            if op == 'again_missing':
                d[i % 16::5] = np.nan
            elif op == 'again_zero':
                d[(i + 1) % 16::5] = 0
                d[i % 16::7, 3:60] = 0
            out = reused.get('f4')
            if out is None:
                out = reused['f4'] = obj.output_array_for_position_fast()
            img, centre = obj.position_modules_fast(d, out=out)
            ctx.check(img is out, "%s: the output array is not returned", what)
            model.check(ctx, d, img, centre, what)
        elif op == 'out_stale':
            d = values((2,) + shape, 'i4', i)
            out = obj.output_array_for_position_fast(extra_shape=(2,), dtype='i4')
            stale = values(out.shape, 'i4', 77)
            out[...] = stale
            img, centre = obj.position_modules_fast(d, out=out)
            ctx.check(img is out, "%s: the output array is not returned", what)
            model.check(ctx, d, img, centre, what, background=stale)
        elif op == 'bad':
            good = values(shape, 'f8', i)
            outs = [(good, obj.output_array_for_position_fast()),                       # f8 -> f4
                    (good[:15], None), (good[:, :-1], None), (good[..., :-1], None),
                    (good.swapaxes(1, 2), None) if shape[1] != shape[2] else (good[0], None),
                    (good, obj.output_array_for_position_fast(dtype='f8')[1:]),
                    (good, obj.output_array_for_position_fast((2,), dtype='f8')),
                    (good[None], obj.output_array_for_position_fast(dtype='f8'))]
            for d, out in outs:
                was = None if out is None else out.copy()
                try:
                    obj.position_modules_fast(d, out=out)
                except Exception:
                    pass
                else:
                    ctx.fail("%s: data of shape %r (%s) accepted with output %r" % (what, d.shape, d.dtype, None if out is None else (out.shape, out.dtype)))
                if out is not None:
                    ctx.check(((out == was) | ((out != out) & (was != was))).all(), "%s: refused output array was changed", what)
        ctx.eval((case['spec']['det'], case['spec']['kind'], op))
    for img, was, what in kept:
        ctx.check(np.array_equal(img, was, equal_nan=was.dtype.kind in 'fc'), "%s: image kept while assembling others has changed", what)
    # A new object gives the same image as the one used all along
    d = values(shape, 'f4', 5)
    a, ca = obj.position_modules_fast(d)
    b, cb = g.fresh().position_modules_fast(d)
    ctx.check(a.shape == b.shape and np.array_equal(a, b, equal_nan=True) and tuple(ca) == tuple(cb), "%s: image depends on earlier use", spec)
    model.check(ctx, d, b, cb, spec + ' (new object)')
    ctx.rmdir(tmp)
