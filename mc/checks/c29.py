"""C29: listing and conversion tools"""
import contextlib
import csv
import io
import itertools
import os
import sys
import warnings

import h5py
import numpy as np

from ..h5 import build, FileModel
from ..space import *
from .. import geom as G

LEVEL = 'model_checking'
RULE = ("h5index and hdf5_paths on every tree of groups and datasets up to a bound (names with commas, quotes, spaces, "
        "non-ASCII letters and shared prefixes; scalar, empty, string and multi-dimensional datasets) and on every file "
        "layout; CBF conversion of every frame of every integer dtype and memory layout, from arrays and from both "
        "versions of the file format with the image source at every place among others; inverted LPD geometry files "
        "for every quadrant arrangement and unit. What is printed or written is read back and compared with what was put "
        "in. State: distinct file or array; transition: one call of a tool.")
ASSUMPTIONS = ["a file converted to CBF has one image source", "pixels are integers"]

NAMES = ['a', 'ab', 'a b', 'a,b', 'q"t', 'ü', 'a.b', 'Z9']
DSETS = [((), 'f8'), ((0,), 'i4'), ((3,), 'u2'), ((2, 1, 4), '>i2'), ((1,), 'S5'), ((2,), 'vlen'), ((2, 2), 'bool'), ((0, 3), 'c8')]
# shapes of trees: a leaf is 'd', an inner node a tuple of children
TREES = [('d',), ('d', 'd'), (('d',), 'd'), (('d', ('d',)), 'd'), ((), 'd'), ((('d', 'd'), 'd'), ('d', ()), 'd'),
         ((), ((),)), (((('d',),),),), ('d', 'd', 'd', ('d', 'd'), ('d',)), ()]


def cases(tier):
    big = tier == 'thorough'
    for t in range(len(TREES)):
        for rot in range(len(NAMES)):
            for dr in range(len(DSETS)):
                if big or (rot + dr + t) % 3 == 0:
                    yield dict(kind='tree', tree=t, rot=rot, drot=dr)
    for n in (99, 101, 400) if not big else (1, 99, 100, 101, 400, 3000):
        yield dict(kind='many', n=n)
    k = 0
    for ver in ('0.5', '1.0'):
        for place in range(3):
            for dt in ('u1', 'i1', 'u2', 'i2', 'u4', 'i4', 'u8', 'i8'):
                k += 1
                yield dict(kind='cbf', ver=ver, place=place, dt=dt, shape=[[3, 4], [1, 7], [5, 1]][k % 3], header=k % 2, ext=k % 5)
    for dt in ('u1', 'i1', 'u2', 'i2', 'u4', 'i4', 'u8', 'i8'):
        for shape in ([3, 2, 4], [1, 1, 1], [2, 6, 1], [2, 512, 128]):
            yield dict(kind='array', dt=dt, shape=shape)
    for pos in ('plain', 'frac', 'shift', 'lone', 'up'):
        for unit in (1e-3, 1.0):
            for jit in (0., .23):
                yield dict(kind='lpd', pos=pos, unit=unit, jitter=jit)


def open_handles():
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            n += os.readlink('/proc/self/fd/' + fd).endswith('.h5')
        except OSError:
            pass
    return n


def quiet(fn, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = fn(*args, **kw)
    return r, out.getvalue()


def fill(grp, tree, case, n=None):
    """Makes the datasets -> nothing; names and kinds by position"""
    for i, node in enumerate(tree):
        name = NAMES[(i + case['rot']) % len(NAMES)]
        if node == 'd':
            shape, dt = DSETS[(i + case['drot'] + len(grp.name)) % len(DSETS)]
            if dt == 'vlen':
                grp.create_dataset(name, shape=shape, dtype=h5py.special_dtype(vlen=bytes))
            else:
                grp.create_dataset(name, shape=shape, dtype=dt)
        else:
            fill(grp.create_group(name), node, case)


def contents(grp, path=''):
    """-> [(path, depth, name, dataset or None)], depth first"""
    for k in grp.keys():
        o = grp[k]
        p = path + k
        if isinstance(o, h5py.Dataset):
            yield p, p.count('/'), k, (str(o.shape), o.dtype.str)
        else:
            yield p, p.count('/'), k, None
            yield from contents(o, p + '/')


def check_listing(ctx, path, what):
    from karabo_data import h5index, utils
    with open(path, 'rb') as f:
        before = f.read()
    with h5py.File(path, 'r') as f:
        items = list(contents(f))
    want = sorted((p, d[0], d[1]) for p, _, _, d in items if d is not None)
    argv = sys.argv
    sys.argv = ['h5index', path]
    try:
        _, txt = quiet(h5index.main)
    finally:
        sys.argv = argv
    ctx.step()
    rows = list(csv.reader(io.StringIO(txt)))
    ctx.check(rows[:1] == [['path', 'shape', 'dtype']], "%s: h5index starts with %r", what, rows[:1])
    got = sorted(tuple(r) for r in rows[1:])
    ctx.check(got == want, "%s: h5index lists %r, the file has %r", what, got[:12], want[:12])
    # In any part of a file
    with h5py.File(path, 'r') as f:
        for p, _, _, d in items:
            if d is None:
                _, txt = quiet(h5index.hdf5_datasets, f[p])
                ctx.step()
                got = sorted(tuple(r) for r in list(csv.reader(io.StringIO(txt)))[1:])
                sub = sorted((q[len(p) + 1:], s, t) for q, s, t in want if q.startswith(p + '/'))
                ctx.check(got == sub, "%s: datasets of group %s are %r, listed %r", what, p, sub[:12], got[:12])
        # The tree. A dataset's line may be repeated.
        for limit in (None, 1, 2, 5000):
            _, txt = quiet(utils.hdf5_paths, f, **({} if limit is None else {'maxlen': limit}))
            ctx.step()
            got = [a for a, _ in itertools.groupby(txt.splitlines())]
            exp = [a for a, _ in itertools.groupby(tree_lines(f, 0, limit or 100))]
            ctx.check(got == exp, "%s: hdf5_paths (maxlen=%s) prints %r for the tree %r", what, limit, got[:20], exp[:20])
    with open(path, 'rb') as f:
        ctx.check(f.read() == before, "%s: file was changed by listing", what)


def tree_lines(grp, depth, limit):
    for k in list(grp.keys())[:limit]:
        yield '    ' * depth + k
        if isinstance(grp[k], h5py.Group):
            yield from tree_lines(grp[k], depth + 1, limit)


def pixels(dt, shape, salt=0):
    i = np.iinfo(dt)
    n = int(np.prod(shape))
    top = {1: i.max, 2: i.max, 4: i.max // 2 if i.min else i.max, 8: 1 << 41}[i.bits // 8]
    a = (np.arange(n, dtype=np.int64) * {4: 7919 * 65537, 8: 7919 << 25}.get(i.bits // 8, 7919) + salt * 31) % top
    if i.min < 0:
        a = a * np.where(np.arange(n) % 3 == 0, -1, 1)
    a = a.astype(dt)
    if n > 1 and i.bits <= 16:
        a[0], a[-1] = i.max, i.min
    return a.reshape(shape)


def check_cbf(ctx, path, frame, what, header=None):
    import fabio
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        img = fabio.open(path)
    ctx.check(img.data.shape == frame.shape and img.data.dtype.kind in 'iu' and (img.data == frame).all(),
              "%s: CBF file has pixels %r (%s), not %r", what, img.data.tolist() if img.data.size < 50 else img.data.shape,
              img.data.dtype, frame.tolist() if frame.size < 50 else frame.shape)
    for k, v in (header or {}).items():
        ctx.check(v in str(img.header.get('_array_data.header_contents')), "%s: header entry %s %r is not in the CBF file: %r", what, k, v, dict(img.header))


def run_cbf(case, ctx):
    from karabo_data.utils import hdf5_to_cbf
    d = ctx.dir()
    shape = case['shape']
    tr = tids('cgh'[case['ext'] % 3], 3)
    img = ['SPB_DET_AGIPD1M-1/DET/3CH0:xtdf', 'I', {'image': [[1, 0, 2], {'image.data': [case['dt'], shape], 'image.pulseId': ['u8', []]}],
                                                  'header': [[1, 1, 1], {'header.magic': ['u4', []]}]}]
    others = [[INSTA, 'I', {'data': [[1] * 3, {'data.image': ['u2', [2, 2]]}]}], [CTRL, 'C', {'': [None, {'p.value': ['f8', []]}]}]]
    src = others[:case['place']] + [img] + others[case['place']:]

    def getval(s, k, t, n, dt, sh):
        if k == 'image.data':
            return pixels(dt, [n] + list(sh), t % 97)
        return np.full([n] + list(sh), t % 97, dtype=dt)
    spec = dict(name='RAW-R0001-AGIPD03-S00000.h5', trains=tr, src=src, ver=case['ver'], pad=[0, 0, 0, case['ext'] % 2])
    path, = build(d, [spec], getval)
    with open(path, 'rb') as f:
        before = f.read()
    m = FileModel(spec, getval)
    frames = np.concatenate(list(m.data[img[0], 'image.data'].values()))
    header = {'X-note': 'one two', 'X-n': '17'} if case['header'] else None
    h0 = open_handles()
    for i in [0, 1, 2, -1]:
        out = os.path.join(d, 'f%d.cbf' % i)
        hdr = dict(header) if header else None
        _, txt = quiet(hdf5_to_cbf, path, out, i, **({'header': hdr} if header else {}))
        ctx.step()
        what = "frame %d of %s in a file of format %s" % (i, case['dt'], case['ver'])
        check_cbf(ctx, out, frames[i], what, header)
        ctx.check(hdr == header, "%s: caller's header was changed to %r", what, hdr)
        ctx.check(open_handles() == h0, "%s: %d data files left open", what, open_handles() - h0)
        ctx.check(path in txt and out in txt and str(i) in txt, "%s: prints %r", what, txt)
    for i in (3, 10, -4):
        out = os.path.join(d, 'bad.cbf')
        try:
            quiet(hdf5_to_cbf, path, out, i)
        except Exception:
            ctx.check(not os.path.exists(out), "a file is left for frame %d, which does not exist", i)
        else:
            ctx.fail("frame %d of %d can be converted" % (i, len(frames)))
    with open(path, 'rb') as f:
        ctx.check(f.read() == before, "data file was changed by conversion")
    # a file without images is refused
    spec = dict(spec, name='none.h5', src=others)
    path, = build(d, [spec], getval)
    out = os.path.join(d, 'none.cbf')
    try:
        quiet(hdf5_to_cbf, path, out, 0)
    except Exception:
        ctx.check(not os.path.exists(out), "a CBF file is left for a file without images")
    else:
        ctx.fail("a file without images can be converted")


def run_array(case, ctx):
    from karabo_data import numpy_to_cbf
    d = ctx.dir()
    shape = tuple(case['shape'])
    a = pixels(case['dt'], shape)
    lay = [('C', a), ('F', np.asfortranarray(a)), ('view', pixels(case['dt'], shape + (2,))[..., 1]), ('rev', a[::-1, ::-1])]
    for name, arr in lay:
        before = arr.copy()
        for i in sorted({0, shape[0] - 1, -1}):
            hdr = {'X-k': 'v w'} if name == 'C' else None
            c, _ = quiet(numpy_to_cbf, arr, i, **({'header': hdr} if hdr else {}))
            out = os.path.join(d, 'a.cbf')
            quiet(c.write, out)
            ctx.step()
            what = "%s frame %d of a %s array %r (%s)" % (case['dt'], i, name, shape, case['dt'])
            check_cbf(ctx, out, before[i], what, hdr)
            ctx.check(hdr is None or hdr == {'X-k': 'v w'}, "%s: caller's header was changed to %r", what, hdr)
        c, _ = quiet(numpy_to_cbf, arr)
        quiet(c.write, out)
        check_cbf(ctx, out, before[0], '%s: default frame' % name)
        ctx.check('X-k' not in str(dict(c.header)), "header of an earlier image is used again")
        ctx.check((arr == before).all(), "%s array was changed by conversion", name)
        try:
            quiet(numpy_to_cbf, arr, shape[0])
        except Exception:
            pass
        else:
            ctx.fail("frame %d of %d can be converted" % (shape[0], shape[0]))


def run_lpd(case, ctx):
    from karabo_data.geometry2 import LPD_1MGeometry, invert_xfel_lpd_geom
    d = ctx.dir()
    path, out = os.path.join(d, 'in.h5'), os.path.join(d, 'out.h5')
    g = G.build(dict(det='LPD', kind='file', pos=case['pos'], unit=case['unit'], jitter=case['jitter']), d)
    src, = [os.path.join(d, f) for f in os.listdir(d) if f.endswith('.h5')]
    os.rename(src, path)
    with h5py.File(path, 'a') as f:
        f.create_dataset('DetectorDescribtion', data=np.array([b'LPD', b'one'], dtype='S8'))
        f['DetectorDescribtion'].attrs['Date'] = 'then'
        f['DetectorDescribtion'].attrs['n'] = np.arange(3)
        pos = {}
        f.visititems(lambda p, o: pos.__setitem__(p, o[:]) if p.endswith('Position') else None)
    assert len(pos) == 16 * 17
    with open(path, 'rb') as f:
        before = f.read()
    quiet(invert_xfel_lpd_geom, path, out)
    ctx.step()
    with open(path, 'rb') as f:
        ctx.check(f.read() == before, "input geometry file was changed")
    with h5py.File(out, 'r') as f:
        got = {}
        f.visititems(lambda p, o: got.__setitem__(p, o[:]) if p.endswith('Position') else None)
        ctx.check(sorted(got) == sorted(pos), "inverted file has %d positions of %d", len(got), len(pos))
        for p in pos:
            ctx.check(got[p].shape == pos[p].shape and (got[p] == -pos[p]).all(), "%s is %r, inverted %r", p, pos[p], got[p])
        dd = f['DetectorDescription']
        ctx.check(list(dd[:]) == [b'LPD', b'one'] and set(dd.attrs) == {'Date', 'n'} and dd.attrs['Date'] == 'then' and
                  (dd.attrs['n'] == np.arange(3)).all(), "description is %r with %r", dd[:], dict(dd.attrs))
    # Both files make the same layout, with the axes the other way
    quads = [np.array([31., -17.]) * (i + 1) for i in range(4)]
    a = LPD_1MGeometry.from_h5_file_and_quad_positions(path, quads, unit=case['unit'])
    b = LPD_1MGeometry.from_h5_file_and_quad_positions(out, [-q for q in quads], unit=case['unit'])
    for m in range(16):
        for t in range(16):
            x, y = a.modules[m][t].corner_pos, b.modules[m][t].corner_pos
            # the corner given is the same one, so all are as far from being opposite
            ctx.check(np.allclose(x[:2] + y[:2], (a.modules[0][0].corner_pos + b.modules[0][0].corner_pos)[:2], atol=1e-9),
                      "tile %d of module %d: %r in the file, %r inverted", t, m, x, y)
    with open(out, 'rb') as f:
        was = f.read()
    try:
        invert_xfel_lpd_geom(path, out)
    except Exception:
        pass
    else:
        ctx.fail("an existing file is overwritten")
    with open(out, 'rb') as f:
        ctx.check(f.read() == was, "an existing file was changed")
    # and back again
    with h5py.File(out, 'a') as f:
        f['DetectorDescribtion'] = f['DetectorDescription']
    back = os.path.join(d, 'back.h5')
    invert_xfel_lpd_geom(out, back)
    with h5py.File(back, 'r') as f:
        for p in pos:
            ctx.check((f[p][:] == pos[p]).all(), "%s inverted twice is %r, not %r", p, f[p][:], pos[p])


def run_case(case, ctx):
    ctx.sample(case)
    ctx.state(str(case))
    ctx.eval((case['kind'], str(case.get('dt')), str(case.get('tree'))))
    k = case['kind']
    if k in ('tree', 'many'):
        p = os.path.join(ctx.dir(), 'f.h5')
        with h5py.File(p, 'w') as f:
            if k == 'tree':
                fill(f, TREES[case['tree']], case)
            else:
                for i in range(case['n']):
                    f.create_dataset('g%d/d%05d' % (i % 2, i), shape=(i % 5,), dtype='u2')
        check_listing(ctx, p, str(case))
        if k == 'tree' and case['tree'] < 3:
            p, = build(ctx.dir(), [dict(name='RAW-R0001-DA01-S00000.h5', trains=[7, 9], ver=['0.5', '1.0'][case['drot'] % 2], src=[
                [INSTA, 'I', {'data': [[1, case['rot']], {'data.image': ['u2', [2, 2]]}]}], [CTRL, 'C', {'': [None, {'p.value': ['f8', []]}]}]])],
                lambda s, k, t, n, dt, sh: np.full([n] + list(sh), t, dtype=dt))
            check_listing(ctx, p, 'data file')
    else:
        {'cbf': run_cbf, 'array': run_array, 'lpd': run_lpd}[k](case, ctx)
    ctx.trace()
