"""C22: CrystFEL geometry files"""
import itertools
import os

import numpy as np

from mc import geom as G

LEVEL = 'model_checking'
RULE = ("every detector x geometries (quadrant lattice, geometry files, all tile orientations, tilts from 1e-12 to 0.3, "
        "z offsets) x all combinations of given/absent header options x data dimension orders x panel orders in the "
        "file; each file is read by an independent reader of the format, by cfelpyutils and by the code, all compared "
        "with the geometry it was made from; files are rewritten from loaded geometries. State: distinct (geometry, "
        "options, file layout); transition: one write, load or rewrite.")
CASE_TIMEOUT = 300
ASSUMPTIONS = ["where camera length or ADU per eV are not given, the user sets them in the file, as its header asks, before loading",
               "data paths start with / and hold no blanks or semicolons; every panel keeps the name it was written with"]
DIMS = [('frame', 'modno', 'ss', 'fs'), ('frame', 'ss', 'fs'), ('frame', 'modno', 0, 'ss', 'fs'), ('modno', 'frame', 'ss', 'fs'),
        ('frame', 'modno', 'fs', 'ss'), ('ss', 'fs', 'frame'), ('frame', 1, 'modno', 'ss', 2, 'fs'), ('modno', 'ss', 'fs', 'frame'),
        ('fs', 'frame', 'ss')]
OPTS = [dict(zip(('data_path', 'mask_path', 'adu_per_ev', 'clen', 'photon_energy'), v)) for v in itertools.product(
    [None, '/data/det/x_1'], [None, '/mask/det/m'], [None, 0.0075], [None, 0.2], [None, 9000, 9345.678])]
# Numbers of all sizes are written without loss
for _n, _o in enumerate(OPTS):
    if _o['adu_per_ev']:
        _o['adu_per_ev'] = [0.0075, 4.25e-7, 1.2345678901234567, 3, 123456.789][_n % 5]
    if _o['clen']:
        _o['clen'] = [0.2, 0.119001234567, 5, 1e-05][_n % 4]
    if _o['photon_energy']:
        _o['photon_energy'] = [9000, 9345.678, 12398.419843320026, 123456789.5, 0.25, 1e7][_n % 6]
ORDERS = ['asis', 'reverse', 'sorted', 'rotate', 'halves', 'interleave']


def geoms(tier):
    for pos in ['plain', 'frac', 'up']:
        yield dict(det='AGIPD', kind='quad', pos=pos)
        yield dict(det='LPD', kind='quad', pos=pos)
        yield dict(det='DSSC', kind='file', pos=pos, jitter=.23)
    yield dict(det='LPD', kind='file', pos='frac', jitter=.23)
    yield dict(det='AGIPD', kind='quad', pos='frac', unit=1e-3, gaps=[1.31, 20.23])
    for det in G.DET:
        for k in range(8):
            for tilt in ([[0., 1e-12, 1e-7, 1e-5, 3e-4, .02, .3, 0.][k]] if tier == 'quick' else [0., 1e-17, 1e-12, 1e-7, 1e-5, 3e-4, .02, .3]):
                yield dict(det=det, kind='frags', k=k, frac=(.3, -.4), tilt=tilt, z=[0., 2e-3, 1e-9][k % 3], origin=[(-700, -800), (-701, -801)][k % 2])


def cases(tier):
    for i, g in enumerate(geoms(tier)):
        n = len(DIMS)
        # one option set per data layout and panel order, each of them covered over the geometries
        yield dict(spec=g, runs=[[(i * 7 + j * 5) % len(OPTS), j % n, (i + j) % len(ORDERS)] for j in range(3 if tier == 'quick' else n)])
    base = [dict(det='AGIPD', kind='frags', k=3, frac=(.3, -.4), tilt=1e-5, z=2e-3), dict(det='DSSC', kind='file', pos='frac', jitter=.23),
            dict(det='LPD', kind='frags', k=1, tilt=.02, z=-1e-3)]
    for bi, b in enumerate(base):
        for o in range(len(OPTS)):
            if tier == 'quick':
                yield dict(spec=b, runs=[[o, (o + bi) % len(DIMS), (o + bi) % len(ORDERS)]])
            else:
                yield dict(spec=b, runs=[[o, d, (o + d + bi) % len(ORDERS)] for d in range(len(DIMS))])
        for d in range(len(DIMS)):
            for p in range(len(ORDERS)):
                if tier != 'quick' or bi == 0:
                    yield dict(spec=b, runs=[[31, d, p]])
    yield dict(kind='errors')


def parse(text):
    """Independent reader of the format -> (top level values, panels in order)"""
    top, panels = {}, {}
    for line in text.splitlines():
        line = line.split(';')[0].strip()
        if not line:
            continue
        k, eq, v = line.partition('=')
        if not eq:
            raise ValueError("not 'key = value': %r" % line)
        k, v = k.strip(), v.strip()
        if '/' in k:
            name, k = k.split('/')
            p = panels.setdefault(name, {})
        else:
            p = top
        if k in p:
            raise ValueError("%r given twice" % line)
        p[k] = v
    return top, panels


def vector(s):
    """'+1.0x -0.5y': signed decimal numbers, no exponents"""
    out = np.zeros(3)
    for part in s.replace('+', ' +').replace('-', ' -').split():
        num, axis = part[:-1], part[-1]
        if num in '+-':
            num += '1'
        if axis not in 'xyz' or not num.lstrip('+-').replace('.', '', 1).isdigit():
            raise ValueError("direction %r" % s)
        out['xyz'.index(axis)] = float(num)
    return out


def reorder(text, how):
    """The same file with its panels in another order"""
    head, blocks = [], {}
    for line in text.splitlines():
        k = line.split('=')[0].strip()
        if '/' in k and not line.startswith(';') and k.split('/')[0].startswith('p'):
            blocks.setdefault(k.split('/')[0], []).append(line)
        else:
            head.append(line)
    names = list(blocks)
    if how == 'reverse':
        names = names[::-1]
    elif how == 'sorted':
        names = sorted(names)
    elif how == 'rotate':
        names = names[5:] + names[:5]
    elif how == 'halves':
        names = names[1::2] + names[::2]
    elif how == 'interleave':
        # lines of different panels mixed
        lines = [l for row in itertools.zip_longest(*blocks.values()) for l in row if l is not None]
        return '\n'.join(head + lines) + '\n'
    return '\n'.join(head + [l for n in names for l in blocks[n]]) + '\n'


def describe(g):
    return {(m, t): np.concatenate([c, s, f]) for m, t, c, s, f in g.tiles}


def tiles_of(obj):
    return {(m, t): np.concatenate([x.corner_pos, x.ss_vec, x.fs_vec]) for m, mod in enumerate(obj.modules) for t, x in enumerate(mod)}


def same_tiles(ctx, got, exp, what):
    ctx.check(set(got) == set(exp), "%s: tiles %r", what, sorted(set(got) ^ set(exp))[:5])
    for k in exp:
        # corner in metres; vectors to 1e-12 m per pixel
        ok = (np.abs(got[k] - exp[k]) <= 1e-11).all() and (np.abs(got[k][3:] - exp[k][3:]) <= 1e-13).all()
        if not ok:
            ctx.fail("%s: tile %r is at %r, not %r" % (what, k, got[k].tolist(), exp[k].tolist()))


def check_text(ctx, g, text, opts, dims, what):
    try:
        top, panels = parse(text)
    except ValueError as e:
        ctx.fail("%s: file can't be parsed: %s" % (what, e))
    d = g.d
    res = float(top.get('res', 'nan'))
    ctx.check(abs(res * d['px'] - 1) < 1e-12, "%s: res is %r", what, top.get('res'))
    ctx.check(top.get('data') == (opts['data_path'] or '/entry_1/instrument_1/detector_1/data'), "%s: data is %r", what, top.get('data'))
    ctx.check(top.get('mask') == opts['mask_path'], "%s: mask is %r", what, top.get('mask'))
    for key, name in [('adu_per_ev', 'adu_per_eV'), ('clen', 'clen'), ('photon_energy', 'photon_energy')]:
        v = top.get(name)
        ctx.check((v is None) if opts[key] is None else (v is not None and float(v) == opts[key]), "%s: %s is %r", what, name, v)
    nt = d['ntiles']
    want_names = ['p%da%d' % (m, t) for m in range(16) for t in range(nt)]
    ctx.check(set(panels) == set(want_names), "%s: panels %r", what, sorted(panels)[:4])
    # rigid groups
    for q in range(4):
        exp = ['p%da%d' % (m, t) for m in range(4 * q, 4 * q + 4) for t in range(nt)]
        ctx.check(sorted(top.get('rigid_group_q%d' % q, '').split(',')) == sorted(exp), "%s: quadrant group %d is %r", what, q, top.get('rigid_group_q%d' % q))
    for m in range(16):
        exp = ['p%da%d' % (m, t) for t in range(nt)]
        ctx.check(sorted(top.get('rigid_group_p%d' % m, '').split(',')) == sorted(exp), "%s: module group %d is %r", what, m, top.get('rigid_group_p%d' % m))
    got = {}
    for m in range(16):
        for t in range(nt):
            p = panels['p%da%d' % (m, t)]
            s0, f0 = d['slices'][t]
            h, w = d['tile']
            if 'modno' not in dims:
                s0 += m * d['shape'][1]
            place = [int(p[k]) for k in ('min_ss', 'max_ss', 'min_fs', 'max_fs')]
            ctx.check(place == [s0, s0 + h - 1, f0, f0 + w - 1], "%s: panel p%da%d covers %r", what, m, t, place)
            for n, dim in enumerate(dims):
                v = p.get('dim%d' % n, top.get('dim%d' % n))
                exp = {'frame': '%', 'modno': str(m)}.get(dim, str(dim))
                ctx.check(v == exp, "%s: dim%d of p%da%d is %r, not %r", what, n, m, t, v, exp)
            ctx.check('dim%d' % len(dims) not in p and 'dim%d' % len(dims) not in top, "%s: too many dims", what)
            try:
                ss, fs = vector(p['ss']), vector(p['fs'])
            except ValueError as e:
                ctx.fail("%s: panel p%da%d: bad %s" % (what, m, t, e))
            # corners in pixels, panel offset along the beam in metres
            c = np.array([float(p['corner_x']) / res, float(p['corner_y']) / res, float(p.get('coffset', 0))])
            got[m, t] = np.concatenate([c, ss / res, fs / res])
    same_tiles(ctx, got, describe(g), what + ' (as written)')


def run_case(case, ctx):
    if case.get('kind') == 'errors':
        return run_errors(ctx)
    tmp = ctx.dir()
    g = G.build(case['spec'], tmp)
    cls = type(g.obj)
    want = describe(g)
    for oi, di, pi in case['runs']:
        opts, dims, order = OPTS[oi], DIMS[di], ORDERS[pi]
        what = '%s opts=%s dims=%s order=%s' % (' '.join('%s=%s' % kv for kv in case['spec'].items()), {k: v for k, v in opts.items() if v is not None}, ','.join(map(str, dims)), order)
        ctx.state(what)
        ctx.step(3)
        ctx.trace()
        ctx.eval(what)
        path = os.path.join(tmp, 'a.geom')
        kw = {k: v for k, v in opts.items() if v is not None}
        obj = g.fresh()
        if di or oi % 2:
            kw['dims'] = dims
        obj.write_crystfel_geom(path, **kw)
        same_tiles(ctx, tiles_of(obj), want, what + ' (geometry after writing)')
        text = open(path).read()
        check_text(ctx, g, text, opts, dims, what)
        # What the header asks the user to fill in
        extra = ''
        if opts['clen'] is None:
            extra += 'clen = 0.119\n'
        if opts['adu_per_ev'] is None:
            extra += 'adu_per_eV = 0.0075\n'
        path2 = os.path.join(tmp, 'b.geom')
        with open(path2, 'w') as f:
            f.write(extra + (text if order == 'asis' else reorder(text, order)))
        loaded = cls.from_crystfel_geom(path2)
        ctx.check(type(loaded) is cls and [len(m) for m in loaded.modules] == [g.d['ntiles']] * 16, "%s: loaded as %r", what, type(loaded))
        same_tiles(ctx, tiles_of(loaded), want, what)
        px = loaded.get_pixel_positions()
        err = np.abs(px - g.centres()).max()
        ctx.check(err < 1e-10, "%s: loaded pixels are up to %r m away", what, err)
        if (oi + di + pi) % 3 == 0:
            # Once more, from the loaded geometry
            path3 = os.path.join(tmp, 'c.geom')
            loaded.write_crystfel_geom(path3, **kw)
            check_text(ctx, g, open(path3).read(), opts, dims, what + ' rewritten')
            with open(path3, 'a') as f:
                f.write('')
            with open(path3) as f:
                t3 = extra + f.read()
            with open(path3, 'w') as f:
                f.write(t3)
            same_tiles(ctx, tiles_of(cls.from_crystfel_geom(path3)), want, what + ' rewritten')
            ctx.step(2)
    ctx.rmdir(tmp)


def run_errors(ctx):
    tmp = ctx.dir()
    for det in G.DET:
        g = G.build(dict(det=det, kind='frags', k=0), tmp)
        for dims in [('modno', 'ss', 'fs'), ('ss', 'fs'), ()]:
            ctx.state('noframe', det, dims)
            ctx.step()
            ctx.trace()
            path = os.path.join(tmp, 'x.geom')
            try:
                g.obj.write_crystfel_geom(path, dims=dims)
            except ValueError:
                pass
            else:
                ctx.fail("%s: dims %r without a frame dimension accepted" % (det, dims))
            ctx.check(not os.path.exists(path), "%s: a file was written for refused dims %r", det, dims)
            ctx.eval((det, dims))
        # A panel missing from the file is an error, not a made up position
        g.obj.write_crystfel_geom(path, clen=.1, adu_per_ev=.1)
        text = open(path).read().replace('p3a1/', 'x3a1/').replace('p3a1', 'x3a1')
        with open(path, 'w') as f:
            f.write(text)
        try:
            type(g.obj).from_crystfel_geom(path)
        except Exception:
            pass
        else:
            ctx.fail("%s: file without panel p3a1 accepted" % det)
        os.unlink(path)
    ctx.rmdir(tmp)
