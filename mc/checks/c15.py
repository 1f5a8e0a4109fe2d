"""C15: virtual CXI files"""
import itertools
import logging
import os

import h5py
import numpy as np

from ..core import Violation
from ..det import *
from ..h5 import build
from ..space import spread, compositions, tids
from . import c13

LEVEL = 'model_checking'
RULE = ("the detector runs of C13; every value of every dataset in the virtual CXI file is compared with what is recorded "
        "for its train, pulse and module. State: distinct run; transition: one dataset read.")
ASSUMPTIONS = ["pulse IDs agree between modules in one train (others are refused)"]
CASE_TIMEOUT = 120


def cases(tier):
    for i, c in enumerate(c13.runs(tier)):
        yield c
    # several layouts for selected shapes of runs
    n = 0
    for i, bad in enumerate(itertools.product(range(2), range(3), range(3))):
        for pat in (['FFF', 'FFF'], ['FFF', 'FFF', 'F-0'], ['FFF', '0F-', 'FFF']):
            if pat[bad[0]][bad[1]] != 'F':
                continue
            lay, tb, cut, t, off, mods = spread(i * 3 + len(pat[1]) + len(pat), len(c13.LAY), len(TABLES), 4, 3, 3, 2)
            yield dict(layout=c13.LAY[lay], pat=pat, mods=[[3, 7, 11], [0, 15, 2]][mods][:len(pat)], table=TABLES[tb], cut=cut, t='cgh'[t],
                       bad=bad, off=[1, 50, 9000][off])
    for lay in c13.LAY:
        for table in TABLES:
            for p in (['FFFF', 'FFFF'], ['F-FF', 'FF-F'], ['0F-F', '-FF0'], ['FF--', '--FF'], ['-0FF', 'FFF-'], ['F--F', '----']):
                for cuts in (compositions(4)[::1] if tier == 'thorough' else compositions(4)[n % 2::3]):
                    n += 1
                    a, b, c2, t, mn = spread(n, 8, 7, 8, 3, 2)
                    yield dict(layout=lay, mods=[a, 8 + b], pat=p, cuts=[cuts, compositions(4)[c2]], t='cgh'[t],
                               table=table, min=1 + mn, header='F', n=n)


def run_clash(case, ctx):
    """One frame has another pulse ID in one module than in the others: no row can be right for both"""
    import karabo_data as kd
    from karabo_data import components
    tr = tids(case['t'], 3)
    specs = det_specs(case['layout'], case['mods'], case['pat'], tr, [compositions(3)[case['cut']]] * len(case['mods']))
    good = make_getval(case['table'])
    bad_mod, bad_t, bad_f = case['mods'][case['bad'][0]], tr[case['bad'][1]], case['bad'][2]

    def getval(src, key, t, count, dtype, shape):
        v = good(src, key, t, count, dtype, shape)
        if key == 'image.pulseId' and src == source(case['layout'], bad_mod) and t == bad_t:
            v[bad_f] += case['off']
        return v
    d = ctx.dir()
    build(d, specs, getval)
    ctx.sample(case)
    cls = getattr(components, cls_name(case['layout']))
    cls = type('Small' + cls.__name__, (cls,), {'module_shape': (SS, FS)})
    det = cls(kd.RunDirectory(d))
    f = os.path.join(d, 'virt.cxi')
    ctx.step()
    ctx.state(str(case))
    try:
        det.write_virtual_cxi(f)
    except Exception:
        pass
    else:
        ctx.fail('module %d has another pulse ID for frame %d of train %d than others, but one was given for the row' % (bad_mod, bad_f, bad_t))
    ctx.trace()


def run_case(case, ctx):
    if 'bad' in case:
        return run_clash(case, ctx)
    kd, model, det, d = c13.make(case, ctx)
    ctx.sample(case)
    if det is None:
        return
    f = os.path.join(d, 'virt.cxi')
    det.write_virtual_cxi(f)
    check_file(ctx, f, model)
    if case['n'] % 2:
        by_command(case, ctx, model, d)
    ctx.state(str(case))
    ctx.trace()


def by_command(case, ctx, model, d):
    """karabo-data-make-virtual-cxi, with the run given in all ways and relative to the working directory"""
    from karabo_data import components
    from karabo_data.cli import make_virtual_cxi
    top = ctx.dir()
    how = case['n'] // 2 % 6
    kind = 'raw' if how == 1 else 'proc'
    os.makedirs(os.path.join(top, kind))
    os.makedirs(os.path.join(top, 'scratch'))
    run = os.path.join(top, kind, 'r0012')
    os.rename(d, run)
    for x in os.listdir(run):
        if x.endswith('.cxi'):
            os.unlink(os.path.join(run, x))
    cwd = os.getcwd()
    argv = [['proc/r0012'], ['raw/r0012/'], ['.', '12'], [top, '12', '-o', 'x.cxi'], [run, '--output', 'x.cxi'],
            ['proc/r0012', '-o', os.path.join(top, 'x.cxi')]][how]
    out = os.path.join(top, ['scratch/r0012_proc_detectors_virt.cxi', 'scratch/r0012_raw_detectors_virt.cxi',
                             'scratch/r0012_detectors_virt.cxi', 'x.cxi', 'x.cxi', 'x.cxi'][how])
    if how % 2:
        with open(out, 'wb') as f:
            f.write(b'old')
    shapes = {c: c.module_shape for c in (components.AGIPD1M, components.LPD1M)}
    os.chdir(top)
    try:
        for c in shapes:
            c.module_shape = (SS, FS)
        # the command sets up logging unless it is already
        if not logging.getLogger().handlers:
            logging.getLogger().addHandler(logging.NullHandler())
        try:
            make_virtual_cxi.main(argv + ['--min-modules', str(case['min'])])
        except SystemExit as e:
            ctx.check(case['layout'].startswith('dssc') and e.code, 'command %s exits with %r', argv, e.code)
            return
    finally:
        os.chdir(cwd)
        for c, sh in shapes.items():
            c.module_shape = sh
    ctx.check(not case['layout'].startswith('dssc'), 'command %s accepted DSSC data', argv)
    ctx.check(os.path.isfile(out), 'command %s did not write %s, there are %s', argv, out,
              [os.path.join(a, x) for a, _, c in os.walk(top) for x in c if x.endswith('.cxi')])
    check_file(ctx, out, model)
    ctx.step()


def check_file(ctx, path, model, nmodules=16):
    trains = model.trains
    rows = [(t, p) for t in trains for p in model.pulses(t, model.frames)]
    with h5py.File(path, 'r') as f:
        tid = [int(x) for x in f['entry_1/trainId'][:]]
        pid = [int(x) for x in f['entry_1/pulseId'][:]]
        ctx.check(list(zip(tid, pid)) == rows, 'rows are labelled %s, expected %s', list(zip(tid, pid)), rows)
        eid = f['entry_1/experiment_identifier'][:]
        eid = [x.decode() if isinstance(x, bytes) else x for x in eid]
        ctx.check(eid == ['%d:%d' % r for r in rows], 'experiment identifiers %s', eid)
        ctx.check(f['cxi_version'].shape and f['cxi_version'][0] >= 130, 'version of CXI is %s', f['cxi_version'])
        g = f['entry_1/instrument_1/detector_1']
        keys = model.coll.sel[model.src[model.here[0]]]
        sets = {'image.data': g['data'], 'image.cellId': f['entry_1/cellId']}
        if 'image.gain' in keys:
            for k in ('gain', 'mask'):
                if 'image.' + k in keys:
                    ctx.check(k in g, 'no %s dataset', k)
                    sets['image.' + k] = g[k]
        ctx.check(f['entry_1/data_1/data'].shape == g['data'].shape, 'data_1 link')
        ctx.check(g['experiment_identifier'].shape == (len(rows),), 'experiment_identifier link')
        ctx.check(sorted(g['module_identifier'][:].tolist()) == model.here, 'module_identifier %s', g['module_identifier'][:])
        for key, ds in sets.items():
            rec_dt, rec_shape = model.coll.dtype(model.src[model.here[0]], key)
            ctx.check(ds.dtype == rec_dt, '%s has dtype %s, recorded %s', key, ds.dtype, rec_dt)
            exp_shape = (len(rows), nmodules) + (() if key == 'image.cellId' else rec_shape)
            ctx.check(ds.shape == exp_shape, '%s has shape %s, expected %s', key, ds.shape, exp_shape)
            got = ds[()]
            fill = ds.fillvalue
            ctx.step()
            pos = {r: i for i, r in enumerate(rows)}
            seen = np.zeros((len(rows), nmodules), dtype=bool)
            for m in model.here:
                for t in trains:
                    e = model.entry(m, key, t)
                    if e is None:
                        continue
                    for i, p in enumerate(model.pulses(t, model.frames)):
                        r = pos[t, p]
                        v = e[i].reshape(exp_shape[2:]) if key == 'image.cellId' else e[i]
                        ctx.check(np.array_equal(got[r, m], v), '%s row %d (train %d pulse %d) module %d is %s, expected %s',
                                  key, r, t, p, m, np.asarray(got[r, m]).ravel()[:4], v.ravel()[:4])
                        seen[r, m] = True
            rest = got[~seen]
            isfill = (np.isnan(rest) if np.isnan(fill) else rest == fill) if rest.dtype.kind == 'f' else rest == fill
            ctx.check(np.all(isfill), '%s holds data where none was recorded, at (row, module) %s', key,
                      [x.tolist() for x in np.argwhere(~seen)][:3])
            ctx.check('axes' in ds.attrs, '%s does not name its axes', key)
            ax = ds.attrs['axes']
            ax = (ax.decode() if isinstance(ax, bytes) else ax).split(':')
            ctx.check(len(ax) == ds.ndim, '%s has axes %s, dimensions %s', key, ax, ds.shape)
            for x, n in zip(ax, ds.shape):
                ctx.check(x in ('x', 'y', 'module_identifier') or x in g and g[x].shape[0] == n,
                          '%s: axis %s of length %d is not described in the file', key, x, n)
            ctx.check(ax[:2] == ['experiment_identifier', 'module_identifier'], '%s has axes %s', key, ax)
            if 'data_gain' in ax:
                lab = [x.decode() if isinstance(x, bytes) else x for x in g['data_gain'][:]]
                ctx.check(lab == ['data', 'gain'][:len(lab)], '%s has gain labels %s', key, lab)
            if rec_dt.kind == 'f' and key == 'image.data':
                ctx.check(np.isnan(fill), 'fill value of %s is %s', key, fill)
