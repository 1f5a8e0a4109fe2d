"""Small multi-module detector runs and what they record"""
import itertools

import numpy as np

from . import orders
from .h5 import values, FileModel, Coll
from .space import tids, compositions

N = 3        # frames per train
SS, FS = 3, 2

LAYOUTS = {
    # detector name, source suffix, file name part, raw/corr, frame shape, pulseId etc. shape, other frame keys
    'agipd_raw': ('SPB_DET_AGIPD1M-1', 'AGIPD', 'RAW', [2, SS, FS], [1], {}, 'u2'),
    'lpd_raw': ('FXE_DET_LPD1M-1', 'LPD', 'RAW', [1, SS, FS], [1], {}, 'u2'),
    'lpd_raw1': ('FXE_DET_LPD1M-1', 'LPD', 'RAW', [1, SS, FS], [], {}, 'u2'),
    'dssc_raw': ('SCS_DET_DSSC1M-1', 'DSSC', 'RAW', [1, SS, FS], [], {}, 'u2'),
    'agipd_corr': ('SPB_DET_AGIPD1M-1', 'AGIPD', 'CORR', [SS, FS], [], {'image.gain': ['u1', [SS, FS]], 'image.mask': ['u4', [SS, FS]]}, 'f4'),
    'lpd_corr': ('FXE_DET_LPD1M-1', 'LPD', 'CORR', [SS, FS], [], {'image.gain': ['u1', [SS, FS]]}, 'f4'),
}
TABLES = ['same', 'vary', 'one', 'shift', 'mixed']


def cls_name(layout):
    return {'AGIPD': 'AGIPD1M', 'LPD': 'LPD1M', 'DSSC': 'DSSC1M'}[LAYOUTS[layout][1]]


def pulse_ids(table, t, n=N):
    k = t % 1000
    if table == 'same':
        return [4 * i for i in range(n)]
    if table == 'vary':
        return [(k % 3) + d for d in [0, 4, 9] + [9 + 5 * i for i in range(1, n - 2)]][:n]
    if table == 'one':
        return [5 + i for i in range(n)]
    if table == 'mixed':
        return [(4 * i + 4 + k) % (4 * n + 1) for i in range(n)]
    if table == 'shift':
        return [k * 3 % 7 + i for i in range(n)]
    raise ValueError(table)


def make_getval(table):
    def getval(source, key, train, count, dtype, shape):
        if key.endswith('pulseId'):
            v = np.array(pulse_ids(table, train, count), dtype=dtype)
            return v.reshape((count,) + tuple(shape))
        if key.endswith('cellId'):
            v = np.array([(p * 2 + train) % 352 for p in pulse_ids(table, train, count)], dtype=dtype)
            return v.reshape((count,) + tuple(shape))
        if key.endswith('trainId'):
            return np.full((count,) + tuple(shape), train, dtype=dtype)
        return values(source, key, train, count, dtype, shape)
    return getval


def source(layout, m):
    return '%s/DET/%dCH0:xtdf' % (LAYOUTS[layout][0], m)


def det_specs(layout, modules, pattern, trains, cuts, header='F', other=True, seq_names=True, frames=N, hpat=None,
              pad=None):
    """pattern[mi]: string over trains of 'F' (frames), '0' (no frames), '-' (train not in the module's files)
    cuts[mi]: list of (a, b) train ranges per sequence file.  header: 'F': one entry if the train is in the file with
    frames, 'A': one for every train in the file, 'Z': additionally missing in the second train; or hpat[mi]: string of
    numbers of header entries.  pad: unused entries in the files, see h5
    """
    det, part, rawcorr, fshape, pshape, extra, dt = LAYOUTS[layout]
    specs = []
    for mi, (m, pat, cut) in enumerate(zip(modules, pattern, cuts)):
        n = 0
        for a, b in cut:
            ix = [i for i in range(a, b) if pat[i] != '-']
            name = '%s-R0001-%s%02d-S%05d.h5' % (rawcorr, part, m, orders.seqno(n, len(cut)))
            n += 1
            if not ix:
                continue
            counts = [frames if pat[i] == 'F' else int(pat[i]) for i in ix]
            if hpat:
                hc = [int(hpat[mi][i]) for i in ix]
            elif header == 'A':
                hc = [1] * len(ix)
            else:
                hc = [1 if pat[i] == 'F' and not (header == 'Z' and i == 1) else 0 for i in ix]
            keys = {'image.data': [dt, fshape], 'image.pulseId': ['u8', pshape], 'image.cellId': ['u2', pshape]}
            keys.update(extra)
            specs.append(dict(name=name, trains=[trains[i] for i in ix], src=[[source(layout, m), 'I', {
                'image': [counts, keys], 'header': [hc, {'header.magic': ['u4', []], 'header.pulseCount': ['u8', []]}]}]]))
            if pad:
                specs[-1]['pad'] = list(pad)
    if other:
        specs.append(dict(name='%s-R0001-DA01-S00000.h5' % rawcorr, trains=list(trains), src=[
            ['SA1_XTD2/XGM/MAIN', 'C', {'': [None, {'p.value': ['f8', []]}]}]]))
    return specs


class DetModel:
    def __init__(self, layout, modules, specs, table, min_modules=1, use=None):
        self.layout = layout
        self.getval = make_getval(table)
        self.table = table
        self.files = [FileModel(s, self.getval) for s in specs]
        self.coll = Coll(self.files)
        self.modules = [m for m in modules if use is None or m in use]
        self.src = {m: source(layout, m) for m in self.modules}
        # modules for which there is any file
        self.modules = [m for m in self.modules if any(self.src[m] in f.sources for f in self.files)]
        nmod = {t: sum(self.coll.entry(self.src[m], 'image.data', t) is not None for m in self.modules)
                for t in self.coll.trains}
        # only trains which the modules' files contain
        self.mod_trains = sorted(set().union(*[f.tset for f in self.files if f.sources & set(self.src.values())] or [set()]))
        self.trains = [t for t in self.mod_trains if nmod[t] >= min_modules]
        # modules with a file for the selected trains
        ts = set(self.trains)
        self.here = [m for m in self.modules if any(self.src[m] in f.sources and f.tset & ts for f in self.files)]

    def entry(self, m, key, t):
        return self.coll.entry(self.src[m], key, t)

    def full_trains(self):
        """Trains in which every module has all its data"""
        return [t for t in self.trains if all(self.entry(m, k, t) is not None for m in self.here
                                              for k in self.coll.sel[self.src[m]])]

    def pulses(self, t, n):
        return pulse_ids(self.table, t, n)

    def selected(self, t, n, sel):
        """[(position, pulse id)] selected from a train with n frames; sel: ['id'|'ix', kind, value]"""
        ids = self.pulses(t, n)
        how, kind, val = sel
        labels = ids if how == 'id' else range(n)
        if kind == 'slice':
            a, b, c = val
            want = range(a or 0, 100000 if b is None else b, c or 1)
        elif kind == 'num':
            want = [val]
        else:
            want = val
        return [(i, p) for i, (p, l) in enumerate(zip(ids, labels)) if l in want]

    def expected(self, key, sel, trains=None):
        """{(module, train, pulse): value}"""
        out = {}
        for m in self.here:
            for t in (self.trains if trains is None else trains):
                e = self.entry(m, key, t)
                if e is None:
                    continue
                for i, p in self.selected(t, len(e), sel):
                    v = e[i]
                    if v.ndim >= 1 and v.shape[0] == 1:
                        v = v[0]       # spurious dimension
                    out[m, t, p] = v
        return out


def selector(kd, sel):
    how, kind, val = sel
    c = kd.by_id if how == 'id' else kd.by_index
    if kind == 'slice':
        return c[slice(*val)]
    if kind == 'list':
        return c[list(val)]
    if kind == 'arr':
        return c[np.array(val, dtype='i8')]
    return c[val]


def menu():
    """All pulse selections"""
    out = []
    for how, starts, stops, steps, labels in (
            ('ix', (None, 0, 1, 2, 3, 5), (None, 0, 1, 2, 3, 7), (None, 1, 2, 3), (0, 1, 2, 5)),
            ('id', (None, 0, 1, 4, 5, 9), (None, 0, 1, 4, 5, 8, 10, 20), (None, 1, 2, 4), (0, 4, 5, 6, 9))):
        for a, b, c in itertools.product(starts, stops, steps):
            out.append([how, 'slice', [a, b, c]])
        for n in range(len(labels) + 1):
            for l in itertools.combinations(labels, n):
                out.append([how, 'list' if n % 2 else 'arr', list(l)])
        for v in labels:
            out.append([how, 'num', v])
    return out


ALL = ['ix', 'slice', [None, None, None]]


def patterns(nmod, ntr, alphabet='F0-'):
    return [[''.join(p[i * ntr:(i + 1) * ntr]) for i in range(nmod)] for p in itertools.product(alphabet, repeat=nmod * ntr)]


def check_array(ctx, a, model, key, sel, where, trains=None, mods=None):
    """Compare a labelled (module, train, pulse, ...) array with what is recorded"""
    exp = model.expected(key, sel, trains)
    mods = model.here if mods is None else mods
    ctx.check(a.dims[:3] == ('module', 'train', 'pulse'), '%s dimensions are %s', where, a.dims)
    got_m = a.coords['module'].values.tolist()
    ctx.check(got_m == mods, '%s modules are %s, expected %s', where, got_m, mods)
    tr, pu = [int(x) for x in a.coords['train'].values], [int(x) for x in a.coords['pulse'].values]
    ctx.check(len(set(tr)) == len(tr) and len(set(pu)) == len(pu), '%s repeated labels %s %s', where, tr, pu)
    ctx.check(tr == sorted(tr), '%s trains are not in order: %s', where, tr)
    vals = a.values
    missing = [k for k in exp if k[1] not in tr or k[2] not in pu]
    ctx.check(not missing, '%s nothing returned for (module, train, pulse) %s', where, missing[:3])
    for i, m in enumerate(got_m):
        for j, t in enumerate(tr):
            for k, p in enumerate(pu):
                v = vals[i, j, k]
                e = exp.get((m, t, p))
                if e is None:
                    fill = np.isnan(v).all() if vals.dtype.kind == 'f' else (v == 0).all()
                    ctx.check(fill, '%s (module, train, pulse) %s is %s, but nothing was recorded for it', where, (m, t, p),
                              np.asarray(v).ravel()[:4])
                else:
                    e = np.asarray(e)
                    ctx.check(v.shape == e.shape and bool((v == e).all()), '%s (module, train, pulse) %s is %s, expected %s',
                              where, (m, t, p), np.asarray(v).ravel()[:4], e.ravel()[:4])
    ctx.eval()
    return exp
