"""C09: file format variants read the same"""
import itertools
import os

import h5py
import numpy as np

from .. import observe as ob, fingerprint as fp
from ..h5 import build, Coll
from ..space import *

LEVEL = 'model_checking'
RULE = ("each placement of recorded data is stored in every variant of the format (metadata location and version, "
        "index layout, unused space in train list / indexes / datasets / source list); every reading method is "
        "compared with the reference model and with the plainest variant. State: distinct (data, variant); "
        "transition: one full reading of it.")
ASSUMPTIONS = ["unused space holds zeros in the train list and indexes (as in real files) and arbitrary values in datasets"]

KC = {'p.value': ['f8', []], 'q.value': ['i4', [2]]}
KI = {'data.a': ['i4', []], 'data.b': ['f4', [2]]}
K2 = {'raw.c': ['u2', []]}

PADS = [list(p) for p in itertools.product([0, 3], repeat=4)]
VERS, IXS = ['1.0', '0.5'], ['fc', 'fls']


def cases(tier):
    big = tier == 'thorough'
    pats = counts(3) if not big else counts(4)
    for i, c in enumerate(pats):
        # second group and control: another pattern of the same length
        d = pats[(i * 7 + 5) % len(pats)]
        # a control source is mostly recorded with every train, but the format doesn't guarantee that
        yield dict(kind='one', c=c, d=[min(x, 1) for x in d], t='cgb'[i % 3],
                   e=[min(x, 1) for x in pats[(i * 11 + 3) % len(pats)]] if i % 2 else None)
    for i, c in enumerate(pats[::1 if big else 3]):
        yield dict(kind='run', c=c, t='cgb'[i % 3])
    yield dict(kind='one', c=[], d=[], t='c')


def spec(name, tr, c, d, ver, ix, pad, e=None):
    return dict(name=name, trains=tr, ver=ver, index=ix, pad=pad,
                src=[[CTRL, 'C', {'': [e, KC]}],
                     [INSTA, 'I', {'data': [c, KI], 'raw': [d, K2]}]])


def respec(path, variant):
    """Variants which the builder doesn't make"""
    with h5py.File(path, 'r+') as f:
        if variant == 'nover':      # 1.0 files carry the version, older ones don't
            f.pop('METADATA/dataFormatVersion', None)
        if variant == 'last_below':
            # trains without data: last = first - 1 (clipped at 0) and status 0
            def fix(name, obj):
                if isinstance(obj, h5py.Group) and 'status' in obj:
                    st, fi = obj['status'][:], obj['first'][:]
                    la = obj['last'][:]
                    la[st == 0] = np.maximum(fi[st == 0].astype('i8') - 1, 0).astype('u8')
                    obj['last'][:] = la
            f['INDEX'].visititems(fix)
        if variant == 'zeros_empty':
            # trains without data: first = 0
            def fix(name, obj):
                if isinstance(obj, h5py.Group) and 'status' in obj:
                    st, fi, la = obj['status'][:], obj['first'][:], obj['last'][:]
                    fi[st == 0] = 0
                    la[st == 0] = 0
                    obj['first'][:] = fi
                    obj['last'][:] = la
            f['INDEX'].visititems(fix)
        if variant in ('gap_sources', 'lead_sources'):
            # unused entries between / before the sources
            for p in ('METADATA/dataSourceId', 'METADATA/dataSources/dataSourceId'):
                if p in f:
                    used = [x for x in f[p][:] if x]
                    new = [b''] + used if variant == 'lead_sources' else [y for x in used for y in (x, b'')]
                    dt = f[p].dtype
                    del f[p]
                    f.create_dataset(p, data=np.array(new, dtype=dt), dtype=h5py.special_dtype(vlen=bytes))


def read_all(kd, d, paths, m, where, ctx, ref):
    dc = kd.H5File(paths[0]) if len(paths) == 1 else kd.RunDirectory(d)
    ser = {(CTRL, 'p.value'), (INSTA, 'raw.c')}
    if all(m.entry(INSTA, 'data.a', t) is None or len(m.entry(INSTA, 'data.a', t)) == 1 for t in m.trains):
        ser.add((INSTA, 'data.a'))
    few = {(CTRL, 'q.value'), (INSTA, 'data.b')}
    r = fp.full(dc, ser, lazy=few, virtual=few, scratch=os.path.join(d, 'vds.h5_'))
    if ref is None:
        ob.everything(dc, m, where)
    else:
        df = fp.diff(ref, r)
        ctx.check(df is None, '%s differs from plain files: %s', where, df)
    if len(m.trains) > 1:
        sub = dc.select_trains(kd.by_index[1:])
        ob.everything(sub, Coll(m.files, m.sel, m.trains[1:]), where + ' selected')
    for f in dc.files:
        f.close()
    ctx.step()
    ctx.trace()
    return r


def variants():
    for ver in VERS:
        for ix in IXS:
            for pad in PADS:
                yield ver, ix, pad, None
    yield '0.5', 'fls', [3, 3, 3, 3], 'last_below'


def run_case(case, ctx):
    import karabo_data as kd
    c = case['c']
    tr = tids(case['t'], len(c))
    ctx.sample(case)
    ref = None
    if case['kind'] == 'one':
        vs = list(variants())
        vs += [('0.5', 'fls', [3, 3, 0, 3], 'last_below')]
        vs += [(v, 'fc', [0, 0, 0, 0], x) for v in VERS for x in ('gap_sources', 'lead_sources')]
        for ver, ix, pad, extra in vs:
            s = spec('RAW-R0001-DA01-S00000.h5', tr, c, case['d'], ver, ix, pad, case.get('e'))
            d = ctx.dir()
            paths = build(d, [s])
            if extra:
                respec(paths[0], extra)
            where = 'format %s, index %s, unused space %s %s:' % (ver, ix, pad, extra or '')
            r = read_all(kd, d, paths, model([s]), where, ctx, ref)
            ref = ref or r
            ctx.state(str(case), ver, ix, tuple(pad), extra)
            ctx.rmdir(d)
    else:
        n = len(c)
        vs = list(itertools.product(VERS, IXS, [[0, 0, 0, 0], [3, 3, 3, 3]]))
        for cut in ([1, 2] if n == 3 else [1, 2, 3]):
            ref = None
            for va, vb in itertools.product(vs, vs):
                d = ctx.dir()
                specs = [spec('RAW-R0001-DA01-S00000.h5', tr[:cut], c[:cut], [1] * cut, *va),
                         spec('RAW-R0001-DA01-S00001.h5', tr[cut:], c[cut:], [0] * (n - cut), *vb)]
                paths = build(d, specs)
                where = 'run of %s + %s:' % (va, vb)
                r = read_all(kd, d, paths, model(specs), where, ctx, ref)
                ref = ref or r
                ctx.state(str(case), cut, va[:2], vb[:2], tuple(va[2]), tuple(vb[2]))
                ctx.rmdir(d)
