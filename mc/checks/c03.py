"""C03: series, data frames and entry counts"""
import itertools
import math

import numpy as np

from ..core import Violation
from ..h5 import build, Coll, same, values
from ..space import *
from .. import wide

LEVEL = 'model_checking'
RULE = ("every placement of 0/1 entries (per-train sources) and 0/1/2 entries (pulse-resolved source) per "
        "train x every split into sequence files x every train subset; every field combination for frames. "
        "State: distinct (layout, train subset); transition: one series / frame / count table compared.")
ASSUMPTIONS = ["HDF5/h5py return what was written", "files are valid (contiguous index)",
               "frames combine fields of the same granularity (per train, or per pulse)"]

DET = 'SPB_DET_AGIPD1M-1/DET/3CH0:xtdf'
KA = {'data.energy': ['f4', []], 'data.count': ['i4', []]}
KB = {'digit.peak': ['f8', []]}
KC = {'pos.value': ['f8', []], 'pos.timestamp': ['u8', []], 'n.value': ['u4', []],
      'mode.timestampOffset.value': ['f4', []], 'timestamp.value': ['f8', []]}
KD1 = {'image.gainMean': ['f4', [1]], 'image.pulseId': ['u8', [1]], 'image.status': ['u2', [1]]}
KD0 = {'image.gainMean': ['f4', []], 'image.pulseId': ['u8', []], 'image.status': ['u2', []]}


def getval(source, key, train, count, dtype, shape):
    if key.endswith('pulseId'):
        # pulse table starts at a different value in every train
        return (np.arange(count, dtype=dtype) * 4 + train % 5).reshape((count,) + tuple(shape))
    return values(source, key, train, count, dtype, shape)


def layout(case):
    n = case['n']
    tr = tids(case['tid'], n)
    comp = compositions(n)[case['comp']]
    if case['kind'] == 'train':
        A = [INSTA, 'I', {'data': [case['c1'], KA]}]
        C = [CTRL, 'C', {'': [None, KC]}]
        specs = stream('RAW-R0001-DA01', tr, list(range(n)), comp, [A])
        pb = case['pb']
        B = [INSTB, 'I', {'digit': [case['c2'], KB]}]
        specs += stream('RAW-R0001-DA02', tr, pb, compositions(len(pb))[case['compb']], [B, C],
                        pad=case['pad'])
    else:
        D = [DET, 'I', {'image': [case['c1'], KD1 if case['extra'] else KD0]}]
        specs = stream('RAW-R0001-AGIPD03', tr, list(range(n)), comp, [D], pad=case['pad'])
    return specs


def cases(tier):
    big = tier == 'thorough'
    yield from wide.cases()
    i = 0
    for n in (1, 2, 3) + ((4,) if big else ()):
        for c1 in counts(n, (0, 1)):
            for comp in range(len(compositions(n))):
                for r in range(1, n + 1):
                    for pb in itertools.combinations(range(n), r):
                        for compb in range(len(compositions(r))):
                            for c2 in counts(n, (0, 1)):
                                if any(c2[j] for j in range(n) if j not in pb):
                                    continue
                                if n == 3 and not big and (sum(c1) + 2 * sum(c2) + comp + compb) % 5:
                                    continue
                                if n == 4 and compb not in (0, len(compositions(r)) - 1):
                                    continue
                                i += 1
                                t, *pad = spread(i, 4, 2, 2, 2)
                                yield dict(kind='train', n=n, tid='cghb'[t], comp=comp, c1=c1, pad=pad + [0],
                                           pb=list(pb), compb=compb, c2=c2)
    for n in (1, 2, 3, 4):
        for ci, c1 in enumerate(counts(n, (0, 1, 3) if not big else (0, 1, 2, 3))):
            for comp in range(len(compositions(n))):
                for extra in (0, 1):
                    if n == 4 and not big and (ci + comp + extra) % 4:
                        continue
                    i += 1
                    t, *pad = spread(i, 3, 2, 2, 2)
                    yield dict(kind='pulse', n=n, tid='cgh'[t], comp=comp, c1=c1, extra=extra, pad=pad + [0])


def exp_rows(m, s, k, multi, pulse_key=None):
    rows = []
    for t in m.trains:
        e = m.entry(s, k, t)
        if e is None:
            continue
        e = e.reshape(len(e))
        if multi:
            p = m.entry(s, pulse_key, t).reshape(len(e))
            rows += [((t, int(pi)), v) for pi, v in zip(p, e)]
        else:
            rows += [(t, v) for v in e]
    return rows


def lab(x):
    return tuple(int(i) for i in x) if isinstance(x, tuple) else int(x)


def check_series(ctx, ser, m, s, k, multi, pulse_key=None, where=''):
    exp = exp_rows(m, s, k, multi, pulse_key)
    name = s + '/' + (k[:-6] if k.endswith('.value') else k)
    ctx.check(ser.name == name, '%s get_series(%s, %s) is named %r', where, s, k, ser.name)
    if pulse_key and ser.index.nlevels == 2:
        multi = True   # pulse labels are also fine where no selected train has several entries
        exp = exp_rows(m, s, k, multi, pulse_key)
    got_lab = [lab(x) for x in ser.index]
    ctx.check(got_lab == [r[0] for r in exp], '%s get_series(%s, %s) has rows %s, expected %s', where, s, k,
              got_lab, [r[0] for r in exp])
    if exp:
        v = np.array([r[1] for r in exp], dtype=m.dtype(s, k)[0])
        ctx.check(same(ser.values, v), '%s get_series(%s, %s) values %s, expected %s', where, s, k, ser.values, v)


def check_frame(ctx, df, m, fields, multi, pulse_key, where):
    cols = {}
    if pulse_key and df.index.nlevels == 2:
        multi = True
    for s, k in fields:
        cols[s + '/' + (k[:-6] if k.endswith('.value') else k)] = dict(exp_rows(m, s, k, multi, pulse_key))
    ctx.check(sorted(df.columns) == sorted(cols), '%s frame columns %s, expected %s', where, list(df.columns), sorted(cols))
    labels = [lab(x) for x in df.index]
    exp = set().union(*[set(c) for c in cols.values()]) if cols else set()
    ctx.check(len(labels) == len(set(labels)) and set(labels) == exp, '%s frame rows %s, expected %s', where, labels, sorted(exp))
    trains = [l[0] if isinstance(l, tuple) else l for l in labels]
    ctx.check(trains == sorted(trains), '%s frame rows are not in train order: %s', where, labels)
    for name, col in cols.items():
        got = df[name]
        for l, v in zip(labels, got.values):
            if l in col:
                ctx.check(float(v) == float(col[l]), '%s frame %s at %s is %s, expected %s', where, name, l, v, col[l])
            else:
                ctx.check(math.isnan(float(v)), '%s frame %s at %s is %s, expected NaN', where, name, l, v)


def check_counts(ctx, dc, m, s, k, where):
    ser = dc.get_data_counts(s, k)
    exp = {}
    for f in m.files:
        if s in f.sources:
            for t in f.trains:
                if t in set(m.trains):
                    exp[t] = len(f.data[s, k][t])
    got = {int(t): int(c) for t, c in zip(ser.index, ser.values)}
    ctx.check(len(ser) == len(got) and got == exp and list(got) == sorted(got),
              '%s get_data_counts(%s, %s) is %s, expected %s', where, s, k, list(zip(ser.index, ser.values)), exp)


def run_wide(case, ctx):
    import karabo_data as kd
    specs = [dict(f, src=[[n, k, {g: [[min(x, 1) for x in c] if c else c, ks] for g, (c, ks) in gs.items()}] for n, k, gs in f['src']])
             for f in wide.specs(case['wide'])]
    d = ctx.dir()
    build(d, specs, getval)
    m = Coll([FileModel(s, getval) for s in specs])
    ctx.sample(case)
    run = kd.RunDirectory(d)
    ctx.state(str(case))
    n = len(m.trains)
    for sl in (slice(None), slice(1, None, 2)):
        sub = m.trains[sl]
        dc = run.select_trains(kd.by_index[sl])
        mm = Coll([f for f in m.files if f.tset & set(sub)], m.sel, sub)
        here = [(s, k) for s in sorted(dc.all_sources) for k in sorted(m.sel[s]) if np.prod(m.dtype(s, k)[1], dtype=int) < 8]
        for s, k in here:
            if not m.dtype(s, k)[1]:
                check_series(ctx, dc.get_series(s, k), mm, s, k, False, None, '%s:' % sl)
            check_counts(ctx, dc, mm, s, k, '%s:' % sl)
            ctx.step(2)
        if here:
            fields = [x for x in here if not m.dtype(*x)[1]]
            check_frame(ctx, dc.get_dataframe([tuple(x) for x in fields], timestamps=True), mm, fields, False, None, '%s:' % sl)
            ctx.step()
    ctx.trace()


def run_case(case, ctx):
    if 'wide' in case:
        return run_wide(case, ctx)
    import karabo_data as kd
    specs = layout(case)
    d = ctx.dir()
    build(d, specs, getval)
    m = Coll([FileModel(s, getval) for s in specs])
    n = len(m.trains)
    ctx.sample(case)
    run = kd.RunDirectory(d)
    multi = False
    pk = None
    if case['kind'] == 'pulse':
        multi = max(case['c1']) > 1
        pk = 'image.pulseId'
        fields = [(DET, k) for k in KD1]
    else:
        fields = [(s, k) for s in sorted(m.sel) for k in sorted(m.sel[s])]
    masks = range(1, 1 << n) if (n <= 3 or ctx.thorough) else [15, 6, 9, 8, 1, 10]
    if case['kind'] == 'train' and n == 3 and not ctx.thorough:
        masks = [7, 5, 2, 6]
    for mask in masks:
        sub = [m.trains[i] for i in range(n) if mask >> i & 1]
        dc = run if mask == (1 << n) - 1 else run.select_trains(kd.by_id[sub])
        # select_trains drops files without selected trains
        files = [f for f in m.files if f.tset & set(sub)]
        mm = Coll(files, m.sel, sub)
        multi = case['kind'] == 'pulse' and any(case['c1'][i] > 1 for i in range(n) if mask >> i & 1)
        where = 'trains %s:' % sub
        ctx.state(str(case), mask)
        here = [(s, k) for s, k in fields if s in dc.all_sources]
        ctx.check({s for s, k in here} >= mm.must(), '%s sources vanished: %s', where, sorted(mm.must()))
        for s, k in here:
            check_series(ctx, dc.get_series(s, k), mm, s, k, multi, pk, where)
            check_counts(ctx, dc, mm, s, k, where)
            ctx.step(2)
        if not here:
            continue
        for ts in (False, True):
            cols = [(s, k) for s, k in here if ts or not k.endswith('.timestamp')]
            check_frame(ctx, dc.get_dataframe(timestamps=ts), mm, cols, multi, pk, where)
            ctx.step()
        # frames of explicit fields
        if mask == (1 << n) - 1:
            for r in (1, 2) if n <= 2 or ctx.thorough else (2,):
                for fs in list(itertools.combinations(here, r))[:None if n <= 2 or ctx.thorough else 3]:
                    check_frame(ctx, dc.get_dataframe([(s, k) for s, k in fs]), mm,
                                [x for x in fs if not x[1].endswith('.timestamp')], multi, pk, where) \
                        if any(not x[1].endswith('.timestamp') for x in fs) else None
                    ctx.step()
        ctx.trace()
