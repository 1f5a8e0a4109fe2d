"""C02: whole-run arrays"""
import itertools

import numpy as np

from .. import observe as ob
from ..h5 import build, Coll
from ..space import *
from .. import wide

LEVEL = 'model_checking'
RULE = ("every placement of entries per train x every split into sequence files x every subset of "
        "trains (selected by ID list) x control / scalar / vector / image keys x a menu of regions of "
        "interest. State: distinct (layout, train subset); transition: one array read compared.")
ASSUMPTIONS = ["HDF5/h5py return what was written", "files are valid (contiguous index)",
               "other regions of interest than integers, slices with positive steps, ellipsis and one increasing list may be refused"]

KEYS1 = {'data.image.pixels': ['u2', [3, 4]], 'data.energy': ['f4', []], 'data.vec': ['i8', [2]]}
KEYSB = {'digit.raw': ['i4', [5]], 'digit.ok': ['?', []]}
KEYSC = {'pos.value': ['f8', []], 'prof.value': ['f4', [4]], 'name.value': ['S7', []]}

# name -> (number of dims it needs, index expression)
E = Ellipsis
ROI = {1: [(E,), (slice(1, 3),), (slice(None, None, 2),), (slice(-2, None),), (slice(0, 0),), (0,), (-1,),
           (slice(2, 100),), (slice(None), E), ([0, 1],), (np.array([1]),), (E, [0])],
       2: [(E,), (slice(1, 3), slice(0, 2)), (1, slice(None)), (slice(None), 2), (E, slice(1, 3)), (E, 0),
           (slice(0, 2),), (2,), (0, 1), (slice(None, None, 2), slice(1, None, 2)), (slice(1, 1), slice(None)),
           (slice(None), E, slice(3, 4)), (-1, slice(-3, -1)), ([0, 2], slice(1, 3)), (1, [0, 3]), (E, np.array([0, 2])),
           ([1], 0)]}
# given either as for the full array or not at all
ODD = [([2, 0],), (slice(None, None, -1),), (E, slice(None, None, -1)), ([0, 1], [0, 2]), ([-1],), (None,), (9,), (0, 0, 0, 0), (E, E),
       (np.array([True, False, True]),)]


def cases(tier):
    big = tier == 'thorough'
    yield from wide.cases()
    kinds = [['i4', [2]], ['f8', [2]], ['u1', [2]], ['i4', [3]], ['i4', []], ['i4', [2, 1]]]
    for i, mixed in enumerate(itertools.product(kinds, repeat=3)):
        if big or mixed[0] == kinds[0] or i % 4 == 0:
            yield dict(mixed=list(mixed), c=[[1, 1, 1], [2, 0, 1], [0, 1, 2]][i % 3])
    i = 0
    for n in (1, 2, 3, 4):
        for ci, c1 in enumerate(counts(n)):
            for comp in range(len(compositions(n))):
                if n == 4 and not big and (ci + comp) % 3:
                    continue
                i += 1
                t, *pad = spread(i, 4, 2, 2, 2)
                yield dict(n=n, tid='gcbh'[t], comp=comp, c1=c1, pb=None, pad=pad + [0])
    for n in (2, 3, 4):
        for r in range(0, n):
            for pb in itertools.combinations(range(n), r):
                for compb in range(len(compositions(r))):
                    for comp in ((0, len(compositions(n)) - 1) if not big else range(len(compositions(n)))):
                        for cb in ([0, 1, 2, 1][:n], [2, 0, 0, 1][:n]):
                            i += 1
                            t, *pad = spread(i, 4, 2, 2, 2)
                            yield dict(n=n, tid='gcbh'[t], comp=comp, c1=[1, 0, 2, 1][:n], pb=list(pb), compb=compb, cb=cb,
                                       pad=pad + [0])
    if big:
        n = 5
        for c1 in counts(n):
            for comp in range(len(compositions(n))):
                yield dict(n=n, tid='gh'[comp % 2], comp=comp, c1=c1, pb=None)
        n = 6
        for c1 in counts(n, (0, 1)):
            for comp in range(len(compositions(n))):
                yield dict(n=n, tid='gh'[comp % 2], comp=comp, c1=c1, pb=None)


def layout(case):
    n = case['n']
    tr = tids(case['tid'], n)
    A = [INSTA, 'I', {'data': [case['c1'], KEYS1]}]
    C = [CTRL, 'C', {'': [None, KEYSC]}]
    pb = case['pb']
    comp = compositions(n)[case['comp']]
    specs = stream('RAW-R0001-DA01', tr, list(range(n)), comp, [A, C], pad=case.get('pad', [0] * 4))
    if pb is not None:
        # second stream; a source that is present but never recorded anything, too
        B = [INSTB, 'I', {'digit': [case['cb'], KEYSB]}]
        bc = compositions(len(pb))[case['compb']] if pb else [(0, 0)]
        specs += stream('RAW-R0001-DA02', tr, pb, bc, [B], pad=case.get('pad', [0] * 4)[::-1])
    return specs


def run_mixed(case, ctx):
    """The files of a run disagree on dtype or shape: refused, or the right values"""
    import karabo_data as kd
    d = ctx.dir()
    tr = tids('g', 3)
    specs = []
    for i, (dt, sh) in enumerate(case['mixed']):
        specs.append(dict(name='RAW-R0001-DA01-S%05d.h5' % i, trains=[tr[i]], src=[[INSTA, 'I', {'data': [[case['c'][i]], {'data.v': [dt, sh]}]}]]))
    build(d, specs)
    m = Coll(models(specs))
    ctx.sample(case)
    run = kd.RunDirectory(d)
    for n in range(1, 8):
        sub = [t for i, t in enumerate(tr) if n >> i & 1]
        here = [case['mixed'][i] for i in range(3) if n >> i & 1]
        alike = all(x == here[0] for x in here)
        ctx.step()
        ctx.state(str(case), n)
        exp = [Coll([m.files[i]]).entry(INSTA, 'data.v', t) for i, t in enumerate(tr) if n >> i & 1]
        try:
            a = run.select_trains(kd.by_id[sub]).get_array(INSTA, 'data.v')
        except Exception as e:
            ctx.check(not alike, 'trains %s with %s: %r', sub, here, e)
            continue
        rows = [(t, v) for t, e in zip(sub, exp) if e is not None for v in e]
        ctx.check(len(a) == len(rows), 'files with %s: %d rows, expected %d', here, len(a), len(rows))
        for i, (t, v) in enumerate(rows):
            ctx.check(a.values[i].shape == v.shape and np.array_equal(a.values[i].astype('f8'), v.astype('f8')) and a.coords['trainId'].values[i] == t,
                      'files with %s: train %s is %s, recorded %s', here, t, a.values[i], v)
    ctx.trace()


def run_wide(case, ctx):
    import karabo_data as kd
    d, run, m = wide.open_run(ctx, case['wide'])
    ctx.sample(case)
    n = len(m.trains)
    for sl in (slice(None), slice(1, None), slice(None, None, 2), slice(n // 2, n // 2 + 1)):
        dc, mm = run.select_trains(kd.by_index[sl]), Coll(m.files, m.sel, m.trains[sl])
        ctx.state(str(case), str(sl))
        for s in sorted(dc.all_sources):
            for k in sorted(m.sel[s]):
                ob.array(dc, mm, s, k, '%s:' % sl)
                ctx.step()
    for s in sorted(m.sel):
        for k in sorted(m.sel[s]):
            if len(m.dtype(s, k)[1]) and case['wide'] != 'trains':
                for idx in ((1,), (slice(1, 2),), (slice(-1, None),)):
                    ob.array(run, m, s, k, roi=kd.by_index[idx if len(idx) > 1 else idx[0]], npidx=idx)
                    ctx.step()
    ctx.trace()


def odd_roi(ctx, kd, dc, mm, s, k, idx):
    """A region h5py may not know how to read: refused, or as for the full array"""
    try:
        a = dc.get_array(s, k, roi=kd.by_index[idx if len(idx) > 1 else idx[0]])
    except Exception:
        return
    tids, exp = mm.array(s, k)
    try:
        exp = exp[(slice(None),) + idx]
    except Exception:
        if not len(exp):
            return
        ctx.fail('get_array(%s, %s, roi=%s) of %s was not refused' % (s, k, idx, exp.shape))
    ctx.check(ob.same(a.values, exp), 'get_array(%s, %s, roi=%s) is %s, expected %s', s, k, idx, a.values, exp)
    ctx.step()


def run_case(case, ctx):
    if 'mixed' in case:
        return run_mixed(case, ctx)
    if 'wide' in case:
        return run_wide(case, ctx)
    import karabo_data as kd
    specs = layout(case)
    d = ctx.dir()
    build(d, specs)
    m = Coll(models(specs))
    n = len(m.trains)
    ctx.sample(case)
    run = kd.RunDirectory(d)
    keys = [(s, k) for s in sorted(m.sel) for k in sorted(m.sel[s])]
    for mask in range(1, 1 << n):
        sub = [m.trains[i] for i in range(n) if mask >> i & 1]
        dc = run if mask == (1 << n) - 1 else run.select_trains(kd.by_id[sub])
        mm = Coll(m.files, m.sel, sub)
        ctx.state(str(case), mask)
        for s, k in keys:
            if s not in dc.all_sources:
                ctx.check(s not in mm.must(), 'source %s vanished for trains %s', s, sub)
                continue
            ob.array(dc, mm, s, k, 'trains %s:' % sub)
            ctx.step()
        ctx.trace()
    # regions of interest on the full run and a subset
    full = n <= 2 or ctx.thorough
    for sub in (m.trains, m.trains[1:] if n > 1 else m.trains):
        dc = run.select_trains(kd.by_id[sub])
        mm = Coll(m.files, m.sel, sub)
        for s, k in keys:
            if s not in dc.all_sources:
                continue
            nd = len(m.dtype(s, k)[1])
            menu = ROI.get(nd, [(E,)])
            if not full:
                i = spread(sum(case['c1']) * 8 + case['comp'], 3)[0]
                menu = menu[i::3]
            for idx in menu:
                roi = kd.by_index[idx if len(idx) > 1 else idx[0]]
                ob.array(dc, mm, s, k, 'trains %s:' % sub, roi=roi, npidx=idx)
                ctx.step()
            for idx in ODD[(case['comp'] + sum(case['c1'])) % 4::4]:
                odd_roi(ctx, kd, dc, mm, s, k, idx)
        ctx.trace()
    # dimension names
    names = ['y', 'x']
    a = run.get_array(INSTA, 'data.image.pixels', extra_dims=names)
    ctx.check(a.dims == ('trainId', 'y', 'x') and names == ['y', 'x'], 'extra_dims gave dims %s', a.dims)
    a = run.get_array(INSTA, 'data.image.pixels', extra_dims=names[1:], roi=kd.by_index[1])
    ctx.check(a.dims == ('trainId', 'x') and names == ['y', 'x'], 'extra_dims gave dims %s', a.dims)
    # unknown source and key are refused
    for bad in ((INSTA, 'data.nothing'), ('NO/SUCH/SOURCE', 'data.vec')):
        try:
            run.get_array(*bad)
        except KeyError:
            pass
        else:
            ctx.fail('get_array%r did not raise KeyError' % (bad,))
