"""C01: train-by-train access"""
import itertools

from .. import observe as ob
from ..core import Violation
from ..h5 import build, Coll
from ..space import *
from .. import wide

LEVEL = 'model_checking'
RULE = ("every placement of entries per train in two groups of one source, one second source and "
        "one control source, times every split into sequence files; per layout every access "
        "history of the listed shapes is run on fresh and shared objects. A state is a distinct "
        "(layout, collection) pair, a transition one API call compared with the model.")
ASSUMPTIONS = ["HDF5/h5py return what was written", "files are valid (contiguous index)"]

KEYS1 = {'data.image.pixels': ['u2', [2, 3]], 'data.energy': ['f4', []]}
KEYS2 = {'hdr.info.ts': ['u8', [1]]}
KEYSB = {'digit.raw': ['i4', [4]], 'digit.ok': ['?', []]}
KEYSC = {'pos.value': ['f8', []], 'pos.timestamp': ['u8', []], 'prof.value': ['f4', [3]], 'name.value': ['S7', []]}


def layout(case):
    n = case['n']
    tr = tids(case['tid'], n)
    comps = compositions(n)
    # unused space after the data in some runs
    pad = spread(sum(c * 3 ** j for j, c in enumerate(case['c1'] + case['c2'])) * 16 + case['comp'] + 999, 2, 2, 2)
    pad += [case['comp'] % 2]
    A = [INSTA, 'I', {'data': [case['c1'], KEYS1], 'hdr': [case['c2'], KEYS2]}]
    # control sources mostly have an entry for each train
    C = [CTRL, 'C', {'': [[1 - (i + sum(case['c1'])) % 3 // 2 for i in range(n)] if case['comp'] % 4 == 3 else None, KEYSC]}]
    specs = stream('RAW-R0001-DA01', tr, list(range(n)), comps[case['comp']], [A, C], pad=pad)
    pres = case.get('pb')
    if pres is not None:
        B = [INSTB, 'I', {'digit': [case['cb'], KEYSB]}]
        specs += stream('RAW-R0001-DA02', tr, pres, compositions(len(pres))[case['compb']], [B], pad=pad[::-1])
    return specs


def cases(tier):
    big = tier == 'thorough'
    yield from wide.cases()
    for n in (1, 2, 3):
        for c1 in counts(n):
            for c2 in (counts(n) if big or n < 3 else ([c1[::-1], [0, 1, 2]] if sum(c1) % 2 else [c1[1:] + c1[:1]])):
                for comp in range(len(compositions(n))):
                    yield dict(n=n, tid='gcbh1'[spread(sum(c1) * 8 + comp, 5)[0]], comp=comp, c1=c1, c2=c2)
    # second stream that recorded only some trains
    for n in (2, 3):
        for r in range(1, n + 1):
            for pb in itertools.combinations(range(n), r):
                for cb in counts(n, (0, 1)):
                    for comp in range(len(compositions(n))):
                        for compb in range(len(compositions(r))):
                            if not big and n == 3 and (comp + compb + sum(cb)) % 2:
                                continue
                            yield dict(n=n, tid='c', comp=comp, c1=[1, 2, 1][:n], c2=[2, 0, 1][:n],
                                       pb=list(pb), cb=cb, compb=compb)
    n = 4
    for c1 in counts(n):
        for comp in range(len(compositions(n))):
            for c2 in (counts(n) if big else [list(reversed(c1))]):
                yield dict(n=n, tid='b' if comp % 2 else 'h', comp=comp, c1=c1, c2=c2)
    if big:
        n = 5
        for c1 in counts(n):
            for comp in range(len(compositions(n))):
                yield dict(n=n, tid='h', comp=comp, c1=c1, c2=c1[::-1])


def run_wide(case, ctx):
    d, run, m = wide.open_run(ctx, case['wide'])
    ctx.sample(case)
    ctx.state(str(case))
    srcs = ob.everything(run, m, arrays=False)
    ob.iterate(run, m, srcs, True)
    n = len(m.trains)
    for i in (0, 1, n // 2, n - 1, -1, -n):
        ob.by_index(run, m, i, srcs)
    ctx.step(2 * n)
    ctx.trace()


def run_case(case, ctx):
    if 'wide' in case:
        return run_wide(case, ctx)
    import karabo_data as kd
    specs = layout(case)
    d = ctx.dir()
    build(d, specs)
    m = Coll(models(specs))
    n = len(m.trains)
    ctx.sample(case)

    def new():
        return kd.RunDirectory(d)

    def st(*k):
        ctx.state(str(case), k)

    run = new()
    st('full')
    srcs = ob.sources(run, m)
    ob.trainids(run, m)
    # two iterators over one object in lock step, by-ID and by-index access in between
    it1, it2 = run.trains(), run.trains()
    for i, t in enumerate(m.trains):
        t1, d1 = next(it1)
        ob.by_id(run, m, m.trains[n - 1 - i], srcs, 'during iteration')
        ctx.check((t1 == t), 'iterator gives train %s, expected %s', t1, t)
        ob.train_data(t, d1, m, srcs, 'iterating', keep=True)
        if i >= 1:
            t2, d2 = next(it2)
            ctx.check(t2 == m.trains[i - 1], 'second iterator gives train %s, expected %s', t2, m.trains[i - 1])
            ob.train_data(t2, d2, m, srcs, 'second iterator')
        ob.by_index(run, m, i, srcs, 'during iteration')
        ob.by_index(run, m, i - n, srcs, 'during iteration')
        # data handed out earlier must not change afterwards
        ob.train_data(t, d1, m, srcs, 're-reading handed out')
        ctx.step(5)
    ctx.check(next(it1, None) is None, 'iterator does not stop after the last train')
    ob.iterate(run, m, srcs, False)
    ob.iterate(run, m, srcs, True)
    ctx.step(2 * n)
    ctx.trace()
    for bad in (m.trains[0] - 1, m.trains[-1] + 1, m.trains[0] + 2):
        if bad in m.trains:
            continue
        try:
            run.train_from_id(bad)
        except KeyError:
            pass
        else:
            ctx.fail('train_from_id(%s) did not raise KeyError for a train not in the run' % bad)
    try:
        run.train_from_index(n)
    except IndexError:
        pass
    else:
        ctx.fail('train_from_index(%d) did not raise IndexError' % n)

    # sub-selections given to the reading methods, fresh object each
    sels = [({INSTA: {'data.energy'}}, {INSTA: {'data.energy'}}),
            ([(INSTA, 'hdr.*'), (CTRL, 'pos')], {INSTA: {'hdr.info.ts'}, CTRL: {'pos.value'}}),
            ([('*', '*')], None),
            ({INSTA: {'data.energy', 'hdr.info.ts'}, CTRL: {'prof.value'}},
             {INSTA: {'data.energy', 'hdr.info.ts'}, CTRL: {'prof.value'}})]
    if 'pb' in case:
        sels.append(({INSTB: {'digit.raw'}, INSTA: {'data.energy'}},
                     {INSTB: {'digit.raw'}, INSTA: {'data.energy'}}))
    for dev, sel in sels:
        run = new()
        mm = Coll(m.files, {s: set(k) for s, k in (sel or m.sel).items()}, m.trains)
        st('sel', str(sel))
        got_all = []
        for t, res in run.trains(devices=dev, require_all=True):
            got_all.append(t)
            ob.train_data(t, res, mm, mm.sel, 'trains(%r, require_all)' % (dev,))
            ctx.step()
        exp = [t for t in mm.trains if mm.complete(t)]
        ctx.check(got_all == exp, 'trains(%r, require_all=True) visited %s, expected %s', dev, got_all, exp)
        got_all = []
        for t, res in run.trains(devices=dev):
            got_all.append(t)
            ob.train_data(t, res, mm, mm.sel, 'trains(%r)' % (dev,))
            ctx.step()
        ctx.check(got_all == mm.trains, 'trains(%r) visited %s, expected %s', dev, got_all, mm.trains)
        for t in reversed(m.trains):
            t1, res = run.train_from_id(t, devices=dev)
            ctx.check(t1 == t, 'train_from_id returned train %s for %s', t1, t)
            ob.train_data(t, res, mm, mm.sel, 'train_from_id(devices=%r)' % (dev,))
            ctx.step()
        ctx.trace()
    # train ranges
    for a in range(n):
        for b in range(a + 1, n + 1):
            run = new()
            mm = Coll([f for f in m.files if f.tset & set(m.trains[a:b])], m.sel, m.trains[a:b])
            st('range', a, b)
            hi = m.trains[b - 1] + 1
            forms = (kd.by_index[a:b], kd.by_id[m.trains[a]:hi] if hi < 2**64 else None,
                        kd.by_id[[m.trains[j] for j in range(a, b)]])
            if not ctx.thorough:
                forms = forms[(a + b + case['comp']) % 3:][:1]
            for rng in forms:
                if rng is None:
                    continue
                got = []
                for t, res in run.trains(train_range=rng):
                    got.append(t)
                    ctx.check(mm.must() <= set(res) <= mm.may(), 'sources %s in train %s', sorted(res), t)
                    ob.train_data(t, res, mm, set(res), 'trains(train_range)')
                    ctx.step()
                ctx.check(got == mm.trains, 'trains(train_range=%r) visited %s, expected %s', rng, got, mm.trains)
                ctx.trace()
