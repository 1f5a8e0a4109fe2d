"""C07: selecting trains"""
import itertools

import numpy as np

from .. import observe as ob, orders
from ..h5 import build, Coll
from ..space import *
from .. import wide

LEVEL = 'model_checking'
RULE = ("every set of recorded train IDs from a small universe (placed at several magnitudes, split over two "
        "files) x every slice with bounds in, between and around them x steps x every list of IDs and "
        "indices; a second selection is applied to every distinct result. State: distinct (recorded IDs, "
        "selected IDs); transition: one selection call.")
ASSUMPTIONS = ["bounds are non-negative integers; lists of indices have no duplicates",
               "selecting by train ID is not applied to trains in reversed order"]

OFF = [10000, 1, 1 << 32, (1 << 63) + 5]
U = 6


def cases(tier):
    big = tier == 'thorough'
    yield from wide.cases()
    for mask in range(1, 1 << U):
        for oi, off in enumerate(OFF):
            if not big and oi != mask % 4 and oi != 0:
                continue
            yield dict(mask=mask, off=off)


def spec(trains, empty=False):
    h = (len(trains) + 1) // 2
    out = []
    for i, tr in enumerate((trains[:h], trains[h:])):
        if tr:
            out.append(dict(name='RAW-R0001-DA01-S%05d.h5' % orders.seqno(i, 2), trains=tr,
                            src=[[INSTA, 'I', {'data': [[(t % 3) for t in tr], {'data.v': ['i8', []]}]}],
                                 [CTRL, 'C', {'': [None, {'x.value': ['f4', []]}]}]]))
    if empty:
        # a file without trains
        out.append(dict(name='RAW-R0001-DA02-S00000.h5', trains=[], src=[
            [INSTA, 'I', {'data': [[], {'data.v': ['i8', []]}]}], [CTRL, 'C', {'': [None, {'x.value': ['f4', []]}]}]]))
    return out


ERR = (ValueError, IndexError)


def run_wide(case, ctx):
    import karabo_data as kd
    d, run, m = wide.open_run(ctx, case['wide'])
    ctx.sample(case)
    n, tr = len(m.trains), m.trains
    sels = [(kd.by_index[a:b:c], tr[a:b:c]) for a in (None, 0, 1, n // 2, -1) for b in (None, n - 1, n, n + 5) for c in (None, 2, 9)]
    sels += [(kd.by_id[tr[a]:tr[b] + 1:c], tr[a:b + 1:c]) for a in (0, n // 2) for b in (n // 2, n - 1) for c in (None, 3)]
    sels += [(kd.by_index[list(range(0, n, 2))], tr[::2]), (kd.by_id[tr[::2]], tr[::2]), (kd.by_id[np.array(tr, dtype='u8')], tr)]
    for sel, exp in sels:
        if not exp:
            continue
        r = run.select_trains(sel)
        ctx.step()
        ctx.check([int(t) for t in r.train_ids] == exp, '%s of %d trains gave %s, expected %s', sel, n, r.train_ids, exp)
    for sel, exp in sels[1::7]:
        if exp:
            r = run.select_trains(sel)
            ctx.state(str(case), tuple(exp))
            ob.everything(r, Coll([f for f in m.files if f.tset & set(exp)], m.sel, exp), str(sel), iterates=False)
    ctx.trace()


def run_case(case, ctx):
    if 'wide' in case:
        return run_wide(case, ctx)
    import karabo_data as kd
    off = case['off']
    trains = [off + i for i in range(U) if case['mask'] >> i & 1]
    specs = spec(trains, case['mask'] % 3 == 0)
    d = ctx.dir()
    build(d, specs)
    m0 = Coll(models(specs))
    run = kd.RunDirectory(d)
    ctx.sample(case)
    results = {}

    def check(dc0, cur, sel, exp, must_raise=False):
        """exp: list of expected train IDs, or None if the request itself is invalid"""
        ctx.step()
        try:
            r = dc0.select_trains(sel)
        except ERR as e:
            ctx.check(not exp, '%s of trains %s raised %r, expected %s', sel, cur, e, exp)
            return
        got = [int(t) for t in r.train_ids]
        ctx.check(exp is not None, '%s of trains %s gave %s, expected an error', sel, cur, got)
        ctx.check(got == exp, '%s of trains %s gave %s, expected %s', sel, cur, got, exp)
        ctx.check([int(t) for t in dc0.train_ids] == cur, '%s changed the collection it was applied to', sel)
        if exp and tuple(exp) not in results:
            results[tuple(exp)] = r
            ctx.state(off, case['mask'], tuple(exp))
            mm = Coll([f for f in m0.files if f.tset & set(exp)], m0.sel, exp)
            srcs = ob.sources(r, mm, str(sel))
            for t in m0.trains:
                if t in exp:
                    ob.by_id(r, mm, t, srcs, str(sel))
                else:
                    try:
                        r.train_from_id(t)
                    except KeyError:
                        pass
                    else:
                        ctx.fail('%s: train %s can still be read' % (sel, t))
            ob.iterate(r, mm, srcs, where=str(sel))
            if exp == sorted(exp):
                for s in srcs:
                    for k in mm.sel[s]:
                        ob.array(r, mm, s, k, str(sel))

    def all_slices_by_id(dc, cur, bounds, steps, conv=int):
        for a in bounds:
            for b in bounds:
                for st in steps:
                    inside = [t for t in cur if (a is None or t >= a) and (b is None or t < b)]
                    lo = None if a is None else conv(a)
                    hi = None if b is None else conv(b)
                    check(dc, cur, kd.by_id[lo:hi:st], inside[::st])

    lo = max(0, off - 2)
    bounds = [None, 0] + list(range(lo, off + U + 2)) + [off + 1000]
    full = ctx.thorough
    all_slices_by_id(run, trains, bounds, (None, 2) if not full else (None, 1, 2, 3))
    if case['mask'] % 4 == 1:
        all_slices_by_id(run, trains, [None] + list(range(lo, off + U + 2)), (None,), np.uint64)
    # lists of train IDs, some of which don't exist
    univ = [off + i for i in range(U)] + [off + U + 3]
    for r in range(0, len(univ) + 1):
        for lst in itertools.combinations(univ, r):
            if not full and 3 <= r <= 5 and sum(lst) % 4:
                continue
            exp = [t for t in trains if t in lst]
            lst = list(lst)
            if (r + case['mask']) % 2:
                lst.reverse()
            check(run, trains, kd.by_id[lst], exp)
            check(run, trains, kd.by_id[np.array(lst, dtype=np.uint64)], exp)
            if lst and (sum(lst) + case['mask']) % 3 == 0:
                check(run, trains, kd.by_id[lst + lst[:1]], exp)      # the same train twice
                if off < 1 << 60:
                    check(run, trains, kd.by_id[np.array(lst[-1:] + lst, dtype='i8')], exp)
    # slices by index
    n = len(trains)
    ib = [None] + list(range(-n - 1, n + 2))
    for a in ib:
        for b in ib:
            for st in (None, 2, -1, 3, -2) if full else (None, 2, -1):
                check(run, trains, kd.by_index[a:b:st], trains[a:b:st])
    # lists of indices
    for r in range(1, 4):
        for lst in itertools.permutations(range(-n, n), r):
            pos = [i % n for i in lst]
            if len(set(pos)) != len(pos) or (not full and r == 3 and sum(lst) % 5):
                continue
            exp = sorted(trains[i] for i in lst)
            check(run, trains, kd.by_index[list(lst)], exp)
            if r == 2:
                check(run, trains, kd.by_index[np.array(lst)], exp)
    for bad in ([n], [0, n + 1], [-n - 1]):
        check(run, trains, kd.by_index[bad], None)
    ctx.trace()
    # second selection on every distinct result
    for cur, dc in list(results.items()):
        cur = list(cur)
        if cur != sorted(cur):
            for a in (None, 0, 1, -1):
                for st in (None, -1):
                    check(dc, cur, kd.by_index[a::st], cur[a::st])
            continue
        bs = [None, off, off + 1, off + 2, off + 3, off + 5, off + U] if not full else bounds
        all_slices_by_id(dc, cur, bs, (None,) if not full else (None, 2))
        for a in (None, 1, -1):
            check(dc, cur, kd.by_index[a::2], cur[a::2])
            check(dc, cur, kd.by_index[:a], cur[:a])
        for r in (1, 2):
            for lst in itertools.combinations(univ, r):
                check(dc, cur, kd.by_id[list(lst)], [t for t in cur if t in lst])
        ctx.trace()
    for bad in (5, slice(0, 2), [trains[0]], None):
        try:
            run.select_trains(bad)
        except TypeError:
            pass
        else:
            ctx.fail('select_trains(%r) did not raise TypeError' % (bad,))
