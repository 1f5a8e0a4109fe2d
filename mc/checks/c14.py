"""C14: iterating over detector trains"""
import itertools

import numpy as np

from ..det import *
from ..h5 import spoil
from ..space import compositions
from . import c13

LEVEL = 'model_checking'
RULE = ("the detector runs and pulse selections of C13: each train yielded is compared, for every key, with what is "
        "recorded and with the same train of the whole array; iterators are run to the end, restarted and run "
        "alternately; and all histories of three trains with 0, 1 or more frames and 0-2 header entries. State: distinct (run, pulse selection); transition: one train yielded.")
ASSUMPTIONS = ["all files of a run have sorted train IDs", "lists of pulses are given in increasing order"]
CASE_TIMEOUT = 120


def cases(tier):
    for i, c in enumerate(c13.cases(tier)):
        if tier == 'thorough' or i % 4 == 0 or 'full' in c or 'menu' in c and c['layout'] in ('agipd_raw', 'lpd_corr'):
            yield c
    # every history of frames and header entries of one module
    for i, st in enumerate(itertools.product(['-', 'F1', 'F0', 'F2', '01', '00'], repeat=3)):
        if not any(x[0] == 'F' for x in st):
            continue
        for j, t in enumerate('cgh'):
            for k, cut in enumerate(compositions(3)):
                if tier == 'thorough' or k in ((0, 3) if (i + j) % 2 else (0, 1 + j % 2)):
                    pads = [0, 1] if tier == 'thorough' else [(i // 2 + j + k) % 2]
                    for pad in pads:
                        yield dict(layout=c13.LAY[(i + j + k) % len(c13.LAY)], mods=[5], pat=[''.join(x[0] for x in st)],
                                   hpat=[''.join(x[-1] for x in st)], cuts=[cut], t=t, table=TABLES[(i // 3 + k) % len(TABLES)],
                                   min=1, header='F', n=i, pad=[pad, pad, 2 * pad, pad])


def check_train(ctx, model, tid, data, sel, where):
    keys = set().union(*[model.coll.sel[model.src[m]] for m in model.here])
    ctx.check(set(data) == keys, '%s keys %s, expected %s', where, sorted(data), sorted(keys))
    for key in keys:
        a = data[key]
        if key.startswith('image.'):
            exp = check_array(ctx, a, model, key, sel, '%s %s' % (where, key), [tid])
            if exp:
                ctx.check([int(x) for x in a.coords['train'].values] == [tid], '%s %s labelled with train %s', where, key,
                          a.coords['train'].values)
        else:
            ctx.check(a.coords['module'].values.tolist() == model.here, '%s %s modules %s', where, key, a.coords['module'].values)
            for i, m in enumerate(model.here):
                e = model.entry(m, key, tid)
                ctx.check(np.array_equal(a.values[i], e[0] if len(e) == 1 else e), '%s %s module %d is %s, expected %s', where, key, m, a.values[i], e[0])
    spoil(data)


def run_case(case, ctx):
    kd, model, det, d = c13.make(case, ctx)
    ctx.sample(case)
    if det is None:
        return
    exp = model.full_trains()
    if 'menu' in case or 'full' in case:
        for what, sel in c13.refused(kd):
            ctx.step()
            try:
                got = next(iter(det.trains(pulses=sel)), None)
            except Exception:
                continue
            ctx.check(got is None and not exp, 'trains(%s) was not refused, but gives %s', what, got)
    sels = c13.selections(case, ctx, 3)
    if 'hpat' in case:
        sels = sels[:1] + sels[2 + case['n'] % 2:3 + case['n'] % 2]
    if 'menu' in case and not ctx.thorough:
        sels = sels[case['n']::3]
    for sel in sels:
        where = 'trains(%s) of %s:' % (sel, case['pat'])
        ctx.state(str(case), str(sel))
        it = det.trains() if sel is ALL and case['n'] % 2 else det.trains(pulses=selector(kd, sel))
        got = []
        for tid, data in it:
            got.append(tid)
            ctx.check(len(got) <= len(exp), '%s visits %s, expected %s', where, got, exp)
            check_train(ctx, model, tid, data, sel, where + ' train %s' % tid)
            ctx.step()
        ctx.check(got == exp, '%s visits %s, expected %s', where, got, exp)
        ctx.trace()
        # once more, with two iterators in step
        if len(exp) > 1:
            a, b = iter(it), iter(it)
            next(a)
            for n, ((ta, da), (tb, db)) in enumerate(zip(a, b)):
                ctx.check((ta, tb) == (exp[n + 1], exp[n]), '%s two iterators visit %s', where, (ta, tb))
                check_train(ctx, model, ta, da, sel, where + ' again, train %s' % ta)
                check_train(ctx, model, tb, db, sel, where + ' again, train %s' % tb)
                ctx.step(2)
    # whole array against iteration
    if exp:
        whole = det.get_array('image.data')
        for tid, data in det.trains():
            one = data['image.data']
            w = whole.sel(train=tid, pulse=one.coords['pulse'])
            ctx.check(w.dims == tuple(x for x in one.dims if x != 'train'), 'dims differ: %s %s', w.dims, one.dims)
            ctx.check(np.array_equal(w.values.astype('f8'), one.sel(train=tid).values.astype('f8'), equal_nan=True),
                      'train %s: array and iteration give different data', tid)
