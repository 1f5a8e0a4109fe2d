"""C13: detector arrays"""
import itertools

import numpy as np

from ..det import *
from ..h5 import build, spoil
from ..space import tids, compositions, spread

LEVEL = 'model_checking'
RULE = ("all presence patterns (frames / no frames / train not in file) of small numbers of modules and trains, with "
        "rotating sequence splits, train gaps, pulse tables, layouts and min_modules; pulse selections from a "
        "complete menu of slices, lists and numbers by ID and index. State: distinct (run, selection of pulses, key); "
        "transition: one array read.")
ASSUMPTIONS = ["all files of a run have sorted train IDs", "lists of pulses are given in increasing order"]

MENU = menu()
LAY = ['agipd_raw', 'lpd_raw', 'agipd_corr', 'dssc_raw', 'lpd_raw1', 'lpd_corr']
CASE_TIMEOUT = 120


def full_size():
    """All 16 modules of a detector, many trains and frames"""
    for i, lay in enumerate(LAY):
        ntr, fr = [(40, 20), (9, 70), (70, 5)][i % 3]
        pat = [''.join('-0'[(m + t) % 2] if (m * 7 + t * 5 + i) % 13 == 0 or (m == 3 and t < 6) else 'F' for t in range(ntr)) for m in range(16)]
        cuts = [[[0, 5 + m % 3], [5 + m % 3, 8], [8, ntr]] if m % 4 else [[0, ntr]] for m in range(16)]
        yield dict(layout=lay, mods=list(range(16)), pat=pat, cuts=cuts, t='c', table=TABLES[i % 4], min=[1, 15, 16][i % 3],
                   header='A', n=2 * i + 1, frames=fr, full=1)


def runs(tier):
    """Run descriptions; shared with C14, C15"""
    yield from full_size()
    big = tier == 'thorough'
    c3, c2 = compositions(3), compositions(2)
    n = 0
    pats = []
    for p in patterns(2, 3):
        pats.append(([0, 11], p))
    for p in patterns(3, 2):
        pats.append(([2, 3, 15], p))
    if big:
        for p in patterns(3, 3, 'F-') + patterns(3, 3, 'F0'):
            pats.append(([0, 7, 10], p))
        for p in patterns(2, 4, 'F0-'):
            pats.append(([1, 12], p))
    for mods, p in pats:
        if not any('F' in x for x in p):
            continue
        ntr = len(p[0])
        comps = compositions(ntr)
        variants = range(4 if big else 1)
        for v in variants:
            n += 1
            lay, t, table, mn, hd, pad, *cx, fr = spread(n, len(LAY), 3, len(TABLES), 2, 3, 3, *[len(comps)] * len(mods), 5)
            yield dict(layout=LAY[lay], mods=mods, pat=p, cuts=[comps[c] for c in cx], t='cgh'[t], table=TABLES[table],
                       min=1 + mn, header='FAZ'[hd], n=n, pad=[[0, 0, 0, 0], [2, 0, 1, 1], [1, 1, 2, 0]][pad],
                       frames=[3, 3, 1, 2, 3][fr])


def cases(tier):
    for i, r in enumerate(runs(tier)):
        if tier == 'thorough' or 'full' in r or i % 2 == 0 or '-' in ''.join(r['pat']) and i % 4 == 1:
            yield r
    # the complete menu on a few runs
    for i, lay in enumerate(LAY):
        for p, cuts in ((['FFF', 'FFF'], [[[0, 3]], [[0, 3]]]), (['F-F', '0FF'], [[[0, 2], [2, 3]], [[0, 1], [1, 3]]])):
            for part in range(2 if tier != "thorough" else 4):
                yield dict(layout=lay, mods=[4, 13], pat=p, cuts=cuts, t='c', table=TABLES[i % 4], min=1, header='A', n=part,
                           menu=part)


def make(case, ctx):
    import karabo_data as kd
    from karabo_data import components
    tr = tids(case['t'], len(case['pat'][0]))
    specs = det_specs(case['layout'], case['mods'], case['pat'], tr, case['cuts'], header=case['header'],
                      hpat=case.get('hpat'), pad=case.get('pad'), frames=case.get('frames', N))
    d = ctx.dir()
    build(d, specs, make_getval(case['table']))
    model = DetModel(case['layout'], case['mods'], specs, case['table'], case['min'])
    model.frames = case.get('frames', N)
    run = kd.RunDirectory(d)
    cls = getattr(components, cls_name(case['layout']))
    cls = type('Small' + cls.__name__, (cls,), {'module_shape': (SS, FS)})
    try:
        det = cls(run, min_modules=case['min'])
    except ValueError as e:
        ctx.check(not model.trains, 'opening detector: %r, although trains %s have data', e, model.trains)
        return kd, model, None, d
    ctx.check(model.trains, 'detector opened without any train having data of %s modules', case['min'])
    ctx.check([int(t) for t in det.train_ids] == model.trains, 'detector has trains %s, expected %s', det.train_ids, model.trains)
    return kd, model, det, d


def selections(case, ctx, count=5):
    if 'full' in case:
        count = 2
    if 'menu' in case:
        return MENU[case['menu']::4]
    n = case['n']
    step = len(MENU) // count
    return [ALL] + [MENU[(n * 37 + i * step) % len(MENU)] for i in range(count if not ctx.thorough else count * 2)]


def refused(kd):
    """Selections of pulses which make no sense or are not supported"""
    for c in (kd.by_id, kd.by_index):
        for v in (-1, [0, -1], np.array([-3]), slice(-2, None), slice(0, -1), slice(-3, -1), slice(None, None, -1), slice(4, 0, -2), slice(None, None, 0),
                  slice(0.5, 2), slice('a', None)):
            yield '%s[%s]' % (c.__name__, v), c[v]
    for v in (0, slice(None), [0, 1], 'all', None, object()):
        yield '%r' % (v,), v


def run_case(case, ctx):
    kd, model, det, d = make(case, ctx)
    ctx.sample(case)
    if det is None:
        return
    if 'menu' in case or 'full' in case:
        for what, sel in refused(kd):
            ctx.step()
            try:
                a = det.get_array('image.data', pulses=sel)
            except Exception:
                continue
            ctx.fail('pulses %s were not refused, but gave pulses %s' % (what, a.coords['pulse'].values.tolist()))
        for key in ('image.nothing', 'nothing', 'header.nothing', 'image'):
            try:
                det.get_array(key)
            except Exception:
                continue
            ctx.fail('no error for key %s' % key)
    keys = sorted(k for k in model.coll.sel[model.src[model.here[0]]] if k.startswith('image.'))
    for i, sel in enumerate(selections(case, ctx)):
        for key in (keys if sel is ALL else ['image.data', keys[(i + case['n']) % len(keys)]][:1 + i % 2]):
            where = 'run %s: get_array(%s, %s):' % (model.coll.trains, key, sel)
            a = det.get_array(key) if sel is ALL and case['n'] % 2 else det.get_array(key, pulses=selector(kd, sel))
            ctx.step()
            ctx.trace()
            ctx.state(str(case), key, str(sel))
            exp = check_array(ctx, a, model, key, sel, where)
            if sel is ALL:
                tr = [int(x) for x in a.coords['train'].values]
                need = sorted({k[1] for k in exp})
                ctx.check(tr == need, '%s has trains %s, expected %s', where, tr, need)
            spoil(a)
    # per-train data
    key = 'header.magic'
    a = det.get_array(key)
    where = 'get_array(%s):' % key
    ctx.check(a.coords['module'].values.tolist() == model.here, '%s modules %s', where, a.coords['module'].values)
    tl = [int(x) for x in a.coords['trainId'].values]
    for i, m in enumerate(model.here):
        for t in model.trains:
            e = model.entry(m, key, t)
            if e is not None:
                ctx.check(t in tl and a.values[i, tl.index(t)] == e[0], '%s module %d train %d wrong', where, m, t)
            elif t in tl:
                v = a.values[i, tl.index(t)]
                ctx.check(np.isnan(v) if a.dtype.kind == 'f' else v == 0, '%s module %d train %d is %s without data', where, m, t, v)
    ctx.step()
