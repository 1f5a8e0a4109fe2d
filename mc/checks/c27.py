"""C27: opening detector interfaces"""
import itertools

import numpy as np

from ..det import *
from ..h5 import build
from ..space import tids, compositions, spread

LEVEL = 'model_checking'
RULE = ("all presence patterns of up to three modules and three trains x requested module sets x min_modules, next to "
        "other sources and a second detector; the modules, their numbers and the trains of the interface compared "
        "with what is recorded, and refusals with the stated conditions. State: distinct (run, request); transition: "
        "one interface opened.")
ASSUMPTIONS = []
MODS = [0, 1, 10]
OTHER = {'agipd_corr': 'SPB_IRDA_AGIPD1M-1', 'lpd_raw': 'FXE_DET_LPD1M-10', 'dssc_raw': 'SCS_DET_DSSC1M-2'}


def cases(tier):
    for lay in OTHER:
        for i, p in enumerate(patterns(3, 2) + (patterns(3, 3, 'F-') + patterns(2, 3))):
            if tier != 'thorough' and (i + 3 * list(OTHER).index(lay)) % 9:
                continue
            k = list(OTHER).index(lay) * 7 + i
            comps = compositions(len(p[0]))
            t, *cx = spread(k, 3, *[len(comps)] * len(p))
            yield dict(layout=lay, pat=p, cuts=[comps[c] for c in cx], t='cgh'[t])
    for lay in OTHER:
        for kind in ('two', 'foreign', 'none', 'frames', 'lookalike', 'selected'):
            yield dict(kind=kind, layout=lay)


def cls_of(components, lay):
    return getattr(components, cls_name(lay))


def run_case(case, ctx):
    import karabo_data as kd
    from karabo_data import components
    ctx.sample(case)
    if 'kind' in case:
        return special(case, ctx, kd, components)
    lay = case['layout']
    tr = tids(case['t'], len(case['pat'][0]))
    mods = MODS[:len(case['pat'])]
    specs = det_specs(lay, mods, case['pat'], tr, case['cuts'], header='A')
    d = ctx.dir()
    build(d, specs, make_getval('same'))
    run = kd.RunDirectory(d)
    cls = cls_of(components, lay)
    reqs = [None] + [list(c) for n in (1, 2, 3) for c in itertools.combinations(MODS, n)] + [[7], [0, 7], []]
    sels = [None] + ([slice(0, 1), slice(1, None), slice(0, None, 2)] if len(tr) > 1 else [])
    for sel in sels:
        coll = run if sel is None else run.select_trains(kd.by_index[sel])
        ctrains = tr if sel is None else tr[sel]
        for req in reqs:
            for mn in (1, 2, 3):
                for named in (False, True):
                    if named and (mn != 1 or req):
                        continue
                    one(ctx, case, cls, coll, specs, mods, req, mn, ctrains, lay, sel, named)


def one(ctx, case, cls, coll, specs, mods, req, mn, ctrains, lay, sel, named):
    model = DetModel(lay, mods, specs, 'same', mn, req)
    ts = set(ctrains)
    trains = [t for t in model.trains if t in ts]
    exist = [m for m in model.modules if any(model.src[m] in f.sources and f.tset & ts for f in model.files)]
    here = [m for m in exist if any(model.src[m] in f.sources and f.tset & set(trains) for f in model.files)]
    where = '%s %s, trains %s, modules=%s, min_modules=%s:' % (case['pat'], case['cuts'], sel, req, mn)
    kw = {}
    if named:
        kw['detector_name'] = LAYOUTS[lay][0]
    if req is not None:
        kw['modules'] = req if sum(req) % 2 else set(req)
    ctx.step()
    ctx.state(str(case), str(req), mn, str(sel), named)
    try:
        det = cls(coll, min_modules=mn, **kw)
    except Exception as e:
        from karabo_data.exceptions import SourceNameError
        if not exist:
            # no files of these modules: either kind of refusal
            ctx.check(isinstance(e, (SourceNameError, ValueError)), '%s refused with %r', where, e)
        else:
            ctx.check(not trains, '%s refused (%r), but trains %s have data', where, e, trains)
            ctx.check(isinstance(e, ValueError), '%s refused with %r', where, e)
        return
    ctx.trace()
    ctx.check(trains, '%s opened although no train has enough modules', where)
    ctx.check([int(t) for t in det.train_ids] == trains, '%s trains %s, expected %s', where, det.train_ids, trains)
    ctx.check(det.detector_name == LAYOUTS[lay][0], '%s name %s', where, det.detector_name)
    got = dict(det.modno_to_source)
    exp = {m: model.src[m] for m in here}
    # modules without a file for these trains may be named as well
    ctx.check(set(exp.items()) <= set(got.items()) <= {m: model.src[m] for m in exist}.items(),
              '%s modules %s, expected %s', where, got, exp)
    ctx.check(det.source_to_modno == {s: m for m, s in got.items()}, '%s source_to_modno %s', where, det.source_to_modno)
    ctx.check(int(det.frames_per_train) == N, '%s frames per train %s', where, det.frames_per_train)
    ctx.check(str(len(got)) in repr(det), '%s repr %r', where, det)


def expect_refusal(ctx, f, types, what):
    ctx.step()
    try:
        det = f()
    except types:
        ctx.trace()
    except Exception as e:
        ctx.fail('%s refused with %r' % (what, e))
    else:
        ctx.fail('%s accepted: %r, modules %s' % (what, det, det.modno_to_source))


def special(case, ctx, kd, components):
    from karabo_data.exceptions import SourceNameError
    lay, kind = case['layout'], case['kind']
    cls = cls_of(components, lay)
    full = ['FFF', 'F-F']
    tr = tids('g', 3)
    cuts = [[[0, 3]], [[0, 2], [2, 3]]]
    main = det_specs(lay, [0, 5], full, tr, cuts)
    d = ctx.dir()

    def renamed(specs, name, part='X'):
        out = []
        for s in specs:
            s = dict(s, name=s['name'].replace('-R0001-', '-R0001-%s' % part))
            s['src'] = [[src[0].replace(LAYOUTS[lay][0], name)] + src[1:] for src in s['src']]
            out.append(s)
        return out
    gv = make_getval('same')
    if kind == 'two':
        sec = renamed(det_specs(lay, [1, 2, 3], ['F-F', 'FF-', 'FFF'], tr, [[[0, 3]]] * 3, other=False), OTHER[lay])
        build(d, main + sec, gv)
        run = kd.RunDirectory(d)
        expect_refusal(ctx, lambda: cls(run), ValueError, 'two detectors')
        a, b = cls(run, LAYOUTS[lay][0]), cls(run, OTHER[lay])
        ctx.check(sorted(a.modno_to_source) == [0, 5] and sorted(b.modno_to_source) == [1, 2, 3], 'modules %s %s',
                  a.modno_to_source, b.modno_to_source)
        ctx.check(all(s.startswith(OTHER[lay] + '/') for s in b.source_to_modno), 'sources %s', b.source_to_modno)
        c = cls(run, detector_name=OTHER[lay], min_modules=3)
        ctx.check([int(t) for t in c.train_ids] == [tr[0]], 'trains %s', c.train_ids)
        # only one of them in the selection
        sel = run.select(OTHER[lay] + '/*')
        ctx.check(cls(sel).detector_name == OTHER[lay], 'detector of selection')
        ctx.check(cls(run.deselect(OTHER[lay] + '/*')).detector_name == LAYOUTS[lay][0], 'detector of deselection')
        expect_refusal(ctx, lambda: cls(sel, LAYOUTS[lay][0]), SourceNameError, 'detector not selected')
        ctx.step(5)
        # names which contain each other
        for name in ('A' + LAYOUTS[lay][0], 'A_' + LAYOUTS[lay][0], LAYOUTS[lay][0] + '0', LAYOUTS[lay][0].lower() + '_' + LAYOUTS[lay][0]):
            d2 = ctx.dir()
            build(d2, main + renamed(det_specs(lay, [1, 2], ['F-F', 'FFF'], tr, [[[0, 3]]] * 2, other=False), name), gv)
            run = kd.RunDirectory(d2)
            expect_refusal(ctx, lambda: cls(run), ValueError, 'two detectors')
            for n, mods in ((LAYOUTS[lay][0], [0, 5]), (name, [1, 2])):
                det = cls(run, detector_name=n)
                ctx.check(det.modno_to_source == {m: '%s/DET/%dCH0:xtdf' % (n, m) for m in mods}, '%s beside %s has modules %s', n, name,
                          det.modno_to_source)
                ctx.step()
    elif kind == 'foreign':
        build(d, main, gv)
        run = kd.RunDirectory(d)
        for c in (components.AGIPD1M, components.LPD1M, components.DSSC1M):
            if c is not cls:
                expect_refusal(ctx, lambda: c(run), SourceNameError, '%s data as %s' % (lay, c.__name__))
        expect_refusal(ctx, lambda: cls(run, 'NO_DET'), SourceNameError, 'unknown detector name')
        expect_refusal(ctx, lambda: cls(run, LAYOUTS[lay][0][:-1]), SourceNameError, 'prefix of detector name')
        expect_refusal(ctx, lambda: cls(run, LAYOUTS[lay][0].replace('_', '.')), SourceNameError, 'name with dots')
    elif kind == 'none':
        build(d, det_specs(lay, [], [], tr, []), gv)
        run = kd.RunDirectory(d)
        expect_refusal(ctx, lambda: cls(run), SourceNameError, 'no detector')
        d2 = ctx.dir()
        build(d2, det_specs(lay, [0, 5], ['000', '0-0'], tr, cuts), gv)
        expect_refusal(ctx, lambda: cls(kd.RunDirectory(d2)), ValueError, 'no frames')
        expect_refusal(ctx, lambda: cls(kd.RunDirectory(d2), min_modules=0), ValueError, 'no frames, min_modules=0')
    elif kind == 'frames':
        for n, pats in enumerate((['FFF', 'FFF'], ['F0-', '-F0'])):
            for where in (0, 1):
                d2 = ctx.dir()
                specs = det_specs(lay, [0, 5], pats, tr, cuts)
                # one train of one module with another number of frames
                hit = [s for s in specs if any('/DET/%dCH' % (0, 5)[where] in x[0] for x in s['src'])][0]
                g = hit['src'][0][2]['image']
                j = max(i for i, c in enumerate(g[0]) if c) if any(g[0]) else None
                if j is None:
                    continue
                g[0] = list(g[0])
                g[0][j] = 2
                build(d2, specs, gv)
                run = kd.RunDirectory(d2)
                expect_refusal(ctx, lambda: cls(run), ValueError, 'inconsistent frame counts')
                # the other module alone is fine
                det = cls(run, modules=[(5, 0)[where]])
                ctx.check(sorted(det.modno_to_source) == [(5, 0)[where]], 'modules %s', det.modno_to_source)
    elif kind == 'lookalike':
        extra = dict(name='RAW-R0001-DA05-S00000.h5', trains=tr, src=[
            [LAYOUTS[lay][0] + '/DET/STATS', 'C', {'': [None, {'p.value': ['f8', []]}]}],
            [LAYOUTS[lay][0] + '/FPGA/3CH0:xtdf', 'I', {'image': [[N] * 3, {'image.data': ['f4', [2]]}]}],
            ['X' + LAYOUTS[lay][0][:3] + '_OTHER/DET/3CH0:xtdf', 'I', {'image': [[N] * 3, {'image.data': ['f4', [2]]}]}]])
        build(d, main + [extra], gv)
        det = cls(kd.RunDirectory(d))
        ctx.check(sorted(det.modno_to_source) == [0, 5], 'modules %s', det.modno_to_source)
        ctx.check([int(t) for t in det.train_ids] == tr, 'trains %s', det.train_ids)
        ctx.step()
    elif kind == 'selected':
        build(d, main, gv)
        run = kd.RunDirectory(d)
        det = cls(run.select('*/DET/5CH*', 'image.*'))
        ctx.check(sorted(det.modno_to_source) == [5] and [int(t) for t in det.train_ids] == [tr[0], tr[2]],
                  'selected module 5: %s, %s', det.modno_to_source, det.train_ids)
        for t, data in det.trains():
            ctx.check(all(k.startswith('image.') for k in data), 'keys %s', sorted(data))
        det = cls(run.select_trains(kd.by_id[[tr[1]]]))
        ctx.check([int(t) for t in det.train_ids] == [tr[1]], 'trains %s', det.train_ids)
        ctx.step(2)
    ctx.state(str(case))
