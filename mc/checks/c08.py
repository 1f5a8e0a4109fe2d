"""C08: unions and source conflicts"""
import itertools
import os

import numpy as np

from .. import observe as ob, orders
from ..h5 import build, Coll, same, brief
from ..space import *
from .. import wide

LEVEL = 'model_checking'
RULE = ("all pairs (and triples) of files over every overlap of trains and sources, operands derived by "
        "select / deselect / select_trains, joined in all orders and groupings; every reading of the result "
        "compared with the operands' data and with what is recorded. State: distinct (files, derivations); "
        "transition: one union call.")
ASSUMPTIONS = ["a source has the same keys in all files"]

X, Y = INSTA, CTRL
KX = {'data.a': ['i4', []], 'data.b': ['u2', [2]]}
KY = {'p.value': ['f8', []], 'q.value': ['f4', []]}
TSETS = [[0, 1, 2], [0], [1], [2], [0, 1], [1, 2], [0, 2]]
SSETS = ['XY', 'X', 'Y']
OPS = ['none', 'selXa', 'selY', 'first', 'last', 'deselXb', 'selXa+first']


def fspec(i, ti, si, base=10000):
    tr = [base + t for t in TSETS[ti]]
    src = []
    if 'X' in SSETS[si]:
        src.append([X, 'I', {'data': [[(t + 1) % 3 for t in tr], KX]}])
    if 'Y' in SSETS[si]:
        src.append([Y, 'C', {'': [None, KY]}])
    return dict(name='RAW-R0001-DA%02d-S00000.h5' % i, trains=tr, src=src)


def cases(tier):
    big = tier == 'thorough'
    yield from wide.cases()
    for a in itertools.product(range(7), range(3)):
        for b in itertools.product(range(7), range(3)):
            if a > b:
                continue
            yield dict(files=[a, b])
    tri = [(t, s) for t in ((1, 2, 3, 4, 5, 6) if big else (1, 3, 4, 5)) for s in range(3)]
    for i, tr in enumerate(itertools.combinations_with_replacement(tri, 3)):
        if big or i % 3 == 0:
            yield dict(files=[list(x) for x in tr])


def derive(kd, dc, m, op):
    """-> (collection, model) or None if not applicable"""
    for o in op.split('+'):
        if o == 'selXa':
            if X not in m.sel or 'data.a' not in m.sel[X]:
                return None
            dc, m = dc.select(X, 'data.a'), Coll(m.files, {X: {'data.a'}}, m.trains)
        elif o == 'selY':
            if Y not in m.sel:
                return None
            dc, m = dc.select({Y: {'p.value'}}), Coll(m.files, {Y: {'p.value'}}, m.trains)
        elif o == 'deselXb':
            if X not in m.sel or 'data.b' not in m.sel[X]:
                return None
            sel = {s: set(k) for s, k in m.sel.items()}
            sel[X].discard('data.b')
            dc, m = dc.deselect(X, 'data.b'), Coll(m.files, sel, m.trains)
        elif o == 'first':
            dc, m = dc.select_trains(kd.by_index[:1]), Coll(m.files, m.sel, m.trains[:1])
        elif o == 'last':
            dc, m = dc.select_trains(kd.by_id[[m.trains[-1]]]), Coll(m.files, m.sel, m.trains[-1:])
    return dc, m


def conflict(fms):
    """Names of sources recorded twice for a train in different files"""
    bad = set()
    for f, g in itertools.combinations(fms, 2):
        if f.tset & g.tset:
            bad |= f.sources & g.sources
    return bad


def uniq(ms):
    out = []
    for m in ms:
        for f in m.files:
            if f not in out:
                out.append(f)
    return out


def check_union(ctx, u, ms, where):
    files = uniq(ms)
    trains = sorted(set().union(*[m.trains for m in ms]))
    sel = {}
    for m in ms:
        for s, k in m.sel.items():
            sel.setdefault(s, set()).update(k)
    truth = Coll(files, sel, trains)
    got = [int(t) for t in u.train_ids]
    ctx.check(got == trains, '%s trains %s, expected %s', where, got, trains)
    must = set().union(*[m.must() for m in ms])
    srcs = set(u.all_sources)
    ctx.check(must <= srcs <= set(sel), '%s sources %s, expected %s', where, srcs, must)
    for s in srcs:
        ctx.check(set(u.keys_for_source(s)) == sel[s], '%s keys of %s are %s, expected %s', where, s,
                  sorted(u.keys_for_source(s)), sorted(sel[s]))
    # (source, key, train) triples that the operands hold
    held = {(s, k, t) for m in ms for s in m.sel for k in m.sel[s] for t in m.trains if m.entry(s, k, t) is not None}

    def judge(kind, got):
        """got: {(s, k, t): value with leading entries axis removed for single entries}"""
        missing = held - set(got)
        ctx.check(not missing, '%s %s: operands hold data for %s, which is missing', where, kind, sorted(missing)[:3])
        for (s, k, t), v in got.items():
            e = truth.entry(s, k, t)
            ctx.check(e is not None, '%s %s: data for %s although none was recorded', where, kind, (s, k, t))
            e = e[0] if len(e) == 1 else e
            ctx.check(same(v, e), '%s %s: %s is %s, expected %s', where, kind, (s, k, t), brief(v), brief(e))

    got = {}
    for t in trains:
        _, res = u.train_from_id(t)
        got.update({(s, k, t): v for s, d in res.items() for k, v in d.items() if k != 'metadata'})
    judge('train_from_id', got)
    got2, order = {}, []
    for t, res in u.trains():
        order.append(t)
        got2.update({(s, k, t): v for s, d in res.items() for k, v in d.items() if k != 'metadata'})
    ctx.check(order == trains, '%s trains() visits %s, expected %s', where, order, trains)
    judge('trains()', got2)
    ctx.check(set(got) == set(got2), '%s trains() and train_from_id() differ in %s', where, sorted(set(got) ^ set(got2))[:3])
    arr = {}
    for s in srcs:
        for k in sel[s]:
            a = u.get_array(s, k)
            tids_ = a.coords['trainId'].values.tolist() if len(a) else []
            for t in sorted(set(tids_)):
                v = a.values[[i for i, x in enumerate(tids_) if x == t]]
                arr[s, k, t] = v[0] if len(v) == 1 else v
    judge('get_array', arr)


def run_wide(case, ctx):
    import karabo_data as kd
    d, run, m = wide.open_run(ctx, case['wide'])
    ctx.sample(case)
    opened = [(kd.H5File(os.path.join(d, f.spec['name'])), Coll([f])) for f in m.files]
    ctx.state(str(case))
    for parts in (opened, opened[::-1], opened[::2] + opened[1::2]):
        u = parts[0][0].union(*[x[0] for x in parts[1:]])
        check_union(ctx, u, [x[1] for x in parts], '%d files:' % len(parts))
        ctx.step()
    u = opened[0][0]
    for x in opened[1:]:
        u = u.union(x[0])
        ctx.step()
    check_union(ctx, u, [x[1] for x in opened], 'one by one:')
    # the parts of a run by sources and trains
    sub = [s for i, s in enumerate(sorted(m.sel)) if i % 2]
    if sub:
        a, b = run.select({s: set() for s in sub}), run.select_trains(kd.by_index[:1])
        u = a.union(b)
        check_union(ctx, u, [Coll(m.files, {s: m.sel[s] for s in sub}, m.trains), Coll(m.files, m.sel, m.trains[:1])], 'parts:')
    # a conflict among many
    os.mkdir(os.path.join(d, 'more'))
    last = m.files[-1].spec
    build(os.path.join(d, 'more'), [dict(last, trains=last['trains'][-1:], src=[[s, k, slice_groups(g, [len(last['trains']) - 1])] for s, k, g in last['src'][-1:]])])
    try:
        run.union(kd.H5File(os.path.join(d, 'more', last['name'])))
    except ValueError as e:
        ctx.check(last['src'][-1][0] in str(e), 'conflict error %r does not name %s', str(e), last['src'][-1][0])
    else:
        ctx.fail('%s recorded twice for a train, but was joined' % last['src'][-1][0])
    ctx.trace()


def run_case(case, ctx):
    if 'wide' in case:
        return run_wide(case, ctx)
    import karabo_data as kd
    specs = [fspec(i, t, s) for i, (t, s) in enumerate(case['files'])]
    d = ctx.dir()
    paths = build(d, specs)
    fms = models(specs)
    ctx.sample(case)
    n = len(specs)
    opened = [(kd.H5File(p), Coll([f])) for p, f in zip(paths, fms)]
    bad = conflict(fms)
    # opening all of them as one run, in every order of the directory
    names = [s['name'] for s in specs]
    for i, order in enumerate(itertools.permutations(names)):
        ctx.step()
        try:
            with orders.listing(d, list(order)):
                run = kd.RunDirectory(d)
        except ValueError as e:
            ctx.check(bad, 'opening a run without conflicting data (listed as %s) raised %r', order, e)
            ctx.check(all(s in str(e) for s in bad), 'conflict error %r does not name %s', str(e), bad)
        else:
            ctx.check(not bad, 'sources %s have conflicting data, but the run (listed as %s) was opened', sorted(bad), order)
            # arrays of files recorded alternately are not in train order, which check_union doesn't mind
            check_union(ctx, run, [Coll(fms)], 'run:')
            if i < 2:
                ob.everything(run, Coll(fms), 'run', arrays=False)
        cache = os.path.join(d, 'karabo_data_map.json')
        if i % 2 and os.path.exists(cache):
            os.unlink(cache)
    if n == 2:
        combos = itertools.product(OPS, OPS)
        if not ctx.thorough:
            k = sum(sum(f) for f in case['files'])
            combos = [(a, b) for i, (a, b) in enumerate(combos) if i % 3 == k % 3 or 'none' in (a, b)]
    else:
        combos = [('none',) * 3, ('first', 'none', 'last'), ('selXa', 'none', 'none'), ('none', 'selY', 'first'),
                  ('none', 'last', 'deselXb')]
    for combo in combos:
        ops_ = [derive(kd, dc, m, o) for (dc, m), o in zip(opened, combo)]
        if any(o is None for o in ops_):
            continue
        dcs = [o[0] for o in ops_]
        ms = [o[1] for o in ops_]
        ctx.state(str(case), combo)
        if n == 2:
            exprs = [('a|b', lambda: dcs[0].union(dcs[1])), ('b|a', lambda: dcs[1].union(dcs[0])),
                     ('a|b|b', lambda: dcs[0].union(dcs[1], dcs[1])), ('(a|b)|a', lambda: dcs[0].union(dcs[1]).union(dcs[0]))]
            if not ctx.thorough:
                exprs = exprs[:2] if len(combo[0]) % 2 else exprs[2:] + exprs[:1]
        else:
            exprs = [('u%s' % (p,), lambda p=p: dcs[p[0]].union(dcs[p[1]], dcs[p[2]])) for p in itertools.permutations(range(3))]
            exprs += [('(%d|%d)|%d' % p, lambda p=p: dcs[p[0]].union(dcs[p[1]]).union(dcs[p[2]])) for p in itertools.permutations(range(3))]
            exprs += [('%d|(%d|%d)' % p, lambda p=p: dcs[p[0]].union(dcs[p[1]].union(dcs[p[2]]))) for p in itertools.permutations(range(3))]
            if not ctx.thorough:
                exprs = exprs[::5]
        perms = list(itertools.permutations(names))
        for k, (name, f) in enumerate(exprs):
          # collections gather files in sets: every order in which these can iterate
          for perm in (perms if n == 2 or ctx.thorough else perms[k % 2::2] if combo == combos[0] else perms[k % 6:k % 6 + 1]):
            ctx.step()
            where = '%s of %s (files in order %s):' % (name, list(zip(combo, names)), perm)
            try:
                with orders.file_sets([x for dc, _ in opened for x in dc.files], perm):
                    u = f()
            except ValueError as e:
                ctx.check(bad, '%s raised %r without conflicting data', where, e)
                ctx.check(n == 3 or all(s in str(e) for s in bad), '%s conflict error %r does not name %s', where, str(e), bad)
                ctx.check(any(s in str(e) for s in bad), '%s conflict error %r names none of %s', where, str(e), bad)
                continue
            ctx.check(not bad, '%s sources %s are recorded twice for a train, but were joined', where, sorted(bad))
            check_union(ctx, u, ms, where)
        # operands are unchanged
        for dc, m in ops_:
            ob.everything(dc, m, 'operand after union', arrays=False)
        ctx.trace()
    # files of different directories may have the same name (a run's number starts again in each proposal)
    alike = []
    for i, (p, m) in enumerate(zip(paths, fms)):
        os.mkdir(os.path.join(d, str(i)))
        q = os.path.join(d, str(i), names[0])
        os.link(p, q)
        alike.append((kd.H5File(q), Coll([m])))
    for perm in itertools.permutations(range(n)):
        ctx.step()
        where = 'union of equally named files in order %s:' % (perm,)
        try:
            u = alike[perm[0]][0].union(*[alike[i][0] for i in perm[1:]])
        except ValueError as e:
            ctx.check(bad, '%s raised %r without conflicting data', where, e)
            continue
        ctx.check(not bad, '%s sources %s are recorded twice for a train, but were joined', where, sorted(bad))
        check_union(ctx, u, [m for _, m in alike], where)
    # the same file opened twice is not a conflict; and a collection joined with a part of itself
    for (dc, m), p in zip(opened, paths):
        again = kd.H5File(p)
        check_union(ctx, dc.union(again), [m, m], 'same file twice:')
        part = derive(kd, again, m, 'first')
        check_union(ctx, dc.union(part[0]), [m, part[1]], 'file and part of it:')
        check_union(ctx, part[0].union(dc), [m, part[1]], 'part of file and file:')
        ctx.step(3)
