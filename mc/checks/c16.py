"""C16: stacking detector data"""
import itertools

import numpy as np

LEVEL = 'model_checking'
RULE = ("all combinations of state per module (absent, key absent, no frames, data) for three modules x array shapes x "
        "stacking axes x dtypes x fill values, real array and copy-free view; on the view all sequences of two "
        "accesses from the complete alphabet of index tuples, and accesses to the views these return, compared with "
        "numpy indexing of an independently built array; every kind of invalid input; general stacking for all orders "
        "of the sources. State: distinct (stack, access sequence); transition: one stacking or access.")
CASE_TIMEOUT = 300
ASSUMPTIONS = ["a view is indexed with integers, slices and ellipsis, taking one or all modules"]
SHAPES = [(2,), (2, 3), (1, 2, 3), (2, 1, 2, 3)]
DTYPES = ['f4', 'u2', 'i4', 'f8', 'u1', 'i8', 'u4', 'u8', 'bool', 'c8']
NAME = 'SPB_DET_AGIPD1M-1/DET/%dCH0:xtdf'


def mod(modno, shape, dtype):
    n = int(np.prod(shape))
    a = np.arange(1, n + 1) + modno * 40
    if np.dtype(dtype).kind == 'b':
        a = (a * 7 + modno) % 3 == 0
    return a.astype(dtype).reshape(shape)


def default_fill(dtype):
    return np.nan if np.dtype(dtype).kind in 'fc' else 0


def train_of(states, mods, shape, dtype, order):
    tr = {}
    items = list(zip(mods, states))
    if order:
        items = items[::-1]
    for m, s in items:
        if s == 'a':
            continue
        d = {'metadata': {}, 'image.other': np.zeros(3)}
        if s == '0':
            d['image.data'] = np.zeros((0,) + shape[1:], dtype=dtype)
        elif s == 'D':
            d['image.data'] = mod(m, shape, dtype)
        tr[NAME % m] = d
    return tr


def reference(states, mods, shape, dtype, nmod, axis, fill):
    ax = axis + len(shape) + 1 if axis < 0 else axis
    if 'D' not in states:
        shape = (0,) + shape[1:]
    out = np.empty(shape[:ax] + (nmod,) + shape[ax:], dtype=dtype)
    out[...] = fill
    for m, s in zip(mods, states):
        if s == 'D':
            out[(slice(None),) * ax + (m,)] = mod(m, shape, dtype)
    return out


def cases(tier):
    big = tier == 'thorough'
    n = 0
    for si, shape in enumerate(SHAPES):
        for states in itertools.product('ak0D', repeat=3):
            n += 1
            if not set(states) & {'0', 'D'}:
                continue
            for v in range(len(DTYPES) if big else 2):
                yield dict(shape=shape, states=''.join(states), mods=[[0, 1, 2], [0, 2, 3], [1, 2, 10], [13, 14, 15]][(n + v) % 4],
                           dtype=DTYPES[(n + v * 3) % len(DTYPES)], order=n % 2)
    for shape in SHAPES:
        for states in ['DaD', 'aDD', '0kD', 'DDD']:
            for axis in range(len(shape) + 1):
                parts = 1 if len(shape) < 3 else (8 if big else 2)
                for part in range(parts):
                    yield dict(kind='access', shape=shape, states=states, axis=axis - (len(shape) + 1) * (axis % 2), part=[part, parts])
    yield dict(kind='errors')
    yield dict(kind='general')


def index_alphabet(dim, small):
    out = [slice(None), 0, -1, slice(0, 1)]
    if not small:
        out += [slice(None, None, -1), slice(1, None), slice(0, 0)]
    return out


def indices(shape, ax, small):
    """Index tuples for an array with the module axis at ax"""
    per = []
    for i, d in enumerate(shape):
        if i == ax:
            per.append([slice(None)] + list(range(-d, d)))
        else:
            per.append(index_alphabet(d, small))
    yield Ellipsis
    for k in range(1, len(shape) + 1):
        # a short tuple leaves out the last dimensions; with an ellipsis, dimensions in the middle
        for t in itertools.product(*per[:k]):
            yield t
        for cut in range(k + 1):
            if k == len(shape) and cut not in (0, k):
                continue
            for t in itertools.product(*(per[:cut] + per[len(shape) - (k - cut):])):
                if k > 2 and sum(isinstance(x, int) for x in t) > 2:
                    continue
                yield t[:cut] + (Ellipsis,) + t[cut:]


def same(ctx, got, exp, what):
    if isinstance(got, np.ndarray) or np.isscalar(got):
        arr = np.asarray(got)
    else:
        ctx.check(tuple(got.shape) == exp.shape and got.ndim == exp.ndim, '%s: view has shape %s (ndim %s), expected %s', what,
                  got.shape, got.ndim, exp.shape)
        ctx.check(got.dtype == exp.dtype, '%s: view has dtype %s', what, got.dtype)
        arr = got.asarray()
    ctx.check(arr.shape == exp.shape, '%s: shape %s, expected %s', what, arr.shape, exp.shape)
    ctx.check(arr.dtype == exp.dtype, '%s: dtype %s, expected %s', what, arr.dtype, exp.dtype)
    ok = (arr == exp) | ((arr != arr) & (exp != exp))
    ctx.check(bool(np.all(ok)), '%s: %s, expected %s', what, arr.tolist(), exp.tolist())


def run_case(case, ctx):
    import karabo_data as kd
    ctx.sample(case)
    if 'kind' in case:
        return globals()['do_' + case['kind']](case, ctx, kd)
    shape, states, mods, dtype = tuple(case['shape']), case['states'], case['mods'], case['dtype']
    tr = train_of(states, mods, shape, dtype, case['order'])
    before = {s: {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()} for s, d in tr.items()}
    withdata = [m for m, s in zip(mods, states) if s in '0D']
    for nmod in {max(mods) + 1, 16}:
        kept = []
        for axis in range(-len(shape) - 1, len(shape) + 1):
            for fi, fill in enumerate(('default', 0, 1, np.nan)):
                if fill is np.nan and np.dtype(dtype).kind not in 'fc':
                    continue
                f = default_fill(dtype) if isinstance(fill, str) else fill
                exp = reference(states, mods, shape, dtype, nmod, axis, f)
                for real in (True, False):
                    kw = {} if isinstance(fill, str) else {'fillvalue': fill}
                    if nmod != 16:
                        kw['modules'] = nmod
                    if axis != -3:
                        kw['axis'] = axis
                    if not real:
                        kw['real_array'] = False
                    got = kd.stack_detector_data(tr, 'image.data', **kw)
                    ctx.step()
                    ctx.trace()
                    what = 'stack_detector_data(%s)' % kw
                    if real:
                        ctx.check(isinstance(got, np.ndarray), '%s returned %s', what, type(got))
                    same(ctx, got, exp, what)
                    if not real:
                        ax = axis if axis >= 0 else axis + exp.ndim
                        for m in range(nmod):
                            t = (slice(None),) * ax + (m,)
                            same(ctx, got[t], exp[t], '%s module %d' % (what, m))
                    kept.append((got, exp, what))
                    ctx.state(str(case), nmod, axis, fi, real)
        # earlier ones are as before
        for got, exp, what in kept:
            same(ctx, got, exp, what + ' kept while others were made')
    for s, d in tr.items():
        for k, v in d.items():
            if isinstance(v, np.ndarray):
                ctx.check(v.dtype == before[s][k].dtype and np.array_equal(v, before[s][k]), 'input %s %s was changed', s, k)


def do_access(case, ctx, kd):
    shape, states, axis = tuple(case['shape']), case['states'], case['axis']
    mods = [0, 1, 2]
    ax = axis if axis >= 0 else axis + len(shape) + 1
    exp = reference(states, mods, shape, 'f4', 3, axis, np.nan)
    small = len(shape) > 2 and not ctx.thorough
    idx = list(indices(exp.shape, ax, small))
    tr = train_of(states, mods, shape, 'f4', 0)

    def fresh():
        return kd.stack_detector_data(tr, 'image.data', axis=axis, modules=3, real_array=False)
    # every single access, and every access to what it returns
    part, parts = case['part']
    for n, i in enumerate(idx):
        if n % parts != part:
            continue
        v = fresh()
        e1 = exp[i]
        g1 = v[i]
        same(ctx, g1, e1, 'view[%s] of %s' % (i, exp.shape))
        ctx.step()
        ctx.trace()
        ctx.state(str(case), str(i))
        if not isinstance(g1, np.ndarray) and not np.isscalar(g1):
            # where is the module axis now?
            t = i if isinstance(i, tuple) else (i,)
            if Ellipsis in t:
                p = t.index(Ellipsis)
                t = t[:p] + (slice(None),) * (exp.ndim - len(t) + 1) + t[p + 1:]
            t += (slice(None),) * (exp.ndim - len(t))
            nax = sum(1 for x in t[:ax] if not isinstance(x, int))
            idx2 = list(indices(e1.shape, nax, True))
            for m, j in enumerate(idx2):
                if len(shape) > 2 and (m + n) % (17 if ctx.thorough else 53):
                    continue
                try:
                    e2 = e1[j]
                except IndexError:      # a dimension of no length
                    continue
                same(ctx, g1[j], e2, 'view[%s][%s] of %s' % (i, j, exp.shape))
                ctx.step()
        # afterwards the view is unchanged
        same(ctx, v, exp, 'view after [%s]' % (i,))
    # sequences of accesses to one view
    sub = idx if len(idx) < 120 else idx[::max(1, len(idx) // (200 if ctx.thorough else 40))]
    for i, j in itertools.product(sub[part::parts], sub):
        v = fresh()
        a = v[i]
        same(ctx, v[j], exp[j], 'view[%s] after [%s]' % (j, i))
        same(ctx, a, exp[i], 'view[%s] after [%s]' % (i, j))
        ctx.step(2)
        ctx.state(str(case), str(i), str(j))
    # out of range
    for bad in (3, 4, -4, -5, 100):
        for before in (None, Ellipsis, 0):
            v = fresh()
            if before is not None:
                v[(slice(None),) * ax + (before,)] if before == 0 else v[before]
            t = (slice(None),) * ax + (bad,)
            refused(ctx, lambda: v[t], IndexError, 'module %d of 3' % bad)
            same(ctx, v, exp, 'view after asking for module %d' % bad)
    # other ways to index modules may be refused, but not give anything else
    for odd in (slice(0, 2), slice(1, None), slice(None, None, -1), slice(None, None, 2), [0, 2], np.int64(1), np.array([2, 1]), np.array([True, False, True]), 1.0, '0'):
        v = fresh()
        t = (slice(None),) * ax + (odd,)
        try:
            got = v[t]
        except Exception:
            ctx.step()
        else:
            try:
                e = exp[t]
            except IndexError:
                ctx.fail('view[%s] gave %r' % (t, got))
            same(ctx, got, e, 'view[%s]' % (t,))
        same(ctx, v, exp, 'view after [%s]' % (t,))


def refused(ctx, f, types, what):
    ctx.step()
    try:
        r = f()
    except types:
        ctx.trace()
    except Exception as e:
        ctx.fail('%s: raised %r, expected %s' % (what, e, types))
    else:
        ctx.fail('%s: returned %r instead of an error' % (what, r))


def do_errors(case, ctx, kd):
    st = kd.stack_detector_data
    for real in (True, False):
        refused(ctx, lambda: st({}, 'image.data', real_array=real), ValueError, 'no data')
        for shape in SHAPES:
            for dtype in ('f4', 'u2'):
                full = train_of('DDD', [0, 1, 15], shape, dtype, 0)
                names = list(full)
                refused(ctx, lambda: st(full, 'image.nothing', real_array=real), Exception, 'no module has the key')
                for k in range(3):
                    # each module in turn made wrong
                    def broken(**kw):
                        out = {s: dict(d) for s, d in full.items()}
                        out[names[k]].update(kw)
                        return out
                    good = full[names[k]]['image.data']
                    for other in ('f8', 'i2', 'u4'):
                        t = broken(**{'image.data': good.astype(other)})
                        refused(ctx, lambda: st(t, 'image.data', real_array=real), ValueError, 'mismatched dtype')
                    shapes = [shape + (1,), shape[:-1] + (shape[-1] + 1,), shape[:-1] + (7,), (shape[0] + 2,) + shape[1:],
                              (0,) + shape[1:] + (2,)]
                    if len(shape) > 1:
                        shapes += [(0,) + shape[1:-1] + (shape[-1] + 1,), shape[:-1] + (0,), shape[1:]]
                    for s in shapes:
                        t = broken(**{'image.data': np.ones(s, dtype=dtype)})
                        refused(ctx, lambda: st(t, 'image.data', real_array=real), ValueError, 'mismatched shape %s / %s' % (s, shape))
                    # mixtures of three shapes
                    t = broken(**{'image.data': np.ones((0,) + shape[1:], dtype=dtype)})
                    t[names[(k + 1) % 3]]['image.data'] = np.ones((shape[0] + 1,) + shape[1:], dtype=dtype)
                    refused(ctx, lambda: st(t, 'image.data', real_array=real), ValueError, 'three shapes')
                    for mod_n in (1, 2, 8, 15):
                        refused(ctx, lambda: st(full, 'image.data', modules=mod_n, real_array=real), IndexError,
                                'module 15 of %d' % mod_n)
                    refused(ctx, lambda: st(train_of('DDD', [0, 1, 16], shape, dtype, k % 2), 'image.data', real_array=real),
                            IndexError, 'module 16 of 16')
                    for bad in ('SPB_XTD9_XGM/DOOCS/MAIN', 'SPB_DET_AGIPD1M-1/DET/CH0:xtdf', 'SPB_DET_AGIPD1M-1/DETX/3:xtdf'):
                        t = broken()
                        t[bad] = dict(t[names[k]])
                        refused(ctx, lambda: st(t, 'image.data', real_array=real), ValueError, 'source %s' % bad)
                for axis in (len(shape) + 1, len(shape) + 2, -len(shape) - 2, -len(shape) - 3):
                    refused(ctx, lambda: st(full, 'image.data', axis=axis, real_array=real), (ValueError, IndexError),
                            'axis %d for %s' % (axis, shape))
                # these are fine
                for extra in ('SPB_DET_AGIPD1M-1/DET/7CH0:xtdf', 'X/DET/7CH1', 'FXE_DET_LPD1M-1/DET/7CH0:xtdf'):
                    t = {s: dict(d) for s, d in full.items()}
                    t[extra] = {'image.data': mod(7, shape, dtype)}
                    got = st(t, 'image.data', axis=0, real_array=real)
                    same(ctx, got, reference('DDDD', [0, 1, 15, 7], shape, dtype, 16, 0, default_fill(dtype)), 'stack with %s' % extra)
                    ctx.state(shape, dtype, extra, real)


def numbers(name):
    out, cur = [], ''
    for c in name + ' ':
        if c in '0123456789':
            cur += c
        elif cur:
            out.append(int(cur))
            cur = ''
    return out


def do_general(case, ctx, kd):
    sets = [['B_7_0', 'A_12_0', 'A_12_1', 'Z1/1'], ['A2', 'B10', 'A1', 'B9'], ['x/10ch0:y', 'x/9ch0:y', 'x/9ch1:y', 'a/100ch0:y'],
            ['D00/20', 'D0/3', 'D1/1', 'C01/2'], ['a', 'q1', 'b0'], ['M10', 'M9x', 'M9x1'], ['only']]
    for names in sets:
        for order in itertools.permutations(names):
            for xn in range(len(names)):
                for xcept in itertools.combinations(names, xn):
                    for shape, dtype in (((2, 3), 'f4'), ((2,), 'u2'), ((), 'i8'), ((1, 2, 2), 'f8')):
                        tr = {s: {'data.x': mod(sorted(names).index(s), shape, dtype) if shape else np.dtype(dtype).type(sorted(names).index(s)),
                                  'data.y': 0} for s in order}
                        for s in xcept:
                            tr[s] = {'other': 1}
                        axes = range(-len(shape) - 1, len(shape) + 1) if xn == 0 and order == tuple(names) else [0]
                        for axis in axes:
                            keep = sorted((s for s in names if s not in xcept), key=numbers)
                            arrs = [tr[s]['data.x'] for s in keep]
                            ax = axis if axis >= 0 else axis + len(shape) + 1
                            exp = np.empty(shape[:ax] + (len(keep),) + shape[ax:], dtype=dtype)
                            for n, a in enumerate(arrs):
                                exp[(slice(None),) * ax + (n,)] = a
                            kw = dict(axis=axis)
                            if axis == -3:
                                kw = {}
                            xc = [list, tuple, set][len(names) % 3](xcept)
                            got = kd.stack_data(tr, 'data.x', xcept=xc, **kw) if xcept else kd.stack_data(tr, 'data.x', **kw)
                            same(ctx, got, exp, 'stack_data of %s except %s, axis %d' % (order, xcept, axis))
                            ctx.step()
                            ctx.trace()
                        ctx.state(str(order), str(xcept), str(shape))
        tr = {s: {'data.x': np.ones((1, 2, 3))} for s in names}
        refused(ctx, lambda: kd.stack_data(tr, 'data.x', xcept=names), ValueError, 'all sources left out')
        refused(ctx, lambda: kd.stack_data({}, 'data.x'), ValueError, 'empty train')
        for axis in (4, 5, -5):
            refused(ctx, lambda: kd.stack_data(tr, 'data.x', axis=axis), Exception, 'axis %d' % axis)
        if len(names) > 1:
            for s in names:
                for bad in (np.ones((1, 2, 3), dtype='f4'), np.ones((1, 2, 4)), np.ones((1, 3, 3)), np.ones((2, 3)), np.ones((0, 2, 3)),
                            np.ones((2, 2, 3)), np.ones((1, 1, 3))):
                    t = dict(tr)
                    t[s] = {'data.x': bad}
                    refused(ctx, lambda: kd.stack_data(t, 'data.x'), ValueError, 'mismatched %s %s' % (bad.shape, bad.dtype))
                t = dict(tr)
                t[s] = {}
                refused(ctx, lambda: kd.stack_data(t, 'data.x'), Exception, 'key missing in %s' % s)
