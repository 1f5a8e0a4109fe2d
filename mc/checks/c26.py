"""C26: QuickView"""
import itertools

import numpy as np

from ..core import Violation

LEVEL = 'model_checking'
RULE = ("explicit-state search to closure over (loaded stack, position, frame shown), replaying the path to each "
        "state on a new viewer and trying every operation there; and every operation sequence up to a depth "
        "from each way of creating the viewer. After every operation the position, length, data, image and title "
        "are compared with the model. State: (stack, position, frame shown) or sequence; transition: one operation.")
ASSUMPTIONS = ["one viewer at a time; stacks have 1 to 3 frames and aren't modified while loaded",
               "an operation which leaves the position unchanged may or may not draw again, but what is shown keeps matching its title",
               "displaying a frame with a negative index isn't explored"]

FR = {
    'a3': (3, (2, 3), 'f4'), 'b3': (3, (2, 3), 'u2'), 'c2': (2, (4, 2), 'i4'), 'd1': (1, (2, 2), 'f8'), 'e1': (1, (1, 1), 'i1'),
    'f2': (2, (3, 3), 'u1'),
}
BAD_DATA = ['none', 'int', 'list', '2d', '4d']
BAD_POS = [-1, -3, 1.5, 0.5, 100]


def stack(name):
    n, shp, dt = FR[name]
    i = sorted(FR).index(name)
    return (np.arange(n * shp[0] * shp[1]).reshape((n,) + shp) + 3 * i + 1).astype(dt)


def bad(name):
    return {'none': None, 'int': 4, 'list': [[[1, 2], [3, 4]]], '2d': np.ones((2, 2)), '4d': np.ones((1, 1, 1, 1))}[name]


OPS = ([['next'], ['__next__'], ['prev'], ['previous'], ['display', None]] + [['load', s] for s in sorted(FR)]
       + [['bad', b] for b in BAD_DATA] + [['pos', i] for i in range(3)] + [['rel', i] for i in (0, 1)]
       + [['badpos', p] for p in BAD_POS] + [['display', i] for i in range(3)] + [['baddisplay']])
# a smaller set for sequences: behaviour depends on the number of frames only through the ends
SHORT = [['next'], ['prev'], ['pos', 0], ['pos', 1], ['display', None], ['display', 0], ['display', 1], ['load', 'c2'], ['load', 'a3'],
         ['badpos', -1], ['rel', 0], ['bad', '4d'], ['rel', 1]]


def cases(tier):
    big = tier == 'thorough'
    for init in [None] + sorted(FR):
        for via in ('arg', 'attr'):
            yield dict(kind='graph', init=init, via=via)
    for first in itertools.product(range(len(SHORT)), repeat=2 if big else 1):
        for init in (None, 'a3', 'd1', 'f2'):
            yield dict(kind='seq', init=init, first=list(first), depth=5 if big else 3)


class Model:
    """state: (stack name or None, position, shown) where shown is (stack name, index) or None"""

    def __init__(self):
        self.s = (None, 0, None)

    def n(self):
        return FR[self.s[0]][0] if self.s[0] else 0

    def step(self, op):
        """-> (acceptable new states, must fail, may fail)"""
        data, pos, shown = self.s
        n = self.n()
        k, arg = op[0], op[1] if len(op) > 1 else None
        if k == 'load':
            return [(arg, 0, (arg, 0))], False, False
        if k == 'bad':
            return [self.s], True, False
        if data is None:
            # nothing can be shown; ignoring it and failing are both fine
            return [self.s], False, True
        if k in ('next', '__next__'):
            if pos + 1 < n:
                return [(data, pos + 1, (data, pos + 1))], False, False
            return [self.s, (data, pos, (data, pos))], False, False
        if k in ('prev', 'previous'):
            if pos > 0:
                return [(data, pos - 1, (data, pos - 1))], False, False
            return [self.s, (data, pos, (data, pos))], False, False
        if k == 'pos' and arg < n:
            return [(data, arg, (data, arg))], False, False
        if k == 'rel':      # relative to the end: len(view) - 1 and len(view)
            if arg == 0:
                return [(data, n - 1, (data, n - 1))], False, False
            return [self.s], True, False
        if k in ('pos', 'badpos'):
            return [self.s], True, False
        if k == 'display' and arg is None:
            return [(data, pos, (data, pos))], False, False
        if k == 'display' and arg < n:
            return [(data, pos, (data, arg))], False, False
        return [self.s], True, False


def apply(qv, op, arrays):
    k, arg = op[0], op[1] if len(op) > 1 else None
    if k == 'load':
        qv.data = arrays[arg]
    elif k == 'bad':
        qv.data = bad(arg)
    elif k == '__next__':
        next(qv)
    elif k in ('next', 'prev', 'previous'):
        getattr(qv, k)()
    elif k in ('pos', 'badpos'):
        qv.pos = arg
    elif k == 'rel':
        qv.pos = (len(qv) if qv.data is not None else 1) - 1 + arg
    elif k == 'display':
        if arg is None:
            qv.display()
        else:
            qv.display(arg)
    elif k == 'baddisplay':
        qv.display(len(qv) if qv.data is not None else 0)


def seen(plt):
    """What is on the screen: (pixels, title) or None"""
    fig = plt._pylab_helpers.Gcf.get_active()
    if fig is None:
        return None
    ax = plt.gcf().axes
    ims = [im for a in ax for im in a.images]
    if not ims:
        return None
    # the topmost image is the visible one
    im = ims[-1]
    return np.asarray(im.get_array()), im.axes.get_title()


def judge(ctx, plt, qv, arrays, states, where):
    """Find the acceptable state which is the actual one"""
    why = []
    vis = seen(plt)
    for st in states:
        data, pos, shown = st
        if data is None:
            if qv.data is not None or vis is not None:
                why.append('data %r shown %r although nothing was loaded' % (qv.data, vis))
                continue
        else:
            if qv.data is not arrays[data] and not (isinstance(qv.data, np.ndarray) and qv.data.dtype == arrays[data].dtype
                                                    and np.array_equal(qv.data, arrays[data])):
                why.append('data is %r, expected %s' % (qv.data, data))
                continue
            if len(qv) != FR[data][0]:
                why.append('length %r' % len(qv))
                continue
        if qv.pos != pos:
            why.append('position %r, expected %r' % (qv.pos, pos))
            continue
        if shown is not None:
            exp = arrays[shown[0]][shown[1]]
            if vis is None:
                why.append('nothing shown')
                continue
            num = [int(x) for x in ''.join(c if c.isdigit() else ' ' for c in vis[1]).split()]
            if num != [shown[1]]:
                why.append('title %r, expected frame %d' % (vis[1], shown[1]))
                continue
            if vis[0].shape != exp.shape or not np.array_equal(vis[0], exp):
                why.append('image %s, expected frame %d: %s' % (vis[0].tolist(), shown[1], exp.tolist()))
                continue
        return st
    ctx.fail('%s: %s' % (where, ' / '.join(dict.fromkeys(why))))


def do(ctx, plt, qv, arrays, m, op, where):
    states, must, may = m.step(op)
    err = None
    try:
        apply(qv, op, arrays)
    except Exception as e:
        err = e
    ctx.step()
    if must:
        ctx.check(err is not None, '%s was accepted', where)
    elif not may:
        ctx.check(err is None, '%s failed: %r', where, err)
    m.s = judge(ctx, plt, qv, arrays, states, where)


def create(case, plt, arrays):
    from karabo_data.utils import QuickView
    # start with empty axes (reused, as making them is slow); rendering to pixels is left out
    fig = plt.gcf()
    if len(fig.axes) != 1:
        fig.clf()
        fig.canvas.draw = lambda *a, **k: None
        fig.add_subplot()
    ax, = fig.axes
    for im in list(ax.images):
        im.remove()
    ax.set_title('')
    m = Model()
    if case['init'] is None:
        qv = QuickView()
    elif case.get('via', 'arg') == 'arg':
        qv = QuickView(arrays[case['init']])
        m.s = (case['init'], 0, (case['init'], 0))
    else:
        qv = QuickView()
        qv.data = arrays[case['init']]
        m.s = (case['init'], 0, (case['init'], 0))
    return qv, m


def run_case(case, ctx):
    import matplotlib.pyplot as plt
    import matplotlib._pylab_helpers as ph
    plt._pylab_helpers = ph
    arrays = {s: stack(s) for s in FR}
    ctx.sample(case)
    if case['kind'] == 'graph':
        qv, m = create(case, plt, arrays)
        judge(ctx, plt, qv, arrays, [m.s], 'new viewer of %s' % case['init'])
        paths = {m.s: []}
        todo = [m.s]
        while todo:
            st = todo.pop(0)
            for op in OPS:
                qv, m = create(case, plt, arrays)
                for o in paths[st]:
                    do(ctx, plt, qv, arrays, m, o, '%s then %s' % (case['init'], o))
                do(ctx, plt, qv, arrays, m, op, '%s -> %s -> %s' % (case['init'], paths[st], op))
                if m.s not in paths:
                    paths[m.s] = paths[st] + [op]
                    todo.append(m.s)
                    ctx.state('graph', m.s)
            ctx.trace()
    else:
        k = len(case['first'])
        for rest in itertools.product(SHORT, repeat=case['depth'] - k):
            seq = [SHORT[i] for i in case['first']] + list(rest)
            qv, m = create(case, plt, arrays)
            for i, op in enumerate(seq):
                do(ctx, plt, qv, arrays, m, op, '%s -> %s' % (case['init'], seq[:i + 1]))
            ctx.state('seq', case['init'], str(seq))
            ctx.trace()
    plt.close('all')
