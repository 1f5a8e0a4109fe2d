"""Few but large instances: beyond the sizes at which buffers, caches, narrow integers or limits on open files would show

Each check explores its small spaces completely; these are single points far outside of them.
"""
from .space import *

KINDS = ['files', 'trains', 'sources', 'keys', 'entries', 'names', 'rows']
KC = {'p.value': ['f8', []], 'p.timestamp': ['u8', []], 'q.value': ['i4', [3]]}


def src(i):
    return 'SA3_XTD10_MOTOR%d/MOTOR/M%d' % (i % 7, i)


def out(i):
    return 'SCS_DET_%d/DET/%dCH0:output' % (i % 5, i)


def specs(kind):
    """-> file specs"""
    if kind == 'files':
        # more files than some limit on open files, or pool of workers
        tr = tids('c', 3)
        sp = []
        for i in range(40):
            s = [src(i), 'C', {'': [None, {'p.value': ['f8', []]}]}] if i % 2 else \
                [out(i), 'I', {'data': [[1 + i % 2, i % 3, 1], {'data.x': ['u2', []]}]}]
            sp += stream('RAW-R0001-DA%02d' % i, tr, list(range(3)), [(0, 2), (2, 3)], [s])
        return sp
    if kind == 'trains':
        n = 700
        tr = [10000 + i + i // 9 for i in range(n)]
        cnt = [i % 3 if i % 50 else 4 for i in range(n)]
        return stream('RAW-R0001-DA01', tr, list(range(n)), [(0, 300), (300, 620), (620, n)],
                      [[out(1), 'I', {'data': [cnt, {'data.x': ['u2', [2]], 'data.y': ['f4', []]}]}],
                       [src(1), 'C', {'': [None, {'p.value': ['f8', []]}]}]]) + \
            stream('RAW-R0001-DA02', tr, [i for i in range(n) if i % 11], [(0, 257), (257, len([i for i in range(n) if i % 11]))],
                   [[src(2), 'C', {'': [None, {'p.value': ['i8', []]}]}]])
    if kind == 'sources':
        tr = tids('g', 3)
        return stream('RAW-R0001-DA01', tr, [0, 1, 2], [(0, 2), (2, 3)],
                      [[src(i), 'C', {'': [None, {'p.value': ['f8', []]}]}] for i in range(70)] +
                      [[out(i), 'I', {'data': [[1, 0, i % 2], {'data.x': ['u2', []]}]}] for i in range(70)])
    if kind == 'keys':
        tr = tids('g', 3)
        return stream('RAW-R0001-DA01', tr, [0, 1, 2], [(0, 2), (2, 3)],
                      [[src(0), 'C', {'': [None, {'a%d.b%d.value' % (i % 6, i): ['f4', []] for i in range(80)}]}],
                       [out(0), 'I', {'g%d' % g: [[1, g % 3, 1], {'g%d.k%d' % (g, i): ['i4', []] for i in range(9)}] for g in range(9)}]])
    if kind == 'entries':
        # index values beyond 8 and 16 bits
        tr = tids('g', 4)
        return stream('RAW-R0001-DA01', tr, [0, 1, 2, 3], [(0, 3), (3, 4)],
                      [[out(0), 'I', {'data': [[300, 0, 70000, 257], {'data.x': ['u1', []], 'data.y': ['u2', [2]]}], 'few': [[1, 0, 1, 1], {'few.z': ['f8', []]}]}],
                       [src(0), 'C', {'': [None, KC]}]])
    if kind == 'names':
        tr = tids('c', 2)
        deep = '.'.join('level%d' % i for i in range(12))
        return stream('RAW-R0001-DA01', tr, [0, 1], [(0, 1), (1, 2)],
                      [['SPB_' + 'VERY_LONG' * 20 + '/' + 'TYPE' * 15 + '/' + 'NAME_1' * 30, 'C', {'': [None, {deep + '.value': ['f8', []], 'x' * 200: ['i4', []]}]}],
                       ['A/B/C:' + 'o' * 150, 'I', {'group' * 40: [[1, 2], {'group' * 40 + '.' + deep: ['u2', []]}]}]])
    if kind == 'rows':
        # entries larger than an HDF5 chunk cache or a line of output
        tr = tids('c', 3)
        return stream('RAW-R0001-DA01', tr, [0, 1, 2], [(0, 2), (2, 3)],
                      [[out(0), 'I', {'data': [[2, 0, 1], {'data.x': ['u2', [257, 129]], 'data.y': ['f4', [3000]]}]}],
                       [src(0), 'C', {'': [None, {'p.value': ['f8', [1100]], 'q.value': ['u1', [2, 3, 4, 5]]}]}]])
    raise ValueError(kind)


def cases():
    for k in KINDS:
        yield dict(wide=k)


def open_run(ctx, kind):
    """-> (directory, run, model)"""
    import karabo_data as kd
    from .h5 import build, Coll
    sp = specs(kind)
    d = ctx.dir()
    build(d, sp)
    return d, kd.RunDirectory(d), Coll(models(sp))
