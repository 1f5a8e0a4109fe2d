"""Bounded spaces shared by checks: train ID sets, sequence splits, run layouts."""
import itertools

from . import orders
from .h5 import FileModel, Coll

CTRL = 'SA1_XTD2/XGM/MAIN'
INSTA = 'LAB_CAM/CAM/BEAM:daqOutput'
INSTB = 'LAB_ADC/ADC/1:network'


def tids(kind, n):
    if kind == 'c':
        return [10000 + i for i in range(n)]
    if kind == 'g':
        return [10000 + d for d in (0, 1, 3, 7, 8, 12)[:n]]
    if kind == 'h':
        return [10000 + d for d in (0, 2, 3, 9, 13, 14)[:n]]
    if kind == 'b':
        return [(1 << 63) + 10000 + d for d in (0, 1, 3, 4, 7, 8)[:n]]
    if kind == '1':
        return [1 + i for i in range(n)]
    raise ValueError(kind)


def compositions(n):
    """All ways to cut n consecutive items into runs: lists of (start, stop)"""
    if n == 0:
        return [[]]
    out = []
    for cuts in itertools.product([0, 1], repeat=n - 1):
        pts = [0] + [i + 1 for i, c in enumerate(cuts) if c] + [n]
        out.append([(a, b) for a, b in zip(pts, pts[1:])])
    out.sort(key=len)
    return out


def counts(n, alphabet=(0, 1, 2)):
    return [list(c) for c in itertools.product(alphabet, repeat=n)]


def spread(n, *sizes):
    """One choice of each size, such that all pairs of choices occur among the n of a space, or every k-th n of it

    (a fixed bijective mix of n, so that nothing varies in step with the enumeration)"""
    x = (n * 0x9E3779B97F4A7C15 + 0x1234567) & (1 << 64) - 1
    x = ((x ^ x >> 30) * 0xBF58476D1CE4E5B9) & (1 << 64) - 1
    x = ((x ^ x >> 27) * 0x94D049BB133111EB) & (1 << 64) - 1
    x ^= x >> 31
    out = []
    for k in sizes:
        x, r = divmod(x, k)
        out.append(r)
    return out


def slice_groups(groups, sel):
    """Restrict group counts to the train positions in sel"""
    return {g: [None if c is None else [c[i] for i in sel], keys] for g, (c, keys) in groups.items()}


def stream(prefix, trains, present, comp, sources, **kw):
    """File specs for one data stream.

    present: positions of trains recorded by this stream; comp: composition of
    len(present); sources: [[name, kind, groups with counts for all trains]]
    """
    specs = []
    for i, (a, b) in enumerate(comp):
        sel = present[a:b]
        specs.append(dict(name='%s-S%05d.h5' % (prefix, orders.seqno(i, len(comp))), trains=[trains[j] for j in sel],
                          src=[[n, k, slice_groups(g, sel)] for n, k, g in sources], **kw))
    return specs


def models(specs):
    return [FileModel(s) for s in specs]


def model(specs):
    return Coll(models(specs))
