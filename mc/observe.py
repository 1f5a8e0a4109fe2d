"""Compare what the real collections return with the reference model."""
import numpy as np

from .core import Violation
from .h5 import same, brief, spoil


def fail(msg, *a):
    raise Violation(msg % a if a else msg)


def sources(dc, m, where=''):
    must, may = m.must(), m.may()
    got = set(dc.all_sources)
    if not (must <= got <= may):
        fail('%s sources %s, expected at least %s and at most %s', where, sorted(got), sorted(must), sorted(may))
    c = {s for s in got if m.kind(s) == 'C'}
    if set(dc.control_sources) != c or set(dc.instrument_sources) != got - c:
        fail('%s control/instrument split wrong: %s / %s', where, sorted(dc.control_sources), sorted(dc.instrument_sources))
    for s in got:
        ks = set(dc.keys_for_source(s))
        if ks != m.sel[s]:
            fail('%s keys of %s are %s, expected %s', where, s, sorted(ks), sorted(m.sel[s]))
    return got


def trainids(dc, m, where=''):
    got = [int(t) for t in dc.train_ids]
    if got != list(m.trains):
        fail('%s train IDs %s, expected %s', where, got, list(m.trains))


def train_data(tid, res, m, got_sources=None, where='', keep=False):
    """res: {source: {key: value}} for one train"""
    with_data = {s for s in m.sel if any(m.entry(s, k, tid) is not None for k in m.sel[s])}
    if not (with_data <= set(res) <= set(m.sel)):
        fail('%s train %s has sources %s, expected %s', where, tid, sorted(res), sorted(with_data))
    for s, d in res.items():
        md = d.get('metadata')
        if md != {'source': s, 'timestamp.tid': tid}:
            fail('%s train %s %s metadata %r', where, tid, s, md)
        exp = {}
        for k in m.sel[s]:
            e = m.entry(s, k, tid)
            if e is not None:
                exp[k] = e[0] if len(e) == 1 else e
        if set(d) - {'metadata'} != set(exp):
            fail('%s train %s %s has keys %s, expected %s', where, tid, s,
                 sorted(set(d) - {'metadata'}), sorted(exp))
        for k, e in exp.items():
            if not same(d[k], e):
                fail('%s train %s %s %s is %s, expected %s', where, tid, s, k, brief(d[k]), brief(e))
    if not keep:
        spoil(res)


def by_id(dc, m, tid, srcs, where=''):
    t, res = dc.train_from_id(tid)
    if t != tid:
        fail('%s train_from_id(%s) returned train %s', where, tid, t)
    train_data(tid, res, m, srcs, where + ' train_from_id')


def by_index(dc, m, i, srcs, where=''):
    t, res = dc.train_from_index(i)
    if t != m.trains[i]:
        fail('%s train_from_index(%s) returned train %s, expected %s', where, i, t, m.trains[i])
    train_data(m.trains[i], res, m, srcs, where + ' train_from_index')


def iterate(dc, m, srcs, require_all=False, where=''):
    exp = [t for t in m.trains if (not require_all) or m.complete(t)]
    got = []
    for t, res in dc.trains(require_all=require_all):
        if len(got) > len(exp):
            fail('%s trains(require_all=%s) yields too many trains: %s...', where, require_all, got)
        got.append(t)
        train_data(t, res, m, srcs, where + ' trains()')
    if got != exp:
        fail('%s trains(require_all=%s) visited %s, expected %s', where, require_all, got, exp)


def array(dc, m, s, k, where='', roi=None, npidx=None):
    kw = {} if roi is None else {'roi': roi}
    a = dc.get_array(s, k, **kw)
    tids, exp = m.array(s, k)
    if npidx is not None:
        exp = exp[(slice(None),) + npidx]
    if not same(a.values, exp):
        fail('%s get_array(%s, %s, roi=%s) is %s, expected %s', where, s, k, roi, brief(a.values), brief(exp))
    labels(a, tids, s, k, where)
    return a


def labels(a, tids, s, k, where=''):
    if a.dims[0] != 'trainId':
        fail('%s get_array(%s, %s) first dim is %s', where, s, k, a.dims[0])
    if 'trainId' in a.coords or len(tids):
        got = np.asarray(a.coords['trainId'].values)
        if got.tolist() != tids.tolist():
            fail('%s get_array(%s, %s) labelled %s, expected %s', where, s, k, got.tolist(), tids.tolist())


def everything(dc, m, where='', arrays=True, iterates=True):
    """Full observation of a collection through its public reading API"""
    trainids(dc, m, where)
    srcs = sources(dc, m, where)
    for t in m.trains:
        by_id(dc, m, t, srcs, where)
    if iterates:
        iterate(dc, m, srcs, where=where)
    if arrays:
        for s in srcs:
            for k in m.sel[s]:
                spoil(array(dc, m, s, k, where))
    return srcs
