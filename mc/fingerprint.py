"""A comparable record of everything the reading API says about a collection."""
import numpy as np


def arr(a):
    a = np.asarray(a)
    if a.dtype.kind == 'f':
        return (str(a.dtype), a.shape, np.ascontiguousarray(a).tobytes())
    return (str(a.dtype), a.shape, tuple(a.ravel().tolist()))


def tdata(res):
    return {s: {k: (v if k == 'metadata' else arr(v)) for k, v in d.items()} for s, d in res.items()}


def err(f, *a, **kw):
    try:
        return f(*a, **kw)
    except Exception as e:
        return ('raised', type(e).__name__)


def series(ser):
    return (str(ser.dtype), ser.name, [tuple(int(x) for x in np.atleast_1d(i)) for i in ser.index.tolist()], arr(ser.values))


def full(dc, ndim1=(), lazy=True, virtual=True, scratch=None):
    """ndim1: {(source, key)} readable as series; lazy, virtual: True or {(source, key)}"""
    out = {'trains': [int(t) for t in dc.train_ids], 'ctrl': sorted(dc.control_sources),
           'inst': sorted(dc.instrument_sources),
           'keys': {s: sorted(dc.keys_for_source(s)) for s in sorted(dc.all_sources)}}
    out['by_id'] = {int(t): tdata(dc.train_from_id(t)[1]) for t in dc.train_ids}
    out['by_ix'] = [(t, tdata(d)) for t, d in (dc.train_from_index(i) for i in range(len(dc.train_ids)))]
    out['iter'] = [(t, tdata(d)) for t, d in dc.trains()]
    out['iter_all'] = [(t, tdata(d)) for t, d in dc.trains(require_all=True)]
    for s in sorted(dc.all_sources):
        for k in out['keys'][s]:
            a = dc.get_array(s, k)
            out['arr', s, k] = (arr(a.values), a.dims, a.coords['trainId'].values.tolist() if 'trainId' in a.coords else [])
            c = dc.get_data_counts(s, k)
            out['cnt', s, k] = [(int(i), int(v)) for i, v in c.items()]
            if lazy is True or (lazy and (s, k) in lazy):
                out['dask', s, k] = arr(dc.get_dask_array(s, k).compute())
            if virtual is True or (virtual and (s, k) in virtual):
                v = dc.get_virtual_dataset(s, k, filename=scratch)
                out['vds', s, k] = arr(v[()])
                v.file.close()
            if (s, k) in ndim1:
                out['ser', s, k] = series(dc.get_series(s, k))
    return out


def diff(a, b, path=''):
    """First difference of two fingerprints as text, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: %s' % (path, sorted(map(str, set(a) ^ set(b))))
        for k in a:
            d = diff(a[k], b[k], '%s/%s' % (path, k))
            if d:
                return d
        return None
    return None if a == b else '%s: %.300r != %.300r' % (path, a, b)
