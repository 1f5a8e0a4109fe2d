"""Builder of small European XFEL format HDF5 files from abstract specs, and the
reference model of what they record.

A file spec is plain JSON-able data:
  {'name': 'RAW-R0001-DA01-S00000.h5', 'trains': [..], 'ver': '1.0'|'0.5', 'index': 'fc'|'fls',
   'pad': [ntid, nindex, ndata, nsrc],
   'src': [[source, kind 'C'|'I', {group: [counts or None, {key: [dtype, shape]}]}], ...]}
Control sources use the single group ''.
"""
import os
import zlib

import h5py
import numpy as np

_H = {}


def _h(source, key):
    r = _H.get((source, key))
    if r is None:
        r = _H[source, key] = zlib.crc32(('%s|%s' % (source, key)).encode())
    return r


def values(source, key, train, count, dtype, shape):
    """The distinct values recorded for one train: array (count,) + shape"""
    dtype = np.dtype(dtype)
    n = int(np.prod(shape, dtype=np.int64)) if shape else 1
    base = (_h(source, key) * 9176 + (int(train) % 1000003) * 40503) % (1 << 31)
    v = base + np.arange(count, dtype=np.int64)[:, None] * 7919 + np.arange(n, dtype=np.int64) * 31
    if key.endswith('pulseId') or key.endswith('cellId'):
        raise AssertionError('use explicit tables')
    if dtype.kind == 'f':
        v = v % (1 << 22) if dtype.itemsize <= 4 else v
        if dtype.itemsize == 2:
            v = v % 2048
        v = v.astype(dtype)
    elif dtype.kind == 'b':
        v = v % 2 == 0
    elif dtype.kind == 'S':
        v = np.array([b'%x' % x for x in v.ravel()], dtype='S16').astype(dtype)
    else:
        hi = int(np.iinfo(dtype).max)
        v = (v % min(hi, 1 << 40)).astype(dtype)
    return v.reshape((count,) + tuple(shape))


def sentinel(dtype):
    dtype = np.dtype(dtype)
    if dtype.kind == 'f':
        return dtype.type(-7777)
    if dtype.kind == 'b':
        return True
    if dtype.kind == 'S':
        return b'?'
    return np.iinfo(dtype).max


def src_groups(spec_src, ntrains):
    """Yields (group, counts, keys)"""
    name, kind, groups = spec_src
    for g, (counts, keys) in groups.items():
        yield g, ([1] * ntrains if counts is None else list(counts)), keys


def build_file(path, spec, getval=values):
    trains = spec['trains']
    n = len(trains)
    ver = spec.get('ver', '1.0')
    ixkind = spec.get('index', 'fc')
    p_tid, p_ix, p_data, p_src = spec.get('pad', [0, 0, 0, 0])
    # plain create: the latest low-level overhead matters, so no libver tricks
    with h5py.File(path, 'w') as f:
        f.create_dataset('INDEX/trainId', data=np.array(trains + [0] * p_tid, dtype='u8'))
        devs = []
        for src in spec['src']:
            name, kind, _ = src
            for g, counts, keys in src_groups(src, n):
                c = np.array(counts, dtype='u8')
                first = np.zeros(n, dtype='u8')
                if n:
                    first[1:] = np.cumsum(c)[:-1]
                base = 'INDEX/%s/%s' % (name, g) if g else 'INDEX/%s' % name
                zp = np.zeros(p_ix, dtype='u8')
                if ixkind == 'fc':
                    f[base + '/first'] = np.concatenate([first, zp])
                    f[base + '/count'] = np.concatenate([c, zp])
                else:
                    status = (c > 0)
                    last = np.where(status, first + np.maximum(c, 1) - 1, first).astype('u8')
                    f[base + '/first'] = np.concatenate([first, zp])
                    f[base + '/last'] = np.concatenate([last, zp])
                    f[base + '/status'] = np.concatenate([status.astype('i4'), zp.astype('i4')])
                tot = int(c.sum())
                sect = 'CONTROL' if kind == 'C' else 'INSTRUMENT'
                for key, (dt, shape) in keys.items():
                    arr = np.empty((tot + p_data,) + tuple(shape), dtype=dt)
                    pos = 0
                    for t, k in zip(trains, counts):
                        if k:
                            arr[pos:pos + k] = getval(name, key, t, k, dt, shape)
                            pos += k
                    if p_data:
                        arr[pos:] = sentinel(dt)
                    f['%s/%s/%s' % (sect, name, key.replace('.', '/'))] = arr
                devs.append('%s/%s' % (sect, name) + ('/' + g if g and kind == 'I' else ''))
        seen = []
        for d in devs:
            if d not in seen:
                seen.append(d)
        vb = h5py.special_dtype(vlen=bytes)
        root = 'METADATA/' if ver == '0.5' else 'METADATA/dataSources/'
        N = len(seen) + p_src
        for nm, vals in (('dataSourceId', seen), ('root', [s.split('/')[0] for s in seen]),
                         ('deviceId', [s.split('/', 1)[1] for s in seen])):
            ds = f.create_dataset(root + nm, (N,), dtype=vb, maxshape=(None,))
            if vals:
                ds[:len(vals)] = [v.encode() for v in vals]
        if ver != '0.5':
            f.create_dataset('METADATA/dataFormatVersion', data=np.array([ver.encode()], dtype=vb))


def build(dirname, specs, getval=values):
    paths = []
    for s in specs:
        p = os.path.join(dirname, s['name'])
        build_file(p, s, getval)
        paths.append(p)
    return paths


class FileModel:
    __slots__ = ('spec', 'trains', 'tset', 'sources', 'kinds', 'data', 'keys', 'dt')

    def __init__(self, spec, getval=values):
        self.spec = spec
        self.trains = list(spec['trains'])
        self.tset = set(self.trains)
        self.kinds, self.keys, self.dt = {}, {}, {}
        self.data = {}     # (src, key) -> {train: array}
        for src in spec['src']:
            name, kind, _ = src
            self.kinds[name] = kind
            ks = self.keys.setdefault(name, {})
            for g, counts, keys in src_groups(src, len(self.trains)):
                for key, (dt, shape) in keys.items():
                    ks[key] = g
                    self.dt[name, key] = (np.dtype(dt), tuple(shape))
                    self.data[name, key] = {t: getval(name, key, t, c, dt, shape)
                                            for t, c in zip(self.trains, counts)}
        self.sources = set(self.kinds)


class Coll:
    """Reference model of a collection: which files, sources/keys and trains it is about"""
    __slots__ = ('files', 'sel', 'trains')

    def __init__(self, files, sel=None, trains=None):
        self.files = list(files)
        if sel is None:
            sel = {}
            for f in self.files:
                for s in f.sources:
                    sel.setdefault(s, set()).update(f.keys[s])
        self.sel = sel
        if trains is None:
            trains = sorted(set().union(*[f.tset for f in self.files]))
        self.trains = trains

    def kind(self, s):
        for f in self.files:
            if s in f.kinds:
                return f.kinds[s]

    def dtype(self, s, k):
        for f in self.files:
            if (s, k) in f.dt:
                return f.dt[s, k]

    def must(self):
        """Sources with at least one file entry for a selected train"""
        ts = set(self.trains)
        return {s for s in self.sel
                if self.sel[s] and any(s in f.sources and (f.tset & ts) for f in self.files)}

    def may(self):
        return set(self.sel)

    def entry(self, s, k, t):
        """array (count, ...) recorded, or None if no entry"""
        for f in self.files:
            d = f.data.get((s, k))
            if d is not None and t in d and len(d[t]):
                return d[t]
        return None

    def complete(self, t):
        return all(self.entry(s, k, t) is not None for s in self.sel for k in self.sel[s])

    def canon(self):
        return (tuple(sorted(f.spec['name'] for f in self.files)),
                tuple(sorted((s, tuple(sorted(k))) for s, k in self.sel.items())),
                tuple(self.trains))

    def array(self, s, k):
        """(train label array, values)"""
        dt, shape = self.dtype(s, k)
        tids, parts = [], []
        for t in sorted(self.trains):
            e = self.entry(s, k, t)
            if e is not None:
                tids += [t] * len(e)
                parts.append(e)
        if parts:
            return np.array(tids, dtype='u8'), np.concatenate(parts)
        return np.array([], dtype='u8'), np.empty((0,) + shape, dtype=dt)


def same(a, b):
    """Exact equality of arrays/scalars incl. dtype and shape (NaN == NaN)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.kind == 'f':
        return bool(((a == b) | ((a != a) & (b != b))).all())
    return bool((a == b).all())


def spoil(x):
    """Overwrite what a call returned, as its caller may: later calls must not be affected"""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x.clear()
        return
    if hasattr(x, 'values') and not callable(x.values):
        x = x.values
    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in 'biufc':
        x[...] = 77


def brief(a):
    a = np.asarray(a)
    return '%s%r %s' % (a.dtype, a.shape, np.array2string(a.ravel()[:6], threshold=6))
