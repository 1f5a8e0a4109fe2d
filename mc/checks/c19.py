"""C19: validation"""
import contextlib
import io
import itertools
import json
import os
import shutil

import h5py
import numpy as np

from ..h5 import build_file
from ..space import tids

LEVEL = 'model_checking'
RULE = ("small valid files in every storage layout; every single deviation of a menu at every position, and pairs of deviations, "
        "judged by an independent definition of consistency computed from the abstract file contents; for runs all "
        "combinations of good, inconsistent, unreadable and conflicting files with every state of the cache. State: distinct "
        "file or run contents; transition: one validation.")
ASSUMPTIONS = ["the index of control data is not validated", "a source is either control or instrument data"]
CASE_TIMEOUT = 200
BIG = 2 ** 64 - 1
M = 2 ** 64

BASES = [
    # trains, counts of X:out/data, of X:out/meta, of Y:out/data
    (3, [2, 0, 1], [1, 1, 1], [0, 1, 2]),
    (1, [1], [0], [2]),
    (2, [0, 0], [2, 1], [1, 1]),
    (4, [1, 1, 1, 1], [0, 2, 0, 1], [3, 0, 0, 0]),
    (0, [], [], []),
]
LAYOUTS = [('1.0', 'fc', [0, 0, 0, 0]), ('0.5', 'fls', [0, 0, 0, 0]), ('1.0', 'fc', [2, 2, 3, 1]), ('0.5', 'fls', [1, 1, 1, 0]), ('1.0', 'fc', [0, 3, 0, 0])]
SRC = {'X/1:out': {'data': ['data.a', 'data.b.c'], 'meta': ['meta.n']}, 'Y/2:out': {'data': ['data.a']}}


def spec(base, lay):
    n, c1, c2, c3 = BASES[base]
    ver, ix, pad = LAYOUTS[lay]
    return dict(name='RAW-R0001-DA01-S00000.h5', trains=tids('g', n), ver=ver, index=ix, pad=pad, src=[
        ['X/1:out', 'I', {'data': [c1, {'data.a': ['f4', [2]], 'data.b.c': ['i2', []]}], 'meta': [c2, {'meta.n': ['u4', []]}]}],
        ['Y/2:out', 'I', {'data': [c3, {'data.a': ['f4', []]}]}],
        ['C/3', 'C', {'': [[1] * n, {'v.value': ['f8', []]}]}]])


# ---- abstract files: dataset path -> list of ints (index, train IDs) or length (data)
def abstract(path):
    out = {}

    def visit(name, obj):
        if isinstance(obj, h5py.Dataset):
            if name.startswith('INDEX/'):
                out[name] = [int(x) for x in obj[:]]
            elif name.startswith('INSTRUMENT/'):
                out[name] = obj.shape[0]
    with h5py.File(path, 'r') as f:
        f.visititems(visit)
    return out


def deviations(ab, ix):
    """All single edits: (kind, dataset, argument)"""
    out = []
    t = 'INDEX/trainId'
    n = len(ab[t])
    nz = sum(1 for x in ab[t] if x)
    for i in range(n):
        vals = {0, 1, BIG, 2 ** 63}
        if i:
            vals |= {ab[t][i - 1], max(0, ab[t][i - 1] - 1), ab[t][0]}
        if i + 1 < n:
            vals.add(ab[t][i + 1])
        if i >= nz:
            vals |= {ab[t][nz - 1] + 1 if nz else 7, 5}
        for v in sorted(vals - {ab[t][i]}):
            out.append(['set', t, [i, v]])
    for src, groups in SRC.items():
        for g, keys in groups.items():
            base = 'INDEX/%s/%s' % (src, g)
            parts = ['first', 'count'] if ix == 'fc' else ['first', 'last', 'status']
            for part in parts:
                p = base + '/' + part
                cur = ab[p]
                for i in range(min(nz, len(cur))):
                    vals = {0, 1, cur[i] + 1, cur[i] + 3, max(cur[i] - 1, 0)}
                    if part != 'status':
                        vals |= {BIG, BIG - cur[i], 2 ** 63, 2 ** 32}
                    else:
                        vals = {0, 1}
                    for v in sorted(vals - {cur[i]}):
                        out.append(['set', p, [i, v]])
                if nz:
                    out += [['cut', p, nz - 1], ['cut', p, 0], ['2d', p, None], ['0d', p, None]]
                out.append(['del', p, None])
                out.append(['grow', p, len(cur) + 2])
            out.append(['del', base, None])
            for k in keys:
                d = 'INSTRUMENT/%s/%s' % (src, k.replace('.', '/'))
                for m in (1, 2):
                    if ab[d] >= m:
                        out.append(['len', d, ab[d] - m])
                out.append(['len', d, ab[d] + 1])
                out.append(['len', d, 0])
                out.append(['scalar', d, None])
        out.append(['del', 'INSTRUMENT/' + src, None])
    return out


def apply(ab, dev):
    kind, p, arg = dev
    if kind == 'del':
        for k in [k for k in ab if k == p or k.startswith(p + '/')]:
            del ab[k]
    elif p not in ab:
        pass
    elif kind == 'set':
        if isinstance(ab[p], list) and arg[0] < len(ab[p]):
            ab[p][arg[0]] = arg[1]
    elif kind in ('cut', 'grow'):
        if isinstance(ab[p], list):
            ab[p] = (ab[p] + [0] * arg)[:arg]
    elif kind in ('2d', '0d', 'scalar'):
        ab[p] = kind
    elif kind == 'len':
        ab[p] = arg


def apply_h5(f, ab0, ab1):
    """Bring the HDF5 file to the abstract contents ab1"""
    for p in ab0:
        if p not in ab1 and p in f:
            del f[p]
    for p in ab0:
        # groups with nothing left in them
        while '/' in p:
            p = p.rsplit('/', 1)[0]
            if p in f and not len(f[p]):
                del f[p]
    for p in ab1:
        a, b = ab0[p], ab1[p]
        if a == b:
            continue
        if p not in f:
            continue
        dt = f[p].dtype
        old = f[p][()]
        if b == '2d':
            new = np.array([old, old])
        elif b in ('0d', 'scalar'):
            new = np.zeros((), dtype=dt)
        elif isinstance(b, list):
            new = np.array(b, dtype='u8').astype(dt)
        else:
            new = np.zeros((b,) + old.shape[1:], dtype=dt)
            new[:len(old)] = old[:b]
        del f[p]
        f[p] = new


def problems(ab, ix):
    """Where the file is inconsistent: set of 'trainId' and source names"""
    bad = set()
    t = ab['INDEX/trainId']
    n = sum(1 for x in t if x)
    seen0 = False
    last = 0
    for x in t:
        if x == 0:
            seen0 = True
        else:
            if seen0 or x <= last:
                bad.add('trainId')
            last = x
    for src, groups in SRC.items():
        if not any(k.startswith('INSTRUMENT/%s/' % src) for k in ab):
            bad.add(src)
            continue
        for g, keys in groups.items():
            data = [ab['INSTRUMENT/%s/%s' % (src, k.replace('.', '/'))] for k in keys
                    if 'INSTRUMENT/%s/%s' % (src, k.replace('.', '/')) in ab]
            if not data:
                continue
            base = 'INDEX/%s/%s/' % (src, g)
            parts = [ab.get(base + p) for p in (('first', 'count') if ix == 'fc' else ('first', 'last', 'status'))]
            if not all(isinstance(p, list) and len(p) >= n for p in parts):
                bad.add(src)
                continue
            first = parts[0][:n]
            if ix == 'fc':
                count = parts[1][:n]
            else:
                count = [(la - fi + 1) % M if st else 0 for fi, la, st in zip(first, parts[1], parts[2])]
            pos = 0
            for fi, c in zip(first, count):
                if fi != pos or c < 0:
                    bad.add(src)
                    break
                pos += c
            if any(d == 'scalar' or any(fi + c > d for fi, c in zip(first, count)) for d in data):
                bad.add(src)
    return bad


def cases(tier):
    big = tier == 'thorough'
    for b in range(len(BASES)):
        for l in range(len(LAYOUTS)):
            yield dict(kind='single', base=b, lay=l)
    for b in range(len(BASES)):
        for l in range(len(LAYOUTS)):
            if not big and (b + l) % 5 not in (0, 3):
                continue
            parts = 24 if big else 8
            step = 11 if big else 97
            for p in range(parts):
                yield dict(kind='pair', base=b, lay=l, part=p, parts=parts, step=step)
    for n in (1, 2, 3):
        for files in itertools.product(FILES, repeat=n):
            if n == 3 and (len(set(files)) < 3 or 'good' not in files) and not big:
                continue
            yield dict(kind='run', files=list(files))
    for f in ('good', 'bad', 'badtid'):
        yield dict(kind='cli', files=[f])
        yield dict(kind='cli', files=['good', f])


FILES = ['good', 'bad', 'badtid', 'empty', 'garbage', 'truncated', 'nometa', 'conflict', 'other', 'dangling']


def judge(ctx, probs, bad, what, fname):
    ctx.check(isinstance(probs, list) and all(isinstance(p, dict) and p.get('msg') for p in probs), '%s: problems %r', what, probs)
    if not bad:
        ctx.check(not probs, '%s: consistent, but reported %s', what, probs)
    for b in bad:
        ctx.check(any(b in str(p.get('dataset', '')) or b in p['msg'] for p in probs), '%s: inconsistent in %s, reported %s', what, sorted(bad), probs)
    for p in probs:
        ctx.check(fname in str(p.get('file', '')), '%s: problem without file name: %s', what, p)


def validate_file(ctx, path, what):
    from karabo_data.reader import FileAccess
    from karabo_data.validation import FileValidator, ValidationError
    fa = FileAccess(path)
    try:
        v = FileValidator(fa)
        try:
            probs = v.run_checks()
        except Exception as e:
            ctx.fail('%s: validation crashed: %r' % (what, e))
        try:
            v.validate()
        except ValidationError as e:
            ctx.check(probs, '%s: validate() raises %s, run_checks() reports nothing', what, e)
            ctx.check(all(p['msg'] in str(e) for p in probs), '%s: error message %s', what, e)
        else:
            ctx.check(not probs, '%s: validate() passes, run_checks() reports %s', what, probs)
    finally:
        fa.close()
    ctx.step()
    return probs


def try_devs(ctx, base_path, ab0, ix, devs, what):
    ab = {k: (list(v) if isinstance(v, list) else v) for k, v in ab0.items()}
    for d in devs:
        apply(ab, d)
    p = os.path.join(os.path.dirname(base_path), 'dev.h5')
    shutil.copyfile(base_path, p)
    with h5py.File(p, 'r+') as f:
        apply_h5(f, ab0, ab)
    bad = problems(ab, ix)
    judge(ctx, validate_file(ctx, p, what), bad, what, 'dev.h5')
    ctx.trace()
    ctx.state(str(sorted(ab.items())), ix)
    ctx.count('inconsistent' if bad else 'consistent')


def run_case(case, ctx):
    ctx.sample(case)
    globals()['do_' + case['kind']](case, ctx)


def base_file(case, ctx):
    d = ctx.dir()
    p = os.path.join(d, 'base.h5')
    build_file(p, spec(case['base'], case['lay']))
    return p, abstract(p), LAYOUTS[case['lay']][1]


def do_single(case, ctx):
    p, ab, ix = base_file(case, ctx)
    judge(ctx, validate_file(ctx, p, 'unchanged file'), set(), 'unchanged file %s' % case, 'base.h5')
    for d in deviations(ab, ix):
        try_devs(ctx, p, ab, ix, [d], 'base %s with %s' % (BASES[case['base']], d))


def do_pair(case, ctx):
    p, ab, ix = base_file(case, ctx)
    devs = deviations(ab, ix)
    pairs = ((a, b) for a, b in itertools.combinations(devs, 2) if a[1] != b[1] or a[2] != b[2])
    for i, (a, b) in enumerate(pairs):
        # thinned out evenly, but all combinations concerning the same group of index datasets or the train IDs
        close = a[1].rsplit('/', 1)[0] == b[1].rsplit('/', 1)[0] or 'trainId' in a[1]
        stride = (3 if ctx.thorough else 19) if close else case['step']
        if i % case['parts'] != case['part'] or (i // case['parts']) % stride:
            continue
        try_devs(ctx, p, ab, ix, [a, b], 'base %s with %s and %s' % (BASES[case['base']], a, b))


def make_run(ctx, files):
    d = ctx.dir()
    bad = {}
    usable = []
    tr = tids('g', 6)
    confl = False
    for i, kind in enumerate(files):
        name = 'RAW-R0001-DA%02d-S00000.h5' % i
        p = os.path.join(d, name)
        s = dict(name=name, trains=tr[:3], src=[['X/%d:out' % i, 'I', {'data': [[1, 0, 2], {'data.a': ['f4', []]}]}],
                                               ['C/%d' % i, 'C', {'': [None, {'v.value': ['f8', []]}]}]])
        if kind == 'conflict':
            s['src'] = [['X/99:out', 'I', {'data': [[1, 0, 2], {'data.a': ['f4', []]}]}]]
            if files[:i].count('conflict'):
                confl = True
        if kind == 'other':
            s['trains'] = tr[3:]
        if kind in ('good', 'bad', 'badtid', 'conflict', 'other', 'truncated', 'nometa'):
            build_file(p, s)
        if kind == 'bad':
            with h5py.File(p, 'r+') as f:
                f['INDEX/X/%d:out/data/first' % i][2] = 2
            bad[name] = 'inconsistent'
        elif kind == 'badtid':
            with h5py.File(p, 'r+') as f:
                f['INDEX/trainId'][1] = tr[0]
            bad[name] = 'inconsistent'
        elif kind == 'empty':
            open(p, 'w').close()
        elif kind == 'garbage':
            with open(p, 'wb') as f:
                f.write(b'no hdf5' * 100)
        elif kind == 'truncated':
            os.truncate(p, os.path.getsize(p) // 2)
        elif kind == 'nometa':
            with h5py.File(p, 'r+') as f:
                del f['METADATA']
        elif kind == 'dangling':
            os.symlink(os.path.join(d, 'nowhere'), p)
        if kind in ('empty', 'garbage', 'truncated', 'nometa', 'dangling'):
            bad[name] = 'unreadable'
        else:
            usable.append(name)
    return d, bad, usable, confl


CACHES = ['none', 'right', 'train_ids', 'train_ids+', 'control', 'instrument', 'instrument+', 'stale', 'stale-size', 'garbage', 'list', 'partial', 'swapped', 'foreign']


def write_cache(d, usable, kind):
    """Returns the names of the files whose entries contradict them"""
    from karabo_data.reader import FileAccess
    ents = []
    for name in usable:
        fa = FileAccess(os.path.join(d, name))
        st = os.stat(os.path.join(d, name))
        ents.append(dict(filename=name, mtime=st.st_mtime, size=st.st_size, train_ids=[int(t) for t in fa.train_ids],
                         control_sources=sorted(fa.control_sources), instrument_sources=sorted(fa.instrument_sources)))
        fa.close()
    wrong = set()
    if kind == 'none':
        return wrong
    p = os.path.join(d, 'karabo_data_map.json')
    if kind == 'garbage':
        with open(p, 'w') as f:
            f.write('[{"filename": ')
        return wrong
    if ents:
        e = ents[-1]
        if kind == 'train_ids':
            e['train_ids'] = e['train_ids'][:-1]
            wrong.add(e['filename'])
        elif kind == 'train_ids+':
            e['train_ids'] = [t + 1 for t in e['train_ids']]
            wrong.add(e['filename'])
        elif kind == 'control':
            e['control_sources'] = e['control_sources'] + ['C/NEW']
            wrong.add(e['filename'])
        elif kind == 'instrument':
            e['instrument_sources'] = []
            wrong.add(e['filename'])
        elif kind == 'instrument+':
            ents[0]['instrument_sources'] = ['X/77:out']
            wrong.add(ents[0]['filename'])
        elif kind in ('stale', 'stale-size'):
            e['train_ids'] = []
            e['mtime' if kind == 'stale' else 'size'] += 10
        elif kind == 'list':
            ents = [[], 3, None, {'filename': e['filename']}] + ents
        elif kind == 'partial':
            ents = ents[1:]
        elif kind == 'foreign':
            ents.append(dict(e, filename='RAW-R0001-DA77-S00000.h5'))
        elif kind == 'swapped' and len(ents) > 1:
            # sources of another file
            ents[0]['instrument_sources'], e['instrument_sources'] = e['instrument_sources'], ents[0]['instrument_sources']
            if ents[0]['instrument_sources'] != e['instrument_sources']:
                wrong |= {ents[0]['filename'], e['filename']}
    with open(p, 'w') as f:
        json.dump(ents, f)
    return wrong


def do_run(case, ctx):
    from karabo_data.validation import RunValidator, ValidationError
    d, bad, usable, confl = make_run(ctx, case['files'])
    for ck in (CACHES if len(case['files']) < 3 or ctx.thorough else CACHES[len(set(case['files'])) % 3::3]):
        if os.path.exists(os.path.join(d, 'karabo_data_map.json')):
            os.unlink(os.path.join(d, 'karabo_data_map.json'))
        wrong = write_cache(d, usable, ck)
        what = 'run of %s, cache %s' % (case['files'], ck)
        try:
            rv = RunValidator(d)
            probs = rv.run_checks()
        except Exception as e:
            ctx.fail('%s: validation crashed: %r' % (what, e))
        for name, why in bad.items():
            ctx.check(any(name in str(p.get('file', '')) for p in probs), '%s: %s is %s, reported %s', what, name, why, probs)
        for name in wrong:
            ctx.check(any(name in str(p.get('data_file', '')) + str(p.get('file', '')) and 'cache' in p['msg'] for p in probs),
                      '%s: cache entry of %s is wrong, reported %s', what, name, probs)
        if confl:
            ctx.check(any('X/99:out' in str(p) for p in probs), '%s: conflicting source, reported %s', what, probs)
        if not usable:
            ctx.check(probs, '%s: no usable file, reported nothing', what)
        elif not bad and not wrong and not confl:
            ctx.check(not probs, '%s: consistent, but reported %s', what, probs)
        for name in usable:
            if name not in bad and name not in wrong:
                ctx.check(not any(name in str(p.get('file', '')) + str(p.get('data_file', '')) for p in probs),
                          '%s: %s is fine, reported %s', what, name, probs)
        try:
            rv.validate()
        except ValidationError as e:
            ctx.check(probs, '%s: validate() raises %s', what, e)
        else:
            ctx.check(not probs, '%s: validate() passes, but there are problems %s', what, probs)
        ctx.step()
        ctx.trace()
        ctx.state(str(case), ck)


def do_cli(case, ctx):
    from karabo_data import validation
    d, bad, usable, confl = make_run(ctx, case['files'])
    path = d if len(case['files']) > 1 else os.path.join(d, usable[0])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        rc = validation.main([path])
    ctx.check(bool(rc) == bool(bad), 'karabo-data-validate %s: exit status %s, output %s', case['files'], rc, out.getvalue())
    ctx.check(('No problems' in out.getvalue()) == (not bad), 'karabo-data-validate %s: %s', case['files'], out.getvalue())
    for name in bad:
        ctx.check(name in out.getvalue(), 'karabo-data-validate %s does not name %s: %s', case['files'], name, out.getvalue())
    ctx.step()
    ctx.state(str(case))
