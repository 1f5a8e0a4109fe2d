"""C10: opening run directories"""
import contextlib
import io
import itertools
import os

import h5py

from .. import observe as ob
from ..h5 import build_file, Coll, FileModel
from ..space import *

LEVEL = 'model_checking'
RULE = ("all sets of usable files x all sets of up to two (thorough: three) unusable entries from a menu; each "
        "directory opened with a sequence of include patterns, with and without the cache of the previous opens, "
        "under permutations of the listing order; result compared with the usable matching files' contents, and "
        "unusable ones have to be named on stderr. State: distinct (entries, pattern, cache, order); transition: one open.")
ASSUMPTIONS = ["the check runs as root, so files without read permission are not in the menu"]

KC, KI = {'p.value': ['f8', []]}, {'data.a': ['i4', [2]]}
XGM2 = 'SPB_XTD9/XGM/DOOCS'
GOOD = [
    dict(name='RAW-R0001-DA01-S00000.h5', trains=[10000, 10001], src=[[CTRL, 'C', {'': [None, KC]}]]),
    dict(name='RAW-R0001-DA01-S00001.h5', trains=[10002], src=[[CTRL, 'C', {'': [None, KC]}], [XGM2, 'C', {'': [None, KC]}]]),
    dict(name='CORR-R0001-LAB00-S00000.h5', trains=[10000, 10002, 10003], src=[[INSTA, 'I', {'data': [[1, 0, 2], KI]}]]),
    dict(name='notes.h5', trains=[10001], src=[[INSTB, 'I', {'data': [[2], KI]}]]),
    dict(name='RAW-R0001-DA02-S00000.h5', trains=[], src=[[XGM2, 'C', {'': [None, KC]}]]),
]
BAD = ['truncated', 'zero', 'text', 'nometa', 'notrains', 'category', 'badname', 'trainsgroup', 'dir', 'dangling',
       'txt', 'json', 'upper', 'suffix']
# entries which are no HDF5 files by their name, to be ignored without comment
IGNORED = {'txt', 'json', 'upper', 'suffix'}
INCLUDES = ['*', '*DA*', 'RAW*', '*S0000[1-9].h5', '*.h5', 'CORR*', '*bad*', 'nothing*']


def bad_name(kind):
    return {'txt': 'RAW-R0001-DA09-S00000.txt', 'json': 'karabo_data_map_old.json', 'upper': 'RAW-R0001-DA01-S00009.H5',
            'suffix': 'RAW-R0001-DA01-S00000.h5.part'}.get(kind, 'RAW-R0001-DA%02d-S00001-bad.h5' % (50 + BAD.index(kind)))


def make_bad(d, kind, i=0):
    p = os.path.join(d, bad_name(kind))
    sp = dict(GOOD[0])
    if kind == 'truncated':
        build_file(p, sp)
        n = os.path.getsize(p)
        with open(p, 'r+b') as f:
            f.truncate(n // 2)
    elif kind == 'zero':
        open(p, 'w').close()
    elif kind in ('text', 'txt', 'json'):
        with open(p, 'w') as f:
            f.write('[not a data file]')
    elif kind == 'dir':
        os.mkdir(p)
    elif kind == 'dangling':
        os.symlink(os.path.join(d, 'gone.h5_'), p)
    else:
        build_file(p, sp)
        with h5py.File(p, 'r+') as f:
            if kind == 'nometa':
                del f['METADATA']
            elif kind == 'notrains':
                del f['INDEX/trainId']
            elif kind == 'trainsgroup':
                del f['INDEX/trainId']
                f.create_group('INDEX/trainId')
            elif kind == 'category':
                f['METADATA/dataSources/dataSourceId'][0] = b'STRANGE/' + CTRL.encode()
            elif kind == 'badname':
                f['METADATA/dataSources/dataSourceId'][0] = b'CONTROL/\xff\xfe'
    return p


def cases(tier):
    nb = 3 if tier == 'thorough' else 2
    bads = [b for n in range(nb + 1) for b in itertools.combinations(BAD, n)]
    for n in range(len(GOOD) + 1):
        for g in itertools.combinations(range(len(GOOD)), n):
            for j, b in enumerate(bads):
                if tier != 'thorough' and len(b) == 2 and (j + sum(g)) % 3:
                    continue
                yield dict(good=list(g), bad=list(b))


def matching(names, include):
    """Shell-style patterns used here: only '*', '?' and one character class"""
    import re
    rx = re.escape(include).replace(r'\*', '.*').replace(r'\?', '.').replace(r'\[1\-9\]', '[1-9]').replace(r'\[1-9\]', '[1-9]')
    return [n for n in names if n.endswith('.h5') and re.fullmatch(rx, n)]


def orders(names, tier_thorough):
    names = sorted(names)
    if len(names) <= 3:
        yield from itertools.permutations(names)
    else:
        yield names
        yield names[::-1]
        k = len(names) // 2
        yield names[k:] + names[:k]
        if tier_thorough:
            for r in range(1, len(names)):
                yield names[r:] + names[:r]


def run_case(case, ctx):
    import karabo_data as kd
    d = ctx.dir()
    specs = [GOOD[i] for i in case['good']]
    for s in specs:
        build_file(os.path.join(d, s['name']), s)
    for k in case['bad']:
        make_bad(d, k)
    fms = {s['name']: FileModel(s) for s in specs}
    names = [s['name'] for s in specs] + [bad_name(k) for k in case['bad']]
    broken = {bad_name(k) for k in case['bad'] if k not in IGNORED}
    ctx.sample(case)
    real_listdir = os.listdir
    jsn = os.path.join(d, 'karabo_data_map.json')
    n = 0
    for oi, order in enumerate(orders(names, ctx.thorough)):
        for keep_cache in (False, True):
            if os.path.exists(jsn):
                os.unlink(jsn)
            incs = INCLUDES if oi == 0 else INCLUDES[:2]
            for inc in (incs if not keep_cache else incs[1:] + incs[:1]):
                if not keep_cache and os.path.exists(jsn):
                    os.unlink(jsn)
                n += 1
                match = matching(names, inc)
                usable = [x for x in match if x in fms]

                def listdir(p='.', order=order):
                    got = real_listdir(p)
                    if os.path.realpath(p) != os.path.realpath(d):
                        return got
                    return [x for x in order if x in got] + [x for x in got if x not in order]
                where = 'include %r of %s (%s cache):' % (inc, order, 'with' if keep_cache else 'no')
                errs = io.StringIO()
                os.listdir = listdir
                try:
                    with contextlib.redirect_stderr(errs):
                        dc = kd.RunDirectory(d, include=inc)
                except Exception as e:
                    ctx.check(not usable, '%s failed with %r although %s are usable', where, e, usable)
                    ctx.check(isinstance(e, Exception) and str(e), '%s error without message', where)
                    dc = None
                finally:
                    os.listdir = real_listdir
                ctx.step()
                ctx.state(str(case), inc, keep_cache, tuple(order))
                text = errs.getvalue()
                for b in broken & set(match):
                    ctx.check(b in text, '%s nothing reported about %s', where, b)
                for x in set(names) - (broken & set(match)):
                    ctx.check((x + '\n') not in text, '%s reported %s, which is usable or not asked for', where, x)
                if dc is None:
                    continue
                ctx.check(usable, '%s opened %s although no usable file matches', where, dc.files)
                got = sorted(os.path.basename(f.filename) for f in dc.files)
                ctx.check(got == sorted(usable), '%s opened %s, expected %s', where, got, sorted(usable))
                ob.everything(dc, Coll([fms[x] for x in sorted(usable)]), where, arrays=(inc == '*' and oi == 0), iterates=(inc == '*'))
                for f in dc.files:
                    f.close()
                ctx.trace()
    ctx.check(set(os.listdir(d)) - {'karabo_data_map.json'} == set(names), 'directory changed: %s', os.listdir(d))
