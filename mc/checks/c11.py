"""C11: the run files map (cache) is invisible"""
import itertools
import json
import os
import shutil

from .. import observe as ob
from ..caps import drop_dac, effective
from ..core import HarnessError
from ..h5 import build_file, Coll, FileModel
from ..space import *

LEVEL = 'model_checking'
TECHNIQUE = ("explicit-state model checking: breadth-first search of an abstract model of run directory and cache, each reachable "
             "state recreated in a real directory by replaying its history on the real code, results compared there")
RULE = ("breadth-first search over an abstract model of run directory and cache (per file: which version exists and "
        "which version the cache describes; damaged cache contents; place and permissions of the cache); every "
        "reachable state is recreated in a real directory by replaying its shortest history, then the run is opened "
        "in all ways (all files, include patterns, other spellings of the path) and compared with what the present "
        "files hold. State: abstract state; transition: one open in it; traces: histories replayed on the real code.")
ASSUMPTIONS = ["file versions always differ in size or modification time",
               "permissions are made to apply to the checking process by dropping capabilities"]

KC, KI = {'p.value': ['f8', []]}, {'data.a': ['i4', [2]]}
XGM2 = 'SPB_XTD9/XGM/DOOCS'
NAMES = ['RAW-R0001-DA01-S00000.h5', 'RAW-R0001-LAB-S00000.h5', 'RAW-R0001-DA01-S00001.h5']
T0 = 1500000000


def versions(i):
    """[(spec or None if unusable, mtime)]; version 0 is 'absent'"""
    b = 10000 + (50 if i == 2 else 0)

    def sp(tr, src):
        return dict(name=NAMES[i], trains=tr, src=src)
    s1 = [[INSTA, 'I', {'data': [[1, 0, 2], KI]}]] if i == 1 else [[CTRL, 'C', {'': [None, KC]}]]
    s2 = [[INSTB, 'I', {'data': [[1, 1, 1], KI]}]] if i == 1 else [[XGM2, 'C', {'': [None, KC]}]]
    t1 = [b, b + 1, b + 3]
    s1b = [[INSTA, 'I', {'data': [[1, 0, 2, 1, 1, 1, 1, 1] * 8, KI]}]] if i == 1 else s1
    return [
        None,
        (sp(t1, s1), T0),
        (sp(list(range(b, b + 64)) if i != 2 else list(range(b, b + 40)),
            s1b if i == 1 else s1), T0),                    # appended to, same mtime, other size
        (sp([b, b + 2, b + 4], s1), T0 + 0.001),             # other trains, same size
        (sp(t1, s1), T0 - 3600.5),                           # same content, touched
        (sp([b + 1, b + 2, b + 3], s2), T0 + 5),             # other source
        ('broken', T0 + 7),
    ]


NV = 7
CORRUPT = ['empty', 'half', 'binary', 'null', 'dict', 'number', 'strings', 'nofields', 'halffields', 'badtypes', 'foreign',
           'isdir', 'dangling', 'mode0', 'extra', 'dupes']
MODES = ['plain', 'rodir', 'roboth', 'scratch']


def cases(tier):
    nf = 3 if tier == 'thorough' else 2
    for mode in MODES:
        vs = range(NV)
        for v in itertools.product(vs, repeat=nf):
            if nf == 3 and v[2] in (2, 4):
                continue
            yield dict(mode=mode, v=list(v))


# ---- abstract model ----
def usable(i, v):
    return v not in (0, 6)


def after_open(v, cache, incl):
    """cache: tuple of described versions (0: none) -> cache after opening"""
    valid = tuple(c if c and c == x else 0 for c, x in zip(cache, v))
    new = tuple(x if usable(i, x) and i in incl else c for i, (c, x) in enumerate(zip(valid, v)))
    return cache if new == valid else new


def reachable_caches(v, depth=None):
    """All caches which histories of opens and file changes ending with files v can leave, each with a history
    [(files, include)...] to make it"""
    n = len(v)
    zero = (0,) * n
    out = {zero: []}
    # a cache that describes versions w is made by opening the files set to w, one pattern at a time;
    # breadth-first over (files, include) steps
    frontier = [(zero, [])]
    for _ in range(2 if n == 2 else 3):
        nxt = []
        for c, h in frontier:
            for w in itertools.product(*[[x for x in range(NV) if usable(i, x)] + [0] for i in range(n)]):
                for incl in [tuple(range(n))] + [(i,) for i in range(n)]:
                    if not any(usable(i, w[i]) and i in incl for i in range(n)):
                        continue
                    c2 = after_open(w, c, incl)
                    if c2 not in out:
                        out[c2] = h + [[list(w), list(incl)]]
                        nxt.append((c2, out[c2]))
        frontier = nxt
    return out


_lib = {}


def library(d, nf):
    """Build each version's bytes once per worker"""
    if nf in _lib:
        return _lib[nf]
    lib = []
    for i in range(nf):
        row = [None]
        for ver in versions(i)[1:]:
            p = os.path.join(d, 'lib.h5_')
            if ver[0] == 'broken':
                build_file(p, versions(i)[1][0])
                raw = open(p, 'rb').read()
                row.append((raw[:len(raw) // 3], ver[1], None))
            else:
                build_file(p, ver[0])
                row.append((open(p, 'rb').read(), ver[1], FileModel(ver[0])))
            os.unlink(p)
        keys = [(len(r[0]), r[1]) for r in row[1:]]
        if len(set(keys)) != len(keys) or len(row[1][0]) != len(row[3][0]) or len(row[1][0]) == len(row[2][0]):
            raise HarnessError('versions not as intended: %s' % keys)
        lib.append(row)
    _lib[nf] = lib
    return lib


def setup_worker():
    import logging
    drop_dac()
    logging.getLogger('karabo_data').setLevel(logging.CRITICAL)


class World:
    def __init__(self, root, mode, lib):
        self.lib, self.mode = lib, mode
        self.exp = os.path.join(root, 'exp')
        self.run = os.path.join(root, 'd', 'raw', 'XMPL', '201750', 'p700000', 'r0001')
        os.makedirs(self.run)
        self.scratchfile = None
        if mode in ('rodir', 'scratch'):
            s = os.path.join(self.exp, 'XMPL', '201750', 'p700000', 'scratch')
            os.makedirs(s)
            self.scratchfile = os.path.join(s, '.karabo_data_maps', 'raw_r0001.json')
        self.link = os.path.join(root, 'link')
        os.symlink(self.run, self.link)
        self.json = os.path.join(self.run, 'karabo_data_map.json')
        self.cur = [0] * len(lib)

    def writable(self, yes):
        os.chmod(self.run, 0o755 if yes else 0o555)

    def files(self, v):
        self.writable(True)
        for i, x in enumerate(v):
            p = os.path.join(self.run, NAMES[i])
            if x == self.cur[i]:
                continue
            if x == 0:
                os.unlink(p)
            else:
                raw, mtime, _ = self.lib[i][x]
                with open(p + '.new', 'wb') as f:
                    f.write(raw)
                os.utime(p + '.new', (mtime, mtime))
                os.replace(p + '.new', p)
            self.cur[i] = x
        if self.mode in ('rodir', 'roboth'):
            self.writable(False)

    def clear(self):
        self.writable(True)
        for p in (self.json, self.scratchfile):
            if p:
                wipe(p)
        if self.mode in ('rodir', 'roboth'):
            self.writable(False)

    def model(self, incl):
        return [self.lib[i][x][2] for i, x in enumerate(self.cur) if i in incl and usable(i, x)]


def wipe(p):
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    elif os.path.lexists(p):
        os.unlink(p)


def damage(p, kind, good, w):
    """Put a damaged cache at p; good: the text of an intact one"""
    os.makedirs(os.path.dirname(p), exist_ok=True)
    wipe(p)
    if kind == 'isdir':
        os.mkdir(p)
        return
    if kind == 'dangling':
        os.symlink(os.path.join(os.path.dirname(p), 'no', 'where'), p)
        return
    ents = json.loads(good)
    raw = {
        'empty': b'', 'half': good.encode()[:len(good) // 2], 'binary': b'\xff\xfe\x00[{' + good.encode(),
        'null': b'null', 'dict': json.dumps({e['filename']: e for e in ents}).encode(), 'number': b'17',
        'strings': json.dumps([e['filename'] for e in ents]).encode(),
        'nofields': json.dumps([{} for e in ents]).encode(),
        'halffields': json.dumps([{k: e[k] for k in ('filename', 'mtime', 'size')} for e in ents]).encode(),
        'badtypes': json.dumps([dict(e, train_ids=None, control_sources=3) for e in ents] +
                               [dict(e, filename=7) for e in ents] + [dict(e, train_ids=['x']) for e in ents] +
                               [dict(e, mtime='x') for e in ents]).encode(),
        # entries of the same file names in another run
        'foreign': json.dumps([dict(e, mtime=e['mtime'] + 100.25, train_ids=[5, 6], control_sources=['FOREIGN/A/B'],
                                    instrument_sources=[]) for e in ents]).encode(),
        'mode0': good.encode(),
        'extra': json.dumps(ents + [dict(e, filename='gone-' + e['filename']) for e in ents]).encode(),
        'dupes': json.dumps([dict(e, mtime=0.5, train_ids=[5], control_sources=['FOREIGN/A/B']) for e in ents] + ents).encode(),
    }[kind]
    with open(p, 'wb') as f:
        f.write(raw)
    if kind == 'mode0':
        os.chmod(p, 0)


def open_check(ctx, kd, w, incl, how, where):
    n = len(w.lib)
    pat = '*' if len(incl) == n else NAMES[incl[0]]
    path, cwd = w.run, None
    if how == 'symlink':
        path = w.link
    elif how == 'slash':
        path = w.run + '/'
    elif how == 'relative':
        cwd, path = os.getcwd(), 'r0001'
        os.chdir(os.path.dirname(w.run))
    ms = w.model(incl)
    try:
        try:
            dc = kd.RunDirectory(path, include=pat)
        except Exception as e:
            import traceback
            ctx.check(not ms, '%s opening %s (%s) failed: %r [%s]', where, pat, how, e,
                      traceback.extract_tb(e.__traceback__)[-1])
            return
    finally:
        if cwd:
            os.chdir(cwd)
    ctx.step()
    where = '%s opened with %s (%s):' % (where, pat, how)
    ctx.check(ms, '%s no usable file, but got %s', where, dc.files)
    m = Coll(ms)
    try:
        if how == 'plain':
            # few enough trains for complete reading; else structure and one train
            small = len(m.trains) <= 6
            ob.trainids(dc, m, where)
            srcs = ob.sources(dc, m, where)
            for t in (m.trains if small else m.trains[:1] + m.trains[-1:]):
                ob.by_id(dc, m, t, srcs, where)
            for s in srcs:
                for k in m.sel[s]:
                    ob.array(dc, m, s, k, where)
        else:
            ob.trainids(dc, m, where)
            srcs = ob.sources(dc, m, where)
            ob.by_id(dc, m, m.trains[0], srcs, where)
    finally:
        for f in dc.files:
            f.close()


def snapshot(w):
    out = {}
    for p in (w.json, w.scratchfile):
        if p and os.path.isfile(p) and os.access(p, os.R_OK):
            out[p] = open(p, 'rb').read()
        elif p:
            out[p] = None
    return out


def restore(w, snap):
    w.writable(True)
    for p, raw in snap.items():
        wipe(p)
        if raw is not None:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(raw)
    if w.mode in ('rodir', 'roboth'):
        w.writable(False)


def run_case(case, ctx):
    import contextlib
    import io
    import karabo_data as kd
    from karabo_data import run_files_map as rfm
    v, mode = case['v'], case['mode']
    nf = len(v)
    d = ctx.dir()
    lib = library(d, nf)
    w = World(os.path.join(d, 'w'), mode, lib)
    ctx.sample(case)
    old = rfm.SCRATCH_ROOT_DIR
    rfm.SCRATCH_ROOT_DIR = w.exp
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            explore(case, ctx, kd, w, v, mode, nf)
    finally:
        rfm.SCRATCH_ROOT_DIR = old
        w.writable(True)


def explore(case, ctx, kd, w, v, mode, nf):
    allf = tuple(range(nf))
    opens = [(allf, 'plain'), ((0,), 'plain'), ((1,), 'plain'), (allf, 'symlink'), (allf, 'relative'), (allf, 'slash')]
    caches = reachable_caches(v)
    items = sorted(caches.items())
    if mode == 'roboth':
        items = items[:1]
    if mode == 'scratch':
        items = items[::7]
    if nf == 3:
        items = [it for i, it in enumerate(items) if (i + sum(v)) % 4 == 0]
    for cache, hist in items:
        w.clear()
        # replay the history on the real code
        for fv, incl in hist:
            w.files(fv)
            if mode == 'scratch':
                w.writable(len(incl) > 1)   # written by different users in different places
            open_quiet(kd, w, incl)
        w.files(v)
        if mode == 'scratch':
            w.writable(True)
        ctx.trace()
        ctx.state(mode, tuple(v), cache)
        snap = snapshot(w)
        where = 'files %s (%s), after opening %s:' % (v, mode, hist)
        for j, (incl, how) in enumerate(opens):
            if how != 'plain' and (sum(cache) + j) % 3:
                continue
            if j:
                restore(w, snap)
            open_check(ctx, kd, w, incl, how, where)
            open_check(ctx, kd, w, allf, 'plain', where + ' then again')
    # damaged caches
    w.clear()
    good_v = [x if usable(i, x) else 1 for i, x in enumerate(v)]
    w.files(good_v)
    # an intact cache to damage: made in a writable directory
    w.writable(True)
    open_quiet(kd, w, allf)
    good = None
    for p in (w.json, w.scratchfile):
        if p and os.path.isfile(p):
            good = open(p).read()
    try:
        ents = json.loads(good)
        assert all(isinstance(e, dict) and 'filename' in e and 'mtime' in e for e in ents)
    except Exception:
        # no cache, or stored in another format: damage some text
        good = json.dumps([dict(filename=n, mtime=T0, size=5, train_ids=[1], control_sources=['A/B/C'],
                                instrument_sources=[]) for n in NAMES[:nf]])
    for target in (w.json, w.scratchfile):
        if target is None:
            continue
        for kind in CORRUPT:
            for j, (incl, how) in enumerate(opens[:3]):
                w.clear()
                w.files(v)
                w.writable(True)
                damage(target, kind, good, w)
                if mode in ('rodir', 'roboth'):
                    w.writable(False)
                ctx.state(mode, tuple(v), kind, os.path.basename(target))
                where = 'files %s (%s), %s cache in %s:' % (v, mode, kind, os.path.basename(target))
                open_check(ctx, kd, w, incl, how, where)
                open_check(ctx, kd, w, allf, 'plain', where + ' then again')
                if mode not in ('rodir', 'roboth'):
                    # and with other versions of the files after that
                    w2 = [(x + 1) % NV for x in v]
                    w.files(w2)
                    open_check(ctx, kd, w, allf, 'plain', where + ' then files %s' % w2)
                w.writable(True)
                wipe(target)
    w.clear()


def open_quiet(kd, w, incl):
    n = len(w.lib)
    try:
        dc = kd.RunDirectory(w.run, include='*' if len(incl) == n else NAMES[incl[0]])
    except Exception as e:
        from ..core import Violation
        if w.model(incl):
            raise Violation('opening files %s, include %s failed: %r' % (w.cur, incl, e))
    else:
        for f in dc.files:
            f.close()
