"""C12: cache updates under crashes, I/O errors and concurrent opens"""
import contextlib
import errno
import io
import itertools
import json
import os
import shutil

from .. import observe as ob
from ..core import HarnessError, Violation
from ..faults import FS, Crash, err
from ..h5 import Coll
from ..sched import Sched, explore, Killed
from ..space import *
from . import c11
from .c11 import NAMES, World, library, wipe

LEVEL = 'model_checking'
TECHNIQUE = ("exhaustive enumeration of crash points, torn writes, I/O errors and bounded-preemption schedules on the real code "
             "with intercepted file system operations")
RULE = ("the real opening code runs on a real directory with every file system operation intercepted: each "
        "operation is a crash point (writes also torn at 0, 1, half, all but 1 bytes), a failing operation (all "
        "errors of a menu; pairs of failures), or a scheduling point of two openers (all interleavings within a "
        "preemption bound) or of a data file being replaced; the cache file is examined after every step and the run "
        "opened afresh afterwards. State: distinct (situation, fault/schedule); transition: intercepted operation.")
ASSUMPTIONS = ["a crash loses what the process had not yet passed to the operating system, and nothing else",
               "processes are run as threads of one process, with the baton passed at file system operations"]
CASE_TIMEOUT = 700
ERRS = [errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EIO]

# (current file versions, cache made by opening these files, with that include), include of the opener
SITUATIONS = [
    ('fresh', [1, 1], None, (0, 1)),
    ('stale', [1, 3], [1, 1], (0, 1)),
    ('partial', [1, 1], [1, 0], (0, 1)),
    ('one', [2, 1], None, (0,)),
    ('broken', [6, 1], [1, 1], (0, 1)),
    ('valid', [1, 1], [1, 1], (0, 1)),
]


def cases(tier):
    big = tier == 'thorough'
    for mode in ('plain', 'scratch', 'rodir'):
        for s in range(len(SITUATIONS)):
            yield dict(kind='crash', s=s, mode=mode)
            yield dict(kind='error', s=s, mode=mode)
    for s in range(len(SITUATIONS)):
        if SITUATIONS[s][2]:
            yield dict(kind='crash', s=s, mode='rokeep')
            yield dict(kind='error', s=s, mode='rokeep')
    for s in range(len(SITUATIONS)):
        for i in (0, 1):
            for nv in range(7):
                if nv != SITUATIONS[s][1][i]:
                    yield dict(kind='replace', s=s, mode='plain', file=i, to=nv)
    for s in range(5):
        for n, (ia, ib) in enumerate([((0, 1), (0, 1)), ((0, 1), (0,)), ((1,), (0,))]):
            inc = [list(ia), list(ib)]
            for first in (0, 1):
                yield dict(kind='pair', s=s, mode='plain', inc=inc, bound=(3 if s in (0, 2) else 2) if big else 2 if s == 0 or (s < 3 and n == 1) else 1, shard=first)
                if big or s == 0:
                    yield dict(kind='pair', s=s, mode='rodir', inc=inc, bound=2 if big else 1, shard=first)
            for i, nv in ((0, 3), (1, 5), (0, 2)):
                if big or s < 2:
                    yield dict(kind='pairrep', s=s, mode='plain', inc=inc, bound=2 if big else 1, file=i, to=nv)


setup_worker = c11.setup_worker


class Run:
    """One situation, recreated as often as needed"""
    def __init__(self, case, ctx, kd):
        self.kd, self.ctx = kd, ctx
        name, self.v, self.before, self.inc = SITUATIONS[case['s']]
        self.lib = library(ctx.dir(), 2)
        self.root = os.path.join(ctx.dir(), 'w')
        self.mode = case['mode']
        # a map in a run directory which can't be written to any more
        self.w = World(self.root, 'rodir' if self.mode == 'rokeep' else self.mode, self.lib)
        self.fs = FS(self.root)
        self.where = '%s (%s)' % (name, self.mode)
        self.seen = set()
        self.reset(first=True)

    def reset(self, first=False):
        w = self.w
        if first:
            w.clear()
            if self.before:
                w.files(self.before)
                if self.mode == 'rokeep':
                    w.writable(True)
                c11.open_quiet(self.kd, w, (0, 1))
            self.snap = c11.snapshot(w)
            w.files(self.v)
            self.known = set(os.listdir(w.run)) - {'karabo_data_map.json'}
        else:
            w.files(self.v)
            w.writable(True)
            for p in self.places():
                d = os.path.dirname(p)
                if os.path.isdir(d):
                    for fn in os.listdir(d):
                        if os.path.join(d, fn) in self.places():
                            continue
                        if d == w.run and fn in NAMES:
                            continue
                        if d == os.path.dirname(w.scratchfile or '') or d == w.run:
                            wipe(os.path.join(d, fn))
            c11.restore(w, self.snap)
            if w.scratchfile and self.snap.get(w.scratchfile) is None:
                wipe(os.path.dirname(w.scratchfile))

    def places(self):
        return [p for p in (self.w.json, self.w.scratchfile) if p]

    def caches(self):
        out = []
        for p in self.places():
            try:
                with open(p, 'rb') as f:
                    out.append(f.read())
            except OSError:
                out.append(None)
        return out

    def temps(self):
        """Files which don't belong there"""
        out = []
        w = self.w
        for d in {os.path.dirname(p) for p in self.places()}:
            if os.path.isdir(d):
                out += [fn for fn in os.listdir(d) if fn not in NAMES and os.path.join(d, fn) not in self.places()]
        return out

    def is_cache_path(self, p):
        return p is not None and os.path.basename(p) not in NAMES and p != self.w.run and not \
            self.w.run.startswith(p + '/')

    def opener(self, inc):
        w = self.w
        pat = '*' if len(inc) == 2 else NAMES[inc[0]]
        return self.kd.RunDirectory(w.run, include=pat)

    def truth(self, dc, inc, where):
        m = Coll(self.w.model(inc))
        ob.trainids(dc, m, where)
        srcs = ob.sources(dc, m, where)
        for t in (m.trains[0], m.trains[-1]):
            ob.by_id(dc, m, t, srcs, where)
        close(dc)

    def afterwards(self, where, incs=((0, 1), (0,), (1,))):
        """Opening the run normally must work and give the truth"""
        # the outcome depends only on what is in the directories, so look at each content once
        key = (tuple(self.caches()), tuple(self.w.cur), tuple(incs), tuple(sorted(self.temps())))
        if key in self.seen:
            return
        self.seen.add(key)
        for inc in incs:
            if self.w.model(inc):
                try:
                    dc = self.opener(inc)
                except Exception as e:
                    raise Violation('%s opening the run afterwards failed: %r' % (where, e))
                self.truth(dc, inc, where + ' then opened with %s:' % (inc,))

    def complete_versions(self, incs=None, extra_v=()):
        """Contents of the cache file(s) which count as complete versions: initial and after undisturbed opens"""
        ok = [set() for _ in self.places()]

        def note():
            for s, c in zip(ok, self.caches()):
                s.add(c)
        incs = incs or [self.inc]
        self.reset()
        note()
        for seq in [p for n in range(1, len(incs) + 1) for p in itertools.permutations(incs, n)]:
            vs = [[]] + ([[list(extra_v)] * k for k in range(1)] if not extra_v else [])
            self.reset()
            for inc in seq:
                c11.open_quiet(self.kd, self.w, inc)
                note()
        for s in ok:
            s.add(None)
        return ok

    def check_caches(self, ok, where, strict=True):
        for s, c, p in zip(ok, self.caches(), self.places()):
            if c in s:
                continue
            # another complete version?
            try:
                data = json.loads(c.decode())
                samples = [json.loads(x.decode()) for x in s if x]
                shape = {type(x) for x in samples} or {list}
                good = type(data) in shape and complete_like(data, samples)
            except ValueError:
                good = False
            if not good:
                raise Violation('%s the cache file %s holds neither a complete old nor a complete new version: %r' % (
                    where, os.path.basename(p), c[:80]))


def complete_like(data, samples):
    """Each entry has the same fields as those of undisturbed versions"""
    if isinstance(data, list) and all(isinstance(e, dict) for e in data):
        fields = {frozenset(e) for x in samples if isinstance(x, list) for e in x if isinstance(e, dict)}
        return not fields or {frozenset(e) for e in data} <= fields
    return True


def close(dc):
    for f in dc.files:
        f.close()


def guarded_open(run, hook, inc):
    """-> ('ok', dc) | ('crash', None) | ('error', exception)"""
    with run.fs.patched():
        with run.fs.thread(hook):
            try:
                return 'ok', run.opener(inc)
            except Crash:
                return 'crash', None
            except Exception as e:
                return 'error', e


def count_ops(run):
    ops = []
    run.reset()
    st, dc = guarded_open(run, lambda op: ops.append(op), run.inc)
    if st != 'ok':
        raise Violation('%s: opening fails: %r' % (run.where, dc))
    close(dc)
    return ops


def run_case(case, ctx):
    import karabo_data as kd
    from karabo_data import run_files_map as rfm
    old = rfm.SCRATCH_ROOT_DIR
    run = None
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            rfm.SCRATCH_ROOT_DIR = 'unset'
            d = ctx.dir()
            run = Run.__new__(Run)
            # the world needs the root before its cache can be made
            rfm.SCRATCH_ROOT_DIR = os.path.join(ctx.tmp, 'd%d' % (ctx._n + 2), 'w', 'exp')
            run.__init__(case, ctx, kd)
            assert run.w.exp == rfm.SCRATCH_ROOT_DIR
            ctx.sample(case)
            globals()['do_' + case['kind']](case, ctx, run)
    finally:
        rfm.SCRATCH_ROOT_DIR = old
        if run is not None and hasattr(run, 'w'):
            run.w.writable(True)


def do_crash(case, ctx, run):
    ops = count_ops(run)
    ok = run.complete_versions()
    for i in range(len(ops)):
        variants = [None]
        if ops[i].kind == 'write':
            n = ops[i].size
            variants += sorted({0, 1, n // 2, n - 1, n} - {None})
        for torn in variants:
            run.reset()
            st = dict(n=0, dead=False)

            def hook(op):
                if st['dead']:
                    raise Crash
                st['n'] += 1
                if st['n'] == i + 1:
                    st['dead'] = True
                    if torn is not None and op.kind == 'write':
                        return 'torn', min(torn, op.size), Crash()
                    raise Crash
            got, dc = guarded_open(run, hook, run.inc)
            ctx.step(st['n'])
            where = '%s: crash at operation %d %r%s:' % (run.where, i, ops[i], '' if torn is None else ' after %d bytes' % torn)
            ctx.state(str(case), i, torn)
            if got == 'error':
                raise HarnessError('%s crash became %r' % (where, dc))
            if got == 'ok':
                close(dc)
            run.check_caches(ok, where)
            run.afterwards(where)
            ctx.trace()
            ctx.count('crash_points')


def do_error(case, ctx, run):
    ops = count_ops(run)
    ok = run.complete_versions()
    at = [i for i, op in enumerate(ops) if run.is_cache_path(op.path)]
    plans = [(i, e) for i in at for e in ERRS]
    plans = [((i, e),) for i, e in plans] + [((i, e), (j, f)) for i, e in plans if ctx.thorough or e in (ERRS[0], ERRS[2])
                                             for j in range(i + 1, len(ops) + 3) for f in (ERRS[0], ERRS[2])]
    for plan in plans:
        run.reset()
        st = dict(n=0, unlink=False)
        fails = dict(plan)

        def hook(op):
            k = st['n']
            st['n'] += 1
            if k in fails and run.is_cache_path(op.path):
                if op.kind in ('unlink', 'remove', 'close'):
                    st['unlink'] = True
                if op.kind == 'write':
                    return 'torn', op.size // 2, err(fails[k])
                return 'error', err(fails[k])
        got, dc = guarded_open(run, hook, run.inc)
        ctx.step(st['n'])
        ctx.state(str(case), plan)
        where = '%s: %s:' % (run.where, ', '.join('%s at operation %d %r' % (
            errno.errorcode[e], i, ops[i] if i < len(ops) else '') for i, e in plan))
        if got != 'ok':
            raise Violation('%s opening failed: %r' % (where, dc))
        run.truth(dc, run.inc, where)
        run.check_caches(ok, where)
        if not st['unlink']:
            ctx.check(not run.temps(), '%s left behind %s', where, run.temps())
        run.afterwards(where)
        ctx.trace()
        ctx.count('faults')


def tolerant(run, dc, inc, vers, where):
    """The result of an opener racing with a replacement: each file as in one of its versions"""
    got = {int(t) for t in dc.train_ids}
    opts = []
    for i in inc:
        o = []
        for x in vers[i]:
            fm = run.lib[i][x][2] if c11.usable(i, x) else None
            o.append((set(), set()) if fm is None else (fm.tset, fm.sources))
        opts.append(o)
    srcs = set(dc.all_sources)
    for combo in itertools.product(*opts):
        if set().union(*[c[0] for c in combo]) == got and set().union(*[c[1] for c in combo]) == srcs:
            break
    else:
        raise Violation('%s opened with trains %s, sources %s, which no version of the files has' % (
            where, sorted(got)[:10], sorted(srcs)))
    close(dc)


def do_replace(case, ctx, run):
    """A data file is replaced at any point of an open"""
    ops = count_ops(run)
    i, nv = case['file'], case['to']
    for k in range(len(ops) + 1):
        run.reset()
        st = dict(n=0)

        def hook(op):
            if st['n'] == k:
                with unhooked(run.fs):
                    v = list(run.v)
                    v[i] = nv
                    run.w.files(v)
            st['n'] += 1
        got, dc = guarded_open(run, hook, run.inc)
        ctx.step(st['n'])
        ctx.state(str(case), k)
        where = '%s: file %d becomes version %d before operation %d %s:' % (run.where, i, nv, k, ops[k] if k < len(ops) else '')
        vers = {j: {x} for j, x in enumerate(run.v)}
        vers[i].add(nv)
        if got == 'error':
            # acceptable only if there was nothing usable at some moment
            alive = [j for j in run.inc if all(c11.usable(j, x) for x in vers[j])]
            if alive:
                raise Violation('%s opening failed: %r' % (where, dc))
        else:
            tolerant(run, dc, run.inc, vers, where)
        if st['n'] <= k:
            v = list(run.v)
            v[i] = nv
            run.w.files(v)
        run.afterwards(where)
        # and with the old file back
        run.w.files(run.v)
        run.afterwards(where + ' and the old file is back,')
        ctx.trace()


@contextlib.contextmanager
def unhooked(fs):
    import threading
    ident = threading.get_ident()
    h = fs.hooks.pop(ident, None)
    try:
        yield
    finally:
        if h is not None:
            fs.hooks[ident] = h


def pair(case, ctx, run, replace=None):
    incs = [tuple(x) for x in case['inc']]
    for inc in incs:
        if not run.w.model(inc):
            return
    ok = run.complete_versions(list(incs))
    if replace:
        ok = [s | {None} for s in ok]
    bad_cache = [None]

    def execute(prefix):
        run.reset()
        s = Sched(prefix)
        s.keep_log = True
        for k, inc in enumerate(incs):
            def body(k=k, inc=inc):
                def hook(op):
                    s.yield_(repr(op))
                with run.fs.thread(hook):
                    return run.opener(inc)
            s.spawn('AB'[k], body)
        if replace:
            def rep():
                i, nv = replace
                v = list(run.v)
                v[i] = nv
                run.w.files(v)
            s.spawn('replace', rep)
        last = [run.caches()]

        def on_step():
            with unhooked(run.fs):
                check_now()

        def check_now():
            now = run.caches()
            if now != last[0]:
                last[0] = now
                run.check_caches(ok, 'during %s' % s.log[-6:])
        s.on_step = on_step
        with run.fs.patched():
            s.run()
        return s

    n = 0
    for s in explore(execute, case['bound']):
        n += 1
        ctx.step(s.steps)
        ctx.trace()
        ctx.state(str(case), tuple(c[0] for c in s.choices))
        where = '%s: openers %s%s, schedule %s:' % (run.where, incs, ' and replacement %s' % (replace,) if replace else '', brief_log(s.log))
        if s.problem:
            if isinstance(s.problem, Violation):
                raise Violation('%s %s' % (where, s.problem.msg))
            raise HarnessError('%s %r' % (where, s.problem))
        vers = {j: {x} for j, x in enumerate(run.v)}
        if replace:
            vers[replace[0]].add(replace[1])
        for t, inc in zip(s.threads, incs):
            if t.exc is not None:
                raise Violation('%s opener %s failed: %r' % (where, t.name, t.exc))
            if replace:
                tolerant(run, t.result, inc, vers, where)
            else:
                run.truth(t.result, inc, where + ' opener %s:' % t.name)
        if replace and s.threads[2].exc is not None:
            raise HarnessError(repr(s.threads[2].exc))
        run.check_caches(ok, where)
        ctx.check(not run.temps(), '%s left behind %s', where, run.temps())
        run.afterwards(where, [(0, 1)])
        if replace:
            run.w.files(run.v)
            run.afterwards(where + ' and the old file is back,', [(0, 1)])
    ctx.count('schedules', n)


def brief_log(log):
    out = []
    for name, label in log:
        if not out or out[-1][0] != name:
            out.append([name, label, 0])
        out[-1][2] += 1
    return ', '.join('%s:%s..x%d' % tuple(o) for o in out)


def do_pair(case, ctx, run):
    if case['shard']:
        # other thread first
        case = dict(case, inc=case['inc'][::-1])
        if case['inc'][0] == case['inc'][1]:
            return
    pair(case, ctx, run)


def do_pairrep(case, ctx, run):
    pair(case, ctx, run, (case['file'], case['to']))
