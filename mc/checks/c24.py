"""C24: opening runs by proposal and run number"""
import itertools
import os

import h5py

from ..h5 import build
from ..space import *

LEVEL = 'model_checking'
RULE = ("every placement of three proposals with look-alike numbers in a data root with several instruments and cycles, "
        "with different subsets of runs in raw and proc; every spelling of every proposal number x every spelling of "
        "every run number (existing or not) x data folder x include pattern. State: distinct (tree, proposal, run, "
        "folder); transition: one call of open_run().")
ASSUMPTIONS = ["proposal and run numbers are positive integers; the data root has the layout instrument/cycle/proposal/data/run",
               "a proposal directory exists once below the data root"]

PLACES = ['SPB/201701', 'FXE/201701', 'SPB/201802', 'SCS/202001']
PROPS = [(12, 112, 120), (2012, 12, 201), (900012, 12, 90001), (100012, 10001, 12), (1, 11, 110001), (700000, 70000, 7),
         (1234567, 123456, 234567)]
RUNS = [(1, 10, 11), (243, 24, 43), (1000, 100, 10000), (9999, 999, 99), (12, 2, 120)]
CROWD = ['SPB/201701/p00001', 'SPB/201701/p0000120', 'SPB/201701/xp000012', 'FXE/p000012/raw/r0001', 'p000012/raw/r0001',
         'FXE/201701/deeper/p000012/raw/r0001', 'SPB/201701/p000012.old/raw/r0001', 'FXE/201701/P000012/raw/r0001']
KX = {'p.value': ['f8', []]}


def cases(tier):
    big = tier == 'thorough'
    for i, ps in enumerate(PROPS):
        for j, rs in enumerate(RUNS):
            for k, places in enumerate(itertools.permutations(PLACES, 2)):
                if not big and (i + j + k) % 3:
                    continue
                yield dict(props=ps, runs=rs, places=places, crowd=(i + j + k) % 2)


def pdir(n):
    s = str(n)
    return 'p' + '0' * (6 - len(s)) + s


def rdir(n):
    s = str(n)
    return 'r' + '0' * (4 - len(s)) + s


def tid(pi, ri, data):
    return 10000 + 100 * pi + 10 * ri + (data == 'proc')


def make_run(d, t):
    os.makedirs(d)
    build(d, [dict(name='RAW-R0001-DA01-S00000.h5', trains=[t], src=[[CTRL, 'C', {'': [None, KX]}]]),
              dict(name='RAW-R0001-DA02-S00000.h5', trains=[t], src=[[INSTA.split(':')[0] + '/Y', 'C', {'': [None, KX]}]])])


def spell_run(n):
    """Spellings documented for a run number"""
    out = [n, str(n), rdir(n)]
    for w in (2, 3, 4):
        s = str(n).rjust(w, '0')
        if s not in out:
            out.append(s)
    return out


def spell_prop(n):
    out = [n, str(n), pdir(n)]
    for w in (4, 6):
        s = str(n).rjust(w, '0')
        if s not in out:
            out.append(s)
    return out


def run_case(case, ctx):
    import karabo_data as kd
    from karabo_data import read_machinery
    root = ctx.dir()
    here = {}       # (prop, run, data) -> train
    where_is = {}
    for pi, p in enumerate(case['props']):
        if pi == 2:
            continue    # the third proposal doesn't exist
        place = os.path.join(root, case['places'][pi % 2])
        where_is[p] = os.path.join(place, pdir(p))
        os.makedirs(os.path.join(where_is[p], 'usr'))
        for ri, r in enumerate(case['runs']):
            for data in ('raw', 'proc'):
                # different subsets of runs: one only in raw, one only in proc, some in both
                if (pi + ri) % 3 == (0 if data == 'proc' else 1):
                    continue
                here[p, r, data] = tid(pi, ri, data)
                make_run(os.path.join(where_is[p], data, rdir(r)), here[p, r, data])
    if case['crowd']:
        for i, c in enumerate(CROWD):
            c = c.replace('000012', pdir(case['props'][1])[1:])
            if not os.path.exists(os.path.join(root, c)):
                os.makedirs(os.path.join(root, c)) if '/raw/' not in c else make_run(os.path.join(root, c), 99000 + i)
    # a proposal directory elsewhere, reached through a link
    link = os.path.join(ctx.dir(), 'lnk')
    p0 = case['props'][0]
    os.symlink(where_is[p0], link)
    ctx.sample(case)
    old, cwd = read_machinery.DATA_ROOT_DIR, os.getcwd()
    read_machinery.DATA_ROOT_DIR = root
    os.chdir(root)
    try:
        n = 0
        for p in case['props']:
            sp = spell_prop(p)
            if p in where_is:
                sp = sp + [where_is[p], where_is[p] + '/', os.path.relpath(where_is[p], root), './' + os.path.relpath(where_is[p], root)]
                if p == p0:
                    sp.append(link)
            for r in case['runs'] + [max(case['runs']) + 1]:
                for data in ('raw', 'proc'):
                    ctx.state(str(case), p, r, data)
                    want = here.get((p, r, data))
                    for ps, rs in itertools.product(sp, spell_run(r)):
                        n += 1
                        kw = {} if data == 'raw' and n % 2 else {'data': data}
                        inc = ('*', '*DA01*', '*DA09*')[n % 5 % 3]
                        if inc != '*':
                            kw['include'] = inc
                        ctx.step()
                        what = 'open_run(%r, %r, %s)' % (ps, rs, kw)
                        try:
                            # keywords as in the documentation, or positions
                            run = kd.open_run(proposal=ps, run=rs, **kw) if n % 4 else kd.open_run(ps, rs, **kw)
                        except Exception as e:
                            ctx.check(want is None or inc == '*DA09*', '%s failed: %r', what, e)
                            continue
                        got = {os.path.realpath(os.path.dirname(f.filename)) for f in run.files}
                        ctx.check(want is not None, '%s opened %s, although this run does not exist', what, got)
                        exp = os.path.realpath(os.path.join(where_is[p], data, rdir(r)))
                        ctx.check(got == {exp}, '%s opened %s, expected %s', what, got, exp)
                        ctx.check([int(t) for t in run.train_ids] == [want], '%s has trains %s, expected %s', what, run.train_ids, want)
                        names = sorted(os.path.basename(f.filename) for f in run.files)
                        ctx.check(names == ['RAW-R0001-DA0%d-S00000.h5' % i for i in ((1, 2) if inc == '*' else (1,))],
                                  '%s opened files %s', what, names)
                        for f in run.files:
                            f.close()
                        ctx.trace()
    finally:
        read_machinery.DATA_ROOT_DIR = old
        os.chdir(cwd)
