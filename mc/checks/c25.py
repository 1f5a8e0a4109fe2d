"""C25: summaries"""
import contextlib
import datetime
import io
import itertools
import os
import re
import warnings

import h5py
import numpy as np

from ..det import make_getval
from ..h5 import build, Coll, FileModel
from ..space import *
from .. import wide

LEVEL = 'model_checking'
RULE = ("every run from small spaces: detector modules x frame counts per train x splits into files x aggregated sources "
        "x recorded trains; info(), train_info() and detector_info() of every file, of the run, of train ranges and of "
        "source selections; lsxfel on every file, sets of files, run and proposal directories with odd names, empty and "
        "unusable files. The numbers and names in the output are compared with the model. State: distinct (layout, "
        "summary); transition: one summary.")
ASSUMPTIONS = ["frames per train are an estimate from one of the source's files which has frames: the largest number in that file",
               "the number of trains lsxfel gives for a run is that of one set of sequence files"]

GETVAL = make_getval('same')
DETS = {
    'AGIPD': ('SPB_DET_AGIPD1M-1/DET/%dCH0:xtdf', [2, 3, 4]),
    'LPD': ('FXE_DET_LPD1M-1/DET/%dCH0:xtdf', [5, 2]),
    'DSSC': ('SCS_DET_DSSC1M-1/DET/%dCH0:xtdf', [1, 4, 2]),
}
KX = {'data.v': ['i4', [2]]}
KC = {'p.value': ['f8', []]}
HDR = {'header.magic': ['u4', []]}
AGG = ['none', 'both', 'ctrl', 'inst', 'two']


def det_keys(shape):
    return {'image.data': ['u2', shape], 'image.pulseId': ['u8', []]}


def specs_of(case):
    n = case['n']
    tr = tids(case['tid'], n)
    out = []
    comp = compositions(n)[case['comp']]
    for i, m in enumerate(case['mods']):
        name, shape = DETS[case['det']]
        src = name % m
        cnt = case['counts'] if i == 0 else case['counts'][::-1]
        groups = {'header': [[1] * n, HDR]}
        if case.get('image', True):
            groups['image'] = [cnt, det_keys(shape)]
        c = comp if i == 0 else compositions(n)[case.get('comp2', case['comp'])]
        out += stream('RAW-R0001-%s%02d' % (case['det'], m), tr, list(range(n)), c, [[src, 'I', groups]],
                      pad=[0, 0, i, 0])
    agg = case['agg']
    srcs = []
    if agg in ('both', 'inst', 'two'):
        srcs.append([INSTA, 'I', {'data': [[1] * n, KX]}])
    if agg in ('both', 'ctrl', 'two'):
        srcs.append([CTRL, 'C', {'': [None, KC]}])
    if srcs:
        present = case.get('present', list(range(n)))
        out += stream('RAW-R0001-DA01', tr, present, compositions(len(present))[-1 if case.get('cutda') else 0], srcs)
    if agg == 'two':
        out += stream('RAW-R0001-DA02', tr, [n - 1], [(0, 1)], [[INSTB, 'I', {'digit': [[1] * n, {'digit.raw': ['i2', []]}]}]])
    return out


def cases(tier):
    big = tier == 'thorough'
    yield from wide.cases()
    k = 0
    for n in (1, 2, 3) if not big else (1, 2, 3, 4):
        for cnt in counts(n, (0, 1, 2)):
            for comp in range(len(compositions(n))):
                for agg in AGG:
                    for mods in ([3], [10, 2], []):
                        if not mods and (agg == 'none' or cnt != [0] * n):
                            continue
                        k += 1
                        if not big and mods and k % 3:
                            continue
                        t, c2, det, miss, cut, im = spread(k, 3, len(compositions(n)), 3, 1 << n, 2, 7)
                        yield dict(kind='data', n=n, tid='cgh'[t], counts=cnt, comp=comp, agg=agg, mods=mods,
                                   comp2=c2, det=['AGIPD', 'LPD', 'DSSC'][det],
                                   present=[i for i in range(n) if not (miss >> i) & 1] or [0], cutda=cut,
                                   image=im != 0)
    for present in ([0], [0, 2], [1, 2]):
        yield dict(kind='data', n=3, tid='g', counts=[1, 1, 1], comp=0, agg='two', mods=[], det='LPD', present=present)
    for det in DETS:
        for odd in range(6):
            for empty in (0, 1):
                yield dict(kind='cli', det=det, odd=odd, empty=empty)


def run_of(fn, *args):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = fn(*args)
    return r, out.getvalue()


def listing_after(txt, start):
    """Names listed with dashes after the line matching start, which begins with the count"""
    lines = txt.splitlines()
    for i, l in enumerate(lines):
        if re.search(start, l):
            names = []
            for l2 in lines[i + 1:]:
                m = re.match(r'\s*-\s*(\S.*)?$', l2)
                if not m:
                    break
                if m.group(1):
                    names.append(m.group(1).strip())
            return l, names
    return None, None


def det_src(s):
    return re.match(r'(.+)/DET/(\d+)CH', s)


def frames(m, s):
    """-> (possible frames per train, dims) of a detector source; None if it has no images"""
    fpt, dims = set(), None
    for f in m.files:
        if s in f.sources:
            for src in f.spec['src']:
                if src[0] == s and 'image' in src[2]:
                    dims = src[2]['image'][1]['image.data'][1][-2:]
                    c = src[2]['image'][0]
                    if any(c):
                        fpt.add(max(c))
    if dims is None:
        return None
    return (fpt or {0}), dims


def inst_sources(m):
    return {s for f in m.files for s in f.sources if s in m.sel and f.kinds[s] == 'I'}


def ctrl_sources(m):
    return {s for f in m.files for s in f.sources if s in m.sel and f.kinds[s] == 'C'}


def ints(l):
    return [int(x) for x in re.findall(r'\d+', l)]


def line(ctx, txt, pat, where):
    ls = [l for l in txt.splitlines() if re.search(pat, l)]
    ctx.check(len(ls) == 1, '%s: %d lines matching %r in %r', where, len(ls), pat, txt)
    return ls[0]


def check_info(ctx, dc, m, where):
    _, txt = run_of(dc.info)
    where += ' info()'
    ctx.step()
    inst, ctrl = inst_sources(m), ctrl_sources(m)
    det = {s for s in inst if det_src(s)}
    ctx.check(ints(line(ctx, txt, '^# of trains', where)) == [len(m.trains)], '%s: number of trains in %r', where, txt)
    if m.trains:
        ctx.check(ints(line(ctx, txt, '^First train', where)) == [m.trains[0]], '%s: first train in %r', where, txt)
        ctx.check(ints(line(ctx, txt, '^Last train', where)) == [m.trains[-1]], '%s: last train in %r', where, txt)
        dur = str(datetime.timedelta(seconds=(m.trains[-1] - m.trains[0]) / 10))
        ctx.check(line(ctx, txt, '^Duration', where).split(None, 1)[1].strip() == dur, '%s: duration %s in %r', where, dur, txt)
    l = line(ctx, txt, 'detector modules', where)
    ctx.check(ints(l)[0] == len(det), '%s: %d detector modules in %r', where, len(det), l)
    for s in det:
        ctx.check(det_src(s).group(1) in l, '%s: detector name %s not in %r', where, det_src(s).group(1), l)
    imgs = {s for s in det if frames(m, s)}
    if imgs and imgs == det:
        eg = line(ctx, txt, 'e.g. module', where)
        s = [s for s in det if s in txt]
        ctx.check(len(s) == 1, '%s: detector module %r in %r', where, s, txt)
        fpt, dims = frames(m, s[0])
        name, mod = det_src(s[0]).groups()
        ctx.check(re.search(r'%s\D+\b%s\b' % (re.escape(name), mod), eg) is not None, '%s: module %s %s not in %r', where, name, mod, eg)
        ctx.check(ints(eg.rsplit(':', 1)[1]) == dims, '%s: dimensions %s in %r', where, dims, eg)
        a, b = ints(line(ctx, txt, 'frames per train', where))
        ctx.check(a in fpt and b == a * len(m.trains), '%s: %s frames per train, %s in total; expected one of %s, %d trains', where, a, b, fpt, len(m.trains))
    l, names = listing_after(txt, r'instrument sources')
    ctx.check(names is not None and names == sorted(inst - det) and ints(l)[0] == len(names), '%s: instrument sources %s, expected %s', where, names, sorted(inst - det))
    l, names = listing_after(txt, r'control sources')
    ctx.check(names is not None and names == sorted(ctrl) and ints(l)[0] == len(names), '%s: control sources %s, expected %s', where, names, sorted(ctrl))


def check_detector_info(ctx, dc, m, where):
    for s in sorted(inst_sources(m)):
        if not det_src(s) or not frames(m, s):
            continue
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            d = dc.detector_info(s)
        ctx.step()
        fpt, dims = frames(m, s)
        ctx.check(list(d['dims']) == dims and d['frames_per_train'] in fpt
                  and d['total_frames'] == d['frames_per_train'] * len(m.trains),
                  '%s: detector_info(%s) is %s, expected frames per train of %s, %s pixels, %d trains', where, s, d, fpt, dims, len(m.trains))


def check_train_info(ctx, dc, m, where):
    for t in m.trains:
        _, txt = run_of(dc.train_info, t)
        ctx.step()
        here = [f for f in m.files if t in f.tset]
        inst = sorted({s for f in here for s in f.sources if f.kinds[s] == 'I' and s in m.sel})
        ctrl = sorted({s for f in here for s in f.sources if f.kinds[s] == 'C' and s in m.sel})
        ctx.check(str(t) in txt, '%s: train_info(%s) is %r', where, t, txt)
        _, a = listing_after(txt, r'^\s*Instrument')
        _, b = listing_after(txt, r'^\s*Control')
        ctx.check(a == inst and b == ctrl, '%s: train_info(%s) lists %s, %s; expected %s, %s', where, t, a, b, inst, ctrl)
    for t in ([m.trains[0] - 1, m.trains[-1] + 1] if m.trains else [10000]):
        try:
            _, txt = run_of(dc.train_info, t)
        except ValueError:
            pass
        else:
            ctx.fail('%s: train_info(%s) gave %r, but there is no such train' % (where, t, txt))


def all_info(ctx, dc, m, where):
    check_info(ctx, dc, m, where)
    check_detector_info(ctx, dc, m, where)
    check_train_info(ctx, dc, m, where)


def run_data(case, ctx):
    import karabo_data as kd
    d = ctx.dir()
    specs = specs_of(case)
    build(d, specs, GETVAL)
    fms = [FileModel(s, GETVAL) for s in specs]
    ctx.sample(case)
    run = kd.RunDirectory(d)
    m = Coll(fms)
    tr = m.trains
    views = [(run, m, 'run')]
    for f in fms:
        views.append((kd.H5File(os.path.join(d, f.spec['name'])), Coll([f]), 'file %s' % f.spec['name']))
    for a in range(len(tr) + 1):
        for b in range(a, len(tr) + 1):
            if (a, b) == (0, len(tr)) or (a == b and a):
                continue
            w = set(tr[a:b])
            views.append((run.select_trains(kd.by_index[a:b]), Coll([f for f in fms if f.tset & w], m.sel, tr[a:b]), 'trains %d:%d' % (a, b)))
    allsrc = sorted(m.sel)
    for r in (1, 2):
        for ss in itertools.combinations(allsrc, r):
            if len(ss) == len(allsrc):
                continue
            dc = run.select([(s, '*') for s in ss])
            files = [f for f in fms if f.sources & set(ss)]
            # the train IDs are those of the remaining files
            views.append((dc, Coll(files, {s: m.sel[s] for s in ss}), 'sources %s' % (ss,)))
    hd = [s for s in allsrc if det_src(s)]
    for dc, mm, what in views:
        mm.trains = sorted(int(t) for t in mm.trains)
        if [int(t) for t in dc.train_ids] != mm.trains:
            # which trains a selection has is another property
            mm = Coll(mm.files, mm.sel, [int(t) for t in dc.train_ids])
        all_info(ctx, dc, mm, what)
        ctx.state(str(case), what)
    if hd:
        # a written selection without images
        p = os.path.join(d, 'hdr.h5')
        run.select([(s, 'header.*') for s in hd]).write(p)
        f = kd.H5File(p)
        _, txt = run_of(f.info)
        ctx.step()
        ctx.check(ints(line(ctx, txt, '^# of trains', 'headers only'))[0] == len(f.train_ids) and ints(line(ctx, txt, 'detector modules', 'headers only'))[0] == len(hd),
                  'info() of a file with headers only: %r', txt)
        for t in f.train_ids:
            _, txt = run_of(f.train_info, t)
            ctx.check(listing_after(txt, r'^\s*Instrument')[1] == sorted(hd), 'headers only: train_info %r', txt)
        os.unlink(p)
    # lsxfel on the same data
    from karabo_data import lsxfel
    for f in fms:
        check_file(ctx, lsxfel, os.path.join(d, f.spec['name']), f)
    r, txt = run_of(lsxfel.main, [os.path.join(d, f.spec['name']) for f in fms])
    if len(fms) > 1:
        ctx.check(not r, 'lsxfel with all files gives exit code %r: %r', r, txt)
        for f in fms:
            check_short(ctx, txt, f)
    check_run(ctx, lsxfel, d, m, os.path.basename(d))
    ctx.trace()


def is_det_name(name):
    return re.match(r'[A-Z]+-R\d+-(AGIPD|LPD|DSSC)(\d+)-S\d+\.h5$', name)


def check_head(ctx, txt, name):
    ls = [l for l in txt.splitlines() if l.startswith(name + ' :') or l.startswith(name + ':')]
    ctx.check(len(ls) == 1, 'lsxfel: %d descriptions of %s in %r', len(ls), name, txt)
    descr = ls[0][len(name):].lower()
    md = is_det_name(name)
    if md:
        ctx.check(md.group(1).lower() in descr and int(md.group(2)) in ints(descr), 'lsxfel: %r', ls[0])
    elif re.match(r'[A-Z]+-R\d+-DA\d+-S\d+\.h5$', name):
        ctx.check('aggregated' in descr, 'lsxfel: %r', ls[0])
    else:
        ctx.check("'" not in descr and 'aggregated' not in descr and 'module' not in descr, 'lsxfel: %r', ls[0])
    return txt.splitlines().index(ls[0])


def check_file(ctx, lsxfel, path, f):
    """lsxfel with one file"""
    name = os.path.basename(path)
    r, txt = run_of(lsxfel.main, [path])
    ctx.step()
    ctx.state('lsxfel', name, str(f.spec))
    ctx.check(not r, 'lsxfel %s gives exit code %r', name, r)
    check_head(ctx, txt, name)
    m = Coll([f])
    ctx.check(ints(line(ctx, txt, r'^\d+ trains', name))[0] == len(m.trains), 'lsxfel %s: %d trains in %r', name, len(m.trains), txt)
    inst, ctrl = inst_sources(m), ctrl_sources(m)
    det = [s for s in inst if det_src(s) and frames(m, s)]
    if is_det_name(name) and det:
        fpt, dims = frames(m, det[0])
        ctx.check(ints(line(ctx, txt, 'pixels', name)) == dims, 'lsxfel %s: %s pixels in %r', name, dims, txt)
        a, b = ints(line(ctx, txt, 'frames per train', name))
        ctx.check(a in fpt and b == a * len(m.trains), 'lsxfel %s: %r, expected %s frames per train', name, txt, fpt)
    else:
        for what, names in (('instrument', inst), ('control', ctrl)):
            l, got = listing_after(txt, what + ' sources')
            ctx.check(got == sorted(names) and ints(l)[0] == len(names), 'lsxfel %s: %s sources %s, expected %s', name, what, got, sorted(names))


def check_short(ctx, txt, f, name=None):
    name = name or f.spec['name']
    i = check_head(ctx, txt, name)
    nxt = txt.splitlines()[i + 1]
    m = Coll([f])
    inst, ctrl = inst_sources(m), ctrl_sources(m)
    det = [s for s in inst if det_src(s) and frames(m, s)]
    ctx.step()
    if is_det_name(name) and det:
        fpt, dims = frames(m, det[0])
        a, b, c = ints(nxt)
        ctx.check(a == len(m.trains) and b in fpt and c == a * b, 'lsxfel: %s: %r', name, nxt)
    else:
        ctx.check(ints(nxt) == [len(m.trains), len(inst | ctrl)], 'lsxfel: %s: %r, expected %d trains, %d sources', name, nxt, len(m.trains), len(inst | ctrl))


def seqs(m):
    out = {}
    for f in m.files:
        g = re.match(r'(.+)-S\d+\.h5$', f.spec['name'])
        if g:
            out.setdefault(g.group(1), set()).update(f.trains)
    return out


def check_run(ctx, lsxfel, d, m, shown, listing=None):
    r, txt = run_of(lsxfel.main, [d])
    ctx.step()
    ctx.check(not r, 'lsxfel on a run gives exit code %r', r)
    ctx.check(txt.startswith(shown + ' '), 'lsxfel on run %s: %r', shown, txt)
    ctx.check(ints(line(ctx, txt, '^# of trains', 'lsxfel run')) == [len(m.trains)], 'lsxfel on a run: %r', txt)


def check_run_line(ctx, txt, name, m):
    l = [l for l in txt.splitlines() if re.match(r'\s*%s\s*:' % re.escape(name), l)]
    ctx.check(len(l) == 1, 'lsxfel: %d lines for run %s in %r', len(l), name, txt)
    l = l[0].split(':', 1)[1]
    ctx.step()
    s = seqs(m) if m is not None else {}
    if not s:
        ctx.check(not ints(l) or not any(ints(l)), 'lsxfel: run %s without data: %r', name, l)
        return
    ndet = sum(bool(is_det_name(f.spec['name'])) for f in m.files)
    nother = sum(bool(re.match(r'(.+)-S\d+\.h5$', f.spec['name'])) for f in m.files) - ndet
    a, b, c = ints(l)
    ctx.check(a in {len(x) for x in s.values()}, 'lsxfel: run %s: %r, but sequences have %s trains', name, l, [len(x) for x in s.values()])
    ctx.check((b, c) == (ndet, nother), 'lsxfel: run %s: %r, but there are %d detector files and %d others', name, l, ndet, nother)


ODD = ['data.h5', 'RAW-R0001-XYZ01-S00000.h5', 'a-b-c-d-e-f.h5', 'RAW-R0001-da01-S00000.h5', 'x-S00000.h5', 'CORR-R0001-JF02-S00000.h5']


def run_cli(case, ctx):
    from karabo_data import lsxfel
    top = ctx.dir()
    det = case['det']
    ctx.sample(case)
    base = dict(n=2, tid='c', comp=1, agg='both', mods=[2, 10], det=det, counts=[0, 2])
    runs = {}

    def mk(rel, c, rename=None):
        d = os.path.join(top, rel)
        os.makedirs(d)
        specs = specs_of(c)
        if rename:
            for s in specs:
                if '-DA01-' in s['name']:
                    s['name'] = rename
        build(d, specs, GETVAL)
        m = Coll([FileModel(s, GETVAL) for s in specs])
        runs[rel] = (d, m)
        return d, m
    odd = ODD[case['odd']]
    mk('p1/raw/r0001', base)
    mk('p1/raw/r0002', dict(base, comp=0), rename=odd)
    mk('p1/raw/r0010', dict(base, mods=[], comp=0), rename=odd)
    mk('p1/proc/r0001', dict(base, agg='none'))
    os.makedirs(os.path.join(top, 'p1/usr'))
    if case['empty']:
        os.makedirs(os.path.join(top, 'p1/raw/r0003'))
        with open(os.path.join(top, 'p1/raw/r0002/RAW-R0001-DA01-S00000.h5.part'), 'wb') as f:
            f.write(b'\x89HDF')
        with open(os.path.join(top, 'p1/raw/r0002/notes.txt'), 'w') as f:
            f.write('x')
        with open(os.path.join(top, 'p1/raw/r0099'), 'w') as f:
            f.write('x')
    # single files
    for rel, (d, m) in runs.items():
        for f in m.files:
            check_file(ctx, lsxfel, os.path.join(d, f.spec['name']), f)
    # run directories
    for rel, (d, m) in runs.items():
        check_run(ctx, lsxfel, d, m, os.path.basename(rel))
        check_run(ctx, lsxfel, d + '/', m, os.path.basename(rel))
    raws = {os.path.basename(rel): m for rel, (d, m) in runs.items() if '/raw/' in rel}
    if case['empty']:
        raws['r0003'] = None
    # proposal directories
    cwd = os.getcwd()
    for path, args in ((top + '/p1/raw', None), (top + '/p1', None), (top + '/p1/raw/', None), (top + '/p1/raw', [])):
        if args is None:
            r, txt = run_of(lsxfel.main, [path])
        else:
            os.chdir(path)
            try:
                r, txt = run_of(lsxfel.main, [])
            finally:
                os.chdir(cwd)
        ctx.check(not r, 'lsxfel on a proposal gives exit code %r: %r', r, txt)
        got = re.findall(r'(?m)^\s+(r\d+)\s*:', txt)
        ctx.check(got == sorted(raws), 'lsxfel on a proposal lists %s, expected %s', got, sorted(raws))
        for name, m in raws.items():
            check_run_line(ctx, txt, name, m)
    # several paths
    d1, m1 = runs['p1/raw/r0001']
    d2, m2 = runs['p1/raw/r0002']
    paths = [d1 + '/' * case['empty'], os.path.join(d1, m1.files[0].spec['name']), d2]
    last = m2.files[-1]
    paths.append(os.path.join(d2, last.spec['name']))
    r, txt = run_of(lsxfel.main, paths)
    ctx.check(not r, 'lsxfel with several paths gives exit code %r', r)
    check_run_line(ctx, txt, 'r0001', m1)
    check_run_line(ctx, txt, 'r0002', m2)
    check_short(ctx, txt, m1.files[0])
    check_short(ctx, txt, last)
    r, txt = run_of(lsxfel.main, [d1, top + '/p1/raw', top + '/p1/proc'])
    got = re.findall(r'(?m)^\s+(r\d+)\s*:', txt)
    ctx.check(not r and sorted(got) == sorted(list(raws) + ['r0001']), 'lsxfel with run and proposals: %r, lists %s', r, got)
    # nothing there
    for paths in ([top + '/nothing'], [top + '/nothing', d1], [d1, top + '/nothing.h5']):
        r, txt = run_of(lsxfel.main, paths)
        ctx.check(r, 'lsxfel with missing paths gives exit code %r: %r', r, txt)
        if d1 in paths:
            check_run_line(ctx, txt, 'r0001', m1)
    # nothing known there: said so, and the others are shown
    odd_dir, odd_file = top + '/p1/usr', top + '/notes.txt'
    with open(odd_file, 'w') as f:
        f.write('x')
    r, txt = run_of(lsxfel.main, [odd_file])
    ctx.check(r and 'notes.txt' in txt, 'lsxfel on some other file gives exit code %r: %r', r, txt)
    r, txt = run_of(lsxfel.main, [odd_dir])
    ctx.check('usr' in txt and 'trains' not in txt, 'lsxfel on some other directory prints %r', txt)
    f0 = os.path.join(d1, m1.files[0].spec['name'])
    for odd in (odd_dir, odd_file, top + '/nothing'):
        for k in range(4):
            paths = [d1, f0, d2]
            paths.insert(k, odd)
            r, txt = run_of(lsxfel.main, paths)
            ctx.check(r, 'lsxfel with %s at place %d gives exit code %r', os.path.basename(odd), k, r)
            ctx.check(os.path.basename(odd) in txt, 'lsxfel does not mention %s: %r', odd, txt)
            check_run_line(ctx, txt, 'r0001', m1)
            check_run_line(ctx, txt, 'r0002', m2)
            check_short(ctx, txt, m1.files[0])
    ctx.state(str(case))
    ctx.trace()


def run_wide(case, ctx):
    import karabo_data as kd
    from karabo_data import lsxfel
    if case['wide'] == 'trains':
        specs = specs_of(dict(n=16, tid='c', comp=77, comp2=3, agg='two', mods=list(range(16)), det='LPD', counts=[(i * 7) % 120 for i in range(16)]))
    else:
        specs = wide.specs(case['wide'])
    d = ctx.dir()
    build(d, specs, GETVAL)
    m = Coll([FileModel(s, GETVAL) for s in specs])
    ctx.sample(case)
    ctx.state(str(case))
    run = kd.RunDirectory(d)
    all_info(ctx, run, m, 'run')
    check_run(ctx, lsxfel, d, m, os.path.basename(d))
    for f in m.files[::9]:
        check_file(ctx, lsxfel, os.path.join(d, f.spec['name']), f)
    ctx.trace()


def run_case(case, ctx):
    if 'wide' in case:
        return run_wide(case, ctx)
    (run_data if case['kind'] == 'data' else run_cli)(case, ctx)
