"""C06: selection algebra"""
import copy

from .. import observe as ob
from ..core import Violation
from ..h5 import build, Coll
from ..space import *
from .. import wide

LEVEL = 'model_checking'
RULE = ("all sequences up to the depth bound over an alphabet of select/deselect/select_trains calls, "
        "executed on a real run; after every step the new collection and every earlier live collection are "
        "compared with the model. State: distinct (source->keys, trains) model state; transition: one call.")
ASSUMPTIONS = ["a source left with no keys may be listed or not"]

XGM, XGM2, CAM = 'SA1_XTD2_XGM/XGM/DOOCS', 'SA1_XTD2_XGM/XGM/DOOCS2', 'SA1_XTD2_XGM/XGM/DOOCS:output'
DET = 'FXE_DET_LPD1M-1/DET/0CH0:xtdf'
TR = [10001, 10002, 10005]

WORLD = [
    dict(name='RAW-R0001-DA01-S00000.h5', trains=TR[:2], src=[
        [XGM, 'C', {'': [None, {'pos.x.value': ['f4', []], 'pos.x.timestamp': ['u8', []], 'pos.xy.value': ['f4', []],
                                'flux.value': ['f8', []]}]}],
        [CAM, 'I', {'data': [[1, 2], {'data.x': ['u2', [2]], 'data.X': ['u1', []], 'data.x1': ['u2', []], 'data.y.value': ['i4', []]}], 'hdr': [[0, 1], {'hdr.id': ['u8', []]}]}]]),
    dict(name='RAW-R0001-DA01-S00001.h5', trains=TR[2:], src=[
        [XGM, 'C', {'': [None, {'pos.x.value': ['f4', []], 'pos.x.timestamp': ['u8', []], 'pos.xy.value': ['f4', []],
                                'flux.value': ['f8', []]}]}],
        [CAM, 'I', {'data': [[1], {'data.x': ['u2', [2]], 'data.X': ['u1', []], 'data.x1': ['u2', []], 'data.y.value': ['i4', []]}], 'hdr': [[1], {'hdr.id': ['u8', []]}]}]]),
    dict(name='RAW-R0001-DA02-S00000.h5', trains=TR[:2], src=[
        [XGM2, 'C', {'': [None, {'pos.x.value': ['f4', []]}]}]]),
    dict(name='RAW-R0001-LPD00-S00000.h5', trains=TR[1:], src=[
        [DET, 'I', {'image': [[1, 1], {'image.data': ['u2', [2]], 'image.cells': ['u2', []]}]}]]),
]

# selection arguments: (kind, value); globs as (source glob, key glob)
ARGS = [
    ['g', '*', '*'],
    ['g', XGM, '*'],
    ['g', '*XGM*', 'pos.x'],
    ['g', '*XGM/DOOCS?output', 'data.*'],
    ['g', '*', '*.x*'],
    ['g', '*/DOOCS*', '*.value'],
    ['g', '*[!2]', 'flux'],
    ['g', '*/DET/*', 'image.[a-d]*'],
    ['g', 'sa1*', '*'],
    ['g', XGM, 'pos.x.timestamp'],
    ['g', '*', '*.timestamp'],
    ['g', '*', '*.X'],
    ['g', '*OUT*', 'data.y'],
    ['g', CAM, 'data.y'],
    ['l', [[XGM, 'pos.*'], ['*DOOCS2', '*']]],
    ['l', [[CAM, 'data.x'], [CAM, 'hdr.*']]],
    ['l', [[CAM, 'data.x1'], [CAM, '*'], [XGM, 'flux.value']]],
    ['l', [[XGM, 'nothing'], [CAM, '*']]],
    ['d', {XGM: ['pos.x.value', 'flux.value']}],
    ['d', {XGM: [], DET: ['image.data']}],
    ['d', {CAM: []}],
    ['d', {CAM: ['hdr.id'], XGM2: []}],
    ['d', {XGM: ['no.such']}],
    ['d', {'NO/SUCH/SOURCE': []}],
]
OPS = [['select', i] for i in range(len(ARGS))] + [['deselect', i] for i in range(len(ARGS))] + \
      [['trains', 'i', 0, 2], ['trains', 'l', [TR[2]], 0]]


def glob(pat, s):
    """Tiny independent glob matcher: * ? [abc] [a-z] [!..]"""
    if not pat:
        return not s
    c = pat[0]
    if c == '*':
        return any(glob(pat[1:], s[i:]) for i in range(len(s) + 1))
    if not s:
        return False
    if c == '?':
        return glob(pat[1:], s[1:])
    if c == '[':
        j = pat.index(']', 2)
        body, neg = pat[1:j], False
        if body[0] == '!':
            body, neg = body[1:], True
        ok, i = False, 0
        while i < len(body):
            if i + 2 < len(body) and body[i + 1] == '-':
                ok |= body[i] <= s[0] <= body[i + 2]
                i += 3
            else:
                ok |= body[i] == s[0]
                i += 1
        return ok != neg and glob(pat[j + 1:], s[1:])
    return c == s[0] and glob(pat[1:], s[1:])


class NoMatch(Exception):
    pass


def expand(m, visible, arg):
    """Matching subset of the collection: {source: keys}"""
    if arg[0] == 'd':
        out = {}
        for s, ks in arg[1].items():
            if s not in visible:
                raise NoMatch
            if any(k not in m.sel[s] for k in ks):
                raise NoMatch
            out[s] = (set(ks) or set(m.sel[s]), not ks)
        return out
    pairs = [arg[1:]] if arg[0] == 'g' else arg[1]
    out = {}
    for sg, kg in pairs:
        hit = False
        for s in visible:
            if not glob(sg, s):
                continue
            if kg == '*':
                ks, whole = set(m.sel[s]), True
            else:
                whole = False
                ks = {k for k in m.sel[s] if glob(kg, k)}
                if m.kind(s) == 'C':
                    ks |= {k for k in m.sel[s] if k.endswith('.value') and glob(kg, k[:-6])}
                if not ks:
                    continue
            hit = True
            o, w = out.get(s, (set(), False))
            out[s] = (o | ks, w or whole)
        if not hit:
            raise NoMatch
    return out


def apply_model(m, visible, op):
    if op[0] == 'trains':
        tr = m.trains[op[2]:op[3]] if op[1] == 'i' else [t for t in m.trains if t in op[2]]
        if not tr:
            raise NoMatch
        return Coll([f for f in m.files if f.tset & set(tr)], m.sel, tr)
    ex = expand(m, visible, ARGS[op[1]])
    if op[0] == 'select':
        sel = {s: ks for s, (ks, w) in ex.items()}
    else:
        sel = {}
        for s, ks in m.sel.items():
            if s not in ex:
                sel[s] = set(ks)
            elif not ex[s][1]:
                sel[s] = set(ks) - ex[s][0]
    return Coll([f for f in m.files if f.sources & set(sel)], sel, m.trains)


def apply_real(kd, dc, op):
    if op[0] == 'trains':
        return dc.select_trains(kd.by_index[op[2]:op[3]] if op[1] == 'i' else kd.by_id[op[2]])
    a = ARGS[op[1]]
    f = getattr(dc, op[0])
    if a[0] == 'g':
        return f(a[1]) if a[2] == '*' and op[1] % 2 else f(a[1], a[2])
    if a[0] == 'l':
        lst = [tuple(p) for p in a[1]]
        keep = list(lst)
        r = f(lst)
        if lst != keep:
            raise Violation('%s() changed the list passed to it' % op[0])
        return r
    dct = {s: set(ks) for s, ks in a[1].items()}
    keep = copy.deepcopy(dct)
    r = f(dct)
    if dct != keep:
        raise Violation('%s() changed the dict passed to it' % op[0])
    # the caller may reuse its dict afterwards
    for s in dct:
        dct[s].add('garbage.key')
    return r


def cases(tier):
    yield from wide.cases()
    depth = 3 if tier == 'thorough' else 2
    for o in range(len(OPS)):
        for cached in (0, 1):
            if depth == 3:
                for o2 in range(len(OPS)):
                    yield dict(first=[o, o2], depth=depth, cached=cached)
            else:
                yield dict(first=[o], depth=depth, cached=cached)


def light(dc, m, where):
    ob.trainids(dc, m, where)
    ob.sources(dc, m, where)


def run_wide(case, ctx):
    d, run, m = wide.open_run(ctx, case['wide'])
    ctx.sample(case)
    srcs = sorted(m.sel)
    import fnmatch
    for sg in ['*', '*1*', 'S*', srcs[-1], '*output', '[!S]*', srcs[0][:-1] + '?']:
        for kg in ['*', '*1*', '*.value', 'data.?']:
            sel = {}
            for s in srcs:
                if fnmatch.fnmatchcase(s, sg):
                    ctrl = m.files[[s in f.sources for f in m.files].index(True)].kinds[s] == 'C'
                    ks = {k for k in m.sel[s] if fnmatch.fnmatchcase(k, kg) or (ctrl and fnmatch.fnmatchcase(k, kg + '.value'))}
                    if ks:
                        sel[s] = ks
            ctx.step()
            ctx.state(str(case), sg, kg)
            for op in ('select', 'deselect'):
                where = '%s(%r, %r):' % (op, sg, kg)
                try:
                    r = getattr(run, op)(sg, kg)
                except ValueError as e:
                    ctx.check(not sel, '%s %r', where, e)
                    continue
                exp = sel
                if op == 'deselect':
                    exp = {s: m.sel[s] - sel.get(s, set()) for s in srcs}
                    exp = {s: k for s, k in exp.items() if k}
                else:
                    ctx.check(sel, '%s no error, although nothing matches', where)
                got = {s: set(r.keys_for_source(s)) for s in r.all_sources}
                ctx.check({s: k for s, k in got.items() if k} == exp, '%s gave %s, expected %s', where, got, exp)
    ob.everything(run, m, 'afterwards:', iterates=False)
    ctx.trace()


def run_case(case, ctx):
    if 'wide' in case:
        return run_wide(case, ctx)
    import karabo_data as kd
    d = ctx.dir()
    build(d, WORLD)
    root = Coll(models(WORLD))
    ctx.sample(dict(case, ops=[OPS[i] for i in case['first']]))
    if case['cached']:
        for f in kd.RunDirectory(d).files:
            f.close()
    seen = set()

    def visible(dc, m):
        return set(dc.all_sources)

    def step(live, op, hist):
        dc, m = live[-1]
        ctx.step()
        where = ' -> '.join(str([OPS[i][0]] + (ARGS[OPS[i][1]] if OPS[i][0] != 'trains' else OPS[i][1:])) for i in hist)
        try:
            nm = apply_model(m, visible(dc, m), OPS[op])
        except NoMatch:
            try:
                r = apply_real(kd, dc, OPS[op])
            except (ValueError, KeyError):
                return None
            if OPS[op][0] == 'trains' and len(r.train_ids) == 0:
                return None
            ctx.fail('%s: no error, although nothing matches' % where)
        nd = apply_real(kd, dc, OPS[op])
        live.append((nd, nm))
        for dci, mi in live:
            light(dci, mi, where)
        key = nm.canon()
        ctx.state(key)
        if key not in seen:
            seen.add(key)
            ob.everything(nd, nm, where)
            # the collection selected from still reads the same
            if len(seen) % 4 == 0:
                ob.everything(*live[-2], where='after ' + where)
        return live

    def rec(live, hist, depth):
        ctx.trace()
        if depth == 0:
            return
        for op in range(len(OPS)):
            nl = step(list(live), op, hist + [op])
            if nl is not None:
                rec(nl, hist + [op], depth - 1)

    run = kd.RunDirectory(d)
    live = [(run, root)]
    hist = []
    for o in case['first']:
        hist.append(o)
        live = step(live, o, hist)
        if live is None:
            return
    rec(live, hist, case['depth'] + 1 - len(case['first']) if case['depth'] == 2 else 1)
    for bad in (5, None, ('a', 'b'), {'x'}):
        for f in (run.select, run.deselect):
            try:
                f(bad)
            except TypeError:
                pass
            else:
                ctx.fail('%s(%r) did not raise TypeError' % (f.__name__, bad))
