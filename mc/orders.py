"""Control over orders which the code under test doesn't fix: directory listings, iteration over sets of files"""
import contextlib
import json
import os
import zlib

MODE = 0    # set for each case; decides orders where a check doesn't enumerate them itself


@contextlib.contextmanager
def listing(d, order):
    """os.listdir(d) gives the names in *order* (a list of names) first"""
    real = os.listdir
    dd = os.path.realpath(d)

    def listdir(p='.'):
        got = real(p)
        if isinstance(p, int) or os.path.realpath(p) != dd:
            return got
        return [x for x in order if x in got] + [x for x in got if x not in order]
    os.listdir = listdir
    try:
        yield
    finally:
        os.listdir = real


@contextlib.contextmanager
def file_sets(files, order):
    """Sets of the given file objects iterate in *order* (base names), as small integers hash to themselves"""
    classes = {type(f) for f in files}
    old = {c: c.__dict__.get('__hash__') for c in classes}
    for c in classes:
        c.__hash__ = lambda self: order.index(os.path.basename(self.filename))
    try:
        yield
    finally:
        for c, h in old.items():
            if h is None:
                del c.__hash__
            else:
                c.__hash__ = h


_listdir = os.listdir


def _ordered(p='.'):
    got = _listdir(p)
    if isinstance(p, int):
        return got
    got = sorted(got)
    m = MODE % 3
    return got if m == 0 else got[::-1] if m == 1 else got[1::2] + got[::2]


def start_case(case):
    """Fix the listing order (sorted, reversed, shuffled) and the naming order of sequence files"""
    global MODE
    mode = case.get('_order') if isinstance(case, dict) else None
    MODE = zlib.crc32(json.dumps(case, sort_keys=True).encode()) % 6 if mode is None else mode
    os.listdir = _ordered


def end_case():
    os.listdir = _listdir


def seqno(i, n):
    """Number in the name of the i-th of n sequence files: ascending or descending with trains"""
    return n - 1 - i if MODE >= 3 else i
