#!/opt/venv/bin/python
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the notes below."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what had to be strengthened to catch it
NOTES = {
    'C04-tmp-name': 'missed: several virtual datasets are now alive at once, with one key in two sources',
    'C06-ignorecase': 'missed: keys which differ in case only',
    'C06-instrument-value': 'missed: an instrument key ending in .value',
    'C07-file-range': 'missed: a file without trains',
    'C08-basename': 'missed: equally named files of different directories are joined',
    'C09-control-counts': 'missed: control sources without entry in some trains',
    'C25-train-first': 'missed: single large instances (`mc/wide.py`) added to ten checks',
    'C28-keep-open': 'missed: a file without trains; leaving by exceptions of all kinds',
    'C14-consecutive-cache': 'missed: gaps and splits were tied together by rotation; all histories × gaps × splits of one module added',
    'C14-slow-position': 'missed: header entries were 0 or 1 everywhere; histories with 0-2 entries and padding added',
    'C16-shared-blank': 'missed: missing modules of the view were not read one by one for each fill value',
    'C20-reuse-output': 'missed: images are now kept and compared again after later assemblies',
    'C20-skip-missing': 'missed: modules without data (NaN) added to the operations on reused outputs',
    'C22-adu-format': 'missed: numbers in the header of all magnitudes',
    'C27-name-prefix': 'missed: detector names which contain each other',
    'C30-invert-new': 'missed: plots on given axes never followed one from the same side',
    'C29-int32': 'missed while the check was being written: no large 64-bit values',
    'C12-keep-inode': 'missed: a map file in a run directory which may no longer be written to',
    'C17-nojoin': 'missed: the port is to be free as soon as the server has stopped',
    'C28-select-self': 'missed: derived collections which hold everything are used as context managers',
    'C28-close-selected': 'missed: a file without sources in the run',
}
rows = ['| planted bug | needs | strengthened |', '|---|---|---|']
for fn in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    sid = os.path.basename(os.path.dirname(fn))
    rows.append('| %s | %s | %s |' % (sid, json.load(open(fn))['needs'].replace('|', '/').rstrip('.'), NOTES.get(sid, '')))
fn = os.path.join(ROOT, 'DESIGN.md')
s = open(fn).read()
head = s[:s.index('## 5. Planted bugs')]
open(fn, 'w').write(head + '''## 5. Planted bugs

Each is in `seeded/<id>/`: patch, demonstration, and what it needs. Each is reported by the quick check of its own
property (the first part of the name); the last column says which checks missed it at first, and what was added.
Further bugs were planted and dropped because the existing tests catch them.

''' + '\n'.join(rows) + '\n')
assert set(NOTES) <= {os.path.basename(os.path.dirname(f)) for f in glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))}
print(len(rows) - 2, 'planted bugs')
