"""Runner shared by all checks.

A check module (mc/checks/<id>.py) provides

  LEVEL      level as in MANIFEST
  RULE       how cases are made / what counts as non-trivial
  ASSUMPTIONS list of strings
  cases(tier)         -> iterable of JSON-able case descriptors (the complete bounded space)
  run_case(case, ctx) -> explores everything below that descriptor; raises Violation

The runner enumerates all cases over forked workers, confirms a violation in a
fresh process, writes the replay artefact and the evidence file.
"""
import argparse
import errno
import importlib
import json
import multiprocessing as mp
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from mc import orders

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('MC_REPO', '/repo'))
sys.path.insert(0, REPO)

NWORKERS = int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)
DEADLINE_S = float(os.environ.get('MC_DEADLINE', '780'))


class Violation(Exception):
    """The property does not hold for the current case."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class HarnessError(Exception):
    """Something is wrong with the check itself or its environment."""


class CaseTimeout(BaseException):
    pass


class Ctx:
    def __init__(self, tmp, known=(), tier='quick'):
        self.tmp = tmp
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.known = known
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial = set()
        self.extra = {}
        self.samples = []
        self.known_hit = {}
        self._n = 0

    # -- counting
    def state(self, *key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def eval(self, key=None):
        self.evaluations += 1
        if key is not None:
            self.nontrivial.add(hash(key))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- scratch
    def dir(self):
        """A new empty scratch directory"""
        self._n += 1
        d = os.path.join(self.tmp, 'd%d' % self._n)
        os.mkdir(d)
        return d

    def rmdir(self, d):
        assert d.startswith(self.tmp + '/')
        shutil.rmtree(d, ignore_errors=True)

    # -- judging
    def fail(self, msg, key=None):
        if key is not None and key in self.known:
            self.known_hit[key] = msg
            return
        raise Violation(msg, key)

    def check(self, cond, msg, *args, key=None):
        if not cond:
            self.fail(msg % args if args else msg, key)


def load_known(pid):
    known = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                key, _, text = line[len('known: property=%s ' % pid):].partition(' ')
                known[key] = text
    return known


def import_check(pid):
    import karabo_data
    got = os.path.dirname(os.path.dirname(os.path.abspath(karabo_data.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        raise HarnessError('karabo_data imported from %s, not %s' % (got, REPO))
    return importlib.import_module('mc.checks.' + pid.lower())


def _alarm(signum, frame):
    raise CaseTimeout()


def short_tb(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return ' < '.join('%s:%d(%s)' % (os.path.basename(f.filename), f.lineno, f.name)
                      for f in reversed(tb[-4:]))


ENV_ERRNOS = {errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EDQUOT}


def guarded(mod, case, ctx, timeout):
    """Run one case -> None | (message, key)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    orders.start_case(case)
    try:
        mod.run_case(case, ctx)
        return None
    except Violation as v:
        return v.msg, v.key
    except HarnessError:
        raise
    except CaseTimeout:
        return 'does not terminate within %gs' % timeout, None
    except MemoryError:
        raise
    except (Exception, SystemExit) as e:
        if isinstance(e, OSError) and e.errno in ENV_ERRNOS:
            raise
        if os.environ.get('MC_TB'):
            traceback.print_exc()
        return 'unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:300], short_tb(e)), None
    finally:
        orders.end_case()
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def worker(pid, tier, cases, counter, chunk, conn, tmp, known, timeout, stop):
    rc = 0
    try:
        os.mkdir(tmp)
        mod = importlib.import_module('mc.checks.' + pid.lower())
        if hasattr(mod, 'setup_worker'):
            mod.setup_worker()
        ctx = Ctx(tmp, known, tier)
        history = []
        ndone = 0
        while not stop.value:
            with counter.get_lock():
                i = counter.value
                counter.value += chunk
            if i >= len(cases):
                break
            for j in range(i, min(i + chunk, len(cases))):
                if stop.value:
                    break
                conn.send(('start', j))
                bad = guarded(mod, cases[j], ctx, timeout)
                for fn in os.listdir(tmp):
                    p = os.path.join(tmp, fn)
                    if os.path.isdir(p) and not os.path.islink(p):
                        shutil.rmtree(p, ignore_errors=True)
                    else:
                        os.unlink(p)
                ndone += 1
                history.append(j)
                if bad:
                    conn.send(('bad', j, bad[0], bad[1], list(history)))
                    break
            else:
                continue
            break
        conn.send(('done', dict(states=ctx.states, transitions=ctx.transitions,
                                traces=ctx.traces, evaluations=ctx.evaluations,
                                nontrivial=ctx.nontrivial, extra=ctx.extra,
                                samples=ctx.samples, known_hit=ctx.known_hit,
                                ndone=ndone)))
    except BaseException as e:
        try:
            conn.send(('error', ''.join(traceback.format_exception(e))))
        except Exception:
            pass
        rc = 2
    finally:
        conn.close()
        os._exit(rc)


def explore(pid, tier, mod, cases, tmp, known, t0):
    """Returns (merged stats, violation or None, completed)"""
    timeout = getattr(mod, 'CASE_TIMEOUT', 60)
    n = min(getattr(mod, 'WORKERS', NWORKERS), NWORKERS, max(1, len(cases)))
    counter, stop = mp.Value('q', 0), mp.Value('b', 0)
    chunk = max(1, min(16, len(cases) // (n * 8) or 1))
    procs = {}
    for w in range(n):
        r, s = mp.Pipe(False)
        p = mp.Process(target=worker, args=(pid, tier, cases, counter, chunk, s,
                       os.path.join(tmp, 'w%d' % w), frozenset(known), timeout, stop))
        p.start()
        s.close()
        procs[r] = [p, None, time.monotonic()]
    merged = dict(states=set(), transitions=0, traces=0, evaluations=0, nontrivial=set(),
                  extra={}, samples=[], known_hit={}, ndone=0)
    viol, completed, err = None, True, None
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        now = time.monotonic()
        for r in ready:
            try:
                msg = r.recv()
            except EOFError:
                p, cur, _ = procs.pop(r)
                p.join()
                r.close()
                if p.exitcode != 0 and err is None and viol is None:
                    # a worker died (e.g. crash inside a C library): treat as violation of its case
                    if cur is not None and p.exitcode < 0:
                        viol = (cur, 'process crashed (signal %d)' % -p.exitcode, None, [cur])
                        stop.value = 1
                    else:
                        err = 'worker exited with %r' % p.exitcode
                        stop.value = 1
                continue
            st = procs[r]
            if msg[0] == 'start':
                st[1], st[2] = msg[1], now
            elif msg[0] == 'bad':
                if viol is None or msg[1] < viol[0]:
                    viol = msg[1:]
                stop.value = 1
            elif msg[0] == 'error':
                err = msg[1]
                stop.value = 1
            elif msg[0] == 'done':
                st[1] = None
                d = msg[1]
                merged['states'] |= d['states']
                merged['nontrivial'] |= d['nontrivial']
                for k in ('transitions', 'traces', 'evaluations', 'ndone'):
                    merged[k] += d[k]
                for k, v in d['extra'].items():
                    merged['extra'][k] = merged['extra'].get(k, 0) + v
                merged['samples'] = (merged['samples'] + d['samples'])[:4]
                merged['known_hit'].update(d['known_hit'])
        for r, st in list(procs.items()):
            if st[1] is not None and now - st[2] > timeout + 20:
                st[0].kill()
                st[0].join()
                procs.pop(r)
                if viol is None:
                    viol = (st[1], 'does not terminate within %gs' % (timeout + 20), None, [st[1]])
                stop.value = 1
        if now - t0 > DEADLINE_S and not stop.value:
            stop.value = 1
            completed = False
    if err:
        raise HarnessError(err)
    return merged, viol, completed


def replay_file(pid, path):
    with open(path) as f:
        rep = json.load(f)
    mod = import_check(pid)
    if hasattr(mod, 'setup_worker'):
        mod.setup_worker()
    known = load_known(pid)
    tmp = tempfile.mkdtemp(prefix='kdmc-', dir=tmp_root())
    try:
        ctx = Ctx(tmp, frozenset(known), rep.get('tier', 'quick'))
        bad = None
        for c in rep['cases']:
            bad = guarded(mod, c, ctx, getattr(mod, 'CASE_TIMEOUT', 60))
            if bad:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if bad:
        print('REPRODUCED %s' % bad[0])
        sys.stdout.flush()
        os._exit(1)
    print('NOT REPRODUCED')
    sys.stdout.flush()
    os._exit(0)


def tmp_root():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 512 * 2**20:
                    return d
            except OSError:
                pass
    return tempfile.gettempdir()


def confirm(pid, replay, timeout):
    """Re-run the replay artefact in a fresh process -> message or None"""
    try:
        p = subprocess.run([os.path.join(VERIF, 'check'), pid, '--replay', replay],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'does not terminate'
    out = p.stdout.decode(errors='replace')
    for line in out.splitlines():
        if line.startswith('REPRODUCED '):
            return line[len('REPRODUCED '):]
    if p.returncode < 0:
        return 'process crashed (signal %d)' % -p.returncode
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    args = ap.parse_args()
    pid = args.property
    if args.replay:
        return replay_file(pid, args.replay)
    t0 = time.monotonic()
    known = load_known(pid)
    tmp = tempfile.mkdtemp(prefix='kdmc-', dir=tmp_root())
    parent = os.getpid()

    def cleanup(*a):
        if os.getpid() == parent:
            shutil.rmtree(tmp, ignore_errors=True)
            for c in mp.active_children():
                c.kill()
        if a:
            os._exit(2)
    signal.signal(signal.SIGTERM, cleanup)
    viol = None
    try:
        try:
            mod = import_check(pid)
        except HarnessError:
            raise
        except Exception as e:
            if 'karabo_data' in ''.join(traceback.format_exception(e)) and \
                    any('/karabo_data/' in f.filename for f in traceback.extract_tb(e.__traceback__)):
                # the package does not even import
                print('import of the code under test failed: %r' % e)
            raise
        cases = json.loads(json.dumps(list(mod.cases(args.tier))))
        print('%s %s: %d cases, %d workers' % (pid, args.tier, len(cases), NWORKERS))
        sys.stdout.flush()
        merged, viol, completed = explore(pid, args.tier, mod, cases, tmp, known, t0)
        rep_path = None
        if viol:
            j, msg, key, history = viol
            outdir = os.path.join(VERIF, 'out', 'replay')
            os.makedirs(outdir, exist_ok=True)
            rep_path = os.path.join(outdir, '%s-%d.json' % (pid, j))
            tmo = 3 * getattr(mod, 'CASE_TIMEOUT', 60) + 60
            confirmed = None
            # some histories depend on hashes of scratch paths, so try several
            for attempt in ([j], history, [j], [j], [j], [j], history):
                with open(rep_path, 'w') as f:
                    json.dump(dict(property=pid, tier=args.tier, message=msg,
                                   cases=[cases[k] for k in attempt]), f, indent=1)
                confirmed = confirm(pid, rep_path, tmo)
                if confirmed:
                    break
            if not confirmed:
                raise HarnessError('violation did not reproduce: case %d: %s' % (j, msg))
        write_evidence(pid, mod, args.tier, merged, len(cases), completed, viol, time.monotonic() - t0)
        for key, text in sorted(known.items()):
            if key in merged['known_hit']:
                print('KNOWN-FINDING: property=%s %s' % (pid, text))
        print('%s: cases=%d/%d states=%d transitions=%d traces=%d evaluations=%d %s wall=%.1fs' % (
            pid, merged['ndone'], len(cases), len(merged['states']), merged['transitions'],
            merged['traces'], merged['evaluations'], merged['extra'], time.monotonic() - t0))
        if viol:
            print('case: %s' % json.dumps(cases[viol[0]])[:2000])
            print('what: %s' % confirmed)
            print('VIOLATION property=%s replay=%s' % (pid, rep_path))
            sys.stdout.flush()
            return 1
        return 0
    finally:
        cleanup()


def write_evidence(pid, mod, tier, m, ncases, completed, viol, wall):
    level = mod.LEVEL
    cov = {}
    if level == 'model_checking':
        cov.update(states=len(m['states']), transitions=m['transitions'],
                   traces_validated_against_impl=m['traces'])
    else:
        cov.update(evaluations=m['evaluations'], distinct_nontrivial=len(m['nontrivial']))
    cov.update(rule=mod.RULE, samples=m['samples'], exhaustive=bool(completed and not viol),
               cases=m['ndone'], cases_total=ncases)
    cov.update(m['extra'])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
              coverage=cov, assumptions=list(mod.ASSUMPTIONS), wall_s=round(wall, 2),
              violations=1 if viol else 0)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')


if __name__ == '__main__':
    # run as the canonical module so that check modules share these classes
    from mc import core
    try:
        rc = core.main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
