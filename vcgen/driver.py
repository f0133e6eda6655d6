"""Runs exploration tasks and collects the obligations of their specifications.

A task is (name, start, spec): `start(x, prog)` runs the code under verification symbolically and
returns its result; `spec(S)` states obligations about the outcome of one path (S.prove).  Specification
code may itself branch (x.choose); those branches are explored like branches of the program.

Every branching point forks the process: one process carries one path to its end, checks the
obligations there and appends a record to a results file.  A semaphore limits how many run at a time.
Every process that was started must have left its record, or the run counts as failed."""
import collections, gc, mmap, multiprocessing as mp, os, pickle, struct, sys, tempfile, time, traceback
import z3
from values import *
import engine
from engine import X, Panic, Abort, Infeasible, Stats


CROSS = False          # hand each obligation set to a second solver as well


class Task:
    def __init__(self, name, start, spec):
        self.name = name
        self.start = start
        self.spec = spec


class Skip(Exception):
    """a specification has nothing to say about this path"""


class Stop(Exception):
    """exploration was called off"""


def new_res():
    return dict(paths=collections.Counter(), obl=collections.Counter(), viol=[], errors=[], fns=set(), modelled=set(), bounded=set(), used=set(),
                unknown=[], cover=collections.Counter(), wit={}, cross=collections.Counter(), samples=[])


def merge(a, b):
    for k in ('paths', 'obl', 'cover', 'cross'):
        a[k].update(b[k])
    for k in ('viol', 'errors', 'unknown', 'samples'):
        a[k].extend(b[k])
    for k in ('fns', 'modelled', 'bounded', 'used'):
        a[k] |= b[k]
    for k, v in b['wit'].items():
        a['wit'].setdefault(k, v)


def run_path(prog, task, ti, x, res):
    from spec import S
    x.task = task.name
    try:
        kind, r, why = 'ok', None, ''
        try:
            r = task.start(x, prog)
            kind = 'ok' if (not isinstance(r, Adt) or r.v == 0) else 'err'
        except Panic as e:
            kind, why = 'panic', str(e)
        except Abort as e:
            kind, why = 'abort', str(e)
        if kind == 'ok' and x.world is not None and x.world.poison:
            raise Unsupported('success after the failure of a helper')
        s = S(x, kind, r, why, res, ti)
        task.spec(s)
        res['paths'][kind] += 1
        res['fns'].update(x.called)
        res['modelled'].update(x.modelled)
        res['bounded'].update(x.bounded)
        res['used'].update(x.used)
        s.finish()
    except (Infeasible, Skip, Stop):
        pass
    except Unsupported as e:
        res['errors'].append('%s: %s [path %s]' % (task.name, e, ''.join('TF'[not d] for d in x.trace)))
    except (AttributeError, IndexError, TypeError, KeyError, AssertionError, z3.Z3Exception, RecursionError, ValueError, NameError) as e:
        res['errors'].append('%s: %s: %s at %s [path %s]\n%s' % (task.name, type(e).__name__, e, x.where(), ''.join('TF'[not d] for d in x.trace), traceback.format_exc()[-2500:]))


class Pool:
    def __init__(self, nproc, ntasks, stop_on_violation, deadline):
        self.sem = mp.Semaphore(nproc)
        self.mem = mmap.mmap(-1, 8 * (ntasks + 1))
        self.lock = mp.Lock()
        fd, self.path = tempfile.mkstemp(prefix='vcgen')
        os.close(fd)
        self.fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)
        self.kids = []
        self.token = False
        self.stop_on_violation = stop_on_violation
        self.deadline = deadline
        self.ti = None

    def started(self):
        with self.lock:
            n = struct.unpack_from('<Q', self.mem, 0)[0]
            struct.pack_into('<Q', self.mem, 0, n + 1)

    def stopped(self, ti):
        return self.mem[8 + 8 * ti] != 0 or (self.deadline and time.time() > self.deadline)

    def stop(self, ti):
        self.mem[8 + 8 * ti] = 1

    def fork(self, x):
        """called at a branching point: True in the child, False in the parent"""
        if self.stopped(self.ti):
            raise Stop()
        free = self.sem.acquire(block=False)
        self.started()
        pid = os.fork()
        if pid == 0:
            self.kids = []
            self.token = free
            x.stats.checks, x.stats.time, x.stats.unknown = 0, 0.0, 0
            self.t0 = time.process_time()
            return True
        if free:
            self.kids.append(pid)
        else:
            os.waitpid(pid, 0)
        return False

    def leave(self, res, stats):
        res['stats'] = (stats.checks, stats.time, stats.unknown)
        res['cpu'] = time.process_time() - self.t0
        b = pickle.dumps((self.ti, res), protocol=4)
        os.write(self.fd, struct.pack('<Q', len(b)) + b)
        if self.token:
            self.sem.release()
        for k in self.kids:
            os.waitpid(k, 0)
        os._exit(0)

    def records(self):
        b = open(self.path, 'rb').read()
        os.unlink(self.path)
        os.close(self.fd)
        p = 0
        while p < len(b):
            n = struct.unpack_from('<Q', b, p)[0]
            yield pickle.loads(b[p + 8:p + 8 + n])
            p += 8 + n


def run(prog, tasks, nproc=8, stop_on_violation=True, deadline=None):
    """returns (list of per-task results, timed out)"""
    tot = [new_res() for _ in tasks]
    for t in tot:
        t['stats'] = [0, 0.0, 0]
        t['cpu'] = 0.0
    pool = Pool(nproc, len(tasks), stop_on_violation, deadline)
    gc.collect()
    gc.disable()
    gc.freeze()
    sys.stdout.flush()
    sys.stderr.flush()
    pids = []
    for ti, task in enumerate(tasks):
        pool.sem.acquire()
        if pool.stopped(ti):
            pool.sem.release()
            continue
        pool.started()
        pid = os.fork()
        if pid == 0:
            res = new_res()
            stats = Stats()
            try:
                pool.ti, pool.token, pool.kids = ti, True, []
                pool.t0 = time.process_time()
                x = X(prog, [], stats)
                x.forker = pool.fork
                x.pool = pool
                run_path(prog, task, ti, x, res)
                if res['errors'] or res['viol'] and stop_on_violation:
                    pool.stop(ti)
            except BaseException:
                res['errors'].append('%s: %s' % (task.name, traceback.format_exc()[-1500:]))
            pool.leave(res, stats)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    gc.enable()
    n = 0
    for ti, res in pool.records():
        n += 1
        merge(tot[ti], res)
        for i in range(3):
            tot[ti]['stats'][i] += res['stats'][i]
        tot[ti]['cpu'] += res['cpu']
    lost = struct.unpack_from('<Q', pool.mem, 0)[0] - n
    if lost:
        tot[0]['errors'].append('%d exploration processes left no result' % lost)
    return tot, bool(deadline and time.time() > deadline)
