"""Schedules of processes and threads that lock a keyring."""
import atexit
import ctypes
import gc
import os
import platform
import queue
import select
import shutil
import signal
import tempfile
import threading
import time
import hlib
from pgp.db import gpg
from ringkit import Store, key_object

VFS = ctypes.CDLL(None)
VFS.vfs_steps.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int,
                          ctypes.c_double]
OWN = 'bcdg'
LIMIT = 0.5
MANY = 400
STUCK = []


def program(sc, w, path, event, hold, lock, other, ring):
    """One participant, w from 1"""
    count = {'r': 0, 'R': 0}
    secret = False

    def ev(e, timed=False, same=True, x=''):
        event(w, e, x, timed, same)

    for t in sc['progs'][w - 1]:
        if t in 'atAz':
            obj, c = (other, 'R') if t == 'A' else (lock, 'r')
            same = c == 'r'
            ev('want')
            try:
                got = obj.acquire() if t == 'a' else \
                    obj.acquire(0 if t == 'z' else LIMIT)
            except Exception as e:
                ev('raised', x=type(e).__name__)
                return
            if got:
                count[c] += 1
            ev('got' if got else 'gaveup', t != 'a', same,
               'now' if t == 'z' else '')
        elif t in 'rR':
            obj = other if t == 'R' else lock
            had = count[t] > 0
            count[t] -= had
            ev('releasing' if had else 'extra')
            try:
                obj.release()
            except Exception as e:
                if had:
                    ev('raised', x=type(e).__name__)
                    return
            if had:
                ev('released')
        elif t == 'h':
            hold()
        elif t == 'L':
            ev('want')
            try:
                ring.lock_db()
            except Exception as e:
                ev('raised', x=type(e).__name__)
                return
            ev('got')
        elif t == 'U':
            ev('releasing')
            try:
                ring.unlock_db()
            except Exception as e:
                ev('raised', x=type(e).__name__)
                return
            ev('released')
        elif t in 'ox':
            name = OWN[w - 1] if t == 'o' else 'a'
            key = key_object(name, 1, secret)
            ev('trying', x=name)
            try:
                ring.add_transferrable_key(key)
                res = 'yes'
            except Exception as e:
                res = 'no'
                if t == 'o':
                    ev('raised', x=type(e).__name__)
            ev('added' if res == 'yes' else 'refused', x=name)


class Worker(object):

    def __init__(self, sc, w, d, path):
        self.w = w
        self.events, self.pending = [], None
        self.state = 'running'      # asking, blocked, done, killed
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r1)
                os.close(w2)
                lock = gpg.Lock(called(sc, path, w))
                other = gpg.Lock(called(sc, path, w + 1))
                ring = None
                if sc['kind'] == 'ring':
                    ring = gpg.Keyring(called(sc, path, w), False, False, False, False)
                    for n in (OWN[w - 1], 'a'):
                        key_object(n, 1, False)
                if sc['left'] == 'self' and w == 1:
                    leave(path, os.getpid(), platform.node())

                def event(p, e, x, timed, same):
                    VFS.vfs_event(('%s %d %d %s' % (e, timed, same, x))
                                  .encode())

                if sc['left'] == 'other':
                    VFS.vfs_foreign(os.getppid())
                VFS.vfs_steps(d.encode(), w1, r2, 1e6)
                VFS.vfs_step(b'begin')
                program(sc, w, path, event,
                        lambda: VFS.vfs_step(b'hold'), lock, other, ring)
                VFS.vfs_event(b'end 0 0 ')
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)
        self.r, self.ack = r1, w2
        self.buf = b''
        self.poll = select.poll()
        self.poll.register(self.r, select.POLLIN)

    def listen(self, log, wait):
        """Take messages until it asks or ends; False if it stays silent"""
        while self.state in ('running', 'blocked'):
            while b'\n' in self.buf:
                line, self.buf = self.buf.split(b'\n', 1)
                line = line.decode()
                if line.startswith('C '):
                    self.pending, self.state = line[2:], 'asking'
                    return True
                e, timed, same, x = (line[2:].split(' ') + ['', '', ''])[:4]
                if e == 'killed':
                    e, timed, same = 'signal', '0', '0'
                log(self.w, e, x, timed == '1', same == '1')
            if not self.poll.poll(wait * 1000):
                self.state = 'blocked'
                return False
            b = os.read(self.r, 65536)
            if not b:
                self.finish('done')
                return True
            self.buf += b
        return True

    def finish(self, state):
        self.state = state
        os.waitpid(self.pid, 0)
        os.close(self.r)
        os.close(self.ack)

    def step(self, log):
        if self.state == 'asking':
            self.state, self.pending = 'running', None
            os.write(self.ack, b'.')
            self.listen(log, 1.5)
        elif self.state == 'blocked':
            self.listen(log, 0.02)

    def kill(self, log):
        if self.state in ('asking', 'blocked', 'running'):
            os.kill(self.pid, signal.SIGKILL)
            self.finish('killed')
            log(self.w, 'killed', '', False, False)

    def alive(self):
        return self.state in ('asking', 'blocked', 'running')


def leave(path, pid, node):
    with open(path + '.lock', 'w') as f:
        f.write('%010d%s\n' % (pid, node))


def called(sc, path, w):
    """The file by one of its names."""
    if not sc['names']:
        return path
    d = os.path.dirname(path)
    return [path, os.path.join(d, 'link', 'ring.gpg'),
            os.path.join(d, 'names', 'other.gpg'),
            os.path.join(d, 'names', '..', 'ring.gpg')][w % 4]


def name(path):
    d = os.path.dirname(path)
    os.mkdir(os.path.join(d, 'names'))
    os.symlink('.', os.path.join(d, 'link'))
    os.symlink('../ring.gpg', os.path.join(d, 'names', 'other.gpg'))


def left_behind(sc, path):
    if sc['left'] == 'dead':
        pid = os.fork()
        if pid == 0:
            os._exit(0)
        os.waitpid(pid, 0)
        leave(path, pid, platform.node())
    elif sc['left'] in ('alive', 'other'):
        leave(path, os.getpid(), platform.node())
    elif sc['left'] == 'elsewhere':
        leave(path, 77, 'elsewhere.example')


def apart(fn, limit):
    """Whether fn says so, in a process of its own"""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(limit)
            code = 0 if fn() else 1
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1] == 0


def can_lock(path, limit=2):
    l = gpg.Lock(path)
    return l.acquire(limit) and (l.release() or True)


def processes(sc, d, path, log):
    ws = []
    try:
        for i in range(len(sc['progs'])):
            ws.append(Worker(sc, i + 1, d, path))
            ws[-1].listen(log, 20)
        for s in sc['sched']:
            if s['w'] > len(ws):
                continue
            w = ws[s['w'] - 1]
            if s['do'] == 'kill':
                w.kill(log)
                continue
            for i in range(s['n'] if s['n'] < 99 else MANY):
                if w.state != 'asking' or \
                        s['n'] == 99 and i and w.pending == 'hold':
                    break
                w.step(log)
        silent = None
        for i in range(3 * MANY):
            if not any(w.alive() for w in ws):
                break
            for w in ws:
                if w.alive():
                    w.step(log)
            if all(w.state == 'blocked' for w in ws if w.alive()):
                silent = silent or time.time()
                if time.time() - silent > 8:
                    break
            else:
                silent = None
        for w in ws:
            if w.alive():
                log(w.w, 'stuck', '', False, False)
    finally:
        for w in ws:
            w.kill(lambda *a: None)


def threads(sc, path, log):
    n = len(sc['progs'])
    go = threading.Event()
    shared = gpg.Lock(path), gpg.Lock(path)
    ring = None
    if sc['kind'].startswith('ring'):
        ring = gpg.Keyring(path, False, False, False, False)

    def body(w):
        locks = shared if sc['shared'] else (
            gpg.Lock(called(sc, path, w)), gpg.Lock(called(sc, path, w + 1)))
        r = ring if sc['shared'] or ring is None else \
            gpg.Keyring(called(sc, path, w), False, False, False, False)
        go.wait()
        program(sc, w, path, log, lambda: time.sleep(0.004), locks[0],
                locks[1], r)
    ts = [threading.Thread(target=body, args=(i + 1,)) for i in range(n)]
    for t in ts:
        t.daemon = True
        t.start()
    go.set()
    for i, t in enumerate(ts):
        t.join(15)
        if t.is_alive():
            log(i + 1, 'stuck', '', False, False)


class Odd(object):
    """A key that cannot be written."""

    def __init__(self, key):
        self.__dict__.update(key.__dict__)
        self.__class__ = type('Odd', (type(key),), {
            '__doc__': None, 'to_packets': self.fail})

    def fail(self, *a, **kw):
        raise ValueError('odd')


def operations(sc, path, log):
    """Single operations, failing or not, and whether the lock is free for
    others after each."""
    secret = sc['kind'].startswith('secret')
    ring = gpg.get_resource(path, False, secret, False, False)
    closed = gpg.get_resource(path, False, secret, True, False)
    a, b = key_object('a', 1, secret), key_object('b', 1, secret)
    away = path + '.away'

    def use(r, what):
        if what == 'add':
            r.add_transferrable_key(b)
        elif what == 'add again':
            r.add_transferrable_key(a)
        elif what == 'update':
            r.update_transferrable_key(a)
        elif what == 'update missing':
            r.update_transferrable_key(b)
        elif what == 'delete':
            r.delete_transferrable_key(a)
        elif what == 'delete missing':
            r.delete_transferrable_key(b)
        elif what == 'add odd':
            r.add_transferrable_key(Odd(b))
        elif what == 'update odd':
            r.update_transferrable_key(Odd(a))
        elif what == 'keys':
            list(r.keys())
        elif what == 'values':
            list(r.values())
        elif what == 'some values':
            next(iter(r.values()))
        elif what == 'some items':
            next(iter(r.items()))
        elif what == 'contains':
            assert a.fingerprint in r and b.fingerprint not in r
        elif what == 'get':
            r.get_transferrable_key(a.fingerprint)
        elif what == 'get missing':
            r.get_transferrable_key(b.fingerprint)
        elif what == 'get odd':
            r.get_transferrable_keys(None)
        elif what == 'open':
            gpg.get_resource(path, False, secret, False, False)
        elif what == 'make':
            gpg.get_resource(path + '2', True, secret, False, False)

    def free():
        log(1, 'free' if apart(lambda: can_lock(path, 0), 20) else 'held',
            '', False, False)

    depth = 0
    for t in sc['progs']:
        if t == 'L':
            log(1, 'want', '', False, True)
            ring.lock_db()
            log(1, 'got', '', False, True)
            depth += 1
        elif t == 'U':
            log(1, 'releasing', '', False, True)
            ring.unlock_db()
            log(1, 'released', '', False, True)
            depth -= 1
        else:
            how, what = t.split(': ')
            broken = None
            if how == 'away':
                os.rename(path, away)
            elif how == 'garbage':
                with open(path, 'rb') as f:
                    broken = f.read()
                with open(path, 'wb') as f:
                    f.write(b'\x88\x03\x07\x07\x07')
            try:
                use(closed if how == 'closed' else ring, what)
            except Exception as e:
                pass
            if how == 'away':
                if os.path.exists(path):
                    os.unlink(path)
                os.rename(away, path)
            elif how == 'garbage':
                with open(path, 'wb') as f:
                    f.write(broken)
        free()


class Apart(object):
    """A thread that does what it is told."""

    def __init__(self):
        self.asked, self.answers = queue.Queue(), queue.Queue()
        t = threading.Thread(target=self.work)
        t.daemon = True
        t.start()

    def work(self):
        while True:
            fn, args = self.asked.get()
            try:
                self.answers.put(fn(*args))
            except Exception:
                self.answers.put(None)

    def __call__(self, fn, *args):
        self.asked.put((fn, args))
        return self.answers.get()


def interrupted(lock):
    """Somebody loses patience."""
    def stop(*a):
        raise KeyboardInterrupt
    signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, 0.12)
    try:
        got = lock.acquire()
        signal.setitimer(signal.ITIMER_REAL, 0)
        return got
    except KeyboardInterrupt:
        return False


def forked(sc, path, log):
    """A process (1) with another thread (3) and a process it has forked
    (2) while it knew or had the lock."""
    locks = {'z': gpg.Lock(path)}
    mine = gpg.Lock(path)
    child = thread = None
    had = dict((w + o, 0) for w in '123' for o in 'zZ')
    stale = False

    def ask(t):
        child[1].write(t + '\n')
        child[1].flush()
        return child[2].readline().strip()

    def ended(t):
        ask(t)
        os.waitpid(child[0], 0)
        log(2, 'end' if t == 'e' else 'killed', '', False, False)
        lost = t == 'x' and (had['2z'] or had['2Z'])
        had.update({'2z': 0, '2Z': 0})
        return lost

    for t in sc['progs']:
        if t == 'F':
            child = fork(path, locks)
            continue
        who, t = t
        w = int(who)
        o = who + ('z' if t in 'zri' else 'Z')
        if w == 3 and thread is None:
            thread = Apart()
        if t in 'zZi':
            log(w, 'want', '', False, True)
            lock = mine if t == 'Z' else locks['z']
            got = ask(t) == 'yes' if w == 2 else \
                interrupted(lock) if t == 'i' else \
                thread(lock.acquire, 0) if w == 3 else lock.acquire(0)
            had[o] += bool(got)
            log(w, 'got' if got else 'gaveup', 'now', True, had[o] > 0)
        elif t in 'rR':
            lock = locks['z'] if t == 'r' else mine
            n = had[o]
            log(w, 'releasing' if n else 'extra', '', False, True)
            if w == 2:
                ask(t)
            elif w == 3:
                thread(lock.release)
            else:
                lock.release()
            had[o] -= n > 0
            if n:
                log(w, 'released', '', False, True)
        elif t == 'g':
            # it forgets the object, unless it has the lock by it
            if not had['2z']:
                ask(t)
        elif t in 'ex':
            stale = ended(t) or stale
            child = None
        for l, k in ((locks['z'], 'z'), (mine, 'Z')):
            if bool(l.locked) != (had['1' + k] + had['3' + k] > 0):
                log(1, 'raised', 'locked-says-otherwise', False, False)
        if not stale:
            log(1, 'free' if apart(lambda: can_lock(path, 0), 20) else 'held',
                '', False, False)
    if child:
        ended('x')
    for o in ('3z', '3Z'):
        for i in range(had[o]):
            thread((locks['z'] if o == '3z' else mine).release)
    atexit._run_exitfuncs()
    log(1, 'end', '', False, False)
    log(3, 'end', '', False, False)


def fork(path, locks):
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w1)
        os.close(r2)
        return pid, os.fdopen(w2, 'w'), os.fdopen(r1)
    try:
        os.close(r1)
        os.close(w2)
        say = os.fdopen(w1, 'w')
        for t in os.fdopen(r2):
            t = t.strip()
            res = False
            if t in 'Zz':
                if t not in locks:
                    locks[t] = gpg.Lock(path)
                res = locks[t].acquire(0)
            elif t in 'Rr':
                t = 'z' if t == 'r' else 'Z'
                if t not in locks:
                    locks[t] = gpg.Lock(path)
                locks[t].release()
            elif t == 'g':
                locks.pop('z', None)
                gc.collect()
            elif t == 'e':
                atexit._run_exitfuncs()
                os._exit(0)
            elif t == 'x':
                os._exit(0)
            say.write('yes\n' if res else 'no\n')
            say.flush()
    finally:
        os._exit(0)


def replaced(sc, path, log):
    """A process has the lock (z) when somebody replaces it with a lock of
    theirs, or just removes it (X), and then releases it (r), forgets it (g)
    or ends (e)."""
    lock = gpg.Lock(path)
    for t in sc['progs']:
        try:
            if t == 'z':
                lock.acquire(0)
            elif t == 'X':
                os.unlink(path + '.lock')
                if sc['left'] == 'alive':
                    leave(path, os.getppid(), platform.node())
                elif sc['left'] == 'elsewhere':
                    leave(path, os.getpid(), 'elsewhere.example')
                if sc['left']:
                    shutil.copyfile(path + '.lock', path + '.then')
            elif t == 'r':
                lock.release()
            elif t == 'g':
                lock = None
                gc.collect()
            elif t == 'e':
                atexit._run_exitfuncs()
        except Exception as e:
            log(1, 'raised', type(e).__name__, False, False)


def in_threads(sc, path, log):
    """In a process of its own: threads may never end."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                def say(p, e, x, timed, same):
                    f.write('%d %s %d %d %s\n' % (p, e, timed, same, x))
                    f.flush()
                guard = threading.Lock()

                def event(*a):
                    with guard:
                        say(*a)
                (operations if sc['kind'].endswith('operations')
                 else forked if sc['kind'] == 'forked'
                 else replaced if sc['kind'] == 'replaced'
                 else threads)(sc, path, event)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        for line in f:
            p, e, timed, same, x = line.rstrip('\n').split(' ')
            log(int(p), e, x, timed == '1', same == '1')
    os.waitpid(pid, 0)


def handler(sc):
    rec = {'kind': sc['kind'], 'left': sc['left'], 'procs': max(3, len(sc['progs'])),
           'res': 'ok', 'events': [], 'free': True, 'kept': True,
           'final': [], 'adds': []}
    if len(STUCK) > 2:
        # Enough was seen that never ends
        return rec
    base = tempfile.mkdtemp(prefix='vf20')
    try:
        try:
            replay(sc, rec, base)
            STUCK.extend(e for e in rec['events'] if e['e'] == 'stuck')
        except Exception as e:
            if os.environ.get('VF_TRACE'):
                raise
            rec['res'] = type(e).__name__
    finally:
        shutil.rmtree(base)
    return rec


def replay(sc, rec, base):
    d = os.path.realpath(base)
    path = os.path.join(d, 'ring.gpg')
    kind = sc['kind'].replace(' operations', '') \
        if sc['kind'].endswith('operations') else 'public'
    store = Store({'kind': kind, 'head': 'new'}, path)
    store.create([{'k': 'a', 'v': 1}])

    def log(p, e, x, timed, same):
        if e in ('trying', 'added', 'refused'):
            rec['adds'] = [a for a in rec['adds']
                           if (a['p'], a['k']) != (p, x)]
            rec['adds'].append({'p': p, 'k': x, 'ok': {
                'trying': 'unknown', 'added': 'yes', 'refused': 'no'}[e]})
            return
        rec['events'].append({'p': p, 'e': e, 'x': x, 'timed': timed,
                              'same': same})
    name(path)
    if sc['kind'] != 'replaced':
        left_behind(sc, path)
    before = None
    if os.path.exists(path + '.lock'):
        with open(path + '.lock') as f:
            before = f.read()
    if sc['kind'].endswith(('threads', 'operations', 'forked',
                             'replaced')):
        in_threads(sc, path, log)
    else:
        processes(sc, d, path, log)
    if sc['kind'] == 'replaced' and sc['left']:
        with open(path + '.then') as f:
            before = f.read()
    if sc['left'] in ('alive', 'other', 'elsewhere'):
        rec['kept'] = os.path.exists(path + '.lock')
        if rec['kept']:
            with open(path + '.lock') as f:
                rec['kept'] = f.read() == before
    else:
        rec['free'] = apart(lambda: can_lock(path), 20)
    if not sc['kind'].endswith(('operations', 'forked', 'replaced')):
        rec['final'] = [x['k'] for x, b in store.read()]


hlib.run(handler)
