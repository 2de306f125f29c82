"""Changes of keyring files, interrupted at every call."""
import ctypes
import json
import os
import shutil
import stat
import tempfile
import hlib
from hlib import guarded
from pgp.db import gpg
from ringkit import KEYS, UNKNOWN, Store, contents, key_object

VFS = ctypes.CDLL(None)
VFS.vfs_off.restype = ctypes.c_long
VFS.vfs_name.restype = ctypes.c_char_p
VFS.vfs_name.argtypes = VFS.vfs_writes.argtypes = [ctypes.c_long]
HOW = {'none': 0, 'die': 1, 'half': 2, 'eio': 3, 'full': 4, 'short': 5,
       'dead': 6}
NEEDS = {'die': 0, 'eio': 0, 'dead': 0, 'full': 1, 'half': 2, 'short': 2}


def child(d, path, sc, secret, how, at):
    """What became of it, and the calls made"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            ring = gpg.Keyring(path, False, secret, False, False)
            key = key_object(sc['op']['k'], sc['op']['v'], secret)
            op = getattr(ring, sc['op']['do'] + '_transferrable_key')
            VFS.vfs_fault(d.encode(), HOW[how], ctypes.c_long(at))
            res = guarded(op, key)
            n = VFS.vfs_off()
            calls = [(VFS.vfs_name(i).decode(), VFS.vfs_writes(i))
                     for i in range(n)]
            os.write(w, json.dumps([res[0], calls if at < 0 else []])
                     .encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while 1:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data.decode()) if data else ['died', []]


def point(sc, store, base, how, at):
    d = tempfile.mkdtemp(dir=base)
    try:
        path = real = os.path.join(d, 'ring.gpg')
        if sc['link']:
            os.mkdir(os.path.join(d, 'real'))
            real = os.path.join(d, 'real', 'ring.gpg')
            os.symlink(os.path.join('real', 'ring.gpg'), path)
        store.path = real
        store.create(sc['start'])
        os.chmod(real, sc['mode'])
        before = dict((x['k'], b) for x, b in store.read())
        end, calls = child(d, path, sc, store.secret, how, at)
        out = {'end': end, 'there': os.path.exists(real), 'file': [],
               'moved': [], 'mode': 0, 'again': [], 'at': at, 'how': how}
        if out['there']:
            now = store.read()
            after = dict((x['k'], b) for x, b in now)
            out['file'] = [x for x, b in now]
            out['moved'] = [k for k in set(before) | set(after)
                            if before.get(k) != after.get(k)]
            out['mode'] = stat.S_IMODE(os.stat(real).st_mode)
            # the lock belongs to nobody any more
            for p in (path, real):
                if os.path.exists(p + '.lock'):
                    os.unlink(p + '.lock')
            got = guarded(lambda: [contents(k, store.secret) for k in
                                   gpg.Keyring(path, False, store.secret,
                                               False, False).values()])
            out['again'] = got[1] if got[0] == 'ok' else [UNKNOWN] * 2
        return out, calls
    finally:
        shutil.rmtree(d)


def every_point(sc, rec):
    base = tempfile.mkdtemp(prefix='vf19')
    try:
        store = Store(sc, '')
        out, calls = point(sc, store, base, 'none', -1)
        rec['points'].append(out)
        for i, (name, writes) in enumerate(calls):
            if writes < NEEDS[sc['how']]:
                continue
            rec['points'].append(point(sc, store, base, sc['how'], i + 1)[0])
            rec['calls'].append(name)
    finally:
        shutil.rmtree(base)


def handler(sc):
    rec = {'start': sc['start'], 'op': sc['op'], 'mode': sc['mode'],
           'res': 'ok', 'points': [], 'calls': []}
    try:
        every_point(sc, rec)
    except Exception as e:
        rec['res'] = type(e).__name__
    return rec


hlib.run(handler)
