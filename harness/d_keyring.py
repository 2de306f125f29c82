"""Histories of changes of keyring files."""
import os
import shutil
import tempfile
import hlib
from hlib import guarded
from pgp.db import gpg
from ringkit import KEYS, NAMES, UNKNOWN, Store, contents, key_object

NAME_OF = dict((KEYS[n].fp_hex(), n) for n in NAMES)


class Broken(object):
    """Like a key, until it is asked for its packets."""

    def __init__(self, key):
        self.__dict__['_key'] = key

    def __getattr__(self, name):
        if name == 'to_packets':
            raise ValueError('broken')
        return getattr(self._key, name)


def handler(sc):
    rec = {'start': sc['start'], 'ops': sc['ops'], 'readonly': sc['readonly'],
           'res': 'ok', 'first': [], 'seen': []}
    d = tempfile.mkdtemp(prefix='vf18')
    try:
        res = guarded(history, sc, rec, d)
        if res[0] != 'ok':
            rec['res'] = res[1] or res[0]
    finally:
        shutil.rmtree(d)
    return rec


def history(sc, rec, d):
    path = os.path.join(d, 'ring.gpg')
    store = Store(sc, path)
    store.create(sc['start'])
    # the same file by another name
    os.mkdir(os.path.join(d, 'real'))
    os.rename(path, os.path.join(d, 'real', 'ring.gpg'))
    os.symlink(os.path.join('real', 'ring.gpg'), path)
    store.path = os.path.join(d, 'real', 'ring.gpg')
    paths = [store.path, path, os.path.join(d, 'real', 'ring.gpg')]
    cls = gpg.GDBM if store.dbm else gpg.Keyring
    secret = store.secret

    def opened(i):
        return cls(paths[i], False, secret, sc['readonly'] == i + 1, False)

    objs = [opened(i) for i in range(3)]
    rec['first'] = [contents(k, secret) for k in objs[0].values()]
    last = len(sc['ops']) - 1
    for step, op in enumerate(sc['ops']):
        before = dict((x['k'], b) for x, b in store.read())
        ring = objs[op['by'] - 1]
        if op['do'].startswith('peer'):
            store.peer(op)
            res = 'ok', None
        elif op['do'] == 'reopen':
            objs[op['by'] - 1] = opened(op['by'] - 1)
            res = 'ok', None
        else:
            key = key_object(op['k'], op['v'], secret)
            do = op['do']
            if do == 'junk':
                present = any(x['k'] == op['k'] for x, b in store.read())
                key, do = Broken(key), 'update' if present else 'add'
            res = guarded(getattr(ring, do + '_transferrable_key'), key)
        now = store.read()
        after = dict((x['k'], b) for x, b in now)
        seen = {'res': res[0], 'file': [x for x, b in now],
                'moved': [k for k in set(before) | set(after)
                          if before.get(k) != after.get(k)],
                'values': [], 'members': [], 'pairs': [], 'listed': [],
                'looks': []}
        for i, o in enumerate(objs):
            got = guarded(lambda: [contents(k, secret) for k in o.values()])
            seen['values'].append(got[1] if got[0] == 'ok' else [UNKNOWN] * 2)
            got = guarded(lambda: [n for n in NAMES
                                   if KEYS[n].fp_hex() in o])
            seen['members'].append(got[1] if got[0] == 'ok' else ['?'])
            if step == last or i == step % 3:
                got = guarded(lambda: [
                    dict(contents(k, secret), f=NAME_OF.get(f, '?'))
                    for f, k in o.items()])
                seen['pairs'].append(
                    got[1] if got[0] == 'ok' else [dict(UNKNOWN, f='?')] * 2)
                for fn in (lambda: list(o), o.keys):
                    got = guarded(lambda: [NAME_OF.get(f, '?') for f in fn()])
                    seen['listed'].append(
                        got[1] if got[0] == 'ok' else ['?'] * 2)
        o = objs[(step + sc['n']) % 3]
        for n in NAMES:
            k = KEYS[n]
            for h, x in (('fp', k.fp_hex()), ('long', k.keyid_hex()),
                         ('short', k.keyid_hex()[-8:])):
                if h != 'fp' and step != last and n not in (op['k'], 'c'):
                    continue
                if h == 'fp' and step != last and n > 'd':
                    continue
                got = guarded(o.get_transferrable_key, x)
                look = {'h': h, 'k': n, 'res': 'none', 'got': UNKNOWN}
                if got[0] == 'hang':
                    look['res'] = 'hang'
                elif got[0] == 'ok' and got[1] is not None:
                    look.update(res='found', got=contents(got[1], secret))
                seen['looks'].append(look)
        rec['seen'].append(seen)
        if 'hang' in (res[0], ):
            break


hlib.run(handler)
