"""Histories of databases of several keyrings."""
import os
import shutil
import tempfile
HOME = tempfile.mkdtemp(prefix='vf21')
os.environ['HOME'] = HOME
import hlib
from hlib import guarded, text
from pgp import shortcuts
from pgp.db import gpg
from pgp.transferrable_keys import TransferableSecretKey
from ringkit import (KEYS, NAMES, TEXTS, UNKNOWN, Store, contents, gdbm,
                     key_object)

NAME_OF = dict((KEYS[n].fp_hex(), n) for n in NAMES)


def described(key):
    secret = isinstance(key, TransferableSecretKey)
    return dict(contents(key, secret), secret=secret)


def term(op):
    return op['term'].encode('ascii').decode('unicode_escape')


def history(sc, rec, d):
    stores, paths = [], []
    for i, g in enumerate(sc['rings']):
        s = Store({'kind': ('secret' if g['secret'] else 'public') +
                   (' dbm' if g['dbm'] else ''), 'head': 'new'},
                  os.path.join(d, 'ring%d' % i))
        s.create(g['keys'])
        stores.append(s)
    db = gpg.GPGDatabase()
    for op in sc['ops']:
        seen = {'found': [], 'files': [], 'listed': []}
        if op['do'] == 'register':
            g = sc['rings'][op['ring'] - 1]
            res = guarded(db.add_resource, stores[op['ring'] - 1].path,
                          primary=op['primary'], secret=g['secret'],
                          read_only=g['readonly'])
        elif op['do'] == 'list':
            res = guarded(lambda: [NAME_OF.get(f, '?') for f in db.keys()])
            if res[0] == 'ok':
                seen['listed'] = res[1]
        elif op['do'] == 'search':
            k = KEYS[op['k']]
            kw = {}
            if op['by'] == 'fp':
                kw['fingerprint'] = k.fp_hex()
            elif op['by'] == 'long':
                kw['key_id'] = k.keyid_hex()
            elif op['by'] == 'short':
                kw['key_id'] = k.keyid_hex()[-8:]
            if op['text']:
                kw['user_id'] = term(op)
            res = guarded(lambda: [described(x) for x in db.search(**kw)])
            if res[0] == 'ok':
                seen['found'] = res[1]
        else:
            res = guarded(getattr(db, op['do'] + '_key'),
                          key_object(op['k'], op['v'], op['secret']))
        seen['res'] = res[0]
        seen['files'] = [[x for x, b in s.read()] for s in stores]
        rec['seen'].append(seen)
        if res[0] == 'hang':
            break


def opening(sc, rec, d):
    o = sc['open']
    d = os.path.realpath(d)
    path = os.path.join(d, 'ring')
    store = Store({'kind': ('secret' if o['secret'] else 'public') +
                   (' dbm' if o['file'] == 'dbm' else ''), 'head': 'old'},
                  path)
    holds = [{'k': 'b', 'v': 1}, {'k': 'a', 'v': 2}, {'k': 'e', 'v': 1}]
    if o['file'] in ('keys', 'dbm'):
        store.create(holds)
        rec['holds'] = holds
    elif o['file'] != 'missing':
        with open(path, 'wb') as f:
            if o['file'] == 'kbx':
                f.write(b'\0\0\0\x20\x01\x01\0\x02KBXf' + bytes(20))

    def state():
        if not os.path.exists(path):
            return None
        with open(path, 'rb') as f:
            return f.read()
    before = state()
    cwd = os.getcwd()
    os.chdir(d)
    try:
        name = o['prefix'] + ('ring' if o['relative'] else path)
        got = guarded(gpg.get_resource, name, o['force'], o['secret'])
    finally:
        os.chdir(cwd)
    rec['opened'] = got[0]
    if got[0] == 'ok':
        r = guarded(lambda: [contents(k, o['secret'])
                             for k in got[1].values()])
        rec['served'] = r[1] if r[0] == 'ok' else [UNKNOWN] * 2
    rec['same'] = state() == before
    if got[0] == 'ok' and o['file'] == 'missing':
        r = guarded(got[1].add_transferrable_key,
                    key_object('c', 1, o['secret']))
        rec['usable'] = r[0] == 'ok' and os.path.exists(path) and \
            [x for x, b in store.read()] == [{'k': 'c', 'v': 1}]


def defaults(sc, rec, d):
    o = sc['defaults']
    home = os.path.join(HOME, '.gnupg')
    os.mkdir(home)
    try:
        stores = []
        for name, kind, state, keys in (
                ('secring.gpg', 'secret', o['sec'], 'ab'),
                ('pubring.gpg', 'public', o['pub'], 'cb')):
            s = Store({'kind': kind, 'head': 'old'}, os.path.join(home, name))
            if state != 'missing':
                s.create([{'k': k, 'v': 1} for k in keys]
                         if state == 'keys' else [])
            stores.append(s)
        before = sorted(os.listdir(home))
        if o['by'] == 'shortcut':
            got = guarded(shortcuts.get_gnupg_db)
            db = got[1]
        else:
            db = gpg.GPGDatabase()
            got = guarded(db.load_default_resources, o['force'],
                          o['readonly'])
        rec['opened'] = got[0]
        rec['made'] = [x for x in os.listdir(home) if x not in before]
        if got[0] == 'ok':
            rec['listed'] = [NAME_OF.get(f, '?') for f in db.keys()]
            rec['added'] = [
                guarded(db.add_key, key_object('d', 1, secret))[0] == 'ok'
                for secret in (True, False)]
            for f, s in zip(('secring', 'pubring'), stores):
                rec[f] = [x['k'] for x, b in s.read()]
    finally:
        shutil.rmtree(home)


def handler(sc):
    rec = {'kind': sc['kind'], 'open': sc['open'], 'res': 'ok', 'seen': [],
           'rings': sc['rings'], 'texts': [], 'holds': [], 'served': [],
           'opened': '', 'same': True, 'usable': False,
           'defaults': sc['defaults'], 'made': [], 'listed': [], 'added': [],
           'secring': [], 'pubring': [],
           'ops': [dict(o, codes=text(term(o))) for o in sc['ops']]}
    if sc['kind'] == 'history':
        rec['texts'] = [{'k': k, 'v': v, 't': [text(u) for u in us]}
                        for (k, v), us in TEXTS.items()]
    d = tempfile.mkdtemp(dir=HOME)
    try:
        res = guarded({'history': history, 'open': opening,
                       'defaults': defaults}[sc['kind']], sc, rec, d)
        if res[0] != 'ok':
            rec['res'] = res[1] or res[0]
    finally:
        shutil.rmtree(d)
    return rec


try:
    hlib.run(handler)
finally:
    shutil.rmtree(HOME)
