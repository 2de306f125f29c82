"""Keys for keyrings and the files they are kept in."""
import os
import pgpkit as P
from pgp.db import gpg
from pgp.packets import parse_binary_packet_data
from pgp.transferrable_keys import TransferablePublicKey
from pgp.transferrable_keys import TransferableSecretKey
try:
    from dbm import gnu as gdbm
except ImportError:
    gdbm = None

SHORT = 0x8f9bc3ec      # of two keys of the same material
PLAIN = dict(usage=0)
NAMES = 'abcdefg'


class V3(P.Key):

    def __init__(self, n):
        super(V3, self).__init__('rsaA', created=1000000000, version=3)
        self.k = dict(self.k, n=n)


def v3(i):
    return V3((1 << 1023) + (i << 900) + (0x1122334455 << 40) +
              (0xa1b2c3d7 << 32) + SHORT)


KEYS = {
    'a': P.Key('rsaA'), 'b': P.Key('dsaA'),
    'c': P.Key('rsaB', created=1400039617),
    'd': P.Key('rsaB', created=1400077168),
    'e': v3(3), 'f': v3(7), 'g': P.Key('dsaB'),
}
assert KEYS['c'].keyid()[-4:] == KEYS['d'].keyid()[-4:] == \
    KEYS['e'].keyid()[-4:] and KEYS['e'].keyid() == KEYS['f'].keyid() and \
    len(set(k.fp_hex() for k in KEYS.values())) == len(KEYS)


# what its user IDs say
TEXTS = {
    ('a', 1): ['Alice Example <alice@example.org>'],
    ('a', 2): ['alice <a@corp.example>', 'Other A. ' + '.' * 300],
    ('b', 1): ['Bob ALICESON'],
    ('b', 2): ['Bob B. (comment [x]*) <bob@EXAMPLE.ORG>', 'R\u00f6bert'],
    ('c', 1): ['\u00c9mile Zola <zola@example.org>'],
    ('c', 2): ['\u00e9MILE', 'Zola, E. ' + 'z' * 300],
    ('d', 1): ['emile'],
    ('d', 2): ['Dar Malice', '\u0434\u0430\u0440\u044c\u044f'],
    ('e', 1): ['\u0414\u0410\u0420\u042c\u042f <d@example.net>'],
    ('e', 2): ['e', 'E e'],
    ('f', 1): ['F alice'],
    ('f', 2): ['example.org', 'nobody'],
    ('g', 1): ['Lone <g@example.org.example>'],
    ('g', 2): ['...', 'ALICE' * 60],
}


def packets(name, v, secret):
    """(type, body) of one content of a key"""
    k = KEYS[name]
    out = [(5, k.secret_body(**PLAIN)) if secret else (6, k.body())]

    def sig(data, st, hashed=None):
        return 2, P.signature(k, data, st, version=k.version, body_only=True)

    uids = [u.encode('utf8') for u in TEXTS[name, v]]
    for u in uids:
        out.append((13, u))
        out.append(sig(P.uid_hashed(k, u, k.version), 0x13))
        if name == 'b':
            out.append((12, b'\x3c'))
    if name == 'a' and v == 2:
        u = P.image(b'\xff\xd8' + bytes(9000))
        out.append((17, u))
        out.append(sig(P.uat_hashed(k, u), 0x13))
    subs = {'b': [P.Key('elgA')], 'g': [KEYS['a']]}.get(name, [])
    for s in subs:
        out.append((7, s.secret_body(**PLAIN)) if secret else (14, s.body()))
        out.append(sig(k.hashed() + s.hashed(), 0x18))
    return out


POOL = {(n, v, s): packets(n, v, s)
        for n in NAMES for v in (1, 2) for s in (False, True)}
CONTENT = {}
for (n, v, s), p in POOL.items():
    CONTENT[s, tuple(x for x in p if x[0] != 12)] = {'k': n, 'v': v}
UNKNOWN = {'k': '?', 'v': 0}


def raw(name, v, secret, head):
    return b''.join(
        P.pkt(t, b, head == 'new' or head == 'mixed' and i % 2 == 1)
        for i, (t, b) in enumerate(POOL[name, v, secret]))


def key_object(name, v, secret):
    ps = list(parse_binary_packet_data(bytearray(
        raw(name, v, secret, 'new'))))
    return (TransferableSecretKey if secret else TransferablePublicKey) \
        .from_packets(ps)


def identify(data, secret):
    return CONTENT.get((secret, tuple(
        (p[0], bytes(p[1])) for p in P.parse(data) if p[0] != 12)), UNKNOWN)


def spans(data):
    """The octets of each key in a file."""
    out, at = [], 0
    whole = len(data)
    # packets one by one, by their lengths
    for t, b in P.parse(data):
        h = data[at]
        if h & 0x40:
            n = 1 if len(b) < 192 else 2 if len(b) < 8384 else 5
            if data[at + 1] == 255:
                n = 5
        else:
            n = 1 << (h & 3)
        end = at + 1 + n + len(b)
        if t in (5, 6) or not out:
            out.append(b'')
        out[-1] += data[at:end]
        at = end
    if at != whole:
        raise ValueError('odd file')
    return out


class Store(object):
    """The file as others see it."""

    def __init__(self, sc, path):
        self.path, self.dbm = path, sc['kind'].endswith('dbm')
        self.secret = sc['kind'].startswith('secret')
        self.head = sc['head']

    def create(self, start):
        if self.dbm:
            with gdbm.open(self.path, 'c', 0o600) as db:
                for x in start:
                    db[KEYS[x['k']].fp_hex()] = self.raw(x)
        else:
            with open(self.path, 'wb') as f:
                for x in start:
                    f.write(self.raw(x))

    def raw(self, x):
        return raw(x['k'], x['v'], self.secret, self.head)

    def read(self):
        """name -> octets of each key, as a list"""
        if self.dbm:
            out = []
            with gdbm.open(self.path, 'r') as db:
                k = db.firstkey()
                while k is not None:
                    out.append((k.decode('latin1'), bytes(db[k])))
                    k = db.nextkey(k)
            res = []
            for fp, b in out:
                x = identify(b, self.secret)
                if x['k'] in KEYS and KEYS[x['k']].fp_hex() != fp:
                    x = UNKNOWN
                res.append((x, b))
            return res
        with open(self.path, 'rb') as f:
            data = f.read()
        try:
            return [(identify(b, self.secret), b) for b in spans(data)]
        except Exception:
            return [(UNKNOWN, data)]

    def peer(self, op):
        fp = KEYS[op['k']].fp_hex()
        if self.dbm:
            with gdbm.open(self.path, 'w') as db:
                if op['do'] == 'peer add':
                    db[fp] = self.raw(op)
                elif fp in db:
                    del db[fp]
        else:
            keep = b''.join(b for x, b in self.read() if x['k'] != op['k'])
            with open(self.path, 'wb') as f:
                f.write(keep + (self.raw(op) if op['do'] == 'peer add'
                                else b''))


def contents(key, secret):
    return identify(b''.join(bytes(p) for p in key.to_packets(None)), secret)
