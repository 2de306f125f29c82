"""Attributes of signatures: assigned, read, written and read again."""
import datetime
import hlib
from hlib import guarded
import pgpkit as P
import sigkit as S
import re
from pgp import message as M
from pgp import shortcuts
from pgp.packets import parse_binary_packet_data
from pgp.signature import BaseSignature, Notation, RevocationKeyInfo

T = [0, 1399990000, 1400000000, 1400086400, 1400086401, 1431622801,
     1900000007, 1400000000 + 2 ** 31 + 5, 1400000000 + 2 ** 32]
TWO = T[2]
FLAGS = [('may_certify_others', 1), ('may_sign_data', 2),
         ('may_encrypt_comms', 4), ('may_encrypt_storage', 8),
         ('may_have_been_split', 16), ('may_be_used_for_auth', 32),
         ('may_have_multiple_owners', 128)]
BOOLS = {'exportable': 4, 'revocable': 7, 'primary_user_id': 25,
         'key_server_should_not_modify': 23,
         'supports_modification_detection': 30}
NUM = [None, 0, 1, 255]
PREFS = {'preferred_symmetric_algorithms': (11, [None, [], [9, 8, 7], [2]]),
         'preferred_hash_algorithms': (21, [None, [10, 8], [], [1]]),
         'preferred_compression_algorithms': (22, [None, [2], [0, 1], []])}
LONG = 'http://example.org/' + 'x' * 300
TEXTS = {'preferred_key_server': (24, [None, '', 'hkp://k/', 'h\u00fc', LONG]),
         'policy_uri': (26, [None, '', 'http://p/\u20ac', LONG, 'b' * 186]),
         'issuer_user_id': (28, [None, '', 'A <a@b>', '\U0001f511' * 60,
                                 'c' * 191]),
         'revocation_reason': (29, [None, '', 'lost \u00fc', 'r' * 190,
                                    'r' * 9000])}
IDS = [None, '0123456789ABCDEF', 'FEDCBA9876543210', '0000000000000000']
RES = [None, '<[^>]+[@.]example\\.org>$', 'a.b', '\u00fc+']
NOTES = [None, ('example.org', 'n', 'v', True),
         (None, 'n', 'v \u00fc' * 70, True),
         ('x', 'm', b'\x00\xff', False)] + [None] * 3 + [
         ('x', 'must-understand', b'\x00\xff', False),
         (None, 'must-understand', 'v', True),
         ('example.org', 'must-understand', 'v', True)]
# the last three are critical, and so nothing can be said about them
CRITICAL = 7
REVS = [None, (1, '0123456789ABCDEF0123456789ABCDEF01234567', False),
        (1, '0123456789ABCDEF0123456789ABCDEF01234567', True),
        (17, '0' * 39 + '1', False)]
LISTS = ('issuer_key_ids', 'regular_expressions', 'notations',
         'embedded_signatures', 'revocation_keys')
TIMES = ('creation_time', 'signature_expiration_time', 'key_expiration_time')
PAIRS = {'trust_depth': ('trust_amount', 5), 'trust_amount': 0}
SCALARS = [f for f, _ in FLAGS] + list(BOOLS) + list(PREFS) + list(TEXTS) + \
    ['trust_amount', 'trust_depth', 'revocation_code']
ATTRS = SCALARS + list(LISTS) + list(TIMES)


def embedded():
    k = P.Key('rsaB')
    return [None] + [P.signature(k, b'%d' % i, 0x19, body_only=True,
                                 created=1400000000 + i, version=v)
                     for i, v in ((1, 4), (2, 4), (3, 3))]


EMB = embedded()
_emb = []


def obj(a, v):
    """The value of an attribute with that number."""
    if a in LISTS:
        return [elem(a, j) for j in v]
    j = v[0]
    if a in TIMES:
        return datetime.datetime.fromtimestamp(T[j]) if j else None
    if a in PREFS:
        return list(PREFS[a][1][j])
    if a in TEXTS:
        return TEXTS[a][1][j]
    if a in ('trust_amount', 'trust_depth', 'revocation_code'):
        return NUM[j]
    return j == 1


def elem(a, j):
    if a == 'issuer_key_ids':
        return IDS[j]
    if a == 'regular_expressions':
        return re.compile(RES[j])
    if a == 'notations':
        return Notation(*NOTES[j])
    if a == 'revocation_keys':
        return RevocationKeyInfo(*REVS[j])
    p = list(parse_binary_packet_data(P.pkt(2, EMB[j])))[0]
    return BaseSignature.from_packet(p, None)


def index(table, x):
    for j, y in enumerate(table):
        if j and y == x and type(y) == type(x):
            return j
    return 99


def number(a, x):
    """The number of the value that an attribute reads as."""
    if a in LISTS:
        if a == 'issuer_key_ids':
            return [index(IDS, y) for y in x]
        if a == 'regular_expressions':
            return [index(RES, y.pattern) for y in x]
        if a == 'notations':
            return [index(NOTES[:CRITICAL], (y.namespace, y.name,
                                  y.value if y.is_human_readable()
                                  else bytes(y.value),
                                  y.is_human_readable())) for y in x]
        if a == 'revocation_keys':
            return [index(REVS, (y.public_key_algorithm, y.fingerprint,
                                 y.sensitive)) for y in x]
        return [index(EMB, P.parse(bytes(y.to_packet()))[0][1]) for y in x]
    if x is None:
        return [0]
    if a in TIMES:
        return [index([None] + [datetime.datetime.fromtimestamp(t)
                                for t in T[1:]], x)]
    if a in PREFS:
        return [index(PREFS[a][1], list(x))]
    if a in TEXTS:
        return [index(TEXTS[a][1], x)]
    if a in ('trust_amount', 'trust_depth', 'revocation_code'):
        return [index(NUM, x)]
    return [1 if x in (True, 1) else 2 if x in (False, 0) else 99]


def one(sig, a, sealed):
    try:
        v = getattr(sig, a)
    except Exception as e:
        if a == 'notations' and \
                type(e).__name__ == 'CannotParseCriticalNotation':
            return [sealed] if sealed else [98]
        raise
    return number(a, v)


def read(sig, sealed):
    return {a: one(sig, a, sealed) for a in ATTRS}


# The same by another hand

def area(start, n):
    """The subpackets that say all that."""
    out = []
    g = {a: start[a][0] for a in ATTRS if a not in LISTS}
    if g['creation_time']:
        out.append((2, P.u4(T[g['creation_time']])))
    if g['signature_expiration_time']:
        out.append((3, P.u4(T[g['signature_expiration_time']] -
                            T[g['creation_time']])))
    for j in start['issuer_key_ids']:
        out.append((16, bytes.fromhex(IDS[j])))
    for a, t in sorted(BOOLS.items()):
        b = g[a] == 1
        if g[a]:
            out.append((t, bytes([b]) if t in (4, 7, 25) else
                        bytes([b * 128 | 1]) if t == 23 else
                        bytes([b | 2, 0x55])))
    if g['trust_depth']:
        out.append((5, bytes([NUM[g['trust_depth']],
                              NUM[g['trust_amount']]])))
    for j in start['regular_expressions']:
        out.append((6, RES[j].encode('utf8') + b'\0'))
    if g['key_expiration_time']:
        out.append((9, P.u4(T[g['key_expiration_time']] - TWO)))
    out.append((101, b'private'))
    for a, (t, tab) in sorted(PREFS.items()):
        if g[a]:
            out.append((t, bytes(tab[g[a]])))
    for j in start['revocation_keys']:
        a, f, s = REVS[j]
        out.append((12, bytes([0xc0 if s else 0x80, a]) + bytes.fromhex(f)))
    for j in start['notations']:
        ns, na, v, h = NOTES[j]
        na = (na if ns is None else '%s@%s' % (na, ns)).encode('utf8')
        v = v.encode('utf8') if h else v
        out.append((20, bytes([128 * h, 0, 0, 0]) +
                    P.u4(len(na) << 16 | len(v)) + na + v))
    for a, (t, tab) in sorted(TEXTS.items()):
        if g[a]:
            c = bytes([NUM[g['revocation_code']]]) if t == 29 else b''
            out.append((t, c + tab[g[a]].encode('utf8')))
    if g['may_sign_data']:
        out.append((27, bytes([sum(v for f, v in FLAGS if g[f] == 1), 0x55])))
    for j in start['embedded_signatures']:
        out.append((32, EMB[j]))
    if n % 2:
        # another order: types reversed, each kind's order kept
        kinds = []
        for t, _ in out:
            if t not in kinds:
                kinds.insert(0, t)
        out = [s for k in kinds for s in out if s[0] == k]
    return out


JUNK = [(2, P.u4(5)), (3, P.u4(9)), (4, b'\0'), (5, b'\x02\x77'),
        (6, b'.*\0'), (7, b'\1'), (9, P.u4(77)), (11, b'\1'), (12, b'\x80\1' +
        b'\x11' * 20), (20, b'\x80\0\0\0\0\1\0\1nv'), (21, b'\1'),
        (22, b'\3'), (23, b'\x80'), (24, b'hkp://evil/'), (25, b'\1'),
        (26, b'http://evil/'), (27, b'\xff'), (28, b'E'), (29, b'\1bad'),
        (30, b'\1'), (102, b'kept')]
PRIVATE = {101: b'private', 102: b'kept'}


def heard(body):
    """What the written packet says, by another reader."""
    f = S.fields(body)
    out = {a: [] if a in LISTS else [0] for a in ATTRS}
    if f['version'] < 4:
        c = P.b2n(f['created'])
        out['creation_time'] = [index(T, c)]
        out['issuer_key_ids'] = [index(IDS, f['id'].hex().upper())]
        return out, [], []
    hs, us = S.subpackets(f['hashed']), S.subpackets(f['unhashed'])
    created = [P.b2n(b) for t, b in hs if t == 2]

    def put(a, v):
        # the same thing said twice
        out[a] = [v] if out[a] in ([0], [v]) else [98]
    for t, b in hs + [x for x in us if x[0] in (16, 32)]:
        b = bytes(b)
        if t == 2:
            put('creation_time', index(T, P.b2n(b)))
        elif t == 3 and P.b2n(b):
            put('signature_expiration_time', index(T, created[0] + P.b2n(b)))
        elif t == 9 and P.b2n(b):
            put('key_expiration_time', index(T, TWO + P.b2n(b)))
        elif t == 16:
            out['issuer_key_ids'].append(index(IDS, b.hex().upper()))
        elif t in (4, 7, 25):
            put({4: 'exportable', 7: 'revocable', 25: 'primary_user_id'}[t],
                {b'\1': 1, b'\0': 2}.get(b, 99))
        elif t == 5:
            put('trust_depth', index(NUM, b[0]))
            put('trust_amount', index(NUM, b[1]))
        elif t == 6:
            out['regular_expressions'].append(
                index(RES, b[:-1].decode('utf8') if b[-1:] == b'\0' else 0))
        elif t == 12:
            out['revocation_keys'].append(index(REVS, (
                b[1], b[2:].hex().upper(), bool(b[0] & 64)))
                if b[0] & 128 else 99)
        elif t == 20:
            n, m = P.b2n(b[4:6]), P.b2n(b[6:8])
            na = b[8:8 + n].decode('utf8').partition('@')
            v, h = b[8 + n:], b[0] == 128
            out['notations'].append(index(NOTES, (
                na[2] if na[1] else None, na[0], v.decode('utf8') if h else v, h))
                if len(v) == m else 99)
        elif t in (11, 21, 22):
            for a, (u, tab) in PREFS.items():
                if u == t:
                    put(a, index(tab, list(b)))
        elif t in (24, 26, 28):
            for a, (u, tab) in TEXTS.items():
                if u == t:
                    put(a, index(tab, b.decode('utf8')))
        elif t == 29:
            put('revocation_code', index(NUM, b[0]))
            put('revocation_reason', index(TEXTS['revocation_reason'][1],
                                           b[1:].decode('utf8')))
        elif t == 23:
            put('key_server_should_not_modify',
                1 if b and b[0] & 128 else 2)
        elif t == 30:
            put('supports_modification_detection',
                1 if b and b[0] & 1 else 2)
        elif t == 27:
            for fl, m in FLAGS:
                put(fl, 1 if b and b[0] & m else 2)
        elif t == 32:
            out['embedded_signatures'].append(index(EMB, b))
    return out, hs, us


def rest_kept(before, after):
    """Statements and flags that mean nothing here are still there."""
    for i in (0, 1):
        for t, b in PRIVATE.items():
            if sum(x == (t, b) for x in before[i]) != \
                    sum((u, bytes(c)) == (t, b) for u, c in after[i]):
                return False
    for t, mask in ((23, 1), (30, 2)):
        if any(u == t for u, _ in before[0]):
            if not all(c[0] & mask for u, c in after[0] if u == t):
                return False
    for t in (27, 30):
        if any(u == t for u, _ in before[0]):
            if not all(bytes(c[1:]) == b'\x55'
                       for u, c in after[0] if u == t):
                return False
    return True


_about = {}


def target(about):
    if about not in _about:
        if about == 'message':
            m = M.TextMessage('x', 'f', datetime.datetime.fromtimestamp(T[1]))
            _about[about] = m, m
        else:
            k = P.Key('rsaA', created=TWO)
            s = P.Key('rsaE', created=TWO)
            data = P.pkt(6, k.body()) + P.pkt(13, b'A <a@b>') + \
                P.signature(k, P.uid_hashed(k, b'A <a@b>'), 0x13) + \
                P.pkt(14, s.body()) + \
                P.signature(k, k.hashed() + s.hashed(), 0x18)
            key = shortcuts.read_key(data)
            _about[about] = S.part(key, about), key
    return _about[about]


STYPE = {'key': 0x1f, 'uid': 0x13, 'subkey': 0x18, 'message': 0}


def parse(data, on):
    return BaseSignature.from_packet(
        list(parse_binary_packet_data(data))[0], on)


def signature(sc, on):
    """(signature, its hashed and unhashed statements)"""
    b, st = sc['base'], STYPE[sc['about']]
    if b in ('made', 'message', 'oldmade'):
        return BaseSignature(on, sc['version'], st, 1, 8, bytearray(b'\1\2'),
                             [12345], creation_time=T[3],
                             issuer_key_id=IDS[1]), ([], [])
    if b == 'old':
        return parse(P.pkt(2, b'\x03\x05' + bytes([st]) + P.u4(T[3]) +
                           bytes.fromhex(IDS[1]) + b'\1\x08\1\2' +
                           P.mpi(12345)), on), ([], [])
    if b == 'bare':
        return BaseSignature(on, 4, st, 1, 8, bytearray(b'\1\2'),
                             [12345]), ([], [])
    hs = area(sc['start'], sc['n'])
    if b == 'twice':
        # the same statement, made twice
        hs += [x for x in hs if x[0] not in (6, 12, 16, 20, 32)]
    us = JUNK if b == 'tampered' else [(102, b'kept')]
    # critical or not, it says the same; but for notations
    crit = 128 if sc['n'] // 6 % 2 else 0
    if b == 'critical':
        crit = 128
    ho = b''.join(P.sub(t | (crit if t != 20 or b == 'critical' else 0), c)
                  for t, c in hs)
    uo = b''.join(P.sub(t, c) for t, c in us)
    body = bytes([4, st, 1, 8]) + P.u4(len(ho))[2:] + ho + \
        P.u4(len(uo))[2:] + uo + b'\1\2' + P.mpi(12345)
    return parse(P.pkt(2, body, sc['n'] % 3 > 0), on), (hs, us)


def handler(sc):
    out = {k: sc[k] for k in ('version', 'about', 'start', 'ops', 'base')}
    out.update(res='ok', reads=[], did=[], peer={}, again={}, rest=True)
    on, keep = target(sc['about'])
    st, v = guarded(signature, sc, on)
    if st != 'ok':
        out['res'] = 'read %s' % (v or st)
        return out
    sig, stated = v

    sealed = max([0] + [j for j in sc['start']['notations']
                        if j >= CRITICAL])

    def look():
        st, v = guarded(read, sig, sealed)
        if st != 'ok':
            out['res'] = 'attributes %s' % (v or st)
        else:
            out['reads'].append(v)
        return st == 'ok'
    if not look():
        return out
    for o in sc['ops']:
        a, x = o['a'], obj(o['a'], o['v'])
        st, v = guarded(setattr, sig, a, x)
        out['did'].append('ok' if st == 'ok' else v or st)
        if isinstance(x, list) and sc['n'] % 4 == 1 and a in LISTS:
            # the caller's list is the caller's
            x.append(None)
        if not look():
            return out
    st, v = guarded(lambda: bytes(sig.to_packet()))
    if st != 'ok':
        out['res'] = 'write %s' % (v or st)
        return out
    (t, body), = P.parse(v)
    out['peer'], hs, us = heard(body)
    out['rest'] = sc['version'] < 4 or rest_kept(stated, (hs, us))
    st, w = guarded(lambda: read(parse(v, on), sealed))
    if st != 'ok':
        out['res'] = 'again %s' % (w or st)
    else:
        out['again'] = w
    return out


if __name__ == '__main__':
    hlib.run(handler)
