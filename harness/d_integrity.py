"""Attacks on integrity-protected data."""
import datetime
import hlib
from hlib import guarded
import pgpkit as P
from pgp import message as M
from pgp import shortcuts

PW = b'pass'
S2K = (0, 8)
PROT = dict(usage=0)
_key = []


def key():
    if not _key:
        k = shortcuts.read_key(P.tsk([(P.Key('rsaA'), PROT),
                                      (P.Key('rsaE'), PROT)]))
        k.unlock('')
        _key.append(k)
        _key.append(k.subkeys[0])
    return _key[1]


def message(sc, text, seed):
    """(what goes before, the protected data)"""
    c = sc['cipher']
    session = P.session_key(c)
    front = P.pkesk(P.Key('rsaE'), c, session) + P.skesk(c, S2K, PW, session)
    if sc['by'] == 'peer':
        return front, P.seipd(c, session, P.literal(text), seed=seed,
                              body_only=True)
    m = M.BinaryMessage(text, 'f', datetime.datetime.fromtimestamp(1400000002))
    w = m.public_key_encrypt(c, key(), session_key=session)
    w2 = m.symmetric_encrypt(c, PW, session_key=session)
    pk = [p.to_packet() for p in w.session_keys + w2.session_keys]
    return b''.join(map(bytes, pk)), \
        P.parse(b''.join(map(bytes, w.to_packets())))[-1][1]


def attack(a, b, bs, other):
    op, p, q = a['op'], a['a'], a['b']
    if op == 'none':
        return b
    if op == 'flip':
        x = bytearray(b)
        x[p - 1] ^= 1 << q
        return bytes(x)
    if op == 'two':
        x = bytearray(b)
        x[p - 1] ^= 1
        x[q - 1] ^= 2
        return bytes(x)
    if op == 'zero':
        x = bytearray(b)
        x[p - 1] = 0
        return bytes(x)
    if op == 'cut':
        return b[:p - 1]
    if op == 'cut front':
        return b[:1] + b[1 + p:]
    if op == 'remove':
        return b[:p - 1] + b[p:]
    if op == 'repeat':
        return b[:p] + b[p - 1:]
    if op == 'insert':
        return b[:p] + bytes([q]) + b[p:]
    if op == 'append':
        return b + bytes([q]) * p
    if op == 'append crlf':
        return b + b'\r\n' * p
    if op == 'append tail':
        return b + b[-p:]
    if op == 'twice':
        return b + b[1:]
    if op == 'reverse':
        return b[:p - 1] + b[p - 1:][::-1]
    if op == 'graft':
        return b[:p] + other[p:]
    if op == 'graft front':
        return other[:p] + b[p:]
    v, rest = b[:1], b[1:]
    n = len(rest) // bs
    bl = [rest[i * bs:i * bs + bs] for i in range(n)] + [rest[n * bs:]]
    if op == 'swap blocks':
        bl[p], bl[q] = bl[q], bl[p]
    elif op == 'repeat block':
        bl.insert(q, bl[p])
    elif op == 'remove blocks':
        del bl[p:p + q]
    return v + b''.join(bl)


def opened(data, how):
    m = shortcuts.read_message(data).get_message(how)
    while hasattr(m, 'get_message'):
        m = m.get_message()
    return m.data


def handler(sc):
    text = bytes((7 * i + sc['n']) & 255 for i in range(sc['text']))
    front, body = message(sc, text, 5)
    other = message(sc, text[::-1] + b'', 77)[1]
    bs = P.BLOCK[sc['cipher']]
    out, same = [], []
    how = [key(), PW]
    for j, a in enumerate(sc['attacks']):
        x = attack(a, body, bs, other)
        st, v = guarded(opened, front + P.pkt(18, x), how[j % 2])
        out.append('hang' if st == 'hang' else 'error' if st != 'ok' else
                   'text' if bytes(v) == text else 'other')
        same.append('same' if x == body else 'other' if x == other
                    else 'altered')
    return {'len': sc['len'], 'bodylen': len(body), 'attacks': sc['attacks'],
            'out': out, 'is': same, 'by': sc['by']}


hlib.run(handler)
