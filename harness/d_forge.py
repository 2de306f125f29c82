"""Altered presentations of genuine signatures."""
import random
import hlib
from hlib import guarded
import pgpkit as P
import sigkit as K


def encoded(key, em):
    return [pow(P.b2n(em), key.k['d'], key.k['n'])]


def values(key, kind, good, halg, data):
    """Signature values that nobody made for these octets."""
    v = list(good)
    if kind == 'genuine':
        return v
    if kind == 'zero':
        return [0] * len(v)
    if kind == 'one':
        return [1] * len(v)
    if kind == 'plus':
        return [v[0] + 1] + v[1:]
    if kind == 'minus':
        return v[:-1] + [v[-1] - 1]
    if kind == 'xor':
        return v[:-1] + [v[-1] ^ 256]
    if kind == 'double':
        return [2 * x for x in v]
    if kind == 'missing':
        return v[:-1]
    if kind == 'extra':
        return v + [5]
    mod = key.k['n'] if key.t == 'rsa' else key.k['p']
    if kind == 'huge':
        return [v[0] + mod] + v[1:]
    if key.t == 'dsa':
        q = key.k['q']
        r, s = v
        return {'swapped': [s, r], 'r zero': [0, s], 's zero': [r, 0],
                'r plus': [r + q, s], 's plus': [r, s + q],
                's minus': [r, q - s]}.get(kind, [r, s ^ 1])
    w = (mod.bit_length() + 7) // 8
    d = P.digest(halg, data)
    t = bytes.fromhex(P.PREFIX[halg]) + d
    if kind == 'garbage':
        head = b'\x00\x01' + b'\xff' * 8 + b'\x00' + t
        if key.k['e'] == 3:
            # what needs no secret: a cube with these leading octets
            top = P.b2n(head + b'\xff' * (w - len(head)))
            lo, hi = 0, 1 << (8 * w // 3 + 1)
            while lo < hi:
                m = (lo + hi + 1) // 2
                lo, hi = (m, hi) if m ** 3 <= top else (lo, m - 1)
            if P.n2b(lo ** 3, w).startswith(head):
                return [lo]
        return encoded(key, head + b'\x55' * (w - len(head)))
    if kind == 'other digest':
        o = 8 if halg != 8 else 2
        t = bytes.fromhex(P.PREFIX[o]) + P.digest(o, data)
    elif kind == 'no info':
        t = d
    elif kind == 'type 2':
        rnd = random.Random(1)
        return encoded(key, b'\x00\x02' + bytes(
            rnd.randrange(1, 256) for _ in range(w - len(t) - 3)) +
            b'\x00' + t)
    elif kind == 'short':
        return encoded(key, b'\x00\x01' + b'\xff' * 8 + b'\x00' + t)
    elif kind == 'inner zero':
        t = b'\xff\xff\x00' + t
    elif kind == 'long':
        t += b'\x00'
    else:
        return [v[0] ^ 1]
    return encoded(key, b'\x00\x01' + b'\xff' * (w - len(t) - 3) + b'\x00' + t)


_items = {}


def subject(it, body):
    i = repr(it)
    if i not in _items:
        if len(_items) > 200:
            _items.clear()
        ver = it['key'][0] if it['key'] else 4
        _items[i] = K.subject(it, ver, False, body)
    return _items[i]


def attempt(p, body, sigbody):
    item, keep = subject(p['item'], body)
    sig = K.parse_sig(P.pkt(2, sigbody), keep or K.signer('rsaB', 4, False),
                      K.sig_class(p['item']['kind']))
    return K.check(K.signer(p['by']['name'], p['by']['version'], False),
                   sig, item)


def sweep(s, covered_body, sigbody):
    """Which single altered bits of packet or subject are accepted."""
    acc, tried = [], 0
    item, keep = subject(s['item'], covered_body)
    by = K.signer(s['by']['name'], s['by']['version'], False)

    def one(body, it):
        sig = K.parse_sig(P.pkt(2, body), keep or K.signer('rsaB', 4, False),
                          K.sig_class(s['item']['kind']))
        return K.check(by, sig, it)

    def bits(octets, where, f):
        n = 0
        for j in range(len(octets)):
            for b in range(8):
                x = bytearray(octets)
                x[j] ^= 1 << b
                n += 1
                if guarded(f, bytes(x))[0] == 'ok':
                    acc.append([where, j + 1, b])
        return n

    tried += bits(sigbody, 'packet', lambda x: one(x, item))
    if s['item']['kind'] in ('doc', 'uid', 'uat') and s['type'] != 2:
        tried += bits(K.raw(s['item']['data']), 'subject', lambda x: attempt(
            dict(s, item=dict(s['item'], data=hlib.ints(x))), b'', sigbody))
    return acc, tried


def handler(sc):
    s = sc['s']
    key = P.Key(s['by']['name'], version=s['by']['version'])

    def trailer(p):
        return P.sig_trailer(p['version'], p['type'], p['palg'], p['halg'],
                             K.raw(p['hashed']), P.b2n(K.raw(p['created'])))

    good, h2 = key.raw_sign(s['halg'], K.raw(sc['covered']) + trailer(s))
    out = []
    for pr in sc['shown']:
        p = pr['p']
        data = K.raw(pr['shown']) + trailer(p)
        try:
            adj = P.digest(p['halg'], data)[:2]
        except KeyError:
            adj = b'\x00\x00'
        if p['value'] == 'genuine':
            v = good
        elif p['halg'] in P.PREFIX or p['value'] in (
                'zero', 'one', 'plus', 'minus', 'xor', 'double', 'missing',
                'extra', 'huge') or key.t == 'dsa':
            v = values(key, p['value'], good, p['halg'], data)
        else:
            v = good[:0]
        tail = b''.join(P.mpi(x) for x in v)
        if p['version'] < 4:
            head = bytes([p['version'], 5, p['type']]) + K.raw(
                p['created']) + K.raw(p['id']) + bytes([p['palg'], p['halg']])
        else:
            h, u = K.raw(p['hashed']), K.raw(p['unhashed'])
            head = bytes([p['version'], p['type'], p['palg'], p['halg']]) + \
                P.n2b(len(h), 2) + h + P.n2b(len(u), 2) + u
        res = []
        for two in (adj, h2):
            st, r = guarded(attempt, p, K.raw(pr['body']), head + two + tail)
            res.append('ok' if st == 'ok' else r or st)
        out.append({'p': p, 'adjusted': res[0], 'kept': res[1]})
        if p == s:
            acc, tried = sweep(s, K.raw(pr['body']), head + h2 + tail)
            at, starts = 0, []
            while at < len(tail):
                starts.append(len(head) + 2 + at)
                at += 2 + (P.b2n(tail[at:at + 2]) + 7) // 8
    return {'s': s, 'shown': out, 'accepted': acc, 'tried': tried,
            'mpis': starts}


hlib.run(handler)
