"""The random values in messages and signatures, found with the secrets."""
import copy
import datetime
import hashlib
import json
import os
import random
import threading
import time
from Crypto import Random
import hlib
from hlib import guarded, ints
import pgpkit as P
import sigkit as S
from pgp import message as M
from pgp import shortcuts

SUBS = ('rsaE', 'rsaF', 'elgA', 'elgB')
KEYS = {n: P.Key(n) for n in SUBS + ('rsaA',)}
PUB = shortcuts.read_key(P.tsk([(KEYS[n], {}) for n in ('rsaA',) + SUBS],
                               secret=False))
TO = dict(zip(SUBS, PUB.subkeys))
TEXT = {1: b'the quick brown fox jumps over the lazy dog' * 2,
        2: b'pack my box with five dozen liquor jugs' * 2}
_msgs = {}


def make(o):
    return M.BinaryMessage(TEXT[o], 'f',
                           datetime.datetime.fromtimestamp(1400000002))


def do(op, w=None):
    """(octets of the packets)."""
    m = make(op['obj']) if op['where'] == 'fresh' else _msgs[op['obj']]
    if op['where'] == 'copy':
        m = copy.deepcopy(m)
    if op['op'] == 'sign':
        key = S.signer(op['to'][0], 4, True)
        s = m.sign(key, 4, 0, op['alg'], one_pass=False)
    elif op['op'] == 'sym':
        kw = {'s2k_type': op['alg']} if op['alg'] else {}
        if op['given']:
            kw.update(s2k_salt=bytes(range(1, 9)),
                      session_key=P.session_key(op['cipher'], 77))
        s = m.symmetric_encrypt(op['cipher'], 'pass',
                                integrity_protect=op['ip'], **kw)
    else:
        kw = {}
        if op['given']:
            kw['session_key'] = P.session_key(op['cipher'], 77)
        s = m.public_key_encrypt(
            op['cipher'], public_keys=[TO[k] for k in op['to']],
            hidden_public_keys=[TO[k] for k in op['hid']],
            integrity_protect=op['ip'], **kw)
    return b''.join(map(bytes, s.to_packets()))


def perform(op):
    """The messages one step of a history makes."""
    w = op['where']
    if op['op'] == 'sign':
        S.signer(op['to'][0], 4, True)
    if w == 'seeded':
        # Whatever else the program does with time and chance
        random.seed(7)
        was, t = time.time, time.time()
        time.time = lambda: t0
        try:
            return [do(op)]
        finally:
            time.time = was
    if w == 'child':
        r, wr = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                Random.atfork()
                try:
                    out = b'+' + do(op)
                except BaseException as e:
                    out = b'-' + type(e).__name__.encode()
                while out:
                    out = out[os.write(wr, out):]
            finally:
                os._exit(0)
        os.close(wr)
        data = b''
        try:
            while 1:
                x = os.read(r, 65536)
                if not x:
                    break
                data += x
        finally:
            os.close(r)
            os.waitpid(pid, 0)
        if data[:1] != b'+':
            raise RuntimeError(data.decode())
        return [data[1:], do(op)]
    if w == 'threads':
        out, go = [], threading.Barrier(4)

        def one():
            try:
                go.wait()
                out.append(do(op))
            except Exception as e:
                out.append(e)
        ts = [threading.Thread(target=one) for _ in range(4)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for x in out:
            if isinstance(x, Exception):
                raise x
        return out
    return [do(op)]


t0 = time.time()


def draw(kind, val, cipher=0, mod=0, of=''):
    return dict(kind=kind, val=ints(val), cipher=cipher, mod=mod, of=of)


def nonce(op, data):
    body = [b for t, b in P.parse(data) if t == 2][0]
    key = P.Key(op['to'][0])
    f = S.fields(body)
    d = P.digest(f['halg'], TEXT[op['obj']] + P.sig_trailer(
        4, f['type'], f['palg'], f['halg'], f['hashed']))
    p, q, g, x = (key.k[n] for n in 'pqgx')
    r, s = P.mpis(f['values'])
    k = P.inv(s, q) * (P.dsa_h(d, q) + x * r) % q
    if pow(g, k, p) % q != r:
        raise ValueError('nothing a nonce can be found in')
    w = (q.bit_length() + 7) // 8
    return [draw('nonce', P.n2b(k, w), mod=w,
                 of=op['to'][0] + hashlib.sha1(d).hexdigest())]


def small(key, a):
    """Whether the exponent can be guessed."""
    v, g, p = 1, key.k['g'], key.k['p']
    for _ in range(300):
        if v == a:
            return True
        v = v * g % p
    return False


def inside(op, data):
    """(draws, what is plain to see)."""
    pk = P.parse(data)
    out, seen, session = [], [], None
    names = op['to'] + op['hid']
    for j, (t, b) in enumerate(pk[:-1]):
        if t == 1:
            key = KEYS[names[j]]
            v = P.mpis(b[10:])
            block = P.pk_decrypt(key, v)
            m = (key.k['n' if key.t == 'rsa' else 'p'].bit_length() + 7) // 8
            if key.t == 'rsa':
                em = P.n2b(pow(v[0], key.k['d'], key.k['n']), m)
            else:
                p = key.k['p']
                em = P.n2b(v[1] * P.inv(pow(v[0], key.k['x'], p), p) % p, m)
                out.append(draw('power', P.n2b(v[0], m), mod=m))
                if small(key, v[0]):
                    seen.append('an ElGamal session key')
            if key.t == 'rsa' and v[0] == P.b2n(em):
                seen.append('an RSA session key')
            out.append(draw('padding', em[2:em.index(b'\0', 2)], block[0], m))
            session = block[0], block[1:-2]
        else:
            n = {1: 10, 3: 11}[b[2]]
            spec = (b[2], b[3], b[4:12]) + ((b[12],) if b[2] == 3 else ())
            if not op['given']:
                out.append(draw('salt', b[4:12]))
            key = P.s2k_key(spec, b[1], b'pass')
            x = P.cfb(b[1], key, bytes(P.BLOCK[b[1]]), b[2 + n:], True)
            session = x[0], x[1:]
    c, k = session
    if not op['given']:
        out.append(draw('session', k, c))
    t, b = pk[-1]
    bs = P.BLOCK[c]
    pre = P.cfb(c, k, bytes(bs), (b[1:] if t == 18 else b)[:bs], True)
    out.append(draw('prefix', pre, c))
    if k in data:
        seen.append('the session key')
    if TEXT[op['obj']][:20] in data:
        seen.append('the text')
    return out, seen


def handler(sc):
    _msgs.clear()
    _msgs.update({1: make(1), 2: make(2)})
    out = {'made': 'ok', 'draws': [], 'open': [], 'whole': False}
    for op in sc['ops']:
        st, datas = guarded(perform, op)
        if st != 'ok':
            out['made'] = datas or st
            break
        for data in datas:
            try:
                if op['op'] == 'sign':
                    out['draws'] += nonce(op, data)
                else:
                    d, s = inside(op, data)
                    out['draws'] += d
                    out['open'] += s
            except Exception as e:
                out['made'] = 'unreadable %s' % type(e).__name__
    return out


hlib.run(handler)
