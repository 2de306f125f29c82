"""Messages of nested layers: packets read, compositions made and read."""
import datetime
import hashlib
import time
import zlib
import hlib
from hlib import guarded, ints
import pgpkit as P
import sigkit as K
import ways
from pgp import message as M
from pgp import shortcuts
from pgp.packets import parse_binary_packet_data

SIGNERS = {1: 'rsaA', 2: 'dsaA', 3: 'rsaB'}
DIGEST = {1: 8, 2: 2, 3: 10}
READER = P.Key('rsaE')
ELG = P.Key('elgA')
PROT = dict(usage=0)
PW = 'pass \u00e9'
S2K = (3, 8, b'saltsalt', 0)
BY_ID = {P.Key(n).keyid(): i for i, n in SIGNERS.items()}

_holder = []


def reader():
    if not _holder:
        k = shortcuts.read_key(P.tsk([(P.Key('rsaA'), PROT), (READER, PROT),
                                      (ELG, PROT)]))
        k.unlock('')
        p = shortcuts.read_key(P.tsk([(P.Key('rsaA'), PROT), (READER, PROT),
                                      (ELG, PROT)], secret=False))
        _holder.extend([k, p])
    return _holder


def raw(x):
    return bytes(bytearray(x))


def lit_body(lit):
    return bytes([lit['fmt'], len(lit['name'])]) + raw(lit['name']) + \
        raw(lit['time']) + raw(lit['data'])


def sig_type(fmt, signer):
    return 1 if fmt in (116, 117) and signer != 3 else 0


# issuers a signature names: its own, none, another's before, its own twice
NAMES = (None, lambda i: b'', lambda i: P.sub(16, P.Key('rsaC').keyid()) +
         P.sub(16, i), lambda i: P.sub(16, i) + P.sub(16, i))


def octets(toks, lit, new=True, cipher=9, names=0):
    """The packets, made without the library."""
    out = b''
    n = 0
    key = P.session_key(cipher)
    last_sk = None
    for j, p in enumerate(toks):
        t = p['t']
        n += 1
        if t == 'lit':
            out += P.pkt(11, lit_body(lit), new)
        elif t == 'comp':
            inner = octets(p['in'], lit, new, cipher, names)
            if n % 2:
                out += P.pkt(8, b'\x02' + zlib.compress(inner), new)
            else:
                out += P.pkt(8, b'\x00' + inner, new)
        elif t in ('sig', 'ops'):
            # tens: what a one-pass signature says differently
            who, odd = p['id'] % 10, p['id'] // 10
            k = P.Key(SIGNERS[who])
            st, h = sig_type(lit['fmt'], who), DIGEST[who]
            d = raw(lit['data'])
            if st:
                d = d.replace(b'\r\n', b'\n').replace(b'\r', b'\n').replace(
                    b'\n', b'\r\n')
            if t == 'sig':
                named = NAMES[(names + n * (names > 0)) % 4]
                out += P.signature(
                    k, d, st, h, version=4 if who < 3 else 3, new=new,
                    hashed=named and P.sub(2, P.u4(1400000001)) +
                    named(k.keyid()))
            else:
                i = bytearray(k.keyid())
                i[7 if odd == 4 else 0] ^= odd > 3
                out += P.pkt(4, bytes([3, st ^ (odd == 1), h ^ (odd == 2),
                                       k.alg ^ 16 * (odd == 3)]) + bytes(i) +
                             bytes([p['last']]), new)
        elif t == 'pk':
            k = READER if n % 2 else ELG
            out += P.pkesk(k, cipher, key, seed=n, new=new)
        elif t == 'sk':
            out += P.skesk(cipher, S2K, PW.encode('utf8'), key, new=new)
        elif t in ('seip', 'sed'):
            c, s = cipher, key
            if not any(q['t'] in ('pk', 'sk') for q in toks[:j]):
                c, s = 1, hashlib.md5(PW.encode('utf8')).digest()
            f = P.seipd if t == 'seip' else P.sed
            out += f(c, s, octets(p['in'], lit, new, cipher, names))
        elif t == 'mark':
            out += P.pkt(10, b'PGP', new)
        else:
            out += {'uid': P.pkt(13, b'A', new),
                    'pub': P.pkt(6, READER.body(), new),
                    'mdc': P.pkt(19, bytes(20)),
                    'trust': P.pkt(12, b'\x05', new)}[t]
    return out


def opener(m):
    """What fits one of the message's session keys."""
    kinds = [type(k).__name__ for k in m.session_keys]
    if 'SymmetricSessionKey' in kinds or 'DefaultSessionKey' in kinds:
        return PW
    want = {k.key_id for k in m.session_keys}
    return [k for k in reader()[0].subkeys if k.key_id in want][-1]


def walk(m, read_only):
    layers, sigs = [], []
    while not isinstance(m, M.LiteralMessage):
        if isinstance(m, M.EncryptedMessageWrapper):
            ks = {'SymmetricSessionKey': 'sk', 'PublicKeySessionKey': 'pk'}
            keys = [ks[type(k).__name__] for k in m.session_keys
                    if type(k).__name__ in ks]
            layers.append({'k': 'enc', 'op': bool(
                m.message_data_obj.integrity_protected), 'ids': [],
                'keys': keys})
            m = m.get_message(opener(m))
        elif isinstance(m, M.SignedMessageWrapper):
            ids = []
            for s in m.signatures:
                ids.append({1: 3 if s.version < 4 else 1,
                            17: 2}[s.public_key_algorithm]
                           if read_only else
                           BY_ID[bytes.fromhex(s.issuer_key_ids[0])])
                sigs.append((ids[-1], s))
            layers.append({'k': 'sig', 'op': bool(m.one_pass), 'ids': ids,
                           'keys': []})
            m = m.get_message()
        elif isinstance(m, M.CompressedMessageWrapper):
            layers.append({'k': 'comp', 'op': False, 'ids': [], 'keys': []})
            m = m.get_message()
        else:
            raise ValueError('what is this')
    return layers, sigs, m


def fields(body):
    n = body[1]
    return {'fmt': body[0], 'name': ints(body[2:2 + n]),
            'time': ints(body[2 + n:6 + n]), 'data': ints(body[6 + n:])}


def read(data, way, read_only=False):
    m = ways.read(shortcuts.read_message, shortcuts.read_message_file, data,
                  'MESSAGE', way)
    layers, sigs, lit = walk(m, read_only)
    out = {'layers': layers, 'res': 'ok'}
    pk = P.parse(bytes(lit.to_packet()))[0]
    out['lit'] = fields(pk[1])
    d = lit.data
    if isinstance(d, str):
        d = d.encode('latin-1' if out['lit']['fmt'] == 116 else 'utf8')
    out['data'] = ints(d)
    out['name'] = ints(lit.filename.encode('utf8', 'surrogateescape'))
    out['time'] = ints(P.u4(int(lit.timestamp.timestamp())))
    out['verified'] = []
    for i, s in sigs:
        v = guarded(lambda: K.check(K.signer(SIGNERS[i], 4, False), s, lit))
        # a key verifies only what names it
        out['verified'].append('unnamed' if read_only and not
                               s.issuer_key_ids else 'ok' if v[0] == 'ok' else v[1] or v[0])
    a = [p for p in P.parse(data) if p[0] != 10]
    st, b = guarded(lambda: [bytes(p) for p in m.to_packets()])
    if st == 'ok':
        was = [bool(bytes(p)[0] & 0x40) for p in
               parse_binary_packet_data(data) if p.type != 10]
        forms = [bool(p[0] & 0x40) for p in b]
        out['again'] = 'other' if P.parse(b''.join(b)) != a else \
            'header form' if forms != was else 'ok'
    else:
        out['again'] = b or st
    out['asked'] = 'ok'
    for form in (1, 2):
        st, b = guarded(lambda: [bytes(p) for p in m.to_packets(form)])
        if st != 'ok':
            out['asked'] = b or st
        elif P.parse(b''.join(b)) != a:
            out['asked'] = 'other packets'
        elif any(bool(p[0] & 0x40) != (form == 1 or t > 15)
                 for p, (t, _) in zip(b, a)):
            out['asked'] = 'other header form'
    return out


NONE = {'layers': [], 'lit': {}, 'data': [], 'name': [], 'time': [],
        'verified': [], 'again': '', 'asked': ''}


def reading(data, way, read_only=False):
    st, v = guarded(read, data, way, read_only)
    return v if st == 'ok' else dict(NONE, res=v or st)


def compose(layers, lit, n):
    d = raw(lit['data'])
    when = datetime.datetime.fromtimestamp(P.b2n(raw(lit['time'])))
    name = raw(lit['name']).decode('utf8', 'surrogateescape')
    if lit['fmt'] == 117:
        m = M.TextMessage(d.decode('utf8'), name, when)
    elif lit['fmt'] == 98:
        m = M.BinaryMessage(d, name, when)
    else:
        m = M.open_pgp_message_from_packets(
            parse_binary_packet_data(P.pkt(11, lit_body(lit))))
    inner = m
    plain = True
    for lay in reversed(layers):
        n += 1
        if lay['k'] == 'comp':
            m = m.compress((2, 1, 3)[n % 3], (6, 9, 1)[n % 3])
        elif lay['k'] == 'sig':
            ver = 4 if n % 3 else 3
            how = [(sig_type(lit['fmt'], i), DIGEST[i]) for i in lay['ids']]
            ks = [K.signer(SIGNERS[i], 4, True) for i in lay['ids']]
            if plain and len(ks) == 1:
                m = m.sign(ks[0], ver, how[0][0], how[0][1], lay['op'])
            else:
                m = M.SignedMessageWrapper(
                    [k.sign(inner, 4 if i % 2 else ver, *how[i])
                     for i, k in enumerate(ks)], m, lay['op'])
        else:
            cipher = (9, 7, 3, 2)[n % 4]
            keys = lay['keys']
            pub = [k for k in reader()[1].subkeys]
            if keys == ['sk']:
                m = m.symmetric_encrypt(cipher, PW, integrity_protect=lay['op'])
            elif keys and set(keys) == {'pk'}:
                m = m.public_key_encrypt(
                    cipher, public_keys=[pub[(n + i) % 2]
                                         for i in range(len(keys))],
                    integrity_protect=lay['op'])
            else:
                sk = P.session_key(cipher)
                parts = []
                for k in keys:
                    if k == 'pk':
                        w = m.public_key_encrypt(cipher, pub[0],
                                                 session_key=sk)
                    else:
                        w = m.symmetric_encrypt(cipher, PW, session_key=sk)
                    parts += w.session_keys
                if not keys:
                    cipher = 1
                    sk = hashlib.md5(PW.encode('utf8')).digest()
                    parts = [M.DefaultSessionKey()]
                w = M.SymmetricallyEncryptedMessageData(
                    cipher, sk, b''.join(map(bytes, m.to_packets())),
                    integrity_protected=lay['op'], version=1)
                m = M.EncryptedMessageWrapper(parts, w)
            plain = False
    return b''.join(map(bytes, m.to_packets()))


def unpack(data, flags):
    """The packets as the specification has them, read by a peer."""
    out = []
    session = None
    for t, b in P.parse(data):
        p = {'t': '?', 'id': 0, 'last': 0, 'in': []}
        if t == 11:
            p['t'] = 'lit'
        elif t == 8:
            p['t'] = 'comp'
            d = b[1:]
            d = zlib.decompress(d, -15) if b[0] == 1 else zlib.decompress(d) \
                if b[0] == 2 else __import__('bz2').decompress(d)
            p['in'] = unpack(d, flags)
        elif t == 4:
            p.update(t='ops', id=BY_ID.get(b[4:12], 99), last=b[12])
            flags.append(b[0] == 3 and len(b) == 13)
            flags.append(('ops', b[1:4], b[4:12]))
        elif t == 2:
            f = K.fields(b)
            i = f['id'] if f['version'] < 4 else dict(
                K.subpackets(f['hashed']))[16]
            p.update(t='sig', id=BY_ID.get(bytes(i), 99))
            flags.append(('sig', bytes([f['type'], f['halg'], f['palg']]),
                          bytes(i)))
        elif t == 1:
            p['t'] = 'pk'
            k = {READER.keyid(): READER, ELG.keyid(): ELG}[b[1:9]]
            x = P.pk_decrypt(k, P.mpis(b[10:]))
            session = x[0], x[1:-2]
        elif t == 3:
            p['t'] = 'sk'
            s2k = (b[2], b[3], b[4:12], b[12])
            key = P.s2k_key(s2k, b[1], PW.encode('utf8'))
            x = P.cfb(b[1], key, bytes(P.BLOCK[b[1]]), b[13:], True)
            session = x[0], x[1:]
        elif t in (9, 18):
            p['t'] = 'sed' if t == 9 else 'seip'
            c, k = session or (1, hashlib.md5(PW.encode('utf8')).digest())
            bs = P.BLOCK[c]
            if t == 18:
                d = P.cfb(c, k, bytes(bs), b[1:], True)
                flags.append(b[0] == 1 and d[-22:-20] == b'\xd3\x14' and
                             hashlib.sha1(d[:-20]).digest() == d[-20:])
                d = d[:-22]
            else:
                d = P.cfb(c, k, bytes(bs), b[:bs + 2], True) + \
                    P.cfb(c, k, b[2:bs + 2], b[bs + 2:], True)
            flags.append(d[bs - 2:bs] == d[bs:bs + 2])
            p['in'] = unpack(d[bs + 2:], flags)
        out.append(p)
    return out


def handler(sc):
    out = {k: sc[k] for k in ('kind', 'toks', 'layers', 'lit')}
    way = out['way'] = sc['n'] // 3 % ways.COUNT
    if sc['kind'] == 'read':
        names = sc['n'] // 30 % 3 if sc['named'] else 0
        out['read'] = reading(octets(sc['toks'], sc['lit'], sc['n'] % 3 > 0 or
                                     any(p['t'] in ('seip', 'mdc')
                                         for p in sc['toks']), names=names),
                              way, True)
        return out
    st, data = guarded(compose, sc['layers'], sc['lit'], sc['n'])
    out.update(made='ok' if st == 'ok' else data or st, flags=False,
               read=dict(NONE, res=''))
    if st == 'ok':
        flags = []
        out['toks'] = unpack(data, flags)
        ops = sorted(f[1:] for f in flags if f is not True and f is not False
                     and f[0] == 'ops')
        sigs = [f[1:] for f in flags if f is not True and f is not False
                and f[0] == 'sig']
        out['flags'] = all(f for f in flags) and all(o in sigs for o in ops)
        want = set()
        for lay in sc['layers']:
            for i in lay['ids']:
                k = P.Key(SIGNERS[i])
                want.add((bytes([sig_type(sc['lit']['fmt'], i), DIGEST[i],
                                 k.alg]), k.keyid()))
        out['flags'] = out['flags'] and set(sigs) == want
        out['read'] = reading(data, way)
    return out


hlib.run(handler)
