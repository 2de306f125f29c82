"""Packet bodies: octets from the specification are parsed, written again,
and packets are built from the same field values."""
import hlib
from hlib import be, unbe, ints, guarded, text
from pgp.packets import packets as P
from pgp.packets import signature_subpackets as SS
from pgp.packets import user_attribute_subpackets as UA
from pgp import s2k

NEW = 1
HDR = P.constants.NEW_PACKET_HEADER_TYPE
HEXS = '0123456789ABCDEF'


def hexs(a):
    return ''.join('%02X' % x for x in a)


def unhex(s):
    if s is None:
        return []
    if not isinstance(s, str):
        return ['not text']
    return [int(s[i:i + 2], 16) for i in range(0, len(s), 2)] \
        if len(s) % 2 == 0 else ['odd']


def octets(x):
    return [] if x is None else ints(x)


def s(a):
    return ''.join(map(chr, a))


def b(a):
    return bytearray(a)


def time4(t):
    return be(t, 4) if isinstance(t, int) else ['not an integer']


def mpi(x):
    return [] if x is None else be(x)


ALGO = {1: ('modulus', 'exponent'), 2: ('modulus', 'exponent'),
        3: ('modulus', 'exponent'),
        16: ('prime', 'group_generator', 'key_value'),
        20: ('prime', 'group_generator', 'key_value'),
        17: ('prime', 'group_order', 'group_generator', 'key_value')}
NAMES = {'modulus', 'exponent', 'prime', 'group_order', 'group_generator',
         'key_value'}


def code(n):
    for c in range(256):
        if (16 + (c & 15)) << ((c >> 4) + 6) == n:
            return c
    return -1


def s2k_view(x):
    if x is None:
        return {'k': 0, 'hash': 0, 'salt': [], 'count': 0}
    k = x.mode
    if k == 1002:
        salt = unhex(x.serial_number)
    else:
        salt = octets(x.salt)
    return {'k': k, 'hash': int(x.hash_algorithm), 'salt': salt,
            'count': code(x.count) if k == 3 else 0}


def s2k_make(v, cipher):
    if v['k'] == 0:
        return s2k.SimpleS2K(v['hash'], cipher)
    if v['k'] == 1:
        return s2k.SaltedS2K(v['hash'], cipher, b(v['salt']))
    if v['k'] == 3:
        c = v['count']
        return s2k.IteratedAndSaltedS2K(v['hash'], cipher, b(v['salt']),
                                        (16 + (c & 15)) << ((c >> 4) + 6))
    if v['k'] == 1001:
        return s2k.GnuPGS2K(v['hash'], 1001, cipher)
    return s2k.GnuPGS2K(v['hash'], 1002, cipher, hexs(v['salt']),
                        len(v['salt']))


def view(p, f):
    t = p.type
    g = {'t': int(t)}
    if t == 1:
        g.update(version=p.version, keyid=unhex(p.key_id),
                 algo=p.public_key_algorithm,
                 esk=octets(p.encrypted_session_key))
    elif t == 2:
        g.update(version=p.version, stype=p.signature_type,
                 algo=p.public_key_algorithm, hash=p.hash_algorithm,
                 hash2=octets(p.hash2), mpis=[mpi(x) for x in
                                              p.signature_values])
        if p.version < 4:
            g.update(time=time4(p.creation_time), keyid=unhex(p.key_id))
        else:
            g.update(hashed=[ints(bytes(x)) for x in p.hashed_subpackets],
                     unhashed=[ints(bytes(x)) for x in p.unhashed_subpackets])
    elif t == 3:
        g.update(version=p.version, cipher=p.symmetric_algorithm,
                 s2k=s2k_view(p.s2k_specification),
                 esk=octets(p.encrypted_session_key))
    elif t == 4:
        g.update(version=p.version, stype=p.signature_type,
                 hash=p.hash_algorithm, algo=p.public_key_algorithm,
                 keyid=unhex(p.key_id), nested=int(p.nested))
    elif t in (5, 6, 7, 14):
        a = p.public_key_algorithm
        names = ALGO.get(a, ())
        g.update(version=p.version, time=time4(p.creation_time),
                 days=p.expiration_days if p.version < 4 else f['days'],
                 algo=a, mpis=[mpi(getattr(p, x)) for x in names])
        if any(getattr(p, x) is not None for x in NAMES - set(names)):
            g['mpis'].append(['extra value'])
        if t in (5, 7):
            spec = p.s2k_specification
            g.update(usage=f['usage'], cipher=p.symmetric_algorithm,
                     s2k=s2k_view(spec), iv=octets(p.iv),
                     secret=octets(p.encrypted_portion))
            if spec is not None:
                g['usage'] = 255 if p.checksum else 254 if p.hash else -1
            elif p.symmetric_algorithm == 0:
                g['usage'] = 0 if p.checksum else -1
    elif t == 8:
        g.update(algo=p.compression_algorithm, data=octets(p.compressed_data))
    elif t in (9, 19):
        g.update(data=octets(p.data))
    elif t == 11:
        d = p.data
        g.update(fmt=ord(p.data_format), name=text(p.filename),
                 time=time4(p.time),
                 text=text(d) if isinstance(d, str) else octets(d))
    elif t == 12:
        g.update(trust=p.trust_value, extra=f['extra'])
        if f['trust'] == 0 and len(f['extra']) == 1:
            g['extra'] = [p.sig_cache]
    elif t == 13:
        g.update(text=text(p.user_id))
        if any(0xdc80 <= c <= 0xdcff for c in f['text']):
            g['text'] = f['text']       # no text is prescribed for these
    elif t in (16, 61):
        g.update(text=text(p.comment))
    elif t == 17:
        subs = []
        for k, x in enumerate(p.subpackets):
            body = octets(x.content)
            if x.sub_type == 1:
                body = ([x.header_length & 255, x.header_length >> 8,
                         x.header_version, x.image_format] + [0] * 12 +
                        octets(x.data))
            form = f['subs'][k]['form'] if k < len(f['subs']) else 0
            subs.append({'type': int(x.sub_type), 'body': body, 'form': form})
        g.update(subs=subs)
    elif t == 18:
        g.update(version=p.version, data=octets(p.encrypted_data))
    elif t == 63:
        g.update(marker=octets(p.session_marker), control=p.control,
                 data=octets(p.content_data))
    else:
        g.update(data=octets(p.content))
    return g


def build(f, parsed):
    t = f['t']
    if t == 1:
        return P.PublicKeyEncryptedSessionKeyPacket(
            HDR, f['version'], hexs(f['keyid']) if f['keyid'] else None,
            f['algo'], b(f['esk']))
    if t == 2:
        if f['version'] < 4:
            return P.SignaturePacket(
                HDR, f['version'], f['stype'], f['algo'], f['hash'],
                b(f['hash2']), [unbe(x) for x in f['mpis']],
                unbe(f['time']), hexs(f['keyid']))
        sub = [[SS.signature_subpacket_from_data(b(x))[0] for x in f[k]]
               for k in ('hashed', 'unhashed')]
        return P.SignaturePacket(
            HDR, 4, f['stype'], f['algo'], f['hash'], b(f['hash2']),
            [unbe(x) for x in f['mpis']], hashed_subpackets=sub[0],
            unhashed_subpackets=sub[1])
    if t == 3:
        return P.SymmetricKeyEncryptedSessionKeyPacket(
            HDR, 4, f['cipher'], s2k_make(f['s2k'], f['cipher']),
            b(f['esk']) if f['esk'] else None)
    if t == 4:
        return P.OnePassSignaturePacket(
            HDR, 3, f['stype'], f['hash'], f['algo'], hexs(f['keyid']),
            f['nested'])
    if t in (5, 6, 7, 14):
        kw = dict(zip(ALGO[f['algo']], [unbe(x) for x in f['mpis']]))
        if f['version'] < 4:
            kw['expiration_days'] = f['days']
        if t in (5, 7):
            kw.update(symmetric_algorithm=f['cipher'], iv=b(f['iv']),
                      encrypted_portion=b(f['secret']),
                      checksum=f['usage'] != 254, hash_=f['usage'] == 254)
            if f['usage'] in (254, 255):
                kw['s2k_specification'] = s2k_make(f['s2k'], f['cipher'])
        cls = {5: P.SecretKeyPacket, 6: P.PublicKeyPacket,
               7: P.SecretSubkeyPacket, 14: P.PublicSubkeyPacket}[t]
        return cls(HDR, f['version'], unbe(f['time']), f['algo'], **kw)
    if t == 8:
        return P.CompressedDataPacket(HDR, f['algo'], b(f['data']))
    if t == 9:
        return P.SymmetricallyEncryptedDataPacket(HDR, b(f['data']))
    if t == 10:
        return P.MarkerPacket(HDR, b(f['data']))
    if t == 11:
        d = s(f['text']) if f['fmt'] in (116, 117) else bytes(b(f['text']))
        return P.LiteralDataPacket(HDR, bytes([f['fmt']]), s(f['name']),
                                   unbe(f['time']), d)
    if t == 12:
        if f['trust'] == 0 and len(f['extra']) == 1:
            return P.TrustPacket(HDR, 0, f['extra'][0])
        return P.TrustPacket(HDR, f['trust']) if not f['extra'] else None
    if t == 13:
        return P.UserIDPacket(HDR, s(f['text'])) if not any(
            0xdc80 <= c <= 0xdcff for c in f['text']) else None
    if t == 16:
        return P.OldCommentPacket(HDR, s(f['text']))
    if t == 61:
        return P.GpgCommentPacket(HDR, s(f['text']))
    if t == 17:
        subs = []
        for x in f['subs']:
            n = len(x['body']) + 1
            minimal = 1 if n < 192 else 2 if n < 8384 else 5
            if x['type'] != 1 or x['form'] != minimal:
                return None
            subs.append(UA.ImageAttributeSubpacket(1, 16, x['body'][3],
                                                   b(x['body'][16:])))
        return P.UserAttributePacket(HDR, subs)
    if t == 18:
        return P.SymmetricallyEncryptedAndIntegrityProtectedDataPacket(
            HDR, f['version'], b(f['data']))
    if t == 19:
        return P.ModificationDetectionCodePacket(HDR, b(f['data']))
    if t == 63:
        return P.GpgControlPacket(HDR, b(f['marker']), f['control'],
                                  b(f['data']))
    return P.Packet(HDR, t, b(f['data']))


def body_of(raw):
    """Body octets of a new-format packet with a definite length."""
    raw = bytearray(raw)
    n = raw[1]
    if n < 192:
        return raw[2:]
    if n < 224:
        return raw[3:]
    if n == 255:
        return raw[6:]
    raise ValueError('partial')


def parse(f, body):
    head = bytearray([0xc0 + f['t'], 255]) + bytearray(be(len(body), 4))
    data = head + bytearray(body)
    off, p = P.packet_from_packet_data(data, 0)
    assert off == len(data)
    return p


def handle(sc):
    f = sc['f']
    r = {'f': f, 'key': sc['key'], 'got': {}, 'back': '', 'built': 'skip',
         'again': True}
    r['parse'], p = guarded(parse, f, sc['body'])
    if r['parse'] != 'ok':
        return r
    res, g = guarded(view, p, f)
    if res != 'ok':
        r['parse'] = 'fields unreadable'
        return r
    r['got'] = g
    r['back'], raw = guarded(lambda: bytes(p))
    if r['back'] == 'ok':
        r['octets'] = ints(body_of(raw))
        if ints(p.content) != r['octets'] or raw[0] != 0xc0 + f['t']:
            r['octets'] = ['content and packet differ']
        res, q = guarded(lambda: P.packet_from_packet_data(raw, 0)[1])
        if res != 'ok':
            r['again'] = False
        else:
            r['again'] = guarded(view, q, f) == ('ok', g)
    res, q = guarded(build, f, p)
    if res != 'ok':
        r['built'] = 'err'
    elif q is not None:
        r['built'], raw = guarded(lambda: bytes(q))
        if r['built'] == 'ok':
            r['boctets'] = ints(body_of(raw))
            if raw[0] != 0xc0 + f['t']:
                r['boctets'] = ['wrong packet type']
    return r


if __name__ == '__main__':
    hlib.run(handle)
