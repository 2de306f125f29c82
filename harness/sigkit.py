"""Keys, identities and other subjects of signatures, in the real code."""
import pgpkit as P
from pgp import shortcuts
from pgp.packets import parse_binary_packet_data
from pgp.signature import BaseSignature
from pgp.transferrable_keys import KeySignature

PROT = dict(usage=0)
UID = b'A <a@b>'


def raw(x):
    return bytes(bytearray(x))


def key_octets(name, version=4, secret=False, uid=UID, uat=None, sub=None,
               extra=(), new=True):
    """A transferable key; extra are (place, signature packet) pairs."""
    k = P.Key(name, version=version)
    at = dict(extra)
    out = P.pkt(5 if secret else 6,
                k.secret_body(**PROT) if secret else k.body(), new)
    out += at.get('key', b'')
    out += P.pkt(13, uid, new)
    out += P.signature(k, P.uid_hashed(k, uid), 0x13, new=new)
    out += at.get('uid', b'')
    if uat is not None:
        out += P.pkt(17, uat, new)
        out += P.signature(k, P.uat_hashed(k, uat), 0x13, new=new)
        out += at.get('uat', b'')
    if sub is not None:
        s = P.Key(sub)
        out += P.pkt(7 if secret else 14,
                     s.secret_body(**PROT) if secret else s.body(), new)
        out += P.signature(k, k.hashed() + s.hashed(), 0x18, new=new)
        out += at.get('subkey', b'')
    return out


_cache = {}


def signer(name, version, secret):
    i = name, version, secret
    if i not in _cache:
        _cache[i] = shortcuts.read_key(key_octets(name, version, secret))
        if secret:
            _cache[i].unlock('')
    return _cache[i]


def owner_octets(it, version=4, secret=False, extra=()):
    return key_octets(
        it['owner'], version, secret,
        uid=raw(it['data']) if it['kind'] == 'uid' else UID,
        uat=raw(it['data']) if it['kind'] == 'uat' else None,
        sub=it['subname'] or None, extra=extra)


def part(key, kind):
    return {'key': lambda: key, 'uid': lambda: key.user_ids[0],
            'uat': lambda: key.user_attributes[0],
            'subkey': lambda: key.subkeys[0]}[kind]()


def parse_sig(pkt, target, cls=BaseSignature):
    return cls.from_packet(list(parse_binary_packet_data(pkt))[0], target)


def sig_class(kind):
    return KeySignature if kind in ('key', 'uid', 'uat', 'subkey') \
        else BaseSignature


def subject(it, version=4, secret=False, body=b''):
    """(the item, what must be kept alive for it)."""
    if it['kind'] == 'doc':
        return raw(it['data']), None
    if it['kind'] == 'sig':
        holder = signer('rsaB', 4, False)
        return parse_sig(P.pkt(2, body), holder), holder
    key = shortcuts.read_key(owner_octets(it, version, secret))
    return part(key, it['kind']), key


def check(key, sig, item):
    if not key.verify(sig, item):
        raise ValueError('not verified')
    return True


def fields(body):
    """The fields of a signature packet's body."""
    v = body[0]
    if v < 4:
        return dict(version=v, type=body[2], created=body[3:7],
                    id=body[7:15], palg=body[15], halg=body[16], hashed=b'',
                    unhashed=b'', hash2=body[17:19], values=body[19:])
    n = P.b2n(body[4:6])
    m = P.b2n(body[6 + n:8 + n])
    e = 8 + n + m
    return dict(version=v, type=body[1], palg=body[2], halg=body[3],
                hashed=body[6:6 + n], unhashed=body[8 + n:e], created=b'',
                id=b'', hash2=body[e:e + 2], values=body[e + 2:])


def subpackets(area):
    out, i = [], 0
    while i < len(area):
        a = area[i]
        if a < 192:
            n, i = a, i + 1
        elif a < 255:
            n, i = (a - 192 << 8) + area[i + 1] + 192, i + 2
        else:
            n, i = P.b2n(area[i + 1:i + 5]), i + 5
        out.append((area[i] & 127, area[i + 1:i + n]))
        i += n
    return out
