"""Signature subpackets: octets from the specification are parsed, written
again and built from their fields; whole signatures are read and written."""
import warnings
import hlib
from hlib import be, unbe, ints, guarded, text
from pgp.packets import constants as C
from pgp.packets import packets as P
from pgp.packets import signature_subpackets as SS
warnings.simplefilter('ignore')
HDR = C.NEW_PACKET_HEADER_TYPE


def hexs(a):
    return ''.join('%02X' % x for x in a)


def unhex(s):
    if not isinstance(s, str) or len(s) % 2:
        return ['not hexadecimal octets']
    return [int(s[i:i + 2], 16) for i in range(0, len(s), 2)]


def octets(x):
    return ints(x) if isinstance(x, (bytes, bytearray)) else ['not octets']


def s(a):
    return ''.join(map(chr, a))


TIME = {2: SS.CreationTimeSubpacket, 3: SS.ExpirationSecondsSubpacket,
        9: SS.KeyExpirationTimeSubpacket}
BOOL = {4: (SS.ExportableSubpacket, 'exportable'),
        7: (SS.RevocableSubpacket, 'revocable'),
        25: (SS.PrimaryUserIDSubpacket, 'primary')}
LIST = {11: SS.PreferredSymmetricAlgorithmsSubpacket,
        21: SS.PreferredHashAlgorithmsSubpacket,
        22: SS.PreferredCompressionAlgorithmsSubpacket}
TEXT = {6: (SS.RegularExpressionSubpacket, 'pattern'),
        24: (SS.PreferredKeyServerSubpacket, 'uri'),
        26: (SS.PolicyURISubpacket, 'uri'),
        28: (SS.UserIDSubpacket, 'user_id')}
KF = ('may_certify_others', 'may_sign_data', 'may_encrypt_comms',
      'may_encrypt_storage', 'may_have_been_split', 'may_be_used_for_auth',
      'may_have_multiple_owners')


def sigview(p):
    g = {'t': int(p.type), 'version': p.version, 'stype': p.signature_type,
         'algo': p.public_key_algorithm, 'hash': p.hash_algorithm,
         'hash2': ints(p.hash2), 'mpis': [be(x) for x in p.signature_values]}
    if p.version < 4:
        g.update(time=be(p.creation_time, 4), keyid=unhex(p.key_id))
    else:
        g.update(hashed=[ints(bytes(x)) for x in p.hashed_subpackets],
                 unhashed=[ints(bytes(x)) for x in p.unhashed_subpackets])
    return g


def view(p, f):
    ty = int(p.type)
    g = {'ty': ty, 'crit': bool(p.critical), 'form': f['form']}
    if ty in TIME:
        g['time'] = be(p.time, 4)
    elif ty in BOOL:
        g['flag'] = bool(getattr(p, BOOL[ty][1]))
    elif ty == 5:
        g.update(depth=p.depth, amount=p.amount)
    elif ty in TEXT:
        g['text'] = text(getattr(p, TEXT[ty][1]))
        if any(0xdc80 <= c <= 0xdcff for c in f['text']):
            g['text'] = f['text']
    elif ty == 10:
        g.update(flag=bool(p.strong_request), algo=p.public_key_algorithm,
                 fpr=unhex(p.fingerprint))
    elif ty in LIST:
        g['list'] = list(p.preferred_algorithms)
    elif ty == 12:
        g.update(flag=bool(p.sensitive), algo=p.public_key_algorithm,
                 fpr=unhex(p.fingerprint))
    elif ty == 16:
        g['keyid'] = unhex(p.key_id)
    elif ty == 20:
        v = p.value
        g.update(flag=bool(p.human_readable), name=text(p.name),
                 ns=[-1] if p.namespace is None else text(p.namespace),
                 value=text(v) if isinstance(v, str) else octets(v))
        for k in ('name', 'ns', 'value'):
            if any(0xdc80 <= c <= 0xdcff for c in f[k]):
                g[k] = f[k]
        if isinstance(v, str) != f['flag']:
            g['value'] = ['wrong kind']
    elif ty == 23:
        g['bits'] = [bool(p.no_modify)]
    elif ty == 27:
        g['bits'] = [bool(getattr(p, k)) for k in KF]
    elif ty == 30:
        g['bits'] = [bool(p.supports_modification_detection)]
    elif ty == 29:
        g.update(code=p.revocation_code, text=text(p.revocation_reason))
        if any(0xdc80 <= c <= 0xdcff for c in f['text']):
            g['text'] = f['text']
    elif ty == 31:
        g.update(algo=p.public_key_algorithm, hash=p.hash_algorithm,
                 digest=unhex(p.hash))
    elif ty == 32:
        g['sig'] = sigview(p.signature)
    else:
        g['content'] = octets(p.content)
    return g


def build(f, parsed):
    ty, c = f['ty'], f['crit']
    if ty in TIME:
        return TIME[ty](c, unbe(f['time']))
    if ty in BOOL:
        return BOOL[ty][0](c, f['flag'])
    if ty == 5:
        return SS.TrustSubpacket(c, f['depth'], f['amount'])
    if ty in TEXT or ty == 29:
        if any(0xdc80 <= x <= 0xdcff for x in f['text']):
            return None
        if ty == 29:
            return SS.RevocationReasonSubpacket(c, f['code'], s(f['text']))
        return TEXT[ty][0](c, s(f['text']))
    if ty == 10:
        return SS.AdditionalRecipientRequestSubpacket(
            c, f['flag'], f['algo'], hexs(f['fpr']))
    if ty in LIST:
        return LIST[ty](c, list(f['list']))
    if ty == 12:
        return SS.RevocationKeySubpacket(c, hexs(f['fpr']), f['algo'],
                                         sensitive=f['flag'])
    if ty == 16:
        return SS.IssuerSubpacket(c, hexs(f['keyid']))
    if ty == 20:
        if any(0xdc80 <= x <= 0xdcff for k in ('name', 'ns', 'value')
               for x in f[k]):
            return None
        return SS.NotationSubpacket(
            c, s(f['name']), None if f['ns'] == [-1] else s(f['ns']),
            f['flag'], s(f['value']) if f['flag'] else bytearray(f['value']))
    if ty in (23, 27, 30):
        if len(f['flags']) != 1:
            return None
        v = f['flags'][0]
        if ty == 23:
            return SS.KeyServerPreferencesSubpacket(c, bool(v & 128)) \
                if not v & 127 else None
        if ty == 30:
            return SS.FeaturesSubpacket(c, bool(v & 1)) \
                if not v & 254 else None
        if v & 64:
            return None
        bits = (1, 2, 4, 8, 16, 32, 128)
        return SS.KeyFlagsSubpacket(
            c, **dict((k, bool(v & b)) for k, b in zip(KF, bits)))
    if ty == 31:
        return SS.TargetSubpacket(c, f['algo'], f['hash'], hexs(f['digest']),
                                  hash_length=len(f['digest']))
    if ty == 32:
        return SS.EmbeddedSignatureSubpacket(c, parsed.signature)
    return None


def sub(sc):
    f = sc['f']
    r = {'op': 'sub', 'f': f, 'key': sc['key'], 'got': {}, 'rest': 0,
         'built': 'skip', 'octets': [], 'content': []}
    pre, post = bytearray([9, 9, 9]), bytearray([1, 2, 3, 4])
    data = pre + bytearray(sc['octets']) + post
    r['parse'], v = guarded(SS.signature_subpacket_from_data, data, 3)
    if r['parse'] != 'ok':
        return r
    p, off = v
    r['rest'] = len(data) - 4 - off
    res, g = guarded(view, p, f)
    if res != 'ok':
        r['parse'] = 'unreadable fields'
        return r
    r['got'] = g
    r['octets'] = guarded(lambda: ints(bytes(p)))[1] or []
    r['content'] = guarded(lambda: octets(p.content))[1] or []
    res, q = guarded(build, f, p)
    if res != 'ok':
        r['built'] = 'err'
    elif q is not None:
        r['built'], raw = guarded(lambda: bytes(q))
        if r['built'] == 'ok':
            off, n = SS.utils.new_packet_length(bytearray(raw), 0)[:2] \
                if raw[0] < 224 or raw[0] == 255 else (2, len(raw) - 2)
            r['boctets'] = ints(raw[off + 1:]) if off + n == len(raw) \
                else ['bad length']
            r['bhead'] = [raw[off] & 127, raw[off] >= 128]
    return r


def areas(sc):
    h, u = bytearray(sc['hashed']), bytearray(sc['unhashed'])
    r = {'op': 'areas', 'key': sc['key'], 'hashed': sc['hashed'],
         'unhashed': sc['unhashed'], 'hs': [], 'us': [], 'body': []}
    body = (bytearray([4, 16, 1, 8]) + bytearray(be(len(h), 2)) + h +
            bytearray(be(len(u), 2)) + u + bytearray([1, 2, 0, 1, 1]))
    data = bytearray([0xc2, 255]) + bytearray(be(len(body), 4)) + body
    r['parse'], v = guarded(P.packet_from_packet_data, data, 0)
    if r['parse'] != 'ok':
        return r
    p = v[1]
    for k, l in (('hs', p.hashed_subpackets), ('us', p.unhashed_subpackets)):
        r[k] = guarded(lambda: [[int(x.type), bool(x.critical),
                                 octets(x.content)] for x in l])[1] or []
    r['body'] = guarded(lambda: octets(bytearray(p.content)))[1] or []
    return r


if __name__ == '__main__':
    hlib.run(lambda sc: sub(sc) if sc['op'] == 'sub' else areas(sc))
