"""Status of keys, identities and subkeys by the signatures on them."""
import datetime
import hlib
from hlib import guarded
import pgpkit as P
import sigkit as S
from pgp import shortcuts
from pgp.packets import parse_binary_packet_data
from pgp.transferrable_keys import KeySignature

BASE = 1400000000
CREATED = 1300000000
FLAGS = [('may_certify_others', 1), ('may_sign_data', 2),
         ('may_encrypt_comms', 4), ('may_encrypt_storage', 8),
         ('may_have_been_split', 16), ('may_be_used_for_auth', 32),
         ('may_have_multiple_owners', 128)]
BITS = [f for f, _ in FLAGS] + ['key_server_should_not_modify',
                                'primary_user_id',
                                'supports_modification_detection']
KIND = {'key': ((0x1f,), 0x20, (0x18, 0x13, 0x30, 0x28, 0x00)),
        'uid': ((0x10, 0x11, 0x12, 0x13), 0x30, (0x1f, 0x20, 0x18, 0x28)),
        'subkey': ((0x18,), 0x28, (0x1f, 0x20, 0x13, 0x30, 0x19))}
KIND['uat'] = KIND['uid']


def bit(n, b, v):
    """Some pattern of flags for every statement."""
    return (n * 2654435761 + b * 40503 + v * 69069 + (n >> 3) * v * b >> 7) & 1


def statement(n, v):
    """Subpackets that state the v-th thing about every attribute."""
    f = sum(m for b, (_, m) in enumerate(FLAGS) if bit(n, b, v))
    return [(9, P.u4(200000000 + v)), (11, bytes([v, 9])), (21, bytes([v, 8])),
            (22, bytes([v])), (12, b'\x80\x01' + bytes([v]) * 20),
            (23, bytes([128 * bit(n, 7, v)])), (24, b'hkp://%d/' % v),
            (25, bytes([bit(n, 8, v)])), (26, b'http://%d/' % v),
            (27, bytes([f])), (30, bytes([bit(n, 9, v)])),
            (29, bytes([v]) + b'reason %d' % v)]


def says(item, n, vals, created):
    """Which statements every attribute agrees with."""
    def which(x, f):
        return [v for v in vals if (not x if v == 0 else
                                    x is not None and x == f(v))]
    out = {}
    when = datetime.datetime.fromtimestamp
    out['expiration_time'] = which(item.expiration_time,
                                   lambda v: when(created + 200000000 + v))
    for a, t in (('symmetric', [9]), ('hash', [8]), ('compression', [])):
        a = 'preferred_%s_algorithms' % a
        x = getattr(item, a)
        out[a] = which(x and list(x), lambda v: [v] + t)
    x = item.revocation_keys
    out['revocation_keys'] = which(
        x and [k.fingerprint for k in x], lambda v: [('%02X' % v) * 20])
    out['preferred_key_server'] = which(item.preferred_key_server,
                                        lambda v: 'hkp://%d/' % v)
    out['policy_uri'] = which(item.policy_uri, lambda v: 'http://%d/' % v)
    for b, a in enumerate(BITS):
        x = getattr(item, a)
        out[a] = which(x if x is None else bool(x),
                       lambda v: bool(bit(n, b, v)))
    return out


def why(item, vals):
    return {'revocation_code': [v for v in vals if
                                (item.revocation_code or 0) == v],
            'revocation_reason': [v for v in vals if
                                  (item.revocation_reason or '') ==
                                  ('reason %d' % v if v else '')]}


_world = {}


def world(version):
    if version not in _world:
        k = P.Key('rsaA', created=CREATED, version=version)
        s = P.Key('rsaE', created=CREATED)
        u = b'A <a@b>'
        img = P.image(b'\xff\xd8\xff\xe0')
        out = P.pkt(6, k.body()) + P.pkt(13, u) + \
            P.signature(k, P.uid_hashed(k, u), 0x13)
        if version > 3:
            out += P.pkt(17, img) + \
                P.signature(k, P.uat_hashed(k, img), 0x13) + \
                P.pkt(14, s.body()) + \
                P.signature(k, k.hashed() + s.hashed(), 0x18)
        _world[version] = out, {'own': k, 'sub': s,
                                'other': P.Key('rsaB', created=CREATED)}
    return _world[version]


def sig_body(sc, j, s, ids):
    own, rev, others = KIND[sc['item']]
    n = sc['n']
    t = own[(n + j) % len(own)] if s['kind'] == 'c' else \
        rev if s['kind'] == 'r' else others[(n + j) % len(others)]
    when = P.u4(BASE + s['at'] // 2)
    tail = b'\1\2' + P.mpi(10000 + j)
    issuer = ids[s['by']].keyid()
    if s['v'] < 4:
        return b'\x03\x05' + bytes([t]) + when + issuer + b'\1\x08' + tail
    hs = [(2, when)] if s['at'] else []
    us = [(2, P.u4(BASE + 1))]
    if s['life']:
        hs.append((3, P.u4(s['life'] // 2)))
    hs += statement(n, s['val'])
    if (n + j) % 3 == 0:
        us.append((16, issuer))
    else:
        hs.append((16, issuer))
    if (n + j) % 5 == 0:
        # what anybody may have added
        us += [(3, P.u4(1))] + statement(n + 1, 7)
    h = b''.join(P.sub(*x) for x in hs)
    u = b''.join(P.sub(*x) for x in us)
    return bytes([4, t, 1, 8]) + P.u4(len(h))[2:] + h + \
        P.u4(len(u))[2:] + u + tail


def observe(sc, item, sigs, now):
    half = datetime.timedelta(microseconds=500000)
    if now % 2 and sc['n'] % 2:
        half = datetime.timedelta(microseconds=999999)
    t = datetime.datetime.fromtimestamp(BASE + now // 2) + \
        (half if now % 2 else half * 0)
    for s in sigs:
        s.get_current_time = lambda: t
    pos = {id(s): j for j, s in enumerate(sigs, 1)}

    def places(lst):
        return [pos.get(id(s), 0) for s in lst]
    vals = [0] + [s['val'] for s in sc['sigs'] if s['val']]
    made = getattr(item, 'creation_time', None)
    if sc['item'] in ('uid', 'uat'):
        made = 0 if made is None else 2 * int(
            (made - datetime.datetime.fromtimestamp(BASE)).total_seconds())
    else:
        made = 0
    return {'revoked': bool(item.revoked), 'self': places(item.self_signatures),
            'current': places(item.current_self_signatures),
            'revs': places(item.revocation_signatures), 'made': made,
            'says': says(item, sc['n'], vals, CREATED),
            'why': why(item, vals),
            'ended': [bool(s.expired) for s in sigs],
            'gone': [bool(s.revoked) for s in sigs]}


SET = [('policy_uri', 'http://assigned/'), ('may_sign_data', None),
       ('preferred_hash_algorithms', [10, 9]), ('primary_user_id', None),
       ('preferred_key_server', 'hkp://assigned/'),
       ('revocation_reason', 'assigned'), ('expiration_time', None)]


def assign(sc, item, sigs, now):
    """Assign an attribute through the item: which signatures change."""
    name, new = SET[sc['n'] % len(SET)]
    observe(sc, item, sigs, now)    # sets the time
    why = name == 'revocation_reason'
    old = getattr(item, name)
    if new is None:
        new = datetime.datetime.fromtimestamp(CREATED + 300000000) \
            if name == 'expiration_time' else not old
    written = [bytes(s.to_packet()) for s in sigs]
    rest = [[getattr(s, a) for a, _ in SET if a != name and hasattr(s, a)]
            for s in sigs]
    got = guarded(setattr, item, name, new)
    return {'why': why, 'res': got[0],
            'changed': [j for j, s in enumerate(sigs, 1)
                        if bytes(s.to_packet()) != written[j - 1]],
            'kept': rest == [[getattr(s, a) for a, _ in SET
                              if a != name and hasattr(s, a)] for s in sigs],
            'reads': got[0] == 'ok' and getattr(item, name) == new}


def handler(sc):
    out = {k: sc[k] for k in ('item', 'version', 'sigs', 'nows')}
    out.update(res='ok', seen=[], own=[], assigned=[])
    data, ids = world(sc['version'])

    def go():
        key = shortcuts.read_key(data)
        item = S.part(key, sc['item'])
        sigs = []
        for j, s in enumerate(sc['sigs']):
            body = sig_body(sc, j, s, ids)
            p = list(parse_binary_packet_data(P.pkt(2, body)))[0]
            sigs.append(KeySignature.from_packet(p, item))
            if s['bad']:
                sigs[-1].validated = False
            elif sc['n'] % 4 == 0:
                sigs[-1].validated = True
        item.signatures = sigs
        for now in sc['nows']:
            out['seen'].append(observe(sc, item, sigs, now))
        if sc['version'] > 3 and all(s['v'] > 3 for s in sc['sigs']):
            out['assigned'].append(assign(sc, item, sigs, sc['nows'][0]))
        out['own'] = [j for j, s in enumerate(sigs, 1)
                      if s.is_self_signature()]
    st, v = guarded(go)
    if st != 'ok':
        out['res'] = v or st
    return out


if __name__ == '__main__':
    hlib.run(handler)
