"""Parts of user identities, read and changed."""
import hlib
from hlib import guarded, text
import pgpkit as K
from pgp import shortcuts
from pgp.user_id import parse_user_id

MAIN = K.Key('rsaA')
FIELD = {'name': 'user_name', 'mail': 'user_email', 'com': 'user_comment'}


def stream(ident):
    """A key whose identity and whose signer's identity are this one."""
    uid = bytes(bytearray(ident))
    h = K.sub(2, K.u4(MAIN.created + 9)) + K.sub(28, uid)
    sig = K.signature(MAIN, K.uid_hashed(MAIN, uid), 0x13, hashed=h)
    return (
        K.pkt(6, MAIN.body()) + K.pkt(13, uid) + sig)


def u(codes):
    return u''.join(map(chr, codes))


def parts(o, pre=''):
    n, m, c = (getattr(o, a) for a in (
        (pre + 'user_name', pre + 'user_email', pre + 'user_comment')))
    return {'name': text(n), 'mail': text(m), 'com': text(c)}


def observe(sc, seen):
    key = shortcuts.read_key(stream(u(sc['id']).encode('utf8')))
    uid = key.user_ids[0]
    for op in [None] + sc['ops']:
        if op is not None:
            setattr(uid, FIELD[op['f']], u(op['v']))
        data = bytes(shortcuts.serialize_key(key))
        again = shortcuts.read_key(data)
        signer = shortcuts.read_key(stream(uid.user_id.encode('utf8')))
        seen.append({'id': text(uid.user_id), 'got': parts(uid),
                     'again': parts(again.user_ids[0]),
                     'issuer': parts(signer.user_ids[0].signatures[0],
                                     'issuer_')})


def junk(codes):
    n, m, c = parse_user_id(u(codes))
    text(n), text(m), text(c)


def handler(sc):
    rec = {k: sc[k] for k in ('id', 'ops', 'want')}
    seen = []
    rec['res'] = 'ok'
    if sc['want']:
        st, v = guarded(observe, sc, seen)
        rec['res'] = 'ok' if st == 'ok' else '%s' % (v or st)
    rec['seen'] = seen
    rec['junked'] = []
    for s in sc['junk']:
        st, v = guarded(junk, s)
        rec['junked'].append('ok' if st == 'ok' else '%s' % (v or st))
    return rec


hlib.run(handler)
