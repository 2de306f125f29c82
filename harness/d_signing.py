"""Genuine signatures by a peer, and signatures made by the code."""
import datetime
import time
import hlib
from hlib import ints, guarded
import pgpkit as P
import sigkit as K
from pgp import message as M
from pgp import shortcuts

ATTACH = {31: 'key', 32: 'key', 16: 'uid', 17: 'uid', 18: 'uid', 19: 'uid',
          48: 'uid'}


def plainly(sc):
    """A message signed without saying with which digest."""
    k = P.Key(sc['name'])
    hashed = P.sub(2, P.u4(1400000001)) + P.sub(16, k.keyid()) + \
        P.sub(21, bytes(sc['prefs']))
    tsk = P.pkt(5, k.secret_body(**K.PROT)) + \
        P.signature(k, k.hashed(), 0x1f, hashed=hashed) + \
        P.pkt(13, K.UID) + P.signature(k, P.uid_hashed(k, K.UID), 0x13)
    out = {'prefs': sc['prefs'], 'asked': sc['type'], 'res': 'ok'}

    def make():
        key = shortcuts.read_key(tsk)
        key.unlock('')
        m = M.TextMessage('a\nb', 'f', datetime.datetime.fromtimestamp(9))
        w = m.sign(key, signature_type=1) if sc['type'] else m.sign(key)
        f = K.fields([b for t, b in P.parse(b''.join(
            bytes(p) for p in w.to_packets())) if t == 2][0])
        data = b'a\r\nb' if sc['type'] else b'a\nb'
        tr = P.sig_trailer(f['version'], f['type'], f['palg'], f['halg'],
                           f['hashed'])
        return f, k.raw_verify(f['halg'], data + tr, P.mpis(f['values'])), \
            guarded(K.check, key.to_public_key(), w.signatures[0], m)[0]

    st, v = guarded(make)
    if st != 'ok':
        return dict(out, res=v or st)
    return dict(out, version=v[0]['version'], type=v[0]['type'],
                halg=v[0]['halg'], covers=v[1], again=v[2])


def handler(sc):
    if 'prefs' in sc:
        return plainly(sc)
    s, it = sc['s'], sc['s']['item']
    peer = P.Key(s['signer']['name'], version=s['signer']['version'])
    ownv = it['key'][0] if it['key'] else 4
    covered, body = K.raw(sc['covered']), K.raw(sc['body'])
    hashed, unhashed = K.raw(s['hashed']), K.raw(s['unhashed'])
    created = P.b2n(K.raw(s['created']))
    cls = K.sig_class(it['kind'])
    pkt = P.signature(peer, covered, s['type'], s['halg'], hashed, unhashed,
                      s['version'], created)
    seen, again = [], []

    def look(into, how, fn):
        st, v = guarded(fn)
        into.append({'how': how, 'res': 'ok' if st == 'ok' else v or st})

    def verify(secret_item, secret_key, convert=False, pkt=pkt):
        item, keep = K.subject(it, ownv, secret_item, body)
        if convert:
            keep = keep.to_public_key()
            item = K.part(keep, it['kind'])
        sig = K.parse_sig(pkt, keep or K.signer('rsaB', 4, False), cls)
        return K.check(K.signer(s['signer']['name'], s['signer']['version'],
                                secret_key), sig, item)

    def attached(pkt=pkt, secret=False):
        place = 'uat' if it['kind'] == 'uat' else ATTACH[s['type']]
        key = shortcuts.read_key(K.owner_octets(
            it, ownv, secret, [(place, pkt)]))
        item = K.part(key, it['kind'])
        want = P.parse(pkt)[0][1]
        for sig in item.signatures:
            if P.parse(bytes(sig.to_packet()))[0][1] == want:
                return K.check(K.signer(
                    s['signer']['name'], s['signer']['version'], False),
                    sig, item)
        raise KeyError('signature is not on the key')

    keyed = it['kind'] in ('key', 'uid', 'uat', 'subkey')
    look(seen, 'genuine', lambda: verify(False, False))
    look(seen, 'by the secret key', lambda: verify(False, True))
    if keyed:
        look(seen, 'on a secret key', lambda: verify(True, False))
        look(seen, 'on a converted key', lambda: verify(True, False, True))
    attach = keyed and s['type'] in ATTACH and \
        (s['type'] != 48 or it['kind'] != 'key')
    if attach:
        look(seen, 'attached', attached)
        look(seen, 'attached to a secret key', lambda: attached(secret=True))

    # the code's own signature
    extra = []
    if s['version'] >= 4:
        st, v = guarded(K.parse_sig, pkt, K.signer('rsaB', 4, False))
        if st == 'ok':
            extra = [x for x in v.hashed_subpackets if x.type not in (2, 16)]
    hold = {}

    def make():
        item, keep = K.subject(it, ownv, False, body)
        key = K.signer(s['signer']['name'], s['signer']['version'], True)
        t0, had = int(time.time()), list(extra)
        sig = key.sign(item, s['version'], s['type'], s['halg'], extra) \
            if extra else key.sign(item, s['version'], s['type'], s['halg'])
        hold['kept'] = len(had) == len(extra) and all(
            x is y for x, y in zip(had, extra))
        hold.update(item=item, keep=keep, sig=sig, t0=t0, t1=int(time.time()))
        return K.fields(P.parse(bytes(sig.to_packet()))[0][1])

    st, f = guarded(make)
    made = {'res': 'ok' if st == 'ok' else f or st}
    if st == 'ok':
        pub = K.signer(s['signer']['name'], s['signer']['version'], False)
        pkt2 = bytes(hold['sig'].to_packet())
        look(again, 'fresh', lambda: K.check(pub, hold['sig'], hold['item']))
        look(again, 'written and read', lambda: verify(False, False, pkt=pkt2))
        if attach:
            look(again, 'kept on the key', lambda: attached(pkt2))
        subs = K.subpackets(f['hashed'])
        when = f['created'] or dict(reversed(subs)).get(2, b'')
        ids = [f['id']] + [b for t, b in subs if t == 16]
        trailer = P.sig_trailer(f['version'], f['type'], f['palg'], f['halg'],
                                f['hashed'], P.b2n(f['created']))
        made['covers'] = peer.raw_verify(f['halg'], covered + trailer,
                                         P.mpis(f['values']))
        made['hash2'] = f['hash2'] == P.digest(
            f['halg'], covered + trailer)[:2]
        made['issuer'] = peer.keyid() in ids
        made['fresh'] = hold['t0'] <= P.b2n(when) <= hold['t1']
        made['kept'] = hold['kept']
        made['asked'] = [b for b in K.subpackets(hashed)
                         if b[0] not in (2, 16)] == [
                             b for b in subs if b[0] not in (2, 16)]
        made['f'] = dict((k, ints(v) if isinstance(v, bytes) else v)
                         for k, v in f.items())
        made['f']['trailer'] = ints(trailer)
    return {'s': s, 'covered': sc['covered'], 'seen': seen, 'made': made,
            'again': again, 'trailer': ints(P.sig_trailer(
                s['version'], s['type'], peer.alg, s['halg'], hashed,
                created))}


hlib.run(handler)
