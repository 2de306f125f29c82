"""User attributes that are read, made, changed, certified and written."""
import hlib
from hlib import guarded, ints
import pgpkit as P
import sigkit as S
from pgp import shortcuts
from pgp.transferrable_keys import UserAttribute, UserAttributeContentItem

K = P.Key('rsaA')


def raw(x):
    return bytes(bytearray(x))


def octets(body):
    out = P.pkt(5, K.secret_body(usage=0)) + P.pkt(13, b'A <a@b>')
    out += P.signature(K, P.uid_hashed(K, b'A <a@b>'), 0x13)
    if body is not None:
        out += P.pkt(17, body) + P.signature(K, P.uat_hashed(K, body), 0x13)
    return out


class World(object):

    def __init__(self, sc):
        body = b''.join(map(raw, sc['start']))
        self.load(octets(body if sc['start'] else None))
        if not sc['start']:
            # The key refers to its items and not the other way round
            self.key.user_attributes.append(UserAttribute(self.key, []))
        self.orig, self.again = [], []
        self.remember()

    def load(self, data):
        self.key = shortcuts.read_key(data)
        self.key.unlock('')

    def remember(self):
        self.orig = [(x, x.mime_type, bytes(x.data)) for x in self.att.content_items]

    @property
    def att(self):
        return self.key.user_attributes[0]

    def write(self):
        return b''.join(map(bytes, self.key.to_packets()))

    def step(self, o):
        items, op, j = self.att.content_items, o['op'], o['j'] - 1
        if op in ('data', 'mime', 'back', 'del') and j >= len(items):
            return
        if op == 'data':
            items[j].data = bytearray(o['d'])
        elif op == 'mime':
            items[j].mime_type = o['m']
        elif op == 'back':
            for x, m, d in self.orig:
                if x is items[j]:
                    x.mime_type, x.data = m, bytearray(d)
                    break
            else:
                # was not read: there is nothing to go back to
                items[j].mime_type, items[j].data = '', b''
        elif op == 'add':
            items.append(UserAttributeContentItem(o['m'], raw(o['d'])))
        elif op == 'del':
            del items[j]
        elif op == 'turn':
            items.reverse()
        elif op == 'sign':
            s = self.key.sign(self.att, 4, 0x13, 8)
            self.att.signatures.append(s)
        elif op == 'again':
            self.load(self.write())
            self.remember()
            self.again.append([m for _, m, _ in self.orig])


def handler(sc):
    out = {'kind': sc['kind'], 'start': sc['start'], 'ops': sc['ops'], 'mimes': [], 'datas': [],
           'read': 'ok', 'done': 0, 'why': '', 'body': [], 'm': [], 'd': [],
           'certs': [], 'again': []}
    st, w = guarded(World, sc)
    if st != 'ok':
        out['read'] = w or st
        return out
    out['mimes'] = [x.mime_type for x in w.att.content_items]
    out['datas'] = [ints(x.data) for x in w.att.content_items]
    for o in sc['ops']:
        st, v = guarded(w.step, o)
        if st != 'ok':
            out['why'] = v or st
            break
        out['done'] += 1
    out['again'] = w.again
    st, data = guarded(lambda: bytes(w.att.to_packet()))
    if st != 'ok':
        return out
    body = P.parse(data)[0][1]
    out['body'] = ints(body)
    out['m'] = [x.mime_type for x in w.att.content_items]
    out['d'] = [ints(x.data) for x in w.att.content_items]
    for s in w.att.signatures:
        st, v = guarded(w.key.verify, s, w.att)
        b = P.parse(bytes(s.to_packet()))[0][1]
        f = S.fields(b)
        peer = K.raw_verify(f['halg'], P.uat_hashed(K, body) + P.sig_trailer(
            4, f['type'], f['palg'], f['halg'], f['hashed']),
            P.mpis(f['values']))
        out['certs'].append({'here': st == 'ok' and bool(v), 'peer': peer})
    return out


hlib.run(handler)
