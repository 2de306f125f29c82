"""Lock, unlock, scoped unlock and use of real secret keys."""
import hlib
import pgpkit as kit
from hlib import ints, guarded, be
from pgp import shortcuts, context_managers
from pgp.message import BinaryMessage
from pgp.packets import constants, packets

PASS = {'a': 'correct horse', 'b': u'\u00e9t\u00e9 battery'}
PARTS = {'rsa': ['rsaA', 'rsaB'], 'dsaelg': ['dsaA', 'elgA'],
         'mixed': ['rsaC', 'rsaA', 'elgB'], 'lone': ['rsaB']}
USAGE = [dict(usage=254, cipher=9, s2k=(3, 8, b'abcdefgh', 0)),
         dict(usage=255, cipher=7, s2k=(1, 2, b'saltsalt', 0)),
         dict(usage=254, cipher=3, s2k=(3, 2, b'pepperpe', 16))]
ATTRS = ('exponent_d', 'prime_q', 'multiplicative_inverse_u', 'exponent_x')
SECRET = b'attack at dawn, in any case'
CACHE = {}


def material(k):
    """Octets of the key, what it can open, and the public octets."""
    if k['name'] not in CACHE:
        parts, pub = [], []
        for i, (n, p) in enumerate(zip(PARTS[k['name']], k['pass'])):
            prot = dict(usage=0) if p == 'none' else dict(
                USAGE[(i + len(k['name'])) % 3], password=PASS[p])
            parts.append((kit.Key(n, 1400000000 + i), prot))
        msgs = []
        for n, (key, _) in enumerate(parts):
            s = kit.session_key(9, 9 + n)
            m = None
            if key.t != 'dsa':
                m = kit.pkesk(key, 9, s) + kit.seipd(9, s,
                                                     kit.literal(SECRET))
            msgs.append(m)
        CACHE[k['name']] = (parts, kit.tsk(parts), msgs,
                            kit.tsk(parts, secret=False))
    return CACHE[k['name']]


DOC = BinaryMessage(b'document', 'f', None)


class Leave(Exception):
    pass


class Interrupted(BaseException):
    pass


class History(object):

    def __init__(self, sc):
        self.k, self.ops, self.obs = sc['k'], sc['ops'], []
        self.parts, self.data, self.msgs, self.pub = material(self.k)
        self.key = shortcuts.read_key(self.data)
        self.i = 0

    def comps(self):
        return [self.key] + list(self.key.subkeys)

    def see(self, res, good=True):
        cs = self.comps()
        sec = []
        for (k, _), c in zip(self.parts, cs):
            names = ATTRS + (('prime_p',) if k.t == 'rsa' else ())
            sec.append(any(getattr(c, a, None) is not None for a in names))
        self.obs.append({'res': res, 'good': bool(good), 'secrets': sec,
                         'locked': [bool(c.is_locked()) for c in cs]})

    def simple(self, o):
        c = self.comps()[o['c'] - 1]
        key = self.parts[o['c'] - 1][0]
        if o['op'] == 'unlock':
            return guarded(c.unlock, PASS[o['p']])[0], True
        if o['op'] == 'lock':
            return guarded(c.lock)[0], True
        if o['op'] == 'sign':
            st, s = guarded(c.sign, DOC, 4, 0, 8)
            if st == 'ok':
                body = bytes(s.to_packet().content)
                n = 6 + kit.b2n(body[4:6])
                m = n + 2 + kit.b2n(body[n:n + 2]) + 2
                return st, key.raw_verify(
                    8, b'document' + body[:n] + b'\x04\xff' + kit.u4(n),
                    kit.mpis(body[m:]))
            return st, True
        if o['op'] == 'decrypt':
            def dec():
                r = shortcuts.read_message(
                    self.msgs[o['c'] - 1]).get_message(c)
                return bytes(r.data)
            st, v = guarded(dec)
            return st, st != 'ok' or v == SECRET
        if o['op'] == 'export':
            st, v = guarded(lambda: bytes(shortcuts.serialize_key(
                self.key, header_format=constants.NEW_PACKET_HEADER_TYPE)))
            return st, st != 'ok' or v == self.data
        if o['op'] == 'convert':
            def conv():
                p = self.key.to_public_key()
                clean = not any(
                    getattr(x, a, None) is not None
                    for x in [p] + list(p.subkeys) for a in ATTRS)
                return clean, bytes(shortcuts.serialize_key(
                    p, header_format=constants.NEW_PACKET_HEADER_TYPE))
            st, v = guarded(conv)
            return st, st != 'ok' or v == (True, self.pub)
        if o['op'] == 'reread':
            def again():
                self.key = shortcuts.read_key(bytes(
                    shortcuts.serialize_key(self.key)))
            return guarded(again)[0], True
        raise ValueError(o)

    def scope(self, o):
        """A with statement over the operations up to its end."""
        entered, end, raised = [False], [None], [None]
        try:
            target = self.comps()[o['c'] - 1]
            with context_managers.unlocked(target, PASS[o['p']]) as got:
                entered[0] = True
                self.see('ok', got is target)
                end[0] = self.level()
                if end[0] in ('raise', 'interrupt'):
                    raised[0] = (Leave if end[0] == 'raise'
                                 else Interrupted)('leave')
                    raise raised[0]
        except (Leave, Interrupted) as e:
            self.see('raised', e is raised[0])
            return
        except Exception as e:
            self.see('err' if not entered[0] else type(e).__name__)
            return
        self.see('ok' if end[0] == 'exit' else 'swallowed')

    def level(self):
        while self.i < len(self.ops):
            o = self.ops[self.i]
            self.i += 1
            if o['op'] in ('exit', 'raise', 'interrupt'):
                return o['op']
            if o['op'] == 'enter':
                self.scope(o)
            else:
                st, good = self.simple(o)
                self.see(st, good)


def altered(sc, data, key):
    """Which octets of the secret part can change unnoticed."""
    body = bytearray(kit.parse(data)[0][1])
    tag = kit.parse(data)[0][0]
    size = sum(len(kit.mpi(v)) for v in key.secret_values()) + (
        20 if sc['usage'] == 254 else 2)
    took = []
    # a sum of octets notices only changes that keep to one octet
    where = {1, 2, 3, 19, 20, 21, 22, 33, size // 2, size - 8} \
        if sc['usage'] in (0, 254) else {1, 2, 3}
    for back in sorted(w for w in where if w <= size):
        b = bytearray(body)
        b[-back] ^= 0x11
        def use():
            obj = shortcuts.read_key(
                kit.pkt(tag, bytes(b)) + data[len(kit.pkt(tag, bytes(b))):])
            try:
                obj.unlock(PASS['b'])
            except Exception:
                if sc['usage'] and (
                        not obj.is_locked()
                        or guarded(obj.sign, DOC, 4, 0, 8)[0] == 'ok'):
                    return
                raise
        if guarded(use)[0] == 'ok':
            took.append(back)
    return took


def protect(sc):
    key = kit.Key(sc['kname'], version=sc['version'])
    s2k = (sc['s2k'], sc['digest'], b'NaCl' + b'\x00\xff12', 33)
    data = kit.tsk([(key, dict(usage=sc['usage'], cipher=sc['cipher'],
                               s2k=s2k, password=PASS['b']))])
    obj = shortcuts.read_key(data)
    names = ('exponent_d', 'prime_p', 'prime_q',
             'multiplicative_inverse_u') if key.t == 'rsa' else ('exponent_x',)
    wrong = [guarded(obj.unlock, p)[0] for p in
             ('correct horse', PASS['b'] + ' ', PASS['b'][:-1])]
    usable = not obj.is_locked() or \
        guarded(obj.sign, DOC, 4, 0, 8)[0] == 'ok' or \
        any(getattr(obj, a, None) is not None for a in names)
    st, v = guarded(obj.unlock, PASS['b'])
    right = st if st == 'ok' else '%s %s' % (st, v)
    values = [be(int(getattr(obj, a) or 0)) for a in names] \
        if right == 'ok' else []
    obj.lock()
    left = [a for a in names if getattr(obj, a, None) is not None]
    same = bytes(shortcuts.serialize_key(
        obj, header_format=constants.NEW_PACKET_HEADER_TYPE)) == data
    # the packet class does it the other way round
    recoded, made = True, 'as read'
    if right == 'ok' and sc['usage']:
        body = kit.parse(data)[0][1]
        P = packets.SecretKeyPacket
        p = P.from_packet_content(constants.NEW_PACKET_HEADER_TYPE, 5,
                                  bytearray(body))
        k = P.passphrase_to_key(p.s2k_specification, p.symmetric_algorithm,
                                PASS['b'].encode('utf8'))
        e = P.encrypt_key_values(p.version, [kit.b2n(v) for v in values], k,
                                 p.symmetric_algorithm, p.iv,
                                 p.checksum, p.hash)
        recoded = bytes(e) == bytes(p.encrypted_portion)
        # and so do packets that are given no encrypted octets
        def make(wrong=False):
            q = (packets.SecretSubkeyPacket if sc['digest'] % 2 else P
                 ).from_packet_content(constants.NEW_PACKET_HEADER_TYPE, 5,
                                       bytearray(body))
            q.decrypt((PASS['b'] + ('' if not wrong else '!')).encode('utf8'))
            q.passphrase = PASS['b'].encode('utf8')
            q.encrypted_portion = bytearray()
            return bytes(q.content)
        made, v = guarded(make)
        made = ('as read' if v == bytes(body) else 'other') \
            if made == 'ok' else v
        if guarded(make, True)[0] == 'ok':
            made = 'opened by a wrong passphrase'
    return {'fam': 'protect', 'right': right, 'values': values,
            'altered': altered(sc, data, key),
            'want': [be(x) for x in key.secret_values()],
            'wrong': 'ok' if 'ok' in wrong else 'err', 'usable': usable,
            'open': sc['usage'] == 0, 'relocked': left, 'same': same,
            'recoded': recoded, 'made': made}


def handler(sc):
    if sc['fam'] == 'protect':
        return protect(sc)
    h = History(sc)
    h.level()
    return {'fam': 'history', 'k': sc['k'], 'ops': sc['ops'], 'obs': h.obs}


hlib.run(handler)
