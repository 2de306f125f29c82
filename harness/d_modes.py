"""Real cipher objects fed in parts, with a second object in between."""
import hlib
import pgpkit as kit
from hlib import ints, guarded
from pgp import utils
from pgp.cipher import aidea, camellia, twofish, wrapper
from Crypto.Cipher import AES, Blowfish, CAST, DES3

PY = {2: DES3, 3: CAST, 4: Blowfish, 7: AES, 8: AES, 9: AES}
OWN = {1: aidea, 10: twofish, 11: camellia, 12: camellia, 13: camellia}


def ecb_dec(alg, key):
    if alg in PY:
        return PY[alg].new(key, 1).decrypt
    return kit.ecb(alg, key).__self__.decrypt


class Counter(object):

    def __init__(self, start):
        self.n, self.w = kit.b2n(start), len(start)

    def __call__(self):
        r = kit.n2b(self.n % (1 << 8 * self.w), self.w)
        self.n += 1
        return r


def make(sc, key, iv):
    m = sc['m']
    mode = getattr(wrapper, 'MODE_' + m['mode'])
    kw = {}
    if m['mode'] == 'CFB':
        kw['segment_size'] = m['seg'] * 8
    if sc['api'] in ('utils', 'sync'):
        return utils.get_symmetric_cipher(
            sc['cipher'], key, getattr(utils, m['mode']),
            None if m['mode'] == 'ECB' else iv, syncable=sc['api'] == 'sync',
            **kw)
    if m['mode'] == 'CTR':
        kw['counter'] = Counter(iv)
    elif m['mode'] != 'ECB':
        kw['iv' if m['mode'] == 'OPENPGP' else 'IV'] = iv
    if sc['api'] == 'module':
        return OWN[sc['cipher']].new(key, mode, **kw)
    return wrapper.new(PY[sc['cipher']], key, mode, **kw)


class Facts(object):
    """The block cipher, remembering what it was asked."""

    def __init__(self, fn):
        self.fn, self.seen = fn, {}

    def __call__(self, block):
        block = bytes(block)
        if block not in self.seen:
            self.seen[block] = bytes(self.fn(block))
        return self.seen[block]

    def pairs(self):
        return [[ints(a), ints(b)] for a, b in self.seen.items()]


def need(sc, e, d, iv):
    """Ask for every block the mode can need (a rough over-approximation)."""
    m, bs = sc['m'], sc['m']['bs']
    parts = [bytes(bytearray(p)) for p in sc['parts']]
    unit = m['seg'] or bs
    ok = [p for p in parts if m['mode'] in ('OFB', 'CTR', 'OPENPGP') or
          len(p) % (unit if m['mode'] == 'CFB' else bs) == 0]
    data = b''.join(ok)
    reg = iv
    if m['mode'] == 'OPENPGP':
        z = e(bytes(bs))
        c = kit.xor(iv, z)
        c += kit.xor(iv[-2:], e(c))
        reg = c[2:]
    if m['mode'] in ('ECB', 'CBC'):
        for i in range(0, len(data), bs):
            p = data[i:i + bs]
            if sc['dec']:
                d(p)
            elif m['mode'] == 'ECB':
                e(p)
            else:
                reg = e(kit.xor(p, reg))
    elif m['mode'] in ('CFB', 'OPENPGP'):
        for q in ok:
            n = unit if m['mode'] == 'CFB' else bs
            for i in range(0, len(q), n):
                p = q[i:i + n]
                o = kit.xor(p, e(reg))
                reg = reg[len(p):] + (p if sc['dec'] else o)
    else:
        for i in range(len(data) // bs + 2):
            if m['mode'] == 'OFB':
                reg = e(reg)
            else:
                e(kit.n2b((kit.b2n(iv) + i) % (1 << 8 * bs), bs))


def handler(sc):
    m = sc['m']
    key = kit.session_key(sc['cipher'], 11)
    iv = bytes(bytearray(m['iv']))
    e, d = Facts(kit.ecb(sc['cipher'], key)), Facts(ecb_dec(sc['cipher'], key))
    need(sc, e, d, iv)
    given = iv
    if m['mode'] == 'OPENPGP' and sc['dec']:
        c = kit.xor(iv, e(bytes(m['bs'])))
        given = c + kit.xor(iv[-2:], e(c))
    st, c = guarded(make, sc, key, given)
    rec = {'m': m, 'dec': sc['dec'], 'parts': sc['parts'], 'got': [],
           'made': 'ok' if st == 'ok' else str(c), 'e': e.pairs(),
           'd': d.pairs(), 'apart': True}
    if st != 'ok':
        return rec
    # a second object of another key, used in between
    key2, iv2 = kit.session_key(sc['cipher'], 77), bytes(m['bs'])
    sc2 = dict(sc, dec=False)
    other, alone = make(sc2, key2, iv2), make(sc2, key2, iv2)
    block = bytes(range(m['bs']))
    want = alone.encrypt(block) + alone.encrypt(block)
    seen = b''
    for i, p in enumerate(sc['parts']):
        p = bytes(bytearray(p))
        st, v = guarded(c.decrypt if sc['dec'] else c.encrypt, p)
        rec['got'].append({'ok': st == 'ok', 'why': '' if st == 'ok' else
                           str(v), 'out': ints(v) if st == 'ok' else []})
        if i < 2:
            seen += other.encrypt(block)
    while len(seen) < len(want):
        seen += other.encrypt(block)
    rec['apart'] = seen == want
    return rec


hlib.run(handler)
