"""A small, independent OpenPGP peer: it builds octets of keys, signatures and
messages with plain integer arithmetic and hashlib, sharing nothing with the
code under test but PyCrypto's block ciphers (in ECB, the modes are its own).
"""
import hashlib
import json
import os
import random
import struct
import zlib

KEYS = {}
for _n, _k in json.load(open(os.path.join(
        os.path.dirname(os.path.abspath(__file__)), 'keys.json'))).items():
    KEYS[_n] = dict((a, b if a == 't' else int(b)) for a, b in _k.items())

HASH = {1: 'md5', 2: 'sha1', 3: 'ripemd160', 8: 'sha256', 9: 'sha384',
        10: 'sha512', 11: 'sha224'}
PREFIX = {
    1: '3020300c06082a864886f70d020505000410',
    2: '3021300906052b0e03021a05000414',
    3: '3021300906052b2403020105000414',
    8: '3031300d060960864801650304020105000420',
    9: '3041300d060960864801650304020205000430',
    10: '3051300d060960864801650304020305000440',
    11: '302d300d06096086480165030402040500041c'}
BLOCK = {1: 8, 2: 8, 3: 8, 4: 8, 7: 16, 8: 16, 9: 16, 10: 16, 11: 16, 12: 16,
         13: 16}
KEYLEN = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32, 11: 16,
          12: 24, 13: 32}


def digest(alg, data):
    if alg == 3:
        from Crypto.Hash import RIPEMD
        return RIPEMD.new(bytes(data)).digest()
    return hashlib.new(HASH[alg], bytes(data)).digest()


def n2b(n, w=None):
    w = (n.bit_length() + 7) // 8 if w is None else w
    return n.to_bytes(w, 'big')


def b2n(b):
    return int.from_bytes(bytes(b), 'big')


def mpi(n):
    return struct.pack('>H', n.bit_length()) + n2b(n)


def pkt(t, body, new=True):
    body = bytes(body)
    if not new and t < 16:
        return struct.pack('>BI', 0x80 | t << 2 | 2, len(body)) + body
    n = len(body)
    if n < 192:
        h = bytes([n])
    elif n < 8384:
        h = bytes([(n - 192 >> 8) + 192, (n - 192) & 255])
    else:
        h = struct.pack('>BI', 255, n)
    return bytes([0xc0 | t]) + h + body


# ------------------------------------------------------------------ ciphers
def ecb(alg, key):
    """The bare block encryption of a cipher."""
    from Crypto.Cipher import AES, DES3, CAST, Blowfish
    key = bytes(key)
    m = {2: DES3, 3: CAST, 4: Blowfish, 7: AES, 8: AES, 9: AES}.get(alg)
    if m is not None:
        return m.new(key, m.MODE_ECB).encrypt
    if alg == 1:
        from pgp.cipher.aidea import AIDEA
        return AIDEA(key).encrypt
    if alg == 10:
        import twofish
        return twofish.Twofish(key).encrypt
    from pgp.cipher import camcrypt_kwargs
    import camcrypt
    c = camcrypt.CamCrypt(**camcrypt_kwargs)
    c.keygen(len(key) * 8, key)
    return c.encrypt


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def cfb(alg, key, iv, data, decrypt=False):
    e, bs, reg, out = ecb(alg, key), BLOCK[alg], bytes(iv), b''
    data = bytes(data)
    for i in range(0, len(data), bs):
        part = data[i:i + bs]
        res = xor(e(reg), part)
        reg = part if decrypt else res
        out += res
    return out


def pgp_cfb(alg, key, prefix, data, resync):
    """OpenPGP's CFB: random prefix with its last two octets repeated."""
    bs = BLOCK[alg]
    head = prefix + prefix[-2:]
    if not resync:
        return cfb(alg, key, bytes(bs), head + data)
    c = cfb(alg, key, bytes(bs), head)
    return c + cfb(alg, key, c[2:2 + bs], data)


# --------------------------------------------------------------------- keys
ALG = {'rsa': 1, 'dsa': 17, 'elg': 16}
PUBF = {'rsa': 'ne', 'dsa': 'pqgy', 'elg': 'pgy'}
SECF = {'rsa': 'dpqu', 'dsa': 'x', 'elg': 'x'}


class Key(object):

    def __init__(self, name, created=1400000000, version=4, days=0, alg=None):
        self.k = KEYS[name]
        self.t = self.k['t']
        self.created, self.version, self.days = created, version, days
        self.alg = alg or ALG[self.t]

    def body(self):
        r = struct.pack('>BI', self.version, self.created)
        if self.version < 4:
            r += struct.pack('>H', self.days)
        r += bytes([self.alg])
        return r + b''.join(mpi(self.k[f]) for f in PUBF[self.t])

    def hashed(self):
        b = self.body()
        return b'\x99' + struct.pack('>H', len(b)) + b

    def fingerprint(self):
        if self.version < 4:
            return hashlib.md5(n2b(self.k['n']) + n2b(self.k['e'])).digest()
        return hashlib.sha1(self.hashed()).digest()

    def keyid(self):
        if self.version < 4:
            return n2b(self.k['n'])[-8:]
        return self.fingerprint()[-8:]

    def keyid_hex(self):
        return ''.join('%02X' % x for x in self.keyid())

    def fp_hex(self):
        return ''.join('%02X' % x for x in self.fingerprint())

    def secret_values(self):
        return [self.k[f] for f in SECF[self.t]]

    def secret_body(self, usage=254, cipher=9, s2k=(3, 8, b'saltsalt', 96),
                    password='pw', iv=None, bad=None):
        """The secret key packet's body under any protection."""
        plain = b''.join(mpi(v) for v in self.secret_values())
        ck = struct.pack('>H', sum(plain) & 0xffff)
        r = self.body()
        if usage == 0:
            return r + b'\x00' + plain + ck
        bs = BLOCK[cipher]
        iv = iv or bytes((7 * i + cipher) & 255 for i in range(bs))
        pw = password.encode('utf8')
        if usage in (254, 255):
            key = s2k_key(s2k, cipher, pw)
            r += bytes([usage, cipher]) + s2k_bytes(s2k)
        else:
            key = s2k_key((0, 1), cipher, pw)
            r += bytes([cipher])
        trailer = hashlib.sha1(plain).digest() if usage == 254 else ck
        if self.version >= 4:
            return r + iv + cfb(cipher, key, iv, plain + trailer)
        out, reg = b'', iv
        for v in self.secret_values():
            m = mpi(v)
            c = cfb(cipher, key, reg, m[2:])
            out += m[:2] + c
            reg = (reg + c)[-bs:]
        return r + iv + out + trailer

    # ---------------------------------------------------------- signatures
    def raw_sign(self, halg, data, k=None):
        d = digest(halg, data)
        if self.t == 'rsa':
            n = self.k['n']
            w = (n.bit_length() + 7) // 8
            t = bytes.fromhex(PREFIX[halg]) + d
            em = b'\x00\x01' + b'\xff' * (w - len(t) - 3) + b'\x00' + t
            return [pow(b2n(em), self.k['d'], n)], d[:2]
        if self.t == 'elg':
            return [1, 2], d[:2]    # only the form of a signature
        p, q, g, x = (self.k[f] for f in 'pqgx')
        h = dsa_h(d, q)
        rnd = random.Random(b2n(d) ^ (k or 1))
        while 1:
            k = rnd.randrange(2, q - 1)
            r = pow(g, k, p) % q
            s = pow(k, -1, q) * (h + x * r) % q if hasattr(pow, '_') else \
                inv(k, q) * (h + x * r) % q
            if r and s:
                return [r, s], d[:2]

    def raw_verify(self, halg, data, values):
        d = digest(halg, data)
        if self.t == 'rsa':
            if len(values) != 1:
                return False
            n = self.k['n']
            w = (n.bit_length() + 7) // 8
            t = bytes.fromhex(PREFIX[halg]) + d
            em = b'\x00\x01' + b'\xff' * (w - len(t) - 3) + b'\x00' + t
            return values[0] < n and pow(values[0], self.k['e'], n) == b2n(em)
        if len(values) != 2:
            return False
        p, q, g, y = (self.k[f] for f in 'pqgy')
        r, s = values
        if not (0 < r < q and 0 < s < q):
            return False
        w = inv(s, q)
        h = dsa_h(d, q)
        return pow(g, h * w % q, p) * pow(y, r * w % q, p) % p % q == r


def dsa_h(d, q):
    h = b2n(d)
    extra = len(d) * 8 - q.bit_length()
    return h >> extra if extra > 0 else h


def inv(a, m):
    g, x, b, y = a % m, 1, m, 0
    while g > 1:
        t = b // g
        g, b = b - t * g, g
        x, y = y - t * x, x
    return x % m


# -------------------------------------------------------------------- s2k
def s2k_bytes(s):
    if s[0] == 0:
        return bytes([0, s[1]])
    if s[0] == 1:
        return bytes([1, s[1]]) + s[2]
    return bytes([3, s[1]]) + s[2] + bytes([s[3]])


def s2k_key(s, cipher, pw):
    need, out, n = KEYLEN[cipher], b'', 0
    while len(out) < need:
        salt = s[2] if s[0] else b''
        data = salt + pw
        if s[0] == 3:
            count = max((16 + (s[3] & 15)) << ((s[3] >> 4) + 6), len(data))
            data = (data * (count // len(data) + 1))[:count]
        out += digest(s[1], bytes(n) + data)
        n += 1
    return out[:need]


# -------------------------------------------------------------- signatures
def sub(t, body, critical=False):
    n = len(body) + 1
    if n < 192:
        h = bytes([n])
    elif n < 16320:
        h = bytes([(n - 192 >> 8) + 192, (n - 192) & 255])
    else:
        h = struct.pack('>BI', 255, n)
    return h + bytes([t | (0x80 if critical else 0)]) + bytes(body)


def u4(n):
    return struct.pack('>I', n)


def sig_trailer(version, stype, alg, halg, hashed=b'', created=0):
    if version < 4:
        return bytes([stype]) + u4(created)
    h = bytes([4, stype, alg, halg]) + struct.pack('>H', len(hashed)) + hashed
    return h + b'\x04\xff' + u4(len(h))


def signature(signer, data, stype, halg=8, hashed=None, unhashed=b'',
              version=4, created=1400000001, issuer=None, new=True,
              body_only=False):
    """A complete signature packet over the octets `data`."""
    if hashed is None:
        hashed = sub(2, u4(created)) + sub(16, issuer or signer.keyid())
    if version < 4:
        tr = sig_trailer(3, stype, signer.alg, halg, created=created)
        v, h2 = signer.raw_sign(halg, data + tr)
        body = bytes([version, 5, stype]) + u4(created) + \
            (issuer or signer.keyid()) + bytes([signer.alg, halg])
    else:
        tr = sig_trailer(4, stype, signer.alg, halg, hashed)
        v, h2 = signer.raw_sign(halg, data + tr)
        body = bytes([4, stype, signer.alg, halg]) + \
            struct.pack('>H', len(hashed)) + hashed + \
            struct.pack('>H', len(unhashed)) + unhashed
    body += h2 + b''.join(mpi(x) for x in v)
    return body if body_only else pkt(2, body, new)


def uid_hashed(key, uid, version=4):
    if version < 4:
        return key.hashed() + uid
    return key.hashed() + b'\xb4' + u4(len(uid)) + uid


def uat_hashed(key, body, version=4):
    if version < 4:
        return key.hashed() + body
    return key.hashed() + b'\xd1' + u4(len(body)) + body


def image(data, fmt=1):
    b = b'\x10\x00\x01' + bytes([fmt]) + bytes(12) + data
    return sub(1, b)


# --------------------------------------------------------------- messages
def literal(data, fmt=b'b', name=b'f', when=1400000002, new=True):
    return pkt(11, fmt + bytes([len(name)]) + name + u4(when) + data, new)


def session_block(cipher, session, bad_sum=0):
    return bytes([cipher]) + session + struct.pack(
        '>H', (sum(session) + bad_sum) & 0xffff)


def pad2(m, w, seed=1):
    rnd = random.Random(seed)
    return b'\x00\x02' + bytes(rnd.randrange(1, 256)
                               for _ in range(w - 3 - len(m))) + b'\x00' + m


def pk_encrypt(key, m, seed=1):
    """Public-key encryption of a block: the list of integers."""
    if key.t == 'rsa':
        n = key.k['n']
        em = pad2(m, (n.bit_length() + 7) // 8, seed)
        return [pow(b2n(em), key.k['e'], n)]
    p, g, y = (key.k[f] for f in 'pgy')
    em = pad2(m, (p.bit_length() + 7) // 8, seed)
    k = random.Random(seed * 7 + 3).randrange(2, p - 2)
    return [pow(g, k, p), b2n(em) * pow(y, k, p) % p]


def pk_decrypt(key, values):
    """The block inside, or None."""
    if key.t == 'rsa':
        n = key.k['n']
        em = n2b(pow(values[0], key.k['d'], n), (n.bit_length() + 7) // 8)
    else:
        p = key.k['p']
        em = n2b(values[1] * inv(pow(values[0], key.k['x'], p), p) % p,
                 (p.bit_length() + 7) // 8)
    if em[:2] != b'\x00\x02' or b'\x00' not in em[10:]:
        return None
    return em[em.index(b'\x00', 2) + 1:]


def pkesk(key, cipher, session, keyid=None, seed=1, new=True, bad_sum=0):
    v = pk_encrypt(key, session_block(cipher, session, bad_sum), seed)
    return pkt(1, b'\x03' + (key.keyid() if keyid is None else keyid) +
               bytes([key.alg]) + b''.join(mpi(x) for x in v), new)


def skesk(cipher, s2k, pw, session=None, inner=None, new=True):
    """With a session key, `inner` is the cipher it is for."""
    body = bytes([4, cipher]) + s2k_bytes(s2k)
    key = s2k_key(s2k, cipher, pw)
    if session is not None:
        body += cfb(cipher, key, bytes(BLOCK[cipher]),
                    bytes([cipher if inner is None else inner]) + session)
    return pkt(3, body, new)


def prefix(cipher, seed=5):
    return bytes((seed + 29 * i) & 255 for i in range(BLOCK[cipher]))


def seipd(cipher, session, data, seed=5, new=True, mdc=None, body_only=False):
    pre = prefix(cipher, seed)
    head = pre + pre[-2:] + data + b'\xd3\x14'
    m = hashlib.sha1(head).digest() if mdc is None else mdc
    c = pgp_cfb(cipher, session, pre, data + b'\xd3\x14' + m, False)
    return b'\x01' + c if body_only else pkt(18, b'\x01' + c, new)


def sed(cipher, session, data, seed=5, new=True):
    return pkt(9, pgp_cfb(cipher, session, prefix(cipher, seed), data, True),
               new)


def session_key(cipher, seed=9):
    return bytes((seed + 37 * i) & 255 for i in range(KEYLEN[cipher]))


def tsk(parts, uid=b'A <a@b>', new=True, secret=True):
    """A whole transferable key; parts are (Key, protection) pairs."""
    out = b''
    prim = parts[0][0]
    for i, (k, prot) in enumerate(parts):
        t = (7 if i else 5) if secret else (14 if i else 6)
        out += pkt(t, k.secret_body(**prot) if secret else k.body(), new)
        if i == 0:
            out += pkt(13, uid, new)
            out += signature(prim, uid_hashed(prim, uid), 0x13, new=new)
        else:
            out += signature(prim, prim.hashed() + k.hashed(), 0x18, new=new)
    return out


# ------------------------------------------------------------- unframing
def parse(data):
    """[(type, body)] of definite-length or partial packets."""
    data, i, out = bytes(data), 0, []
    while i < len(data):
        h = data[i]
        i += 1
        if h & 0x40:
            t, body = h & 63, b''
            while 1:
                a = data[i]
                if a < 192:
                    n, i, more = a, i + 1, False
                elif a < 224:
                    n, i, more = (a - 192 << 8) + data[i + 1] + 192, i + 2, 0
                elif a < 255:
                    n, i, more = 1 << (a & 31), i + 1, True
                else:
                    n, i, more = b2n(data[i + 1:i + 5]), i + 5, False
                body += data[i:i + n]
                i += n
                if not more:
                    break
        else:
            t, lt = h >> 2 & 15, h & 3
            w = (1, 2, 4, 0)[lt]
            n = b2n(data[i:i + w]) if w else len(data) - i
            i += w
            body = data[i:i + n]
            i += n
        out.append((t, body))
    return out


def mpis(data):
    out, i = [], 0
    while i < len(data):
        n = (b2n(data[i:i + 2]) + 7) // 8
        out.append(b2n(data[i + 2:i + 2 + n]))
        i += 2 + n
    return out
