"""String-to-key: keys derived by the real code next to digests, by another
implementation, of the octet strings the specification prescribes."""
import hashlib
import hlib
from hlib import ints, guarded
from pgp import s2k
from Crypto.Hash import RIPEMD

DIGESTS = {1: hashlib.md5, 2: hashlib.sha1, 3: RIPEMD.new, 8: hashlib.sha256,
           9: hashlib.sha384, 10: hashlib.sha512, 11: hashlib.sha224}
assert RIPEMD.new(b'abc').hexdigest() == \
    '8eb208f7e05d987a9b044a8e98c6b087f15a0bfc'


def digest(h, d):
    x = DIGESTS[h](b'\x00' * d['zeros'])
    unit, total = bytes(bytearray(d['unit'])), d['total']
    if unit:
        block = unit * (1 + 65536 // len(unit))
        n = total // len(block)
        for _ in range(n):
            x.update(block)
        rest = total - n * len(block)
        x.update((block + unit)[:rest])
    return ints(x.digest())


def make(s, cipher):
    salt = bytearray(s['salt'])
    if s['k'] == 0:
        return s2k.SimpleS2K(s['hash'], cipher)
    if s['k'] == 1:
        return s2k.SaltedS2K(s['hash'], cipher, salt)
    c = s['count']
    return s2k.IteratedAndSaltedS2K(s['hash'], cipher, salt,
                                    (16 + (c & 15)) << ((c >> 4) + 6))


def derived(x, p):
    res, k = guarded(x.to_key, p)
    return ints(k) if res == 'ok' and k else []


def handle(sc):
    s, c, p = sc['s2k'], sc['cipher'], bytes(bytearray(sc['pass']))
    r = {'key': sc['key'], 's2k': s, 'cipher': c, 'got': [], 'spec': [],
         'again': [], 'digests': [digest(s['hash'], d) for d in sc['inputs']]}
    x = make(s, c)
    r['res'], k = guarded(x.to_key, p)
    if r['res'] == 'ok':
        r['got'] = ints(k)
    res, raw = guarded(lambda: bytes(x))
    if res == 'ok':
        r['spec'] = ints(raw)
        data = bytearray(b'\x07') + bytearray(raw) + bytearray(b'\x01\x02')
        res, v = guarded(s2k.parse_s2k_bytes, c, data, 1)
        if res == 'ok' and v[1] == len(data) - 2:
            r['again'] = derived(v[0], p)
    r['twice'] = derived(x, p) \
        if max([d['total'] for d in sc['inputs']]) < 100000 else r['got']
    return r


hlib.run(handle)
