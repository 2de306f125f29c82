import json, random
from Crypto.PublicKey import RSA, DSA, ElGamal
from Crypto import Random
r = Random.new().read
out = {}
for name, bits in (('rsaA', 1024), ('rsaB', 1024), ('rsaC', 1025), ('rsaE', 1024), ('rsaF', 1024), ('rsa768', 1031)):
    while 1:
        try:
            k = RSA.generate(bits, r) if bits % 256 == 0 else None
        except ValueError:
            k = None
        if k is None:
            # odd sizes by hand
            from Crypto.Util import number
            while 1:
                p = number.getPrime(bits // 2, r); q = number.getPrime(bits - bits // 2, r)
                n = p * q
                if n.bit_length() == bits and number.GCD(65537, (p-1)*(q-1)) == 1:
                    break
            if p > q: p, q = q, p
            d = number.inverse(65537, (p-1)*(q-1))
            out[name] = dict(t='rsa', n=n, e=65537, d=d, p=p, q=q, u=number.inverse(p, q))
        else:
            p, q = k.p, k.q
            if p > q: p, q = q, p
            from Crypto.Util import number
            out[name] = dict(t='rsa', n=k.n, e=k.e, d=k.d, p=p, q=q, u=number.inverse(p, q))
        break
from Crypto.Util import number
def dsa(pbits, qbits):
    while 1:
        q = number.getPrime(qbits, r)
        for _ in range(4000):
            x = number.getRandomNBitInteger(pbits, r)
            p = x - (x % (2 * q)) + 1
            if p.bit_length() == pbits and number.isPrime(p):
                h = 2
                while 1:
                    g = pow(h, (p - 1) // q, p)
                    if g > 1: break
                    h += 1
                x = number.getRandomRange(2, q - 1, r)
                return dict(t='dsa', p=p, q=q, g=g, y=pow(g, x, p), x=x)
out['dsaA'] = dsa(1024, 160)
out['dsaB'] = dsa(1024, 160)
out['dsaQ224'] = dsa(1024, 224)
out['dsaQ256'] = dsa(1024, 256)
def elg(bits):
    p = None
    while 1:
        q = number.getPrime(160, r)
        for _ in range(3000):
            x = number.getRandomNBitInteger(bits, r)
            p = x - (x % (2 * q)) + 1
            if p.bit_length() == bits and number.isPrime(p):
                g = 5
                x = number.getRandomRange(2, p - 2, r)
                return dict(t='elg', p=p, g=g, y=pow(g, x, p), x=x)
out['elgA'] = elg(768)
out['elgB'] = elg(769)
json.dump({k: {a: (b if a == 't' else str(b)) for a, b in v.items()} for k, v in out.items()}, open('/tmp/w/harness/keys.json', 'w'), indent=1)
print({k: (v.get('n') or v['p']).bit_length() for k, v in out.items()})
