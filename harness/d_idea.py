"""The built-in IDEA, directly and through its cipher module."""
import hlib
from hlib import ints, guarded
from pgp.cipher import aidea
from pgp import utils


def both(sc):
    k, b = bytes(bytearray(sc['k'])), bytes(bytearray(sc['b']))
    c = aidea.AIDEA(k)
    e, d = c.encrypt(b), c.decrypt(b)
    # the object keeps no state: again, in the other order
    same = (c.decrypt(b), c.encrypt(b)) == (d, e)
    m = aidea.new(k, aidea.MODE_ECB)
    u = utils.get_symmetric_cipher(1, k, utils.CFB, bytes(8))
    same = same and m.encrypt(b) == e and m.decrypt(b) == d
    same = same and u.encrypt(bytes(8)) == aidea.AIDEA(k).encrypt(bytes(8))
    return e, d, same


def handler(sc):
    st, v = guarded(both, sc)
    r = {'k': sc['k'], 'b': sc['b'], 'res': st if st == 'ok' else str(v)}
    if st == 'ok':
        r.update(enc=ints(v[0]), dec=ints(v[1]), modes=v[2])
    return r


hlib.run(handler)
