import hlib
from hlib import be, unbe, ints, guarded, text
from pgp import utils
from pgp.crc24 import crc24


def mpi(sc):
    v = unbe(sc['v'])
    enc = ints(utils.int_to_mpi(v))
    data = bytearray([7, 0] + enc + sc['post'])
    back, off = utils.mpi_to_int(data, 2)
    plain = ints(utils.int_to_bytes(v)) if v else []
    pb = utils.bytes_to_int(bytearray([9] + sc['v']), 1, len(sc['v']))
    return {'enc': enc, 'back': be(back), 'used': off - 2, 'plain': plain,
            'plainback': be(pb)}


def refuse(sc):
    return {'enc': ints(utils.int_to_mpi(1 << sc['k'] if sc['k'] else -1))[:9]}


def mpiread(sc):
    back, off = utils.mpi_to_int(bytearray([1] + sc['d']), 1)
    return {'back': be(back), 'used': off - 1}


def count(sc):
    v = utils.s2k_count_to_int(sc['c'])
    return {'v': v, 'back': ints(utils.int_to_s2k_count(v))}


def badcount(sc):
    return {'back': ints(utils.int_to_s2k_count(sc['v']))}


def fixed(sc):
    v = unbe(sc['v'])
    w = sc['w']
    if w == 1:
        return {'enc': [], 'back': be(utils.byte_to_int(
            bytearray([5, v, 6]), 1))}
    enc = ints({2: utils.int_to_2byte, 4: utils.int_to_4byte,
                8: utils.int_to_8byte}[w](v))
    data = bytearray([5] + enc + [6])
    rd = {2: utils.short_to_int, 4: utils.long_to_int,
          8: lambda d, o: utils.bytes_to_int(d, o, 8)}[w]
    return {'enc': enc, 'back': be(rd(data, 1))}


def hex_(sc):
    v = unbe(sc['v'])
    return {'min': text(utils.int_to_hex(v)),
            'padded': text(utils.int_to_hex(v, sc['size']))}


def hexb(sc):
    b = bytearray(sc['v'])
    h = utils.bytearray_to_hex(b)
    pre = bytearray(range(sc['off']))
    part = utils.bytearray_to_hex(pre + b + bytearray([1, 2]), sc['off'],
                                  2 * len(b))
    return {'all': text(h), 'part': text(part) if len(b) else text(h),
            'back': ints(utils.hex_to_bytes(h)),
            'backpad': ints(utils.hex_to_bytes(h, len(b) + 3))}


def crc(sc):
    return {'crc': int(crc24(bytes(bytearray(sc['v']))))}


F = {'mpi': mpi, 'mpirefuse': refuse, 'mpiread': mpiread, 'count': count,
     'badcount': badcount, 'fixed': fixed, 'hex': hex_, 'hexb': hexb,
     'crc': crc}


def handle(sc):
    res, out = guarded(F[sc['kind']], sc)
    r = dict(sc)
    if res == 'ok':
        r.update(out)
    r['res'] = res
    return r


hlib.run(handle)
