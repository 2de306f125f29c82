"""Compression and decompression, whole and in pieces."""
import bz2
import datetime
import zlib
import hlib
from hlib import ints, guarded, text
import pgpkit as K
from pgp import message, utils
from pgp import packets as P


def fill(kind, n):
    if kind == 'zero':
        return bytes(n)
    if kind == 'text':
        return (b'The quick brown fox jumps. %d\n' * (n // 20))[:n]
    out, x = bytearray(n), 12345
    for i in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out[i] = x >> 16 & 255
    return bytes(out)


def pieces(data, how):
    i = k = 0
    while i < len(data):
        n = how[k % len(how)]
        k += 1
        yield data[i:i + n]
        i += n
    if not data:
        yield data


def unpack(alg, data):
    """The peer's view of a stream."""
    data = bytes(data)
    if alg == 0:
        return data
    d = {1: lambda: zlib.decompressobj(-15), 2: zlib.decompressobj,
         3: bz2.BZ2Decompressor}[alg]()
    r = d.decompress(data)
    if not d.eof or d.unused_data:
        return None
    return r


def feed(obj, method, data, how):
    out = b''
    for p in pieces(data, how):
        out += bytes(getattr(obj, method)(p))
    return out + bytes(obj.flush())


def level(sc):
    return None if sc['level'] == 99 else sc['level']


def write(sc, data, rec):
    if sc['level'] == 99 and sc['n'] % 2:
        obj = utils.get_compression_instance(sc['alg'])
    else:
        obj = utils.get_compression_instance(sc['alg'], level(sc))
    s = feed(obj, 'compress', data, sc['how'])
    rec['peer'] = guarded(unpack, sc['alg'], s) == ('ok', data)
    rec['stream'] = s
    st, v = guarded(feed, utils.get_compression_instance(sc['alg']),
                    'decompress', s, sc['back'])
    rec['back'] = 'same' if (st, v) == ('ok', data) else \
        (v if st == 'err' else 'other data')


def through_message(sc, data, rec):
    m = message.BinaryMessage(data, 'f',
                              datetime.datetime(2014, 5, 6, 7, 8, 9))
    if sc['level'] == 99 and sc['n'] % 2:
        c = message.CompressedMessageWrapper(sc['alg'], message=m)
    else:
        c = m.compress(sc['alg'], level(sc))
    octets = b''.join(bytes(p) for p in c.to_packets())
    (t, body), = K.parse(octets)
    rec['stream'] = body[1:]
    lit = b''.join(bytes(p) for p in m.to_packets())
    rec['data'] = ints(lit)
    rec['peer'] = t == 8 and body[0] == sc['alg'] and guarded(
        unpack, sc['alg'], body[1:]) == ('ok', lit)

    def back():
        w = message.open_pgp_message_from_packets(
            P.parse_binary_packet_data(octets))
        return bytes(bytearray(w.get_message().data))
    st, v = guarded(back)
    rec['back'] = 'same' if (st, v) == ('ok', data) else \
        (v if st == 'err' else 'other data')


def read(alg, how, s):
    st, v = guarded(feed, utils.get_compression_instance(alg), 'decompress',
                    bytes(bytearray(s)), how)
    return {'res': st if st != 'err' else v, 'out': ints(v)
            if st == 'ok' else []}


def handler(sc):
    rec = {'op': sc['op'], 'alg': sc['alg'], 'res': 'ok', 'peer': False,
           'back': '', 'stream': b'', 'data': sc['data']}
    if sc['op'] == 'read':
        rec['stream'] = []
        rec['streams'] = sc['streams']
        rec['outs'] = [read(sc['alg'], sc['back'], s) for s in sc['streams']]
        return rec
    data = fill(sc['fill'][0], int(sc['fill'][1])) if sc['fill'][0] else \
        bytes(bytearray(sc['data']))
    st, v = guarded(write if sc['op'] == 'write' else through_message, sc,
                    data, rec)
    if st != 'ok':
        rec['res'] = v or st
    s = bytes(rec['stream'])
    rec['short'] = not sc['fill'][0]
    rec['stream'] = ints(s) if rec['short'] else []
    return rec


hlib.run(handler)
