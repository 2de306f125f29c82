"""Objects made from octets and from fields are compared with each other."""
import operator
import hlib
from hlib import guarded
import d_packets
import d_subpackets
from pgp import s2k, signature
from pgp.packets import packets as P
from pgp.packets import signature_subpackets as SS
from pgp.packets import user_attribute_subpackets as UA


def read(what, f, octs):
    data = bytearray(octs)
    if what == 'packet':
        return d_packets.parse(f, data[1:])
    if what == 'signature':
        return signature.BaseSignature.from_packet(
            d_packets.parse(f, data[1:]), None)
    if what == 'sub':
        return SS.signature_subpacket_from_data(data)[0]
    if what in ('notation', 'revkey'):
        n = len(data) + 1
        area = bytearray([255, 0, 0, n >> 8, n & 255, f['ty']]) + data
        sub = SS.signature_subpacket_from_data(area)[0]
        cls = signature.Notation if what == 'notation' \
            else signature.RevocationKeyInfo
        return cls.from_subpacket(sub)
    if what == 's2k':
        return s2k.parse_s2k_bytes(9, data)[0]
    return UA.user_attribute_subpacket_from_data(data)[0]


def make(what, f, got):
    """The same from its fields; None where there is no such way."""
    if what == 'packet':
        # a marker that says something else is said to be an old literal
        if f['t'] in (10, 12, 17) or (f['t'] == 3 and f['version'] != 4):
            return None
        return d_packets.build(f, got)
    if what == 'sub':
        if f['form'] != (1 if len(got.content) < 191 else
                         2 if len(got.content) < 8383 else 5):
            return None
        return d_subpackets.build(f, got)
    if what == 's2k':
        return d_packets.s2k_make(f, 9)
    if what == 'notation':
        if any(0xdc80 <= x <= 0xdcff for k in ('name', 'ns', 'value')
               for x in f[k]):
            return None
        s = d_packets.s
        return signature.Notation(
            None if f['ns'] == [-1] else s(f['ns']), s(f['name']),
            s(f['value']) if f['flag'] else bytearray(f['value']), f['flag'])
    if what == 'revkey':
        return signature.RevocationKeyInfo(
            f['algo'], d_packets.hexs(f['fpr']), f['flag'])
    return None


def truth(fn, a, b):
    res, v = guarded(fn, a, b)
    if res != 'ok':
        return v if res == 'hang' else 'error'
    return 'T' if v is True else 'F' if v is False else 'not a truth value'


def compare(a, b):
    r = {'eq': truth(operator.eq, a, b), 'qe': truth(operator.eq, b, a),
         'ne': truth(operator.ne, a, b), 'en': truth(operator.ne, b, a)}
    x, y = guarded(hash, a), guarded(hash, b)
    r['hash'] = 'none' if x[0] != 'ok' or y[0] != 'ok' else \
        'same' if x[1] == y[1] else 'differs'
    return r


def handle(sc):
    what = sc['what']
    r = {'what': what, 'key': sc['key'], 'items': sc['items'], 'made': 'ok',
         'pairs': [], 'twins': [], 'built': [], 'foreign': []}
    objs = []
    for f, o in zip(sc['items'], sc['octs']):
        res, x = guarded(read, what, f, o)
        if res == 'ok':
            res, y = guarded(read, what, f, o)
        if res == 'ok':
            res, z = guarded(make, what, f, x)
        if res != 'ok':
            r['made'] = res
            return r
        objs.append(x)
        r['twins'].append(compare(x, y))
        r['built'].append({'eq': 'none'} if z is None else compare(x, z))
    r['pairs'] = [compare(objs[0], x) for x in objs]
    for w, x in (('nothing', None), ('number', 0), ('text', 'x'),
                 ('octets', b''), ('object', object()), ('list', [])):
        r['foreign'].append(dict(compare(objs[0], x), w=w))
    return r


hlib.run(handle)
