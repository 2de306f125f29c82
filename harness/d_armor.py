import hlib
from hlib import ints, guarded, text
from pgp import armor

KNOWN = {'Version': 'version', 'Comment': 'comment', 'MessageID': 'message_id',
         'Hash': 'hash_algorithms', 'Charset': 'charset'}
TYPES = {1: armor.PGP_MESSAGE, 2: armor.PGP_PUBLIC_KEY_BLOCK,
         3: armor.PGP_PRIVATE_KEY_BLOCK, 4: armor.PGP_SIGNATURE}
BACK = {v: k for k, v in TYPES.items()}


def s(a):
    return ''.join(map(chr, a))


def build(o):
    kw, extra = {}, {}
    for k, v in o['heads']:
        if s(k) in KNOWN:
            kw[KNOWN[s(k)]] = s(v)
        else:
            extra[s(k)] = s(v)
    if extra:
        kw['extra_headers'] = extra
    if o['part']:
        kw['part'] = o['part'][0]
    if o['total']:
        kw['total_parts'] = o['total'][0]
    return armor.ASCIIArmor(TYPES[o['type']], bytes(bytearray(o['data'])),
                            **kw)


def view(a):
    heads = [[text(k), text(getattr(a, v))] for k, v in KNOWN.items()
             if getattr(a, v) is not None]
    ex = a.extra_headers or {}
    ex = ex.items() if hasattr(ex, 'items') else ex
    heads += [[text(k), text(v)] for k, v in ex]
    return {'type': BACK[a.data_type], 'data': ints(bytes(a)), 'heads': heads,
            'part': [] if a.part is None else [a.part],
            'total': [] if a.total_parts is None else [a.total_parts]}


def write(sc):
    a = build(sc['o'])
    t = str(a)
    same = view(a)
    ok = (same['data'] == sc['o']['data'] and str(a) == t)
    return {'text': text(t), 'same': ok}


def read(sc):
    return {'got': view(armor.ASCIIArmor.from_ascii(s(sc['text'])))}


def handle(sc):
    res, out = guarded(write if sc['kind'] == 'write' else read, sc)
    r = dict(sc)
    if res == 'ok':
        r.update(out)
    if sc['kind'] != 'write':
        r['text'] = []
    r['res'] = res
    return r


hlib.run(handle)
