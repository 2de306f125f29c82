"""Text and binary signatures over texts in every form a document can have."""
import datetime
import hlib
from hlib import ints, guarded
import pgpkit as P
from pgp import shortcuts
from pgp import message as M
from pgp.packets import parse_binary_packet_data
from pgp.signature import BaseSignature

SIGNER = P.Key('rsaA')
PROT = dict(usage=0)
SEC = shortcuts.read_key(P.tsk([(SIGNER, PROT)]))
SEC.unlock('')
PUB = shortcuts.read_key(P.tsk([(SIGNER, PROT)], secret=False))
WHEN = datetime.datetime.fromtimestamp(1400000002)


def literal(fmt):
    def make(data):
        return M.open_pgp_message_from_packets(
            parse_binary_packet_data(P.literal(data, fmt=fmt)))
    return make



FORMS = [('octets', bytes, False), ('string', lambda d: d.decode('utf8'), True),
         ('TextMessage', lambda d: M.TextMessage(d.decode('utf8'), 'f', WHEN),
          True),
         ('BinaryMessage', lambda d: M.BinaryMessage(d, 'f', WHEN), False),
         ('literal u', literal(b'u'), True), ('literal t', literal(b't'), False),
         ('literal b', literal(b'b'), False)]


def sign(item, version, stype):
    sig = SEC.sign(item, version, stype, 8)
    t, body = P.parse(bytes(sig.to_packet()))[0]
    if version < 4:
        created, hashed, vals = P.b2n(body[3:7]), b'', body[19:]
    else:
        n = P.b2n(body[4:6])
        hashed, created = body[6:6 + n], 0
        m = P.b2n(body[6 + n:8 + n])
        vals = body[8 + n + m + 2:]
    return P.sig_trailer(version, stype, SIGNER.alg, 8, hashed, created), \
        P.mpis(vals)


def verify(sig, item):
    if not PUB.verify(sig, item):
        raise ValueError
    return True


def handler(sc):
    text = bytes(bytearray(sc['text']))
    canon = bytes(bytearray(sc['canon']))
    made, seen = [], []
    forms = [f for f in FORMS if sc['utf8'] or not f[2]]
    for name, make, _ in forms:
        for version in (3, 4):
            for stype in (0, 1):
                st, v = guarded(lambda: sign(make(text), version, stype))
                o = {'form': name, 'version': version, 'type': stype,
                     'res': 'ok' if st == 'ok' else v or st,
                     'canon': False, 'raw': False}
                if st == 'ok':
                    o['canon'] = SIGNER.raw_verify(8, canon + v[0], v[1])
                    o['raw'] = SIGNER.raw_verify(8, text + v[0], v[1])
                made.append(o)
    for version in (3, 4):
        for stype in (0, 1):
            pkt = P.signature(SIGNER, canon if stype else text, stype,
                              version=version)
            for name, make, utf8 in forms:
                for j, var in enumerate(sc['variants']):
                    var = bytes(bytearray(var))
                    try:
                        var.decode('utf8')
                    except ValueError:
                        if utf8:
                            continue
                    target = PUB
                    sig = BaseSignature.from_packet(
                        list(parse_binary_packet_data(pkt))[0], target)
                    st, v = guarded(lambda: verify(sig, make(var)))
                    seen.append({'form': name, 'version': version, 'v': j + 1,
                                 'type': stype, 'res': 'ok' if st == 'ok'
                                 else v or st})
    return {'text': sc['text'], 'canon': sc['canon'],
            'variants': sc['variants'], 'made': made, 'seen': seen}


hlib.run(handler)
