import io
import hlib
from pgp.packets import parsers
from pgp.packets import packets as P
from pgp.packets import constants as C

UNIT = bytes(range(1, 252))


def pat(n):
    return (UNIT * (n // 251 + 1))[:n]


def build(atoms):
    """Octets of the stream; every packet body restarts the pattern, and a
    body split over several runs continues it (the reader must join them)."""
    out = bytearray()
    pos = 0
    spans = []
    for k, v in atoms:
        if k == 0:
            out.append(v)
        else:
            spans.append((len(out), v))
            out.extend(b'\0' * v)
    return out, spans


def fill(out, spans, atoms):
    """Fill the runs: a run continues the previous one when exactly the
    partial-length chain says so, i.e. the run is preceded by one literal of
    a partial chain.  Walk the literals as a reader would."""
    pos = [0]
    i = 0
    n = len(atoms)
    flat = out
    off = 0
    cont = 0
    idx = 0
    while idx < n:
        # tag
        if atoms[idx][0] != 0:
            break
        tag = atoms[idx][1]
        idx += 1
        off += 1
        cont = 0
        if tag >= 192:
            more = True
            while more and idx < n and atoms[idx][0] == 0:
                b = atoms[idx][1]
                if b < 192:
                    h, more, ln = 1, False, b
                elif b < 224:
                    h, more, ln = 2, False, 1
                elif b == 255:
                    h, more, ln = 5, False, 1
                    ln = 0
                    for q in range(1, 5):
                        if idx + q < n and atoms[idx + q][0] == 0:
                            ln = (ln << 8) | atoms[idx + q][1]
                else:
                    h, more, ln = 1, True, 1
                idx += h
                off += h
                if idx < n and atoms[idx][0] == 1 and ln:
                    v = atoms[idx][1]
                    flat[off:off + v] = pat(cont + v)[cont:]
                    cont += v
                    off += v
                    idx += 1
        else:
            w = {0: 1, 1: 2, 2: 4, 3: 0}[tag & 3]
            idx += w
            off += w
            if idx < n and atoms[idx][0] == 1:
                v = atoms[idx][1]
                flat[off:off + v] = pat(v)
                off += v
                idx += 1
    return flat


def fmt(p):
    return {C.NEW_PACKET_HEADER_TYPE: 'new',
            C.OLD_PACKET_HEADER_TYPE: 'old'}.get(p.header_format, '?')


def project(pkts):
    res = []
    for p in pkts:
        body = bytes(p.content)
        res.append([fmt(p), int(p.type), len(body),
                    1 if body == pat(len(body)) else 0])
    return res


def handle(sc):
    if sc['kind'] == 'read':
        data, spans = build(sc['s'])
        data = bytes(fill(data, spans, sc['s']))
        if sc['reader'] == 'data':
            res, pk = hlib.guarded(
                lambda: project(list(parsers.parse_binary_packet_data(data))))
        else:
            res, pk = hlib.guarded(
                lambda: project(list(
                    parsers.parse_binary_packet_stream(io.BytesIO(data)))))
        return {'kind': 'read', 's': sc['s'], 'res': res,
                'pk': pk if res == 'ok' else [],
                'key': sc['reader'] + ' ' + sc['key']}
    atoms = []
    res = 'ok'
    for f, t, n in sc['pk']:
        hf = (C.NEW_PACKET_HEADER_TYPE if f == 'new'
              else C.OLD_PACKET_HEADER_TYPE)
        body = pat(n)
        if t == 9:
            mk = lambda: bytes(P.SymmetricallyEncryptedDataPacket(hf, body))
        else:
            mk = lambda: bytes(P.Packet(hf, t, bytearray(body)))
        r, b = hlib.guarded(mk)
        if r != 'ok':
            res = r
            break
        if n and b.endswith(body):
            h, tail = b[:len(b) - n], [[1, n]]
        else:
            h, tail = b, []
        if len(h) > 64:
            res = 'garbled'
            break
        atoms.extend([[0, x] for x in bytearray(h)])
        atoms.extend(tail)
    return {'kind': 'write', 'pk': sc['pk'], 's': atoms, 'res': res}


hlib.run(handle)
