"""Packet sequences of transferable keys, read, changed and written."""
import hlib
from hlib import guarded
import pgpkit as P
import ways
from pgp import shortcuts
from pgp.transferrable_keys import UserID

TYPES = {'d': 0x1f, 'r': 0x20, 'x': 0x30, 'b': 0x18, 'v': 0x28, 'o': 0}
CERT = (0x10, 0x11, 0x12, 0x13)
PROT = dict(usage=254, cipher=7, s2k=(0, 8))
_secret = {}


def secret_body(name, created, version, days):
    k = P.Key(name, created=created, version=version, days=days)
    at = name, version
    if at not in _secret:
        z = P.Key(name, version=version)
        _secret[at] = z.secret_body(**PROT)[len(z.body()):]
    return k.body() + _secret[at]


def sig_body(t, j, ver):
    """A signature in form only; made out by its time."""
    when = P.u4(1400000100 + j)
    st = TYPES[t] if t in TYPES else CERT[j % 4]
    if ver < 4:
        return bytes([ver, 5, st]) + when + bytes(7) + b'\x09' + \
            b'\x01\x08' + b'\x12\x34' + P.mpi(1000 + j)
    h = P.sub(2, when) + P.sub(16, bytes(7) + b'\x09')
    return bytes([4, st, 1, 8, 0, len(h)]) + h + b'\0\0' + b'\x12\x34' + \
        P.mpi(1000 + j)


def bodies(sc):
    """(type, body, body in a public key) of every token"""
    out = []
    for j, t in enumerate(sc['toks'], 1):
        sec = sc['secret']
        if t in 'KkSs':
            name = 'rsaA' if t in 'Kk' else 'rsaE' if j % 2 else 'elgA'
            if t in 's':
                sec = not sec
            v = sc['version'] if t in 'Kk' else 4
            # keys of old versions say themselves for how many days
            days = 300 + j if v < 4 and sc['n'] % 3 else 0
            k = P.Key(name, created=1400000000 + j, version=v, days=days)
            typ = (5 if sec else 6) if t in 'Kk' else (7 if sec else 14)
            out.append((typ, secret_body(name, 1400000000 + j, v, days)
                        if sec else k.body(), k.body()))
        elif t == 'U':
            b = ('Name %d \u00e9 <n%d@example.org>' % (j, j)).encode('utf8')
            out.append((13, b, b))
        elif t == 'A':
            b = P.image(b'\xff\xd8\xff\xe0' + bytes([j]) * 40)
            out.append((17, b, b))
        elif t == 'T':
            out.append((12, b'\x3c', b''))
        elif t == 'L':
            b = P.literal(b'x')
            out.append((11, P.parse(b)[0][1], b''))
        else:
            b = sig_body(t, j, sc['version'] if sc['version'] < 4 else
                         3 if j % 5 == 4 else 4)
            out.append((2, b, b))
    return out


def positions(data, known):
    out = []
    for p in P.parse(data):
        if p[0] == 13 and p[1].startswith(b'Added '):
            out.append(90 + int(p[1][6:7]))
        else:
            out.append(known.get((p[0], bytes(p[1])), 0))
    return out


def wire(obj, fmt=None):
    return b''.join(bytes(p) for p in obj.to_packets(fmt))


def edit(key, e):
    lst = {'U': key.user_ids, 'A': key.user_attributes, 'S': key.subkeys,
           'K': [key]}[e['kind']]
    i = e['n'] - 1
    if e['op'] == 'drop':
        del lst[i]
    elif e['op'] == 'swap':
        lst[i], lst[i + 1] = lst[i + 1], lst[i]
    elif e['op'] == 'unsign':
        del lst[i].signatures[0]
    elif e['op'] == 'resign':
        lst[i].signatures.append(lst[i].signatures[0])
    elif e['op'] == 'name':
        key.user_ids.append(UserID(key, 'Added %d' % e['n']))


def comps(key, known):
    def pos(o):
        return positions(bytes(o.to_packet()), known)[0]
    out = []
    for kind, lst in (('K', [key]), ('U', key.user_ids),
                      ('A', key.user_attributes), ('S', key.subkeys)):
        for c in lst:
            if kind != 'K' and c.primary_public_key is not key:
                raise RuntimeError('component of another key')
            out.append({'kind': kind, 'pos': pos(c),
                        'sigs': [pos(s) for s in c.signatures]})
    return out


def all_headers(data, new):
    """Whether all packets have that header format."""
    i = 0
    for t, b in P.parse(data):
        is_new = bool(data[i] & 0x40)
        if is_new != (new or t > 15):
            return False
        n = 1 << (data[i] & 3)
        if is_new:
            n = 1 if len(b) < 192 else 2 if len(b) < 8384 else 5
        i += 1 + n + len(b)
    return i == len(data)


def armored(text, known):
    import base64
    lines = text.splitlines()
    label = lines[0].strip('-')[len('BEGIN PGP '):]
    if lines[-1].strip() != '-----END PGP %s-----' % label:
        label += ' unmatched'
    body = lines[lines.index('') + 1:-1]
    return label, positions(base64.b64decode(''.join(
        x for x in body if not x.startswith('='))), known)


def handler(sc):
    out = {k: sc[k] for k in ('toks', 'edits', 'secret', 'version')}
    out.update(res='ok', comps=[], written=[], serial=[], headers=True,
               armor='', armored=[], filed=[], way=0, public=[], pubres='', leak=False,
               after=[])
    pk = bodies(sc)
    new = sc['n'] % 3 > 0
    data = b''.join(P.pkt(t, b, new) for t, b, _ in pk)
    known = {(t, b): j for j, (t, b, _) in enumerate(pk, 1)}
    pub = {({5: 6, 7: 14}.get(t, t), p): j
           for j, (t, _, p) in enumerate(pk, 1)}
    # in one of the ways to hand it over
    kind = 'PRIVATE KEY BLOCK' if sc['secret'] else 'PUBLIC KEY BLOCK'
    out['way'] = sc['n'] // 3 % ways.COUNT
    st, key = guarded(ways.read, shortcuts.read_key, shortcuts.read_key_file,
                      data, kind, out['way'])
    if st != 'ok':
        out['res'] = key or st
        return out

    def look():
        out['comps'] = comps(key, known)
        for e in sc['edits']:
            edit(key, e)
        w = wire(key)
        out['written'] = positions(w, known)
        if not sc['edits']:
            out['headers'] = all_headers(w, new)
        for fmt in (2, 1):
            w = wire(key, fmt)
            out['headers'] = out['headers'] and all_headers(w, fmt == 1) and \
                positions(w, known) == out['written']
        out['serial'] = positions(bytes(shortcuts.serialize_key(key)), known)
        out['armor'], out['armored'] = armored(
            shortcuts.serialize_key(key, armored=True), known)
        w = ways.written(lambda name: shortcuts.write_key_file(
            key, name, *[(), (True,)][sc['n'] % 2]))
        out['filed'] = positions(w, known) if sc['n'] % 2 == 0 else \
            armored(w.decode('ascii'), known)[1]
        if sc['secret']:
            def convert():
                p = key.to_public_key()
                return p, wire(p)
            st, v = guarded(convert)
            out['pubres'] = '' if st == 'ok' else v or st
            if st == 'ok':
                w = v[1]
                out['public'] = positions(w, pub)
                out['leak'] = any(
                    bytes(b[len(q):])[-24:] in w for t, b, q in pk
                    if t in (5, 7)) or any(
                        t in (5, 7) for t, _ in P.parse(w))
                for c in [v[0]] + list(v[0].user_ids) + list(
                        v[0].user_attributes) + list(v[0].subkeys):
                    for s in c.signatures:
                        s.creation_time = s.creation_time.replace(year=2031)
                        if s.version > 3:
                            s.policy_uri = 'http://policy/'
                            s.issuer_key_ids = ['0123456789ABCDEF']
                if v[0].user_ids:
                    # changing one doesn't change the other
                    v[0].user_ids[0].signatures.append(None)
                    v[0].user_ids.append(None)
            out['after'] = positions(wire(key), known)
    st, v = guarded(look)
    if st != 'ok':
        out['written'] = [0]
        out['pubres'] = v or st
    return out


hlib.run(handler)
