"""Messages for keys and passphrases, and who opens them."""
import datetime
import hashlib
import hlib
from hlib import guarded
import pgpkit as P
from pgp import message as M
from pgp import shortcuts

PROT = dict(usage=0)
LOCK = dict(usage=254, cipher=9, s2k=(3, 8, b'saltsalt', 0), password=b'x')
SUBS = ('rsaE', 'rsaF', 'elgA', 'elgB', 'rsa768', 'only')
PW = {'p': 'pass', 'q': 'p\u00e4ss\u20ac', 'r': 'other', '': ''}
KEYS = {n: P.Key(n) for n in SUBS[:-1] + ('rsaA',)}
# RSA, but for encryption only
KEYS['only'] = P.Key('rsaB', alg=2)
_own = {}


def own(kind):
    if kind not in _own:
        parts = [(KEYS['rsaA'], LOCK if kind == 'locked' else PROT)] + [
            (KEYS[n], LOCK if kind == 'locked' else PROT) for n in SUBS]
        k = shortcuts.read_key(P.tsk(parts, secret=kind != 'public'))
        if kind == 'key':
            k.unlock('')
        _own[kind] = dict(zip(('rsaA',) + SUBS, [k] + list(k.subkeys)))
        _own[kind]['top'] = k
    return _own[kind]


def salt(n):
    return bytes((n * 31 + i) & 255 for i in range(8))


def s2k(s):
    t = s['s2k']
    return (t, s['digest']) + ((salt(1),) if t else ()) + (
        (s['count'],) if t == 3 else ())


def lib(s, text):
    m = M.BinaryMessage(text, 'f', datetime.datetime.fromtimestamp(1400000002))
    session = P.session_key(s['cipher']) if s['given'] else None
    k = s['slots'][0]['k']
    if k == 'sym':
        coded = s['count']
        w = m.symmetric_encrypt(
            s['cipher'], PW[s['slots'][0]['who']], integrity_protect=s['ip'],
            s2k_type=s['s2k'], s2k_hash_algorithm=s['digest'],
            s2k_symmetric_algorithm=None if s['kc'] == 9 else s['kc'],
            s2k_salt=salt(1),
            s2k_count=(16 + (coded & 15)) << ((coded >> 4) + 6))
    elif k == 'default':
        pw = PW[s['slots'][0]['who']].encode('utf8')
        w = M.EncryptedMessageWrapper(
            [M.DefaultSessionKey()], M.SymmetricallyEncryptedMessageData(
                1, hashlib.md5(pw).digest(),
                b''.join(map(bytes, m.to_packets())),
                integrity_protected=s['ip'], version=1))
    else:
        pub = own('public')
        vis = [pub[x['who']] for x in s['slots'] if x['k'] == 'pub']
        hid = [pub[x['who']] for x in s['slots'] if x['k'] == 'hid']
        kw = {}
        if len(vis) == 1 and not hid:
            kw['public_key'] = vis[0]
        elif vis:
            kw['public_keys'] = vis
        if hid:
            kw['hidden_public_keys'] = hid
        w = m.public_key_encrypt(s['cipher'], session_key=session,
                                 integrity_protect=s['ip'], **kw)
    return b''.join(map(bytes, w.to_packets()))


def short_pkesk(key, cipher, session, keyid, short, n):
    """With a leading zero octet in an encrypted value, if asked for."""
    w = (key.k['n' if key.t == 'rsa' else 'p'].bit_length() + 7) // 8
    for seed in range(n, n + 4000):
        v = P.pk_encrypt(key, P.session_block(cipher, session), seed)
        if not short or min(v) >> (8 * w - 8) == 0:
            break
    else:
        raise RuntimeError('no short one')
    return P.pkt(1, b'\x03' + keyid + bytes([key.alg]) +
                 b''.join(P.mpi(x) for x in v))


def peer(s, text, n):
    c = s['cipher']
    session = P.session_key(c, n & 255)
    inner = P.literal(text)
    out = b''
    for i, sl in enumerate(s['slots']):
        k, who = sl['k'], sl['who']
        if k in ('pub', 'hid'):
            key = KEYS[who]
            out += short_pkesk(key, c, session, key.keyid() if k == 'pub'
                               else bytes(8), s['short'], n + i)
        elif k == 'bad':
            out += P.pkesk(KEYS[who], c, session, seed=n + i, bad_sum=1)
        elif k == 'odd':
            out += P.pkt(1, b'\x03' + bytes(range(8)) + b'\x63' +
                         P.mpi(12345678901234567890))
        elif k == 'oddsym':
            out += P.pkt(3, b'\x04\x63\x03\x08' + salt(2) + b'\x60' +
                         bytes(range(17)))
        elif k == 'sym':
            out += P.skesk(c, s2k(s)[:2] + (salt(i + n),) + s2k(s)[3:],
                           PW[who].encode('utf8'), session)
        elif k == 'raw':
            session = P.s2k_key(s2k(s), c, PW[who].encode('utf8'))
            out += P.skesk(c, s2k(s), PW[who].encode('utf8'))
        else:
            session = hashlib.md5(PW[who].encode('utf8')).digest()
    return out + (P.seipd if s['ip'] else P.sed)(c, session, inner, seed=n)


def reads(data):
    """What another implementation finds: ids and text."""
    pk = P.parse(data)
    names = {k.keyid(): n for n, k in KEYS.items()}
    ids, session = [], None
    for t, b in pk[:-1]:
        if t == 1:
            ids.append('' if not any(b[1:9]) else names.get(b[1:9], '?'))
            for k in KEYS.values():
                if b[1:9] in (k.keyid(), bytes(8)) and b[9] == k.alg:
                    x = P.pk_decrypt(k, P.mpis(b[10:]))
                    if x and sum(x[1:-2]) & 0xffff == P.b2n(x[-2:]):
                        session = x[0], x[1:-2]
        elif t == 3:
            n = {0: 2, 1: 10, 3: 11}[b[2]]
            spec = (b[2], b[3])
            if b[2]:
                spec += (b[4:12],)
            if b[2] == 3:
                spec += (b[12],)
            for w in ('p', 'q'):
                if b[1] not in P.BLOCK:
                    continue
                key = P.s2k_key(spec, b[1], PW[w].encode('utf8'))
                if not b[2 + n:]:
                    session = session or []
                    session = [(b[1], key)] + list(session)
                    continue
                x = P.cfb(b[1], key, bytes(P.BLOCK[b[1]]), b[2 + n:], True)
                if x[0] in P.KEYLEN and len(x) == 1 + P.KEYLEN[x[0]]:
                    session = session if isinstance(session, list) else []
                    session.append((x[0], x[1:]))
    if session is None:
        session = [(1, hashlib.md5(PW[w].encode('utf8')).digest())
                   for w in ('p', 'q')]
    if not isinstance(session, list):
        session = [session]
    t, b = pk[-1]
    for c, k in session:
        bs = P.BLOCK[c]
        if t == 18:
            d = P.cfb(c, k, bytes(bs), b[1:], True)
            if hashlib.sha1(d[:-20]).digest() != d[-20:]:
                continue
            d = d[:-22]
        else:
            d = P.cfb(c, k, bytes(bs), b[:bs + 2], True) + \
                P.cfb(c, k, b[2:bs + 2], b[bs + 2:], True)
            if d[bs - 2:bs] != d[bs:bs + 2]:
                continue
        try:
            (x, y), = P.parse(d[bs + 2:])
        except (ValueError, IndexError):
            continue
        if x == 11:
            return ids, hashlib.sha1(y[6 + y[1]:]).hexdigest()
    return ids, 'unreadable'


def options(s, data):
    """Whether the message has the options it was asked to have."""
    pk = P.parse(data)
    if pk[0][0] == 3:
        b = pk[0][1]
        n = {0: 2, 1: 10, 3: 11}[s['s2k']]
        want = bytes([4, s['kc'] if s['kc'] != 9 else s['cipher']]) + \
            bytes([s['s2k'], s['digest']])
        if s['s2k']:
            want += salt(1)
        if s['s2k'] == 3:
            want += bytes([s['count']])
        if b[:2 + n] != want:
            return 'other string-to-key than asked for'
    elif pk[0][0] == 1 and s['given']:
        key = KEYS[s['slots'][0]['who']]
        x = P.pk_decrypt(key, P.mpis(pk[0][1][10:]))
        if x[:-2] != bytes([s['cipher']]) + P.session_key(s['cipher']):
            return 'other session key than asked for'
    if (pk[-1][0] == 18) != s['ip']:
        return 'other protection than asked for'
    return 'ok'


def opened(data, o):
    m = shortcuts.read_message(data)
    if o['k'] == 'pass':
        x = PW[o['who']]
    else:
        x = own(o['k'])[o['who']]
    m = m.get_message(x)
    return hashlib.sha1(bytes(m.data)).hexdigest()


def handler(sc):
    s, n = sc['s'], sc['n']
    text = bytes((7 * i + n) & 255 for i in range(s['text']))
    st, data = guarded(lib, s, text) if s['by'] == 'lib' else \
        ('ok', peer(s, text, n))
    out = {'made': 'ok' if st == 'ok' else data or st, 'slots': s['slots'],
           'openers': sc['openers'], 'opened': [],
           'text': hashlib.sha1(text).hexdigest(), 'peer': '', 'ids': [],
           'leak': False, 'want': [], 'options': 'ok'}
    if st != 'ok':
        return out
    readable = any(x['k'] not in ('bad', 'odd', 'oddsym') for x in s['slots'])
    if s['by'] == 'lib':
        out['ids'], out['peer'] = reads(data)
        out['options'] = options(s, data)
        out['want'] = [x for x in s['slots'] if x['k'] in ('pub', 'hid')]
        shown = {x['who'] for x in s['slots'] if x['k'] == 'pub'}
        out['leak'] = any(KEYS[x['who']].keyid() in data for x in s['slots']
                          if x['k'] == 'hid' and x['who'] not in shown)
    else:
        out['peer'] = out['text']
        if readable and reads(data)[1] != out['text']:
            raise RuntimeError('peer cannot read its own message')
    for o in sc['openers']:
        st, v = guarded(opened, data, o)
        out['opened'].append({'res': 'ok' if st == 'ok' else v or st,
                              'text': v if st == 'ok' else ''})
    return out


hlib.run(handler)
