"""Session keys, whole and not, and what they open."""
import hlib
from hlib import guarded
import pgpkit as P
from pgp import shortcuts

TEXT = b'the text of the message'
KEYS = {n: P.Key(n) for n in ('rsaE', 'rsaF', 'rsa768', 'elgA', 'rsaA')}
KEYS['only'] = P.Key('rsaB', alg=2)
NAMES = ['rsaE', 'rsaF', 'rsa768', 'elgA', 'only']
_own = []


def own(who):
    if not _own:
        k = shortcuts.read_key(P.tsk([(KEYS['rsaA'], dict(usage=0))] + [
            (KEYS[n], dict(usage=0)) for n in NAMES]))
        k.unlock('')
        _own.append(dict(zip(NAMES, k.subkeys)))
    return _own[0][who]


def raised(key, em, n):
    """The block as the sender's key operation leaves it."""
    m = P.b2n(em)
    if key.t == 'rsa':
        assert m < key.k['n']
        return [pow(m, key.k['e'], key.k['n'])]
    p, g, y = (key.k[f] for f in 'pgy')
    assert m < p
    k = 3 + n * 7919
    return [pow(g, k, p), m * pow(y, k, p) % p]


def for_key(sc):
    key = KEYS[sc['who']]
    assert sc['size'] == ((key.k['n'] if key.t == 'rsa' else key.k['p']
                           ).bit_length() + 7) // 8
    vs = raised(key, bytes(sc['block']), sc['n'])
    o = sc['outer']
    if o == 'extra':
        vs.append(vs[0])
    elif o == 'missing':
        vs.pop()
    elif o == 'empty':
        vs = []
    body = b''.join(P.mpi(v) for v in vs)
    body = body + b'\x00\x01' if o == 'trailing' else \
        body[:-1] if o == 'cut' else body
    return P.pkt(1, b'\x03' + key.keyid() + bytes([key.alg]) + body)


def for_pass(sc):
    s = (3, 8, b'saltsalt', 0)
    k = P.s2k_key(s, sc['kc'], b'pass')
    return P.pkt(3, bytes([4, sc['kc']]) + P.s2k_bytes(s) + P.cfb(
        sc['kc'], k, bytes(P.BLOCK[sc['kc']]), bytes(sc['block'])))


def handler(sc):
    out = {k: sc[k] for k in ('fam', 'block', 'outer', 'then', 'cipher',
                              'session')}
    c, s = sc['cipher'], bytes(sc['session'])
    if sc['fam'] == 'key':
        data, who = for_key(sc), own(sc['who'])
    else:
        data, who = for_pass(sc), 'pass'
    if sc['then']:
        c, s = 9, P.session_key(9, 77)
        data += P.pkesk(KEYS[sc['who']], c, s) if sc['fam'] == 'key' else \
            P.skesk(c, (3, 8, b'otherone', 0), b'pass', s)
    data += P.seipd(c, s, P.literal(TEXT), seed=sc['n'] & 255)

    def opened():
        m = shortcuts.read_message(data).get_message(who)
        return bytes(m.data)
    st, v = guarded(opened)
    out['res'] = ('text' if v == TEXT else 'other text') if st == 'ok' \
        else v or st
    return out


hlib.run(handler)
