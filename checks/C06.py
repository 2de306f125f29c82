import json
import sys
from _boot import vlib

CFG = '''CONSTANT Design = "%s"
SPECIFICATION Spec
INVARIANTS OnlyGenuine GenuineAccepted
'''
SIGNERS = [('rsaA', 4), ('rsaB', 3), ('rsaC', 4), ('rsaE3', 4), ('rsa768', 4),
           ('dsaA', 4), ('dsaQ224', 4), ('dsaQ256', 4), ('dsaTop', 4)]
DESIGNS = ('notype', 'noattributes', 'nolength', 'nocount', 'nosubkey')


def keys(ctx, more=()):
    """Public octets and key ids, from the independent peer."""
    sys.path.insert(0, vlib.HARNESS)
    import pgpkit as P
    path = ctx.path('keys.ndjson')
    with open(path, 'w') as fh:
        for name, v in SIGNERS + [(x, 4) for x in (
                "rsaB", "rsaF") + tuple(more)]:
            k = P.Key(name, version=v)
            fh.write(json.dumps({
                'name': name, 'version': v, 'alg': k.alg,
                'sign': (name, v) in SIGNERS,
                'body': list(k.body()), 'id': list(k.keyid())}) + '\n')
    return path


def run(ctx):
    ctx.model('MCSigning', CFG % 'good', workers=vlib.NCPU)
    for d in DESIGNS:
        ctx.model('MCSigning', CFG % d, expect='OnlyGenuine')
    sc = ctx.generate('GenSigning', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1'), 'KEYS': keys(ctx)})
    recs = ctx.drive('d_signing', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        if 'prefs' in r:
            d['without a digest'] = d.get('without a digest', 0) + 1
            continue
        s = r['s']
        for w in ('type %d' % s['type'], 'signer %s v%d' % (
                s['signer']['name'], s['signer']['version']),
                'digest %d' % s['halg'], 'signature v%d' % s['version']):
            d[w] = d.get(w, 0) + 1
        for o in r['seen'] + r['again']:
            d[o['how']] = d.get(o['how'], 0) + 1
    ctx.validate('TraceSigning', recs)
    if not ctx.bad:
        ctx.require(all(d.get('type %d' % t) for t in (
            0, 1, 2, 16, 17, 18, 19, 24, 25, 31, 32, 40, 48, 80)), 'types')
        ctx.require(all(d.get(w) for w in (
            'genuine', 'attached', 'fresh', 'written and read',
            'kept on the key')), 'ways')
    ctx.assumptions.append('digests and key arithmetic of the independent '
                           'peer (harness/pgpkit.py)')


if __name__ == '__main__':
    vlib.main('C06', run)
