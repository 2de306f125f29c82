from _boot import vlib

CFG = '''CONSTANTS Design = "%s" MaxUses = %d
SPECIFICATION Spec
INVARIANTS %s
'''
ALL = 'Anew Full Secret NonceAnew'


def run(ctx):
    ctx.model('MCFresh', CFG % ('good', ctx.pick(4, 5), ALL),
              workers=vlib.NCPU)
    for d, inv in (('short', 'Full'), ('constant', 'Secret'),
                   ('default argument', 'NonceAnew'),
                   ('per object', 'Anew'), ('read ahead', 'Anew'),
                   ('general purpose', 'NonceAnew'),
                   ('from the text', 'Anew')):
        ctx.model('MCFresh', CFG % (d, 3, inv), expect=inv)
    sc = ctx.generate('GenFresh', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_fresh', sc)
    # The same kind of value from all histories and processes
    pools, d = {}, ctx.cov.setdefault('per_action', {})
    for s, r in zip(sc, recs):
        for o in s['ops']:
            w = '%s %s' % (o['op'], o['where'])
            d[w] = d.get(w, 0) + 1
        for x in r['draws']:
            d[x['kind']] = d.get(x['kind'], 0) + 1
            pools.setdefault((x['kind'], len(x['val'])), []).append(x)
    most = ctx.pick(300, 900)
    for (k, w), v in sorted(pools.items()):
        step = max(1, len(v) // most)
        recs.append({'n': len(recs) + 1, 'key': 'all %s of %d' % (k, w),
                     'whole': True, 'kind': k, 'width': w,
                     'draws': v[::step]})
    ctx.validate('TraceFresh', recs)
    if not ctx.bad:
        ctx.require(all(d.get(k, 0) > 100 for k in (
            'session', 'prefix', 'salt', 'padding', 'power', 'nonce')),
            'all kinds of random values')
    ctx.assumptions.append(
        'the generator of the operating system and of the cryptographic '
        'library is good; what is decided is that it is asked anew, for '
        'enough, and that nothing else is used instead')


if __name__ == '__main__':
    vlib.main('C30', run)
