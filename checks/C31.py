from _boot import vlib

CFG = '''CONSTANTS Design = "%s" MaxSteps = %d
SPECIFICATION Spec
INVARIANTS %s
'''


def run(ctx):
    ctx.model('MCAttributes', CFG % ('good', ctx.pick(4, 5),
                                     'Stands Truthful'), workers=vlib.NCPU)
    for d, inv in (('rebuild', 'Stands'), ('stale', 'Truthful'),
                   ('stale', 'Stands'), ('jpeg', 'Truthful'),
                   ('big endian', 'Truthful')):
        ctx.model('MCAttributes', CFG % (d, 3, inv), expect=inv)
    sc = ctx.generate('GenAttributes', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_attributes', sc)
    d = ctx.cov.setdefault('per_action', {})
    for s, r in zip(sc, recs):
        for o in s['ops'][:r['done']]:
            d[o['op']] = d.get(o['op'], 0) + 1
        if r['done'] < len(s['ops']):
            d['refused'] = d.get('refused', 0) + 1
        for c in r['certs']:
            w = 'certification ' + ('stands' if c['here'] else 'falls')
            d[w] = d.get(w, 0) + 1
    ctx.validate('TraceAttributes', recs)
    if not ctx.bad:
        ctx.require(all(d.get(k) for k in (
            'data', 'mime', 'back', 'add', 'del', 'turn', 'sign', 'again',
            'refused', 'certification stands', 'certification falls')),
            'all steps')


if __name__ == '__main__':
    vlib.main('C31', run)
