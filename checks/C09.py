from _boot import vlib

CFG = '''CONSTANTS Design = "%s" MaxSlots = %d
SPECIFICATION Spec
INVARIANTS %s
'''
ALL = 'Intended NoJunk HiddenStays'


def run(ctx):
    ctx.model('MCRecipients', CFG % ('good', ctx.pick(3, 4), ALL),
              workers=vlib.NCPU)
    for d, inv in (('strict', 'Intended'), ('garbage', 'Intended'),
                   ('lax', 'NoJunk'), ('first', 'Intended'),
                   ('shown', 'HiddenStays')):
        ctx.model('MCRecipients', CFG % (d, 2, inv), expect=inv)
    sc = ctx.generate('GenRecipients', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_recipients', sc)
    d = ctx.cov.setdefault('per_action', {})
    for s, r in zip(sc, recs):
        for o, x in zip(r['openers'], r['opened']):
            w = '%s %s' % (o['k'], 'opens' if x['res'] == 'ok' else 'refused')
            d[w] = d.get(w, 0) + 1
        for x in r['slots']:
            w = s['s']['by'] + ' ' + x['k']
            d[w] = d.get(w, 0) + 1
        w = 'cipher %d %s' % (s['s']['cipher'],
                              'protected' if s['s']['ip'] else 'plain')
        d[w] = d.get(w, 0) + 1
    ctx.validate('TraceRecipients', recs)
    if not ctx.bad:
        ctx.require(all(d.get(w) for w in (
            'key opens', 'key refused', 'pass opens', 'pass refused',
            'locked refused', 'lib hid', 'peer hid', 'lib sym', 'peer raw',
            'peer bad', 'peer odd')), 'all kinds of recipients')
    ctx.assumptions.append('a wrong passphrase or hidden key that yields a '
                           'valid session key by chance is not looked for')


if __name__ == '__main__':
    vlib.main('C09', run)
