from _boot import vlib

CFG = '''CONSTANTS
  MaxLen = %d
  Alphabet = {%s}
  Design = "%s"
SPECIFICATION Spec
INVARIANTS %s
'''
ALL = 'SameLinesSameOctets Written Idempotent Kept'


def run(ctx):
    ctx.model('MCCanon', CFG % (ctx.pick(5, 6), '10, 13, 97', 'good', ALL),
              workers=vlib.NCPU)
    for d, inv in (('lfonly', 'SameLinesSameOctets'),
                   ('twice', 'SameLinesSameOctets'), ('drop', 'Kept')):
        ctx.model('MCCanon', CFG % (4, '10, 13, 97', d, inv), expect=inv)
    sc = ctx.generate('GenCanon', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_canon', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for o in r['made']:
            w = 'sign %s type %d' % (o['form'], o['type'])
            d[w] = d.get(w, 0) + 1
        for o in r['seen']:
            w = 'verify %s type %d' % (o['form'], o['type'])
            d[w] = d.get(w, 0) + 1
    ctx.validate('TraceCanon', recs)
    if not ctx.bad:
        ctx.require(len(d) == 28 and all(d.values()), 'forms')
    ctx.assumptions.append('what a signature covers is found by an independent '
                           'verifier (harness/pgpkit.py)')


if __name__ == '__main__':
    vlib.main('C08', run)
