from _boot import vlib

CFG = '''CONSTANTS
  Design = "%s"
  MaxObjs = 3
  MaxOps = %d
SPECIFICATION Spec
INVARIANTS %s
'''
WEAK = (('forgets', 'Exact'), ('kindless', 'Exact'), ('identity', 'Exact'),
        ('cached', 'Exact'), ('prefix', 'Exact'), ('oneway', 'Symmetric'),
        ('hashed', 'Hashing'))


def run(ctx):
    ctx.model('MCEquality', CFG % ('good', ctx.pick(4, 5),
                                   'Exact Symmetric Hashing'),
              workers=vlib.NCPU)
    for d, inv in WEAK:
        ctx.model('MCEquality', CFG % (d, 4, inv), expect=inv)
    sc = ctx.generate('GenEquality', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_equality', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for k in ('pairs', 'twins', 'built'):
            for c in r[k]:
                w = '%s %s %s' % (r['what'], k,
                                  {'T': 'equal', 'F': 'different'}.get(
                                      c['eq'], c['eq']))
                d[w] = d.get(w, 0) + 1
    ctx.validate('TraceEquality', recs)
    if not ctx.bad:
        ctx.require(all(d.get('%s pairs %s' % (w, e), 0) > 5
                        for w in ('packet', 'sub', 'signature', 'notation',
                                  'revkey', 's2k', 'attribute')
                        for e in ('equal', 'different')),
                    'equal and different objects of every kind')
    ctx.assumptions.append(
        'not judged: other header forms, the order of subpackets, other '
        'forms of a length, absent flags')


if __name__ == '__main__':
    vlib.main('C29', run)
