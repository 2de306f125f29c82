from _boot import vlib

CFG = '''CONSTANTS Design = "%s" B = %d Size = %d MinPad = %d
SPECIFICATION Spec
INVARIANTS %s
'''


def run(ctx):
    inv = 'OnlyEncodings AllEncodings SameAsSpec'
    ctx.model('MCSessionKey', CFG % ('good', 3, ctx.pick(10, 12), 2, inv))
    ctx.model('MCSessionKey', CFG % ('good', 4, ctx.pick(9, 10), 2, inv))
    for d in ('anywhere', 'anytype', 'short', 'anylength', 'halfsum'):
        ctx.model('MCSessionKey', CFG % (d, 3, 9 if d == 'short' else 10, 2,
                                        'OnlyEncodings'),
                  expect='OnlyEncodings')
    sc = ctx.generate('GenSessionKey', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_sessionkey', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        w = '%s %s%s %s' % (r['fam'], r['outer'],
                            ' and a good one' if r['then'] else '', r['res'])
        d[w] = d.get(w, 0) + 1
    ctx.validate('TraceSessionKey', recs)
    if not ctx.bad:
        ctx.require(all(d.get(w) for w in (
            'key plain text', 'pass plain text', 'key plain ValueError',
            'key plain and a good one text',
            'pass plain and a good one text')), 'outcomes')
    ctx.assumptions.append('independent peer harness/pgpkit.py encrypts the '
                           'blocks')


if __name__ == '__main__':
    vlib.main('C32', run)
