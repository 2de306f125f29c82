from _boot import vlib

CFG = '''CONSTANTS
  Letters = {%s}
  Bound = %d
  Design = "%s"
SPECIFICATION Spec
INVARIANT Lossless
'''


def run(ctx):
    ctx.model('MCDeflate', CFG % ('0, 200', ctx.pick(2, 3), 'good'),
              workers=vlib.NCPU)
    ctx.model('MCDeflate', CFG % ('0, 200', ctx.pick(2, 3), 'sum'),
              workers=vlib.NCPU)
    for d in ('first', 'early'):
        ctx.model('MCDeflate', CFG % ('0, 200', 2, d), expect='Lossless')

    sc = ctx.generate('GenDeflate', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_deflate', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for k in ['%s algorithm %d' % (r['op'], r['alg'])] + [
                'streams refused' if o['res'] != 'ok' else 'streams read'
                for o in r.get('outs', ())]:
            d[k] = d.get(k, 0) + 1
    ctx.validate('TraceDeflate', recs)
    if not ctx.bad:
        ctx.require(d.get('streams refused', 0) > 500, 'refused streams')
    ctx.assumptions.append(
        'bzip2 streams are judged by the bz2 module; octets after the end of '
        'a stream may be refused or ignored')


if __name__ == '__main__':
    vlib.main('C28', run)
