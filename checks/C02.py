from _boot import vlib

CFG = '''CONSTANTS
  Vals = {0, 1, 127, 128, 255}
  MaxM = 2
  PrefixLen = %s
SPECIFICATION Spec
INVARIANT FieldsKept
'''


def run(ctx):
    ctx.model('MCPackets', CFG % 'TRUE', workers=vlib.NCPU)
    ctx.model('MCPackets', CFG % 'FALSE', expect='FieldsKept')
    sc = ctx.generate('GenPackets', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_packets', sc)
    for r in recs:
        k = 'type %d' % r['f']['t']
        d = ctx.cov.setdefault('per_action', {})
        d[k] = d.get(k, 0) + 1
    ctx.validate('TracePackets', recs)


if __name__ == '__main__':
    vlib.main('C02', run)
