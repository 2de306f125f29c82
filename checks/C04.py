from _boot import vlib

CFG = '''CONSTANTS
  Lens = {%s}
  MaxSubs = 2
  TopTwo = %d
  CheckOverrun = %s
SPECIFICATION Spec
INVARIANTS RoundTrip CutSound Agree
'''
LENS = '0, 1, 190, 191, 8383'


def run(ctx):
    ctx.model('MCSubpackets', CFG % (LENS, 254, 'TRUE'), workers=vlib.NCPU)
    ctx.model('MCSubpackets', CFG % (LENS, 223, 'TRUE'), expect='RoundTrip')
    ctx.model('MCSubpackets', CFG % ('0, 1, 5', 254, 'FALSE'), expect='CutSound')
    sc = ctx.generate('GenSubpackets', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_subpackets', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        k = 'type %d' % r['f']['ty'] if r['op'] == 'sub' else 'areas'
        d[k] = d.get(k, 0) + 1
    ctx.validate('TraceSubpackets', recs)


if __name__ == '__main__':
    vlib.main('C04', run)
