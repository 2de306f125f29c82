from _boot import vlib

CFG = '''CONSTANTS
  Strict = %(strict)s
  MaxPkts = %(n)d
  Types = {9, 15, 60}
  Lens = {%(lens)s}
  Exps = {%(exps)s}
  MinPart = %(mp)d
SPECIFICATION Spec
INVARIANTS RoundTrip TruncationSound NoOverread
'''


def run(ctx):
    small = dict(strict='TRUE', n=2, lens='0, 1, 3, 4', exps='0, 1, 2', mp=0)
    big = dict(strict='TRUE', n=ctx.pick(1, 2),
               lens='0, 191, 192, 512, 704, 8383, 8384, 65536, 16777216',
               exps='9, 13', mp=9)
    ctx.model('MCFraming', CFG % small, workers=vlib.NCPU)
    ctx.model('MCFraming', CFG % big, workers=vlib.NCPU)
    ctx.model('MCFraming', CFG % dict(small, strict='FALSE', n=1),
              expect='TruncationSound')
    base = ctx.generate('GenFraming', 'INIT Init\nNEXT Next\n',
                        env={'BIG': ctx.pick('0', '1')})
    sc = []
    for s in base:
        if s['kind'] == 'read':
            sc.append(dict(s, reader='data'))
            sc.append(dict(s, reader='stream'))
        else:
            sc.append(s)
    recs = ctx.drive('d_framing', sc)
    ctx.kinds(recs, 'res')
    ctx.validate('TraceFraming', recs)
    ctx.assumptions.append('Bodies are runs of a position-dependent pattern; '
                           'sizes are the generated boundary sizes.')


if __name__ == '__main__':
    vlib.main('C01', run)
