from _boot import vlib
import base64
import random

CFG = '''CONSTANTS
  MaxLen = %d
  Octs = {0, 1, 255}
  Chars = {65, 66, 47, 61, 33}
  Checked = %s
SPECIFICATION Spec
INVARIANTS Lossless Detects
'''


def run(ctx):
    ctx.model('MCArmor', CFG % (ctx.pick(3, 4), 'TRUE'), workers=vlib.NCPU)
    ctx.model('MCArmor', CFG % (1, 'FALSE'), expect='Detects')
    sc = ctx.generate('GenArmor', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    rnd = random.Random(ctx.seed)
    for k in range(ctx.pick(60, 600)):
        n = rnd.randrange(1, 700)
        o = {'type': rnd.randrange(1, 5), 'part': [], 'total': [], 'heads': [],
             'data': [rnd.randrange(256) for _ in range(n)]}
        sc.append({'kind': 'write', 'o': o, 'key': 'write random %d' % n})
    for n, s in enumerate(sc):
        s['n'] = n
    recs = ctx.drive('d_armor', sc)
    ctx.kinds(recs, 'kind')
    ctx.validate('TraceArmor', recs)


if __name__ == '__main__':
    vlib.main('C05', run)
