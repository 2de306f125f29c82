from _boot import vlib
import random

CFG = '''CONSTANTS
  MaxV = %d
  Minimal = %s
INIT Init
NEXT Next
INVARIANTS MpiInverse MpiCanonical FixedInverse HexInverse CountInverse CrcLinear
'''
# (deadlock checking is off: the enumeration simply ends)


def run(ctx):
    ctx.model('MCOctets', CFG % (ctx.pick(3000, 70000), 'TRUE'), workers=vlib.NCPU)
    ctx.model('MCOctets', CFG % (300, 'FALSE'), expect='MpiCanonical')
    sc = ctx.generate('GenOctets', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    rnd = random.Random(ctx.seed)
    for k in range(ctx.pick(300, 4000)):
        n = rnd.choice([1, 2, 8, 16, 20, 64, 128, 129, 256, 512])
        v = [rnd.randrange(1, 256)] + [rnd.choice([0, 255, rnd.randrange(256)])
                                       for _ in range(n - 1)]
        sc.append({'kind': 'mpi', 'v': v, 'post': [], 'key': 'mpi random'})
        sc.append({'kind': 'crc', 'v': v, 'key': 'crc random'})
    for n, s in enumerate(sc):
        s['n'] = n
    recs = ctx.drive('d_octets', sc)
    ctx.kinds(recs, 'kind')
    ctx.validate('TraceOctets', recs)


if __name__ == '__main__':
    vlib.main('C03', run)
