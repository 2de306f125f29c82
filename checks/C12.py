from _boot import vlib

CFG = '''CONSTANTS
  PassLens = {%s}
  SaltLen = 8
  Counts = {%s}
  HashLens = {16, 20, 32, 48, 64}
  KeyLens = {16, 24, 32}
  Exception = %s
SPECIFICATION Spec
INVARIANT Prescribed
PROPERTY Ends
'''


def run(ctx):
    pl = ctx.pick('0, 1, 5, 12', ', '.join(map(str, range(0, 25))))
    cn = ctx.pick('0, 1, 8, 9, 16, 20, 21, 64',
                  ', '.join(map(str, range(0, 70))))
    ctx.model('MCS2K', CFG % (pl, cn, 'TRUE'), workers=vlib.NCPU)
    ctx.model('MCS2K', CFG % (pl, cn, 'FALSE'), expect='Prescribed')
    sc = ctx.generate('GenS2K', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_s2k', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        k = 'kind %d digest %d' % (r['s2k']['k'], r['s2k']['hash'])
        d[k] = d.get(k, 0) + 1
    ctx.validate('TraceS2K', recs)
    ctx.assumptions.append('digest values come from hashlib (OpenSSL), and '
                           'from PyCrypto for RIPE-MD/160')


if __name__ == '__main__':
    vlib.main('C12', run)
