from _boot import vlib

CFG = '''CONSTANTS
  Mode = "%s"
  Seg = %d
  MaxLen = %d
  Design = "%s"
SPECIFICATION Spec
INVARIANTS IndependentOfSplits Undone
'''


def run(ctx):
    n = ctx.pick(4, 6)
    for mode, seg in (('ECB', 0), ('CBC', 0), ('CFB', 1), ('CFB', 2),
                      ('OFB', 0), ('CTR', 0), ('OPENPGP', 0)):
        ctx.model('MCModes', CFG % (mode, seg, n, 'good'), workers=vlib.NCPU)
    for mode, seg, d in (('CBC', 0, 'restart'), ('CFB', 1, 'shared'),
                         ('OFB', 0, 'drop'), ('CTR', 0, 'shared')):
        ctx.model('MCModes', CFG % (mode, seg, 4, d),
                  expect='IndependentOfSplits')
    sc = ctx.generate('GenModes', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_modes', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        w = '%s/%d %s' % (r['m']['mode'], r['m']['seg'],
                          'decrypt' if r['dec'] else 'encrypt')
        d[w] = d.get(w, 0) + 1
    ctx.validate('TraceModes', recs)
    ctx.assumptions.append('the block ciphers themselves (PyCrypto, twofish, '
                           'camcrypt) are trusted; IDEA is C23')


if __name__ == '__main__':
    vlib.main('C22', run)
