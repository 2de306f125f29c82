from _boot import vlib

CFG = '''CONSTANTS
  Letters = {%s}
  NameLen = %d
  Steps = %d
  Design = "%s"
SPECIFICATION Spec
INVARIANT SameParts
'''
LETTERS = '97, 32, 34, 92, 40, 41, 60, 64, 44'


def run(ctx):
    ctx.model('MCUserIds', CFG % (LETTERS, ctx.pick(2, 3), 0, 'good'),
              workers=vlib.NCPU)
    ctx.model('MCUserIds', CFG % ('97, 32, 34, 40', ctx.pick(1, 2), 2,
                                  'good'), workers=vlib.NCPU)
    ctx.model('MCUserIds', CFG % ('97, 32, 34, 40', ctx.pick(3, 4), 0,
                                  'good'), workers=vlib.NCPU)
    for d in ('cut', 'raw', 'lose'):
        ctx.model('MCUserIds', CFG % (LETTERS, 2, 1, d), expect='SameParts')
    sc = ctx.generate('GenUserIds', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_userids', sc)
    d = ctx.cov.setdefault('per_action', {})
    for s in sc:
        for o in s['ops']:
            d['set ' + o['f']] = d.get('set ' + o['f'], 0) + 1
    ctx.validate('TraceUserIds', recs)
    ctx.assumptions.append(
        'identities are written in one of the seven usual shapes; of other '
        'texts only that they can be read is asked')


if __name__ == '__main__':
    vlib.main('C27', run)
