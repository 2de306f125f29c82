from _boot import vlib

CFG = '''CONSTANTS
  Times = {%s}
  Change = 10
  Design = "%s"
SPECIFICATION Spec
INVARIANT SameDigest
'''


def run(ctx):
    t = ', '.join(map(str, range(4, ctx.pick(15, 40))))
    ctx.model('MCKeyIds', CFG % (t, 'good'), workers=vlib.NCPU)
    for d in ('wallclock', 'content', 'prime'):
        ctx.model('MCKeyIds', CFG % (t, d), expect='SameDigest')
    sc = ctx.generate('GenKeyIds', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_keyids', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for o in r['obs']:
            d[o['what']] = d.get(o['what'], 0) + 1
    ctx.validate('TraceKeyIds', recs)
    if not ctx.bad:
        ctx.require(all(d.get(w) for w in (
            'packet', 'read', 'unlocked', 'locked again', 'converted while locked',
            'written with armor')), 'representations')
    ctx.assumptions.append('digest values come from hashlib; a process keeps '
                           'one time zone while it holds a key')


if __name__ == '__main__':
    vlib.main('C14', run)
