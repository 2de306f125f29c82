from _boot import vlib

CFG = '''CONSTANTS
  N = %d
  MaxScopes = %d
  Design = "%s"
SPECIFICATION Spec
INVARIANTS NoUseUnauthorised ExactlyAuthorised NothingRewritten
PROPERTY Coarse
'''


def run(ctx):
    ctx.model('MCLockState', CFG % (3, 2, 'good'),
              workers=vlib.NCPU)
    for d, inv in (('sequential', 'NoUseUnauthorised'),
                   ('escape', 'NoUseUnauthorised'),
                   ('halflock', 'NoUseUnauthorised'),
                   ('sticky', 'NoUseUnauthorised')):
        ctx.model('MCLockState', CFG % (3, 1, d), expect=inv)
    sc = ctx.generate('GenLockState', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_lockstate', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for o, s in zip(r.get('ops', ()), r.get('obs', ())):
            w = '%s %s' % (o['op'], s['res'])
            d[w] = d.get(w, 0) + 1
        if r['fam'] == 'protect':
            d['protection'] = d.get('protection', 0) + 1
    ctx.validate('TraceLockState', recs)
    if not ctx.bad:
        ctx.require(all(d.get(w) for w in (
            'unlock ok', 'unlock err', 'enter ok', 'enter err', 'raise raised', 'interrupt raised',
            'sign ok', 'sign err', 'decrypt ok', 'decrypt err', 'export ok',
            'convert ok', 'reread ok', 'protection')), 'operations')
    ctx.assumptions.append('independent peer harness/pgpkit.py makes the keys '
                           'and checks what they sign')


if __name__ == '__main__':
    vlib.main('C13', run)
