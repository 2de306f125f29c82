from _boot import vlib
from C19 import shim

CFG = '''CONSTANTS Design = "%s" Procs = {%s} Rounds = %d Crashes = %d
SPECIFICATION Spec
'''


def run(ctx):
    ctx.model('MCKeyringLock', CFG % ('good', '1, 2, 3', ctx.pick(1, 2), ctx.pick(1, 2)) +
              'INVARIANTS Mutex Freed\nPROPERTY Progress\n')
    for d, i in (('steal', 'Mutex'), ('blind', 'Mutex'), ('lockonly', 'Mutex'),
                 ('lookonly', 'Mutex'), ('leak', 'Freed'), ('nest', 'Mutex'),
                 ('twostep', 'Freed'), ('stuck', 'Progress')):
        ctx.model('MCKeyringLock', CFG % (d, '1, 2, 3', 1, 1) +
                  ('PROPERTY ' if i == 'Progress' else 'INVARIANTS ') + i + '\n',
                  expect=i)
    sc = ctx.generate('GenKeyringLock', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_ringlock', sc, env=shim(ctx))
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for e in r['events']:
            w = '%s: %s' % (r['kind'], e['e'])
            d[w] = d.get(w, 0) + 1
    ctx.validate('TraceKeyringLock', recs)
    if not ctx.bad:
        ctx.require(all(d.get('lock: ' + e, 0) > 20 for e in
                        ('want', 'got', 'gaveup', 'releasing', 'killed')) and
                    d.get('threads: got', 0) > 20 and d.get('ring: got', 0) > 20 and
                    all(d.get('%s operations: %s' % (k, e), 0) > 20
                        for k in ('public', 'public dbm')
                        for e in ('free', 'held')),
                    'locks obtained, given up, given back and abandoned')


if __name__ == '__main__':
    vlib.main('C20', run)
