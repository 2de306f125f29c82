from _boot import vlib

CFG = '''CONSTANTS Design = "%s" Pool = {%s} N = %d
SPECIFICATION Spec
INVARIANTS %s
'''


def run(ctx):
    small = '"a", "c", "d", "g"'
    ctx.model('MCKeyring', CFG % ('good', small, ctx.pick(4, 5), 'Exact Refuses Found'))
    ctx.model('MCKeyring', CFG % ('good', '"c", "e", "f", "g", "a"', ctx.pick(3, 5), 'Exact Refuses Found'))
    for d, i in (('suffix', 'Refuses'), ('suffix', 'Found'), ('stale', 'Found'),
                 ('tail', 'Exact'), ('twice', 'Exact'), ('parts', 'Exact'),
                 ('subs', 'Found'), ('shift', 'Found')):
        ctx.model('MCKeyring', CFG % (d, small, 4, i), expect=i)
    sc = ctx.generate('GenKeyring', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_keyring', sc)
    d = ctx.cov.setdefault('per_action', {})
    kinds = {s['n']: s['kind'] for s in sc}
    for r in recs:
        for o, s in zip(r['ops'], r['seen']):
            w = '%s: %s%s' % (kinds[r['n']], o['do'],
                              '' if s['res'] == 'ok' else ' refused')
            d[w] = d.get(w, 0) + 1
    ctx.validate('TraceKeyring', recs)
    if not ctx.bad:
        ctx.require(all(d.get('%s: %s%s' % (k, o, x))
                        for k in ('public', 'secret', 'public dbm', 'secret dbm')
                        for o in ('add', 'update', 'delete')
                        for x in ('', ' refused')),
                    'every operation done and refused on every kind')


if __name__ == '__main__':
    vlib.main('C18', run)
