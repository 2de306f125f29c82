from _boot import vlib

CFG = '''CONSTANTS Design = "%s" Pool = {%s} R = %d N = %d
SPECIFICATION Spec
INVARIANTS %s
'''


def run(ctx):
    two = '"c", "d"'
    ctx.model('MCDatabase', CFG % ('good', two, 2, ctx.pick(3, 5), 'Right Ordered Finding'), workers=vlib.NCPU)
    for d, i in (('kindless', 'Right'), ('isa', 'Right'), ('every', 'Right'),
                 ('writable', 'Right'), ('last', 'Ordered'),
                 ('again', 'Ordered'), ('one', 'Finding'),
                 ('single', 'Finding')):
        ctx.model('MCDatabase', CFG % (d, two, 2, 4, i), expect=i, workers=vlib.NCPU)
    sc = ctx.generate('GenDatabase', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_database', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for o, s in zip(r['ops'], r['seen']):
            w = o['do'] + ('' if s['res'] == 'ok' else ' refused')
            if o['do'] == 'search':
                w += ' by ' + (o['by'] or 'text') + \
                    (' found' if s['found'] else ' found nothing')
            d[w] = d.get(w, 0) + 1
        if r['kind'] == 'open':
            w = 'open: ' + r['opened']
            d[w] = d.get(w, 0) + 1
    ctx.validate('TraceDatabase', recs)
    if not ctx.bad:
        ctx.require(all(d.get(o + x) for o in ('add', 'update', 'delete')
                        for x in ('', ' refused')) and
                    all(d.get('search by %s found%s' % (b, x))
                        for b in ('fp', 'long', 'short', 'text')
                        for x in ('', ' nothing')) and
                    d.get('open: ok') and d.get('open: err'),
                    'every change done and refused, every search with and '
                    'without results')


if __name__ == '__main__':
    vlib.main('C21', run)
