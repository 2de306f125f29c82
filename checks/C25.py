from _boot import vlib

CFG = '''CONSTANTS Design = "%s"
SPECIFICATION Spec
INVARIANTS %s
'''


def run(ctx):
    ctx.model('MCHkp', CFG % ('good', 'Exact Fetched'))
    for d, i in (('prefix', 'Exact'), ('case', 'Exact'), ('last', 'Exact'),
                 ('unescape', 'Exact'), ('carry', 'Exact'),
                 ('plus', 'Exact'), ('keyflags', 'Exact'),
                 ('unchecked', 'Fetched'), ('first', 'Fetched')):
        ctx.model('MCHkp', CFG % (d, i), expect=i)
    sc = ctx.generate('GenHkp', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_hkp', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for o, s in zip(r['ops'], r['seen']):
            w = '%s: %s' % (o['do'], s['res'])
            d[w] = d.get(w, 0) + 1
    ctx.validate('TraceHkp', recs)
    if not ctx.bad:
        ctx.require(all(d.get('%s: %s' % (o, r), 0) >= n
                        for o, r, n in (('search', 'ok', 300),
                                        ('search', 'err', 20),
                                        ('get', 'ok', 50), ('get', 'err', 20),
                                        ('found', 'ok', 20),
                                        ('submit', 'ok', 20),
                                        ('submit', 'err', 10))),
                    'searches, fetches and submissions, answered and failed')


if __name__ == '__main__':
    vlib.main('C25', run)
