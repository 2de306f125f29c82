from _boot import vlib

CFG = '''CONSTANTS Design = "%s" Item = "%s" N = %d T = %d
SPECIFICATION Spec
INVARIANTS %s
'''


def run(ctx):
    inv = 'Truthful Reported Owner Fades'
    for item in ('uid', 'key'):
        n = ctx.pick(3, 4)
        ctx.model('MCStatus', CFG % ('good', item, n, n, inv), workers=vlib.NCPU)
    for d, i in (('last', 'Truthful'), ('anyone', 'Reported'),
                 ('subkeys', 'Truthful'), ('kinds', 'Truthful'),
                 ('late', 'Reported'), ('ended', 'Truthful'),
                 ('revoked', 'Truthful'), ('lone', 'Truthful'),
                 ('backwards', 'Truthful')):
        ctx.model('MCStatus', CFG % (d, 'uid', 3, 3, i), expect=i)
    sc = ctx.generate('GenStatus', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_status', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for s in r['seen']:
            for w in [r['item'] + (' revoked' if s['revoked'] else ' valid')] \
                    + ['%s stated by %d' % (r['item'], s['current'][0])
                       for _ in s['current'][:1]] \
                    + ['signature expired'] * any(s['ended']) \
                    + ['signature revoked'] * any(s['gone']):
                d[w] = d.get(w, 0) + 1
    ctx.validate('TraceStatus', recs)
    if not ctx.bad:
        ctx.require(all(d.get(i + s) for i in ('key', 'uid', 'uat', 'subkey')
                        for s in (' revoked', ' valid')) and
                    d.get('signature expired') and d.get('signature revoked'),
                    'every item valid and revoked')


if __name__ == '__main__':
    vlib.main('C16', run)
