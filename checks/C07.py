import C06
from _boot import vlib

CFG = '''CONSTANT Design = "%s"
SPECIFICATION Spec
INVARIANTS %s
'''


def run(ctx):
    ctx.model('MCSigning', CFG % ('good', 'OnlyGenuine GenuineAccepted'),
              workers=vlib.NCPU)
    ctx.model('MCForge', CFG % ('good', 'OnlyMade MadeOk'), workers=vlib.NCPU)
    for d in C06.DESIGNS:
        ctx.model('MCSigning', CFG % (d, 'OnlyGenuine'), expect='OnlyGenuine')
    for d in ('norange', 'nosize', 'extra', 'prefix'):
        ctx.model('MCForge', CFG % (d, 'OnlyMade'), expect='OnlyMade')
    sc = ctx.generate('GenForge', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1'),
                           'KEYS': C06.keys(ctx, ('dsaB',))})
    recs = ctx.drive('d_forge', sc)
    d = ctx.cov.setdefault('per_action', {})
    n = 0
    for r in recs:
        for o in r['shown']:
            p, s = o['p'], r['s']
            n += 1
            for f in p:
                if p[f] != s[f]:
                    w = f if f != 'value' else 'value ' + p[f]
                    d[w] = d.get(w, 0) + 1
            if p == s:
                d['unaltered ' + o['adjusted']] = d.get(
                    'unaltered ' + o['adjusted'], 0) + 1
    ctx.cov['presentations'] = n
    ctx.cov['altered_bits'] = sum(r['tried'] for r in recs)
    ctx.validate('TraceForge', recs)
    if not ctx.bad:
        ctx.require(d.get('unaltered ok', 0) == len(recs), 'genuine ones')
        ctx.require(all(d.get(w) for w in (
            'item', 'type', 'halg', 'palg', 'hashed', 'created', 'id', 'by',
            'version', 'value garbage', 'value s plus', 'value extra')),
            'alterations')
    ctx.assumptions.append('the attacker model: any change of one or two '
                           'parts; no search for digest collisions')


if __name__ == '__main__':
    vlib.main('C07', run)
