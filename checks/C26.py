from _boot import vlib

CFG = '''CONSTANTS
  Bound = %d
  Design = "%s"
SPECIFICATION Spec
INVARIANT SameLanguage
'''


def run(ctx):
    n = ctx.pick(5, 6)
    ctx.model('MCRegex', CFG % (n, 'good'), workers=vlib.NCPU)
    for d in ('repeat', 'bracket', 'escape', 'group', 'span'):
        ctx.model('MCRegex', CFG % (5, d), expect='SameLanguage')
    sc = ctx.generate('GenRegex', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_regex', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for o in r['res']:
            d[o] = d.get(o, 0) + 1
    ctx.validate('TraceRegex', recs)
    if not ctx.bad:
        ctx.require(d.get('ok', 0) > 1000 and d.get('refused', 0) > 1000,
                    'both verdicts')
    ctx.assumptions.append(
        'left open, because the standard does: "]" outside a range and '
        'spans like [z-a]')


if __name__ == '__main__':
    vlib.main('C26', run)
