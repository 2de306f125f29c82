from _boot import vlib

CFG = '''CONSTANTS Design = "%s" MaxLen = %d MaxLayers = %d
SPECIFICATION Spec
INVARIANTS RoundTrip OnlyLegal AllLegal LayersRight Finishes
'''
BROKEN = (('order', 'OnlyLegal'), ('flag', 'RoundTrip'),
          ('greedy', 'LayersRight'), ('unclosed', 'OnlyLegal'),
          ('trailing', 'OnlyLegal'), ('mark', 'AllLegal'))


def run(ctx):
    ctx.model('MCMessage', CFG % ('good', ctx.pick(4, 5), ctx.pick(2, 4)),
              workers=vlib.NCPU)
    for d, inv in BROKEN:
        ctx.model('MCMessage', CFG.replace(
            'RoundTrip OnlyLegal AllLegal LayersRight Finishes', inv) %
            (d, 3, 2), expect=inv)
    sc = ctx.generate('GenMessage', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_message', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        w = r['kind'] + (' accepted' if r['read']['res'] == 'ok'
                         else ' refused')
        d[w] = d.get(w, 0) + 1
        for x in r['read']['layers']:
            w = 'layer ' + x['k'] + (' one-pass' if x['op'] and
                                     x['k'] == 'sig' else '')
            d[w] = d.get(w, 0) + 1
    ctx.validate('TraceMessage', recs)
    if not ctx.bad:
        ctx.require(all(d.get(w) for w in (
            'read accepted', 'read refused', 'make accepted', 'layer comp',
            'layer sig', 'layer sig one-pass', 'layer enc')), 'all layers')
    ctx.assumptions.append('left open: a one-pass flag that announces another '
                           'one-pass signature which does not follow')


if __name__ == '__main__':
    vlib.main('C11', run)
