from _boot import vlib

CFG = '''CONSTANTS Design = "%s" N = %d MaxEdits = %d
SPECIFICATION Spec
INVARIANTS %s
'''


def run(ctx):
    ctx.model('MCIntegrity', CFG % ('good', 3, ctx.pick(3, 4),
                                    'OnlyOriginal OriginalOk'),
              workers=vlib.NCPU)
    for d in ('optional', 'firstmdc', 'noprefix', 'late'):
        ctx.model('MCIntegrity', CFG % (d, 3, 2, 'OnlyOriginal'),
                  expect='OnlyOriginal')
    sc = ctx.generate('GenIntegrity', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_integrity', sc)
    d = ctx.cov.setdefault('per_action', {})
    n = 0
    for r in recs:
        for a, o, same in zip(r['attacks'], r['out'], r['is']):
            n += 1
            w = a['op'] if same == 'altered' else same + ' message'
            w += ' ' + o
            d[w] = d.get(w, 0) + 1
    ctx.cov['attacks'] = n
    ctx.validate('TraceIntegrity', recs)
    if not ctx.bad:
        ctx.require(all(d.get(w + ' error') for w in (
            'flip', 'cut', 'cut front', 'remove', 'repeat', 'insert', 'append',
            'append tail', 'swap blocks', 'repeat block', 'remove blocks',
            'two', 'reverse', 'zero', 'twice', 'graft', 'graft front')),
            'all attacks')
        ctx.require(d.get('same message text', 0) >= len(recs), 'unaltered')
    ctx.assumptions.append('digests of different texts differ')


if __name__ == '__main__':
    vlib.main('C10', run)
