from _boot import vlib

CFG = '''CONSTANTS Design = "%s" MaxOps = %d L = %d
SPECIFICATION Spec
INVARIANT AsAssigned
'''


def run(ctx):
    ctx.model('MCSigAttrs', CFG % ('good', ctx.pick(4, 5), 1),
              workers=vlib.NCPU)
    for d in ('shared', 'allset', 'keep', 'sorted', 'drift', 'unhashed'):
        ctx.model('MCSigAttrs', CFG % (d, 3, 1), expect='AsAssigned')
    sc = ctx.generate('GenSigAttrs', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_sigattrs', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for o, res in zip(r['ops'], r['did']):
            w = 'assigned ' + o['a'] if res == 'ok' else 'refused'
            d[w] = d.get(w, 0) + 1
    ctx.cov['bases'] = sorted({r['base'] for r in recs})
    ctx.validate('TraceSigAttrs', recs)
    if not ctx.bad:
        ctx.require(len(d) == 31, 'every attribute assigned, some refused')


if __name__ == '__main__':
    vlib.main('C17', run)
