import os
import subprocess
from _boot import vlib

CFG = '''CONSTANTS Design = "%s" Blocks = %d Faults = %d
SPECIFICATION Spec
INVARIANTS %s
'''


def shim(ctx):
    """The library between the interpreter and the C library."""
    so = ctx.path('vfs.so')
    subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', so,
                           os.path.join(vlib.HARNESS, 'vfs.c'), '-ldl'])
    return {'LD_PRELOAD': so}


def run(ctx):
    n = ctx.pick(3, 6)
    ctx.model('MCRewrite', CFG % ('good', n, n, 'Whole Truthful') + 'PROPERTY Ends\n')
    for d in ('inplace', 'append', 'away', 'copy', 'blind', 'clean'):
        for i in ('Whole', 'Truthful'):
            ctx.model('MCRewrite', CFG % (d, 3, 2, i), expect=i)
    sc = ctx.generate('GenRewrite', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_rewrite', sc, env=shim(ctx))
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for c, p in zip(r['calls'], r['points'][1:]):
            w = '%s at %s: %s' % (p['how'], c, p['end'])
            d[w] = d.get(w, 0) + 1
    ctx.validate('TraceRewrite', recs)
    if not ctx.bad:
        ctx.require(all(r['points'][0]['end'] == 'ok' for r in recs) and
                    sum(v for w, v in d.items() if w.endswith('died')) > 100 and
                    sum(v for w, v in d.items() if w.endswith('err')) > 100,
                    'operations interrupted at their calls')


if __name__ == '__main__':
    vlib.main('C19', run)
