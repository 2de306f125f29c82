from _boot import vlib

CFG = '''CONSTANTS Design = "%s" N = %d Alphabet = {%s}
SPECIFICATION Spec
INVARIANTS %s
'''
A = '"K", "U", "A", "S", "d", "c", "b", "v", "T"'
B = A + ', "r", "x", "o", "L"'


def run(ctx):
    inv = 'SameLanguage SameAgain Verdict Refused'
    ctx.model('MCKeyOrder', CFG % ('good', ctx.pick(5, 6), A, inv),
              workers=vlib.NCPU)
    ctx.model('MCKeyOrder', CFG % ('good', ctx.pick(4, 5), B, inv),
              workers=vlib.NCPU)
    for d, i in (('previous', 'SameLanguage'), ('unbound', 'SameLanguage'),
                 ('unrevoked', 'SameLanguage'), ('grouped', 'SameAgain'),
                 ('stop', 'SameLanguage'), ('newest', 'SameAgain')):
        ctx.model('MCKeyOrder', CFG % (d, 5, A, i), expect=i)
    sc = ctx.generate('GenKeyOrder', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_keyorder', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        w = 'secret' if r['secret'] else 'public'
        w += ' v%d ' % r['version']
        w += 'read' if r['res'] == 'ok' else 'refused'
        d[w] = d.get(w, 0) + 1
    ctx.validate('TraceKeyOrder', recs)
    if not ctx.bad:
        ctx.require(all(d.get('%s v%d %s' % (a, v, b)) for a in
                        ('secret', 'public') for v in (2, 3, 4)
                        for b in ('read', 'refused')), 'both verdicts')


if __name__ == '__main__':
    vlib.main('C15', run)
