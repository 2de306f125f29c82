from _boot import vlib

CFG = '''CONSTANTS
  Step = %d
  Design = "%s"
SPECIFICATION Spec
INVARIANTS Invertible Undone Commutes Undo
'''


def run(ctx):
    ctx.model('MCIdea', CFG % (ctx.pick(16, 1), 'good'), workers=vlib.NCPU)
    ctx.model('MCIdea', CFG % (16, 'zero'), expect='Invertible')
    sc = ctx.generate('GenIdea', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_idea', sc)
    ctx.validate('TraceIdea', recs)


if __name__ == '__main__':
    vlib.main('C23', run)
