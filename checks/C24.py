from _boot import vlib

CFG = '''CONSTANTS Design = "%s" Ids = {"a", "b"} Words = {"p", "q"} MaxRep = 2 Steps = %d
SPECIFICATION Spec
INVARIANTS %s
'''
AGENT = '''CONSTANTS Design = "%s" N = %d
SPECIFICATION Spec
INVARIANTS %s
'''


def run(ctx):
    ctx.model('MCPinentry', CFG % ('good', ctx.pick(10, 14),
                                   'Agreed Remembered Kept'))
    for d, i in (('last', 'Agreed'), ('store', 'Remembered'),
                 ('always', 'Remembered'), ('shared', 'Remembered'),
                 ('hasty', 'Remembered'), ('noclear', 'Remembered')):
        ctx.model('MCPinentry', CFG % (d, 10, i), expect=i)
    ctx.model('MCAgent', AGENT % ('good', ctx.pick(4, 5), 'Meant Encoding'))
    for d, i in (('eof', 'Meant'), ('prefix', 'Meant'), ('first', 'Meant'),
                 ('raw', 'Meant'), ('lenient', 'Meant'),
                 ('spaces', 'Encoding'), ('plus', 'Encoding'),
                 ('lines', 'Encoding'), ('options', 'Encoding'),
                 ('percent', 'Encoding')):
        ctx.model('MCAgent', AGENT % (d, 3, i), expect=i)
    sc = ctx.generate('GenPinentry', 'INIT Init\nNEXT Next\n',
                      env={'BIG': ctx.pick('0', '1')})
    recs = ctx.drive('d_pinentry', sc)
    d = ctx.cov.setdefault('per_action', {})
    for r in recs:
        for o, s in zip(r['ops'], r['seen']):
            w = '%s: %s %s' % (r['back'], o['do'],
                               'refused' if s['got'] == 'refused' else
                               'prompted' if s['took'] else 'at once')
            d[w] = d.get(w, 0) + 1
        if r['kind'] != 'history':
            w = '%s: %s' % (r['kind'], r['res'])
            d[w] = d.get(w, 0) + 1
    ctx.validate('TracePinentry', recs)
    if not ctx.bad:
        ctx.require(all(d.get('%s: %s' % (b, w), 0) > 20
                        for b in ('getpass', 'agent')
                        for w in ('get prompted', 'get at once',
                                  'get refused', 'clear at once')) and
                    all(d.get(w, 0) > 20 for w in
                        ('request: ok', 'clear: ok', 'answer: ok',
                         'answer: err')),
                    'prompts, remembered passphrases, requests and answers')


if __name__ == '__main__':
    vlib.main('C24', run)
