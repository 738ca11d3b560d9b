import scen
import vlib


def run(ctx):
    ctx.model('HSModel', workers=8)
    for v in ['padstale', 'nopad', 'keepptr']:
        ctx.mutant('HSModel', None, [('"ok"', '"%s"' % v)])
    if ctx.thorough:
        ctx.model('HSModel', cfg='HSModelBig.cfg', workers=8, timeout=3000, mem='12g')
    exe = ctx.build('chan', ['chan.cpp'], libs=('-lcrypto', '-ldl'))
    s = scen.scenarios(ctx, 'HSGen', ctx.pick(120, 1500), 14)
    if ctx.thorough:
        s += scen.scenarios(ctx, 'HSGen', 300, 40)
    scen.replay(ctx, exe, s, 'ChannelTrace', args=('hs',), timeout=800, retries=3)
    vlib.stateless(ctx, 'ChannelTrace', lambda: vlib.harness_lines(ctx, exe, ['-', 1, 'hugehs'], timeout=250), name='huge')
