import scen
import vlib


def run(ctx):
    ctx.model('NetModel', workers=8)
    for v in ['shared', 'noflush', 'recv0', 'syncnoflush']:
        ctx.mutant('NetModel', None, [('"ok"', '"%s"' % v)])
    if ctx.thorough:
        ctx.model('NetModel', cfg='NetModelBig.cfg', workers=8, timeout=3000, mem='12g')
    exe = ctx.build('chan', ['chan.cpp'], libs=('-lcrypto', '-ldl'))
    s = scen.scenarios(ctx, 'NetGen', ctx.pick(120, 1500), 14)
    if ctx.thorough:
        s += scen.scenarios(ctx, 'NetGen', 300, 40)
    scen.replay(ctx, exe, s, 'ChannelTrace', args=('net',), timeout=800, retries=3)
    vlib.stateless(ctx, 'ChannelTrace', lambda: vlib.harness_lines(ctx, exe, ['-', 1, 'hugenet'], timeout=250), name='huge')
