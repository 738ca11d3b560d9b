import vlib


def run(ctx):
    ctx.model('GF2Model')
    exe = ctx.build('f2k', ['f2k.cpp'])
    vlib.stateless(ctx, 'GF2Trace', lambda: vlib.harness_lines(ctx, exe, [ctx.seed, ctx.pick(48, 800)]))
