import vlib


def run(ctx):
    ctx.model('TransModel')
    exe = ctx.build('bits', ['bits.cpp'])
    vlib.stateless(ctx, 'BitsTrace', lambda: vlib.harness_lines(ctx, exe, [ctx.seed, ctx.pick(150, 2500)]))
