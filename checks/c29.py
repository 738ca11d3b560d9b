import vlib


def run(ctx):
    ctx.model('CryptoSelfTest', workers=1)
    ctx.model('CTRModel')
    exe = ctx.build('ctr', ['ctr.cpp', ctx.aes_src()], opt='-O1')
    vlib.stateless(ctx, 'CTRTrace', lambda: vlib.harness_lines(ctx, exe, [ctx.seed, ctx.pick(60, 1000)], timeout=600))
