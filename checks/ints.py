import concurrent.futures as cf
import vlib


def design(ctx, variants):
    """The bit-level algorithms against two's-complement semantics, all operands of every small width."""
    text = open(vlib.SPEC + '/ArithModel.cfg').read()
    ctx.model('ArithModel', cfgtext=text.replace('W = 5', 'W = 7') if ctx.thorough else None)
    for v in variants:
        ctx.mutant('ArithModel', 'ArithModel.cfg', [('"ok"', '"%s"' % v)])


def traces(ctx, mode, module='IntTrace', src='ints', parts=16, per=None):
    exe = ctx.build(src, [src + '.cpp'])

    def gen():
        with cf.ThreadPoolExecutor(8) as ex:
            r = list(ex.map(lambda k: vlib.harness_lines(ctx, exe, [mode, ctx.seed, k, parts] + (['deep'] if ctx.thorough else []), timeout=800), range(parts)))
        return [l for x in r for l in x]
    vlib.stateless(ctx, module, gen, per=per)
