import concurrent.futures as cf
import vlib


def run(ctx):
    text = open(vlib.SPEC + '/SortModel.cfg').read()
    ctx.model('SortModel', cfgtext=text.replace('MaxN = 7', 'MaxN = 10') if ctx.thorough else None)
    ctx.model('SortModel', cfgtext=text.replace('MaxN = 7', 'MaxN = %d' % ctx.pick(4, 6)).replace('V = 1', 'V = %d' % ctx.pick(2, 3)))
    for v in ['mergehalf', 'samedir', 'recompare']:
        ctx.mutant('SortModel', 'SortModel.cfg', [('"ok"', '"%s"' % v)])
    exe = ctx.build('sorts', ['sorts.cpp'])

    def gen():
        with cf.ThreadPoolExecutor(8) as ex:
            r = list(ex.map(lambda k: vlib.harness_lines(ctx, exe, [ctx.seed, k, 16] + (['deep'] if ctx.thorough else []), timeout=800), range(16)))
        return [l for x in r for l in x]
    vlib.stateless(ctx, 'SortTrace', gen)
