import scen
import vlib

SIDE = 'hg'


def correctness(ctx, side):
    base = ['"hg"', '"%s"' % side]
    ctx.model('GarbleModel', cfgtext=open(vlib.SPEC + '/GarbleModel.cfg').read().replace(*base))
    for v in ('nob', 'evendelta'):
        ctx.mutant('GarbleModel', None, [tuple(base), ('"ok"', '"%s"' % v)] if side != 'hg' else [('"ok"', '"%s"' % v)])
    exe = ctx.build('gc', ['gc.cpp'])
    s = scen.scenarios(ctx, 'GCGen', ctx.pick(260, 4000), ctx.pick(60, 150), env=dict(SEEK='1'))
    scen.replay(ctx, exe, s, 'GarbleTrace', args=(side,))
    long_run(ctx, exe, side, {})
    if ctx.thorough:
        ctx.model('GarbleModel', workers=8, mem='16g', cfgtext=open(vlib.SPEC + '/GarbleModel.cfg').read().replace(*base)
                  .replace('FALSE', 'FALSE').replace('Few = TRUE', 'Few = FALSE' if side == 'pf' else 'Few = TRUE').replace('G = 2', 'G = 4' if side == 'pf' else 'G = 2'))


def long_run(ctx, exe, side, env):
    n = ctx.pick(1100000, 20000000)
    idx = sorted(set(k + d for k in [2 ** e for e in range(0, 25)] for d in (-2, -1, 0, 1, 2) if 0 <= k + d < n))
    if not ctx.thorough:
        idx = [i for i in idx if i < 12 or i > 100]
    vlib.stateless(ctx, 'GarbleTrace', lambda: vlib.harness_lines(ctx, exe, ['long', ctx.seed, side, n] + idx, timeout=600),
                   name='long', per=10 ** 9, env=env)


def run(ctx):
    correctness(ctx, SIDE)
