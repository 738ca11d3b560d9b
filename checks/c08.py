import json
import scen
import vlib
from c06 import long_run


def run(ctx):
    ctx.model('GarbleModel')
    ctx.mutant('GarbleModel', None, [('"ok"', '"sametweak"')])
    exe = ctx.build('gc', ['gc.cpp'])
    env = dict(TABLES='1', HYG='1')
    for side in ('hg', 'pf'):
        s = scen.scenarios(ctx, 'GCGen', ctx.pick(48, 700), ctx.pick(40, 90), env=dict(SEEK='0'))
        s += scen.scenarios(ctx, 'GCGen', ctx.pick(24, 300), ctx.pick(40, 60), env=dict(SEEK='1'))
        scen.replay(ctx, exe, s, 'GarbleTrace', args=(side, 'tables'), tlcenv=env)
        long_run(ctx, exe, side, env)
        # the same short program in several processes: nothing may repeat between them either
        sf = ctx.path('procs-%s.scn' % side)
        with open(sf, 'w') as h:
            h.write(json.dumps(dict(ops=[dict(op='in', a=1, b=0), dict(op='const', a=1, b=0), dict(op='and', a=0, b=1)])) + '\n')
        vlib.stateless(ctx, 'GarbleTrace', lambda: [l for _ in range(4) for l in vlib.harness_lines(ctx, exe, [sf, 1, side, 'tables'])],
                       name='procs', per=10 ** 9, env=env)
