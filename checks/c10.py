import scen
from c09 import model


def run(ctx):
    model(ctx, ('constwire0', 'nonot'))
    exe = ctx.build('circ', ['circ.cpp'])
    s = scen.scenarios(ctx, 'RecGen', ctx.pick(150, 3000), 14) + scen.scenarios(ctx, 'RecGen', ctx.pick(80, 1500), 40)
    s.append(dict(big=ctx.pick(1000003, 10000019)))
    scen.replay(ctx, exe, s, 'RecTrace', args=('rec', ctx.dir))
