import scen


def run(ctx):
    ctx.model('RecModel')
    exe = ctx.build('circ', ['circ.cpp'])
    s = scen.scenarios(ctx, 'LoadGen', ctx.pick(180, 3000), 30)
    if ctx.thorough:
        s += scen.scenarios(ctx, 'LoadGen', 600, 150)
    scen.replay(ctx, exe, s, 'LoadTrace', args=('load', ctx.dir))
