import scen


def model(ctx, variants):
    ctx.model('RecModel')
    for v in variants:
        ctx.mutant('RecModel', None, [('"ok"', '"%s"' % v)])
    if ctx.thorough:
        ctx.model('RecModel', workers=8, mem='16g', cfgtext=open(scen.vlib.SPEC + '/RecModel.cfg').read().replace('G = 3', 'G = 4'))


def run(ctx):
    model(ctx, ('valuefold', 'nonot'))
    exe = ctx.build('circ', ['circ.cpp'])
    s = scen.scenarios(ctx, 'PlainGen', ctx.pick(200, 3000), 40)
    if ctx.thorough:
        s += scen.scenarios(ctx, 'PlainGen', 400, 250)
    scen.replay(ctx, exe, s, 'PlainTrace', args=('plain', ctx.dir))
