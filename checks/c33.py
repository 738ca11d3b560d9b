import floats


def run(ctx):
    ctx.model('FloatFunModel', workers=1)
    for v in ('phase', 'base'):
        ctx.mutant('FloatFunModel', None, [('"none"', '"%s"' % v)])
    floats.traces(ctx, 'fun', 'FloatFunTrace')
