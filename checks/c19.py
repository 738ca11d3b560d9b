import floats


def run(ctx):
    ctx.model('IeeeModel')
    floats.traces(ctx, 'misc')
