import floats
import vlib


def run(ctx):
    text = open(vlib.SPEC + '/IeeeModel.cfg').read()
    ctx.model('IeeeModel', cfgtext=text.replace('Step = 16', 'Step = 1') if ctx.thorough else None)
    ctx.mutant('IeeeModel', 'IeeeModel.cfg', [('"ok"', '"halfup"')])
    floats.traces(ctx, 'arith')
