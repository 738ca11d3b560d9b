import scen


def run(ctx):
    ctx.model('MITCCRHModel')
    exe = ctx.build('mitccrh', ['mitccrh.cpp'])
    scen.replay(ctx, exe, scen.scenarios(ctx, 'MITCCRHGen', ctx.pick(120, 1500), 16), 'MITCCRHTrace')
