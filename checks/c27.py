import scen


def run(ctx):
    ctx.model('GroupModel')
    ctx.model('BigNatModel')
    exe = ctx.build('group', ['group.cpp'], flags=['-Wno-deprecated-declarations'])
    scen.replay(ctx, exe, scen.scenarios(ctx, 'GroupGen', ctx.pick(64, 900), 20), 'GroupTrace')
