import scen


def run(ctx):
    exe = ctx.build('crh', ['crh.cpp'])
    # arrays far beyond the batch sizes, element by element the same as single calls
    ext = [[dict(op='new', o=o, k=1)] + [dict(op='bulk', n=n, id=i, alias=a) for n in (255, 1025, 4099, 65537, 131075, 524288 + 9) for i, a in ((1, 0), (2, 1))] for o in range(3)]
    scen.replay(ctx, exe, scen.scenarios(ctx, 'CRHGen', ctx.pick(160, 2000), 14, extra=ext), 'CRHTrace')
    ctx.model('CRHModel', workers=2)
