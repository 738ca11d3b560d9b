import scen


def run(ctx):
    ctx.model('BoolPackModel')
    exe = ctx.build('typed', ['typed.cpp'])
    s = scen.scenarios(ctx, 'TypedGen', ctx.pick(160, 2500), 16)
    # every length and every pair of address offsets modulo 8 for bool vectors
    s += [dict(ch='mem', cap=16, ops=[dict(k='bool', n=n, so=a, ro=b) for n in ctx.pick((7, 8, 9, 16, 23), range(0, 34))])
          for a in range(8) for b in range(8)]
    scen.replay(ctx, exe, s, 'TypedTrace')
