import scen

CFG = 'CONSTANTS D = %%d Big = %d BUF = 8192\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.model('CryptoSelfTest', workers=1)
    ctx.model('HashModel')
    exe = ctx.build('hash', ['hash.cpp'])
    s = scen.scenarios(ctx, 'HashGen', ctx.pick(40, 400), 22, gencfg=CFG % 0)
    s += scen.scenarios(ctx, 'HashGen', ctx.pick(32, 300), 14, gencfg=CFG % 1)
    s += [[dict(op='new', o=1), dict(op='put', o=1, n=5)] + [dict(op='bulk', o=1, n=n) for n in ns] + [dict(op='digest', o=1, n=0)]
          for ns in ((8191, 65535, 65536, 65537), (100000, 131072, 1048576, 1048577), ((1 << 20) + 8192 * 3 + 5, ctx.pick(1 << 24, 1 << 30)))]
    scen.replay(ctx, exe, s, 'HashTrace')
