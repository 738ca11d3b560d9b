import scen


def run(ctx):
    ctx.model('CryptoSelfTest', workers=1)
    exe = ctx.build('aesh', ['aesh.cpp'])
    # every shape of the multi-key encryption, and batches far beyond the unrolled sizes
    ext = [[dict(op='para', n=n) for n in range(i, 72, 9)] for i in range(9)]
    ext += [[dict(op='bulk', n=n, dec=int(k == 1), prp=int(k == 2)) for n in (255, 256, 257, 1024, 4099, 65535, 65536, 65537, 200003, 524288 + 11)] for k in range(3)]
    scen.replay(ctx, exe, scen.scenarios(ctx, 'AESGen', ctx.pick(100, 1500), 14, extra=ext), 'AESTrace')
