import scen


def run(ctx):
    ctx.model('PRGModel')
    exe = ctx.build('prg', ['prg.cpp'])
    ext = [[x for n in ns for x in (dict(op='bulk', n=n, kind=k, off=n % 16), dict(op='block', n=2, off=0))]
           for k in range(4) for ns in ((511, 1000, 4095, 4096, 4097), (5003, 8191, 65536, 65543), (100003, 1048591))]
    scen.replay(ctx, exe, scen.scenarios(ctx, 'PRGGen', ctx.pick(140, 2000), 14, extra=ext), 'PRGTrace')
    ctx.assumptions += ['AES.tla is FIPS-197 (anchored by known answers, CryptoSelfTest in C22)']
