import scen


def run(ctx):
    ctx.model('SHA3SelfTest', workers=1)
    ctx.model('SpongeModel')
    for v in ('floor', 'nowrap', 'nolast'):
        ctx.mutant('SpongeModel', None, [('"none"', '"%s"' % v)])
    if ctx.thorough:
        ctx.model('SpongeModel', cfgtext='CONSTANTS BB = 3 RB = 3 MaxBits = 20 Variant = "none"\nINIT Init\nNEXT Next\nINVARIANTS Conforms CapacityClean\nCHECK_DEADLOCK FALSE\n')
    exe = ctx.build('sha3', ['sha3.cpp'])

    def op(api, sizes, oint=0):
        return dict(api=api, sizes=sizes, pat=2, pub=0, osz=8, oint=oint)
    # every length class around a block boundary, through both absorbers, one byte string and one integer list each
    lens = ctx.pick([1081, 1084, 1087, 1088, 1089, 2170], list(range(0, 17)) + list(range(1072, 1106)) + list(range(2160, 2186)))
    ext = [dict(kind=0, ops=[op('blocks', [n]), op('ints', [n // 3, n - n // 3], 1)]) for n in lens]
    # empty parts first, last, in between and on their own
    ext += [dict(kind=0, ops=[op(a, z, q % 2) for a in ('ints', 'blocks') for q, z in enumerate(([5, 0, 7], [0, 9, 0, 0, 3], [8, 0], [0, 0], [0], [0, 1088, 0], [1087, 0, 1]))])]
    ext += [dict(kind=k, ops=[op('one', [24], 1), op('ints', [1087], 0)]) for k in (1, 2)]
    ext += [dict(kind=0, ops=[op('bulk', [n]) for n in (4096, 65535, 65536, 65544, 524288, 1 << 20, (1 << 24) + 13)])]
    s = scen.scenarios(ctx, 'SHA3Gen', ctx.pick(24, 400), 3, extra=ext)
    scen.replay(ctx, exe, s, 'SHA3Trace')
