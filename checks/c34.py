import scen


def run(ctx):
    ctx.model('ConnModel')
    for v in ['self', 'noreuse', 'leak', 'noretry', 'keeplisten', 'cross']:
        ctx.mutant('ConnModel', None, [('"ok"', '"%s"' % v)])
    if ctx.thorough:
        ctx.model('ConnModel', cfgtext='CONSTANTS NP = 3\n SELF = 12\n ROUNDS = 4\n Variant = "ok"\nSPECIFICATION Spec\n'
                  'INVARIANTS Paired NoFailure NoListener Balanced\nPROPERTIES Finish\nCHECK_DEADLOCK FALSE\n')
    exe = ctx.build('conn', ['conn.cpp'])

    def one(kind, **k):
        d = dict(first=1, delay=2, self=0, port=0, hold=0, shut=2, len=17, bad=0, addr=0, many=0)
        d.update(k)
        return d
    fixed = []
    for kind in ('net', 'hs'):
        for bad in (-1, 65536):
            for port in (0, 1):
                fixed.append(dict(kind=kind, pairs=1, sess=[one(kind, first=0, bad=bad, port=port), one(kind, bad=bad, port=port)]))
        for port in (0, 1):
            for hold in (0, 1):
                fixed.append(dict(kind=kind, pairs=1, sess=[one(kind, self=1, port=port, hold=hold), one(kind, self=2, port=port, hold=hold), one(kind, first=0)]))
        for many in ctx.pick((40000,), (40000, 200000)):
            fixed.insert(0, dict(kind=kind, pairs=1, sess=[one(kind, many=many), one(kind, first=0)]))
        for shut in (0, 1, 2):
            fixed.append(dict(kind=kind, pairs=3, sess=[one(kind, first=f, shut=shut, delay=5, addr=a) for f, a in ((0, 0), (1, 1), (0, 2), (1, 0))]))
    s = scen.scenarios(ctx, 'ConnGen', ctx.pick(80, 5000), 4, extra=fixed)
    scen.replay(ctx, exe, s, 'ConnTrace', timeout=800)
