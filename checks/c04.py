import scen
import vlib


def run(ctx):
    ctx.model('MemModel')
    for v in ('nocopy', 'keep', 'nocap'):
        ctx.mutant('MemModel', None, [('"ok"', '"%s"' % v)])
    exe = ctx.build('store', ['store.cpp'], flags=['-fsanitize=address', '-g'])
    s = scen.scenarios(ctx, 'StoreGen', ctx.pick(200, 3000), 24)
    # stores whose size and position fall exactly on stdio buffer boundaries
    O = lambda op, n=0: dict(op=op, n=n)
    for a in ctx.pick((16384, 4096), (16384, 32768, 4096, 65536)):
        for parts in ([a], [a - 1, 1], [1, a - 1], [a // 2, a // 2], [a, a]):
            s.append(dict(ops=[O('mnew', 0), O('fnew', 0)] + [O('fsend', n) for n in parts] +
                          [O('freset')] + [O('frecv', n) for n in parts] + [O('freset'), O('frecv', sum(parts)), O('freset'), O('mload', sum(parts)), O('mrecv', sum(parts)), O('fclose')]))
    # memory channels filled to their initial capacity and just beyond, with part of the data already read
    for c in ctx.pick((1, 2, 64, 5000, 8192), (1, 2, 3, 63, 64, 255, 5000, 8192, 65536, 100000)):
        for d in (-2, -1, 0, 1, 2):
            for h, k in ((c // 2, c // 4), (1, 1), (c, 0), (0, 0)):
                if c + d - h >= 0:
                    s.append(dict(ops=[O('mnew', c), O('fnew', 0), O('msend', h), O('mrecv', min(h, k)), O('msend', c + d - h), O('mrecv', c + d - min(h, k)), O('msend', c), O('mrecv', c),
                                       O('mclear'), O('msend', c), O('msend', 1), O('mrecv', c + 1), O('fclose')]))
    for n in (0, 1, 2, 100):
        s.append(dict(ops=[dict(op='mnew', n=0, z=1), O('fnew', 0), O('msend', n), O('mrecv', n), O('mclear'), O('msend', 3), O('mrecv', 1), O('msend', 70), O('mrecv', 72), O('fclose')]))
    if ctx.thorough:
        s += scen.scenarios(ctx, 'StoreGen', 500, 80)
    scen.replay(ctx, exe, s, 'StoreTrace', env=dict(ASAN_OPTIONS='detect_leaks=0'))
    vlib.stateless(ctx, 'StoreTrace', lambda: vlib.harness_lines(ctx, exe, ['-', 1, 'huge']), name='huge')
