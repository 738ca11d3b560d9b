import concurrent.futures as cf
import scen
import vlib


def run(ctx):
    text = open(vlib.SPEC + '/ThreadPoolMC.cfg').read()
    small = text.replace('PT = {t1, t2}', 'PT = {t1}')
    safety = text.replace('Refines Terminates', 'Refines')
    jobs = [lambda: ctx.model('ThreadPoolMC', cfgtext=safety, workers=3), lambda: ctx.model('ThreadPoolMC', cfg=None, cfgtext=small, workers=2)]
    jobs += [lambda v=v: ctx.mutant('ThreadPoolMC', None, [('"ok"', '"%s"' % v), (('Refines Terminates', 'Refines') if v == 'lifo' else ('PT = {t1, t2}', 'PT = {t1}'))], workers=1)
             for v in ('unlockedstop', 'stopone', 'exitearly', 'nopred', 'lateaccept', 'nojoin', 'lifo', 'twolocks')]
    if ctx.thorough:
        jobs += [lambda: ctx.model('ThreadPoolMC', workers=4, timeout=1500, mem='8g'),
                 lambda: ctx.model('ThreadPoolMC', workers=4, timeout=3000, mem='12g', cfgtext=safety.replace('w2 = w2', 'w2 = w2 w3 = w3').replace('{w1, w2}', '{w1, w2, w3}'))]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: j(), jobs))
    exe = ctx.build('pool', ['pool.cpp'], repo_srcs=(), libs=())
    tiny = [dict(n=n, guarded=g, ops=([dict(op='sub', k=5)] if g else []) + o)
            for n in (1, 2) for g in (0, 1)
            for o in ([dict(op='sub', k=0)], [], [dict(op='sub', k=3)], [dict(op='prod', k=0, c=1)],
                      [dict(op='sub', k=1), dict(op='sub', k=2)])]
    s = scen.scenarios(ctx, 'ThreadPoolGen', ctx.pick(80, 500), 5, extra=tiny)
    scen.replay(ctx, exe, s, 'ThreadPoolTrace', args=ctx.pick((40, 300, 12), (600, 6000, 60)))
    # a long queue left behind at destruction
    deep = [dict(n=n, guarded=1, ops=[dict(op='sub', k=5)] * n + [dict(op='sub', k=(0, 2, 6)[i % 3]) for i in range(q)]) for n, q in ((1, 300), (2, 130))]
    deep += [dict(n=0, guarded=0, ops=[])] + [dict(n=n, bulk=b) for n, b in ctx.pick(((1, 20000), (3, 9000)), ((1, 100000), (3, 70000), (8, 70000)))]
    scen.replay(ctx, exe, deep, 'ThreadPoolTrace', args=(1, 1, 2))
    ctx.assumptions += ['interleavings at synchronisation operations (lock, unlock, wait, notify, join, task steps); '
                        'data races between them are outside the model']
