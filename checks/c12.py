import os
import concurrent.futures as cf
import vlib


def run(ctx):
    ctx.model('CryptoSelfTest')
    exe = ctx.build('shipped', ['shipped.cpp'])
    d = os.path.join(vlib.REPO, 'emp-tool/circuits/files')
    n = ctx.pick(60, 1500)

    def gen():
        with cf.ThreadPoolExecutor(8) as ex:
            r = list(ex.map(lambda k: vlib.harness_lines(ctx, exe, [d, ctx.seed, n, k, 8], timeout=500), range(8)))
        return [l for x in r for l in x]
    vlib.stateless(ctx, 'ShippedTrace', gen)
