import concurrent.futures as cf
import glob
import os
import vlib


def traces(ctx, mode, module='FloatTrace', parts=16):
    exe = ctx.build('floats', ['floats.cpp'], repo_srcs=['emp-tool/emp-tool.cpp'] + sorted('emp-tool/circuits/' + os.path.basename(f) for f in glob.glob(vlib.REPO + '/emp-tool/circuits/float32_*.cpp')))
    vec = os.path.join(vlib.VERIF, 'harness', 'floatvec.txt')

    def gen():
        with cf.ThreadPoolExecutor(8) as ex:
            r = list(ex.map(lambda k: vlib.harness_lines(ctx, exe, [mode, vec, ctx.seed, k, parts] + (['deep'] if ctx.thorough else []), timeout=800), range(parts)))
        return [l for x in r for l in x]
    vlib.stateless(ctx, module, gen)
