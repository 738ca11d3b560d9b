import concurrent.futures as cf
import glob
import os
import vlib


def run(ctx):
    text = open(vlib.SPEC + '/ObliviousModel.cfg').read()
    ctx.model('ObliviousModel', cfgtext=text.replace('MaxLen = 3', 'MaxLen = 4') if ctx.thorough else text.replace('MaxLen = 3', 'MaxLen = 2'))
    for v in ['valuefold', 'equalfold']:
        ctx.mutant('ObliviousModel', 'ObliviousModel.cfg', [('"ok"', '"%s"' % v)])
    exe = ctx.build('oblivious', ['oblivious.cpp', ctx.aes_src()], repo_srcs=['emp-tool/emp-tool.cpp'] + sorted('emp-tool/circuits/' + os.path.basename(f) for f in glob.glob(vlib.REPO + '/emp-tool/circuits/float32_*.cpp')))
    root = os.path.join(vlib.REPO, 'emp-tool/circuits/files')

    def gen():
        with cf.ThreadPoolExecutor(8) as ex:
            r = list(ex.map(lambda k: vlib.harness_lines(ctx, exe, [ctx.seed, k, 16, root, ctx.dir] + (['deep'] if ctx.thorough else []), timeout=800), range(16)))
        return [l for x in r for l in x]
    vlib.stateless(ctx, 'ObliviousTrace', gen)
