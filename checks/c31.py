import concurrent.futures as cf
import glob
import json
import os
import scen
import vlib

JUDGE = {'wide': 'IntTrace', 'modexp': 'IntTrace', 'sort': 'SortTrace', 'bin': 'FloatTrace'}


def run(ctx):
    text = open(vlib.SPEC + '/ThreadModel.cfg').read()
    ctx.model('ThreadModel', cfgtext=text.replace('MaxW = 2', 'MaxW = 3').replace('MaxB = 3', 'MaxB = 4') if ctx.thorough else None)
    for v in ['shared', 'half']:
        ctx.mutant('ThreadModel', 'ThreadModel.cfg', [('"local"', '"%s"' % v)])
        ctx.mutant('ThreadModel', 'ThreadModel.cfg', [('"local"', '"%s"' % v), (' OwnBackend', '')])
    exe = ctx.build('threads', ['threads.cpp', ctx.aes_src()], flags=['-DTHREADING'],
                    repo_srcs=['emp-tool/emp-tool.cpp'] + sorted('emp-tool/circuits/' + os.path.basename(f) for f in glob.glob(vlib.REPO + '/emp-tool/circuits/float32_*.cpp')))
    scns = scen.scenarios(ctx, 'ThreadGen', ctx.pick(60, 1500), ctx.pick(40, 80))
    scen.replay(ctx, exe, scns, 'ThreadTrace', args=['scn'])

    def gen(mode):
        with cf.ThreadPoolExecutor(8 if mode == 'gate' else 3) as ex:
            r = list(ex.map(lambda k: vlib.harness_lines(ctx, exe, [mode, ctx.seed, k, 6] + (['deep'] if ctx.thorough else []), timeout=ctx.pick(60, 400)), range(6)))
        return [l for x in r for l in x]

    # operations running in parallel: each event is judged by the specification of its operation
    for mode in ['gate', 'free']:
        for module in ['IntTrace', 'SortTrace', 'FloatTrace']:
            memo = {}

            def part():
                lines = memo.pop('l', None) or gen(mode)
                return [l for l in lines if JUDGE.get(json.loads(l).get('e'), module) == module]
            if module == 'IntTrace':
                first = gen(mode)
            memo['l'] = first
            vlib.stateless(ctx, module, part, name='%s-%s' % (mode, module))
    vlib.stateless(ctx, 'ThreadTrace', lambda: gen('solo'), name='solo')
