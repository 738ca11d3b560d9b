"""Shared by the stateful components: TLC-generated behaviours -> real code -> TLC trace validation."""
import json
import concurrent.futures as cf
import vlib

GENCFG = 'CONSTANTS D = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'


def scenarios(ctx, gen_module, num, depth, gencfg=None, extra=(), env=None):
    scns = list(extra) + ctx.generate(gen_module, num=num, depth=depth + 6, cfgtext=(gencfg or GENCFG) % depth, env=env)
    for s in scns[:2]:
        ctx.sample(s[:6] if isinstance(s, list) else s)
    return scns


def replay(ctx, exe, scns, trace_module, parts=8, env=None, timeout=200, args=(), cfg=None, par=True, tlcenv=None, retries=1):
    """Run scenarios in `parts` harness processes and validate each trace; a rejection must repeat."""
    parts = max(1, min(parts, len(scns)))

    def prep(tag, k):
        sf = ctx.path('%s-%s-%d.scn' % (trace_module, tag, k))
        with open(sf, 'w') as h:
            for s in scns[k::parts]:
                h.write(json.dumps(s) + '\n')
        lines = vlib.harness_lines(ctx, exe, [sf, ctx.seed * 1000 + k, *args], env=env, timeout=timeout)
        if not lines:
            raise vlib.CheckError('harness %s produced no events' % exe)
        tf = ctx.path('%s-%s-%d.ndjson' % (trace_module, tag, k))
        open(tf, 'w').writelines(lines)
        return tf

    def once(tag):
        with cf.ThreadPoolExecutor(8 if par else 1) as ex:
            fs = list(ex.map(lambda k: prep(tag, k), range(parts)))
        return ctx.validate(trace_module, fs, cfg, env=tlcenv)
    rej = once('a')
    if rej:
        first = '\n'.join(open(rej[0][0]).read().splitlines()[max(0, rej[0][1] - 12):rej[0][1] + 1])
        for tag in ('b', 'c', 'd')[:retries]:
            rej = once(tag)
            if not rej:
                continue
            f, k = rej[0]
            L = open(f).read().splitlines()
            ctx.keep(f, 'trace.ndjson')
            ctx.violation('%s: %s rejects the recorded execution at event %d' % (ctx.prop, trace_module, k),
                          '\n'.join(x[:3000] for x in L[max(0, k - 8):k]))
        print('note: a rejection did not repeat on a second run; not reported; it was\n' + first[-3000:])
