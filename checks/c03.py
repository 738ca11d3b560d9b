import json
import scen
import vlib


def run(ctx):
    exe = ctx.build('trunc', ['trunc.cpp'])
    # every cut position of a short exchange, on every channel
    small = []
    reqs = [dict(k='data', n=5), dict(k='block', n=1), dict(k='data', n=3)]
    for kind in ('net', 'file', 'mem', 'load'):
        for cut in range(0, 25):
            small.append(dict(kind=kind, reqs=reqs, len=24, server=cut % 2, cap=8, avail=cut))
    for cut in (0, 1, 23, 24, 25, 4096, 32767, 32768):
        small.append(dict(kind='hs', reqs=reqs, len=24, server=cut % 2, cap=8, avail=cut))
    s = scen.scenarios(ctx, 'TruncGen', ctx.pick(250, 3000), 4, extra=small)
    scen.replay(ctx, exe, s, 'TruncTrace', timeout=800)
    # recorded finding: a receive larger than what the peer sent before closing gets padding
    over = dict(kind='hs', reqs=[dict(k='data', n=20)], len=10, server=0, cap=8, avail=1 << 30)
    sf = ctx.path('over.scn')
    open(sf, 'w').write(json.dumps(over) + '\n')
    lines = vlib.harness_lines(ctx, exe, [sf, 1])
    fs = ctx.split(lines, 'over')
    if ctx.validate('TruncTrace', fs):
        ev = json.loads(lines[0])
        if ev.get('res') == [0] and ev.get('code') == 0 and not ev.get('hang') and 'hs-overread' in vlib.known('C03'):
            ctx.findings.append('id=hs-overread ' + vlib.known('C03')['hs-overread'])
        else:
            ctx.violation('C03: TruncTrace rejects an over-long receive from a closed HighSpeedNetIO peer', lines[0])
