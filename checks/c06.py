from vlib import cfg
from checks.gens import terms


def run(ctx):
    n = 800 if ctx.quick else 8000
    ts = ctx.par([terms(ctx, n, 'KAll', 'LAll', 'ORCons', 3, 1, 10), terms(ctx, n, 'KMR', 'LMR', 'ORAll', 4, 1, 10),
                  terms(ctx, n // 2, 'KHT', 'LSR', 'ORCons', 3, 1, 12),
                  terms(ctx, n // 2, 'KNm', 'LMR', 'ORSmall', 3, 1, 10)])
    hs = ctx.gen('CombGen', cfg(consts={'Pool': 5, 'MaxLen': 9, 'CoeffSet': '<- CF'}, inv=['Emit', 'PermOK']), num=n, depth=60)
    ins = [{'pool': [ts[(5 * i + k) % len(ts)] for k in range(3)], 'h': h} for i, h in enumerate(hs)]
    ctx.log(len(ins), 'histories over', len(ts), 'terms')
    ev = ctx.drive('d_comb.py', ins)
    ctx.log(len(ev), 'recorded calls')
    ctx.validate('TermTrace', ev)
    ctx.samples = [{'inp': e['inp'], 'out': e['out']} for e in ev[:3]]
    ctx.cov['histories'] = len(ins)
    ctx.assume = ['coefficients of magnitude at most one, at most nine entries per list']
    return ctx.finish()
