import random
from checks.gens import terms
from vlib import cfg


def run(ctx):
    n = 500 if ctx.quick else 2500
    # the machine itself, exhaustively at a small size
    ctx.model('HeapMachine', cfg(consts={'Base': 2, 'Pure': '<- SmallPure', 'Pure2': '<- SmallPure2', 'Rewrite': '<- SmallRewrite', 'Steps': 4, 'Max': 4,
                                         'Emitting': 'FALSE'}, inv=['Stable'], extra='PROPERTY Frame\n'))
    c = {'Base': 3, 'Pure': '<- PureOps', 'Pure2': '<- Pure2Ops', 'Rewrite': '<- RewriteOps', 'Max': 12, 'Emitting': 'TRUE'}
    hs = ctx.gen('HeapMachine', cfg(consts=dict(c, Steps=14), inv=['Emit']), num=n, depth=20)
    m = 3 * n
    base = ctx.par([terms(ctx, m, 'KAll', 'LAll', 'ORSmall', 3, 1, 8),
                    terms(ctx, m, 'KMR', 'LMR', 'ORSmall', 3, 1, 8),
                    terms(ctx, m, 'KOne', 'LGen', 'ORSmall', 3, 1, 6),
                    terms(ctx, m // 2, 'KNm', 'LAll', 'ORSmall', 3, 1, 8),
                    terms(ctx, m // 2, 'KAll', 'LAll', 'ORUneq', 3, 1, 8)])
    spin = ctx.par([terms(ctx, m // 2, 'KMR', 'LMR', 'ORSmall', 3, 1, 8, spin='TRUE')])
    rng = random.Random(ctx.seed)
    for i, h in enumerate(hs):
        h['base'] = [rng.choice(spin if i % 5 == 4 else base) for _ in range(3)]
    ctx.log(len(hs), 'histories over', len(base) + len(spin), 'terms')
    ev = ctx.drive('d_heap.py', hs)
    ctx.log(len(ev), 'recorded calls')
    ctx.validate('HeapTrace', ev)
    ctx.samples = [{'history': h['h'][:6]} for h in hs[:2]]
    ctx.cov['histories'] = len(hs)
    ctx.assume = ['histories of 14 calls over three terms and everything obtained from them (at most 40 objects observed)']
    return ctx.finish()
