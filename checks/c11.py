from checks.gens import terms
from checks.c10 import batches


def run(ctx):
    n = 300 if ctx.quick else 3000
    ins = ctx.par([terms(ctx, n, 'KHT', 'LSR', 'OROpen', 3, 1, 12),
                   terms(ctx, n, 'KMR', 'LMR', 'OROpen', 3, 1, 12),
                   terms(ctx, n, 'KOne1', 'LMR', 'OROpen', 3, 1, 10),
                   terms(ctx, n, 'KDel', 'LAll', 'ORCons', 3, 1, 10),
                   terms(ctx, n // 2, 'KCC', 'LAll', 'ORAll', 3, 1, 10),
                   terms(ctx, n // 2, 'KCC', 'LSR', 'OROpen', 3, 1, 12, spin='TRUE'),
                   terms(ctx, n // 2, 'KMR', 'LMR', 'OROpen', 3, 1, 10, spin='TRUE'),
                   terms(ctx, n // 3, 'KCC', 'LMR', 'OROpen', 2, 1, 8, coeffs='CfBig'),
                   terms(ctx, n // 3, 'KNm', 'LMR', 'OROpen', 3, 1, 10)])
    ls = batches(ins, 8)
    ctx.log(len(ins), 'terms,', len(ls), 'lists')
    ev = ctx.drive('d_latex.py', ins + ls)
    ctx.log(len(ev), 'recorded forms')
    ctx.validate('LatexTrace', ev)
    ctx.samples = [{'what': e.get('what', e['ev']), 'got': e.get('got')} for e in ev[:3]]
    ctx.cov['terms'] = len(ins)
    ctx.assume = ['operators of up to 3 creators and 3 annihilators',
                  'permutation format: each tensor carries open creators in one row and open annihilators in the other']
    return ctx.finish()
