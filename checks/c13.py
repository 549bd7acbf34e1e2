from checks.c12 import pools


def run(ctx):
    n = 150 if ctx.quick else 2000
    ins = ctx.par([pools(ctx, n, 'SSO', maxrow=5, size=3, mode='reorder'), pools(ctx, n, 'SSI', maxrow=4, size=3, mode='reorder'),
                   pools(ctx, n, 'SMixed', maxrow=5, size=3, mode='reorder'), pools(ctx, n, 'SSO', maxrow=3, size=4, square='TRUE', mode='reorder'),
                   pools(ctx, n // 2, 'SGen', 'NumsL', maxrow=9, size=3, mode='reorder', minrow=5)])
    ctx.log(len(ins), 'pools')
    ev = ctx.drive('d_obj.py', ins)
    ctx.log(len(ev), 'recorded calls')
    ctx.validate('ObjTrace', ev)
    ctx.samples = [e for e in ev if e['ev'] == 'perm'][:3]
    ctx.cov['pools'] = len(ins)
    ctx.assume = ['index lists of at most nine indices per row (five for the permutation formats), partitions that cover the row']
    return ctx.finish()
