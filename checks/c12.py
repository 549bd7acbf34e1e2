from vlib import cfg


def pools(ctx, n, spaces, nums='Nums', maxrow=3, size=6, square='FALSE', seed=None, mode='order', minrow=0):
    c = cfg(consts={'LabSpaces': f'<- {spaces}', 'Numbers': f'<- {nums}', 'Names': '<- NmAll', 'MaxRow': maxrow, 'PoolSize': size,
                    'Square': square, 'MinRow': minrow, 'Coefs': '<- CfAll'}, inv=['Emit', 'RowsOK'])

    def job():
        return [dict(x, mode=mode) for x in ctx.gen('ObjGen', c, num=n, depth=80, seed=seed)]
    return job


def run(ctx):
    n = 150 if ctx.quick else 3000
    ins = ctx.par([pools(ctx, n, 'SSO'), pools(ctx, n, 'SSI'), pools(ctx, n, 'SMixed', 'NumsS', 2, 7), pools(ctx, n, 'SSO', 'NumsS', 2, 7)])
    ctx.log(len(ins), 'pools')
    ev = ctx.drive('d_obj.py', ins)
    ctx.log(len(ev), 'recorded pools of comparisons')
    ctx.validate('ObjTrace', ev)
    ctx.samples = [{'kind': e['kind'], 'key': e['key']} for e in ev[:3]]
    ctx.cov['pools'] = len(ins)
    ctx.assume = ['coefficients of terms are equal or differ by more than the comparison tolerance']
    return ctx.finish()
