from vlib import cfg


def calls(ctx, n, letters, digits, kinds, its, forms, names, maxrow=3, maxf=3, muts=0, seed=None):
    c = cfg(consts={'Letters': f'<- {letters}', 'Digits': f'<- {digits}', 'Kinds': f'<- {kinds}', 'ITypes': f'<- {its}', 'Forms': f'<- {forms}',
                    'TNames': f'<- {names}', 'MaxRow': maxrow, 'MaxFactors': maxf, 'Mutations': muts}, inv=['Emit'])

    def job():
        return [dict(x, mode='ctor') for x in ctx.gen('CtorGen', c, num=n, depth=60, seed=seed)]
    return job


def run(ctx):
    n = 600 if ctx.quick else 12000
    ins = ctx.par([
        calls(ctx, n, 'LBad', 'DBad', 'KIdx', 'ISo', 'FIdx', 'NAll'),
        calls(ctx, n, 'LBad', 'DBad', 'KObj', 'IAll', 'FAll', 'NAll'),
        calls(ctx, n, 'LGood', 'DGood', 'KObj', 'IAll', 'FOk', 'NAll'),
        calls(ctx, n, 'LGood', 'DGood', 'KBig', 'IOk', 'FOk', 'NBad', 4),
        calls(ctx, n, 'LSpin', 'DGood', 'KBig', 'IOk', 'FOk', 'NAll', 3),
        calls(ctx, n, 'LAmp', 'DGood', 'KTen', 'IOk', 'FList', 'NAll', 2),
        calls(ctx, n, 'LGood', 'DGood', 'KTerm', 'IOk', 'FList', 'NAll', 2, 3, 0),
        calls(ctx, n, 'LAmp', 'DGood', 'KTerm', 'IOk', 'FList', 'NAll', 2, 3, 1),
        calls(ctx, n, 'LGood', 'DGood', 'KTerm', 'ISo', 'FList', 'NAll', 2, 2, 2),
        calls(ctx, n, 'LSpin', 'DGood', 'KTerm', 'IOk', 'FList', 'NAll', 2, 3, 2),
    ])
    ctx.log(len(ins), 'calls')
    ev = ctx.drive('d_obj.py', ins)
    ctx.validate('ObjTrace', ev)
    acc = {}
    for e in ev:
        a = acc.setdefault(e['k'], [0, 0])
        a[0 if e['ok'] else 1] += 1
    ctx.cov['accepted_refused'] = acc
    ctx.log(acc)
    ctx.samples = [{x: e[x] for x in ('k', 'it', 'form', 'u', 'l', 'ok')} for e in ev if e['k'] != 'term'][:3]
    ctx.assume = ['upper and lower indices are given in the same form', 'a label is a nonempty text']
    return ctx.finish()
