from vlib import cfg
from checks.c12 import pools


def run(ctx):
    n = 250 if ctx.quick else 4000
    c = [(('CSome', 2, 4),), (('CAll', 1, 4), ('CSome', 3, 7), ('CAll', 2, 5))][0 if ctx.quick else 1]
    jobs = [lambda x=x: [dict(y, mode='spaces') for y in ctx.gen('SpaceGen', cfg(consts={'CLabels': f'<- {x[0]}', 'MaxPer': x[1], 'MaxSum': x[2]}, inv=['Emit']))]
            for x in c]
    jobs += [pools(ctx, n, 'SSO', 'NumsS', 4, 5, mode='spacecount'), pools(ctx, n, 'SMixed', 'NumsS', 4, 5, mode='spacecount'),
             pools(ctx, n, 'SSI', 'NumsS', 4, 5, mode='spacecount'), pools(ctx, n, 'SSI', 'NumsS', 4, 6, mode='counterorder'),
             pools(ctx, n, 'SMixed', 'NumsS', 3, 6, mode='counterorder')]
    ins = ctx.par(jobs)
    ctx.log(len(ins), 'calls')
    ev = ctx.drive('d_obj.py', ins)
    ctx.validate('ObjTrace', ev)
    cnt = {}
    for e in ev:
        cnt[e['ev']] = cnt.get(e['ev'], 0) + 1
    ctx.cov['calls'] = cnt
    ctx.log(cnt)
    ctx.samples = [e for e in ev if e['ev'] == 'down'][:2] + [e for e in ev if e['ev'] == 'spacecount'][:1]
    ctx.assume = ['one-body densities and deltas with both labels of one spin (others cannot be constructed)']
    return ctx.finish()
