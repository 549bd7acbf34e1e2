from checks.gens import terms


def run(ctx):
    n = 400 if ctx.quick else 2500
    ins = ctx.par([terms(ctx, n, maxf=3, minf=2, slots=14), terms(ctx, n, maxf=4, minf=4, slots=16, labels='LAll'), terms(ctx, n, maxf=4, minf=3, slots=14, spin='TRUE'),
                   terms(ctx, n // 2, maxf=5, minf=5, slots=18), terms(ctx, n // 4, maxf=1, minf=1, slots=8)])
    ctx.log(len(ins), 'terms')
    ev = ctx.drive('d_cost.py', ins)
    ctx.validate('CostTrace', ev)
    ctx.samples = [{'t': e['t'], 'optc': e['optc'], 'opts': e['opts']} for e in ev[:3]]
    h = {}
    for e in ev:
        h[len(e['t'])] = h.get(len(e['t']), 0) + 1
    ctx.cov['terms_by_number_of_tensors'] = h
    ctx.log(h)
    ctx.assume = ['terms of one to five tensors without diagonal indices']
    return ctx.finish()
