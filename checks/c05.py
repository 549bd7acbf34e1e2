from checks.c04 import jobs


def run(ctx):
    n = 1000 if ctx.quick else 5000
    ins = ctx.par(jobs(ctx, n, rewrites=12, mark={'mode': 'same', 'herm': True}) +
                  jobs(ctx, n // 2, rewrites=12, herm='FALSE', mark={'mode': 'same', 'herm': False}))
    ctx.log(len(ins), 'pairs of equivalent terms')
    ev = ctx.drive('d_canon.py', ins)
    ctx.log(len(ev), 'recorded calls')
    ctx.validate('CanonTrace', ev)
    ctx.samples = [e['inp'] for e in ev[:3]]
    ctx.cov['pairs'] = len(ins)
    ctx.assume = ['up to 12 rewrites between the two terms', 'no index twice on one tensor; one-body densities and deltas not linked to other densities']
    return ctx.finish()
