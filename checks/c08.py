from checks.gens import terms


def run(ctx):
    n = 700 if ctx.quick else 5000
    mk = {'mark': {'mode': 'spin'}}
    ins = ctx.par([terms(ctx, n, 'KMR', 'LMR', 'ORCons', 3, 1, 10, **mk),
                   terms(ctx, n // 3, 'KNm', 'LMR', 'ORCons', 3, 1, 8, **mk),
                   terms(ctx, n // 2, 'KAll', 'LAll', 'ORCons', 3, 1, 8, **mk),
                   terms(ctx, n // 2, 'KOne', 'LGen', 'ORSmall', 4, 1, 8, **mk),
                   terms(ctx, n // 4, 'KThree', 'LMR', 'ORCons', 2, 1, 12, **mk)])
    ctx.log(len(ins), 'terms')
    ev = ctx.drive('d_terms.py', ins)
    ctx.log(len(ev), 'recorded calls')
    ctx.validate('TermTrace', ev)
    ctx.samples = [{'what': e.get('what', e['ev']), 'term': e['inp']['a']} for e in ev[:3]]
    ctx.cov['terms'] = len(ins)
    ctx.assume = ['values of tensors taken at random in the field of 46337 elements on models of 3 to 10 spin orbitals',
                  'no index twice on one tensor; one-body densities and deltas not linked to other densities']
    return ctx.finish()
