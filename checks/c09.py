from checks.gens import terms


def run(ctx):
    n = 500 if ctx.quick else 2500
    mk = {'mark': {'mode': 'singlet'}, 'spin': 'TRUE'}
    ins = ctx.par([terms(ctx, n, 'KHT', 'LSR', 'OR0', 3, 2, 12, **mk),
                   terms(ctx, n, 'KMR', 'LMR', 'OR0', 4, 2, 12, **mk),
                   terms(ctx, n, 'KAll', 'LAll', 'OR0', 4, 1, 10, **mk),
                   terms(ctx, n // 2, 'KNm', 'LMR', 'OR0', 4, 2, 12, **mk),
                   terms(ctx, n // 2, 'KL3', 'LMR', 'OR0', 3, 2, 12, **mk),
                   terms(ctx, n // 2, 'KThree', 'LMR', 'OR0', 2, 2, 12, **mk),
                   terms(ctx, n // 2, 'KMR', 'LMR', 'OROpen', 3, 1, 10, **mk),
                   terms(ctx, n // 2, 'KHT', 'LSR', 'OROpen', 3, 1, 12, **mk)])
    ctx.log(len(ins), 'terms')
    ev = ctx.drive('d_terms.py', ins)
    ctx.log(len(ev), 'recorded calls')
    ctx.validate('TermTrace', ev)
    ctx.samples = [{'what': e.get('what', e['ev']), 'term': e['inp']['a']} for e in ev[:3]]
    ctx.cov['terms'] = len(ins)
    ctx.assume = ['values of spin-free tensors taken at random in the field of 46337 elements; up to 3-body tensors, 12 index slots',
                  'terms without diagonal indices; one-body densities and deltas not linked to other densities']
    return ctx.finish()
