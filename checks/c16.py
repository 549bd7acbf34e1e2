from checks.gens import terms


def run(ctx):
    n = 1000 if ctx.quick else 8000
    mk = {'mark': {'mode': 'project'}, 'llinks': 'FALSE'}
    ins = ctx.par([terms(ctx, n, 'KAll', 'LAll', 'ORAll', 3, 1, 10, **mk),
                   terms(ctx, n // 2, 'KNm', 'LAll', 'ORSmall', 3, 1, 10, **mk),
                   terms(ctx, n // 2, 'KHT', 'LAll', 'ORCons', 3, 1, 10, **mk),
                   terms(ctx, n // 2, 'KOne', 'LGen', 'OR11', 3, 1, 8, **mk),
                   terms(ctx, n // 2, 'KAll', 'LAll', 'ORCons', 3, 1, 10, spin='TRUE', **mk),
                   terms(ctx, n // 4, 'KHT', 'LGen', 'ORSmall', 3, 1, 8, spin='TRUE', **mk)])
    ctx.log(len(ins), 'terms')
    ev = ctx.drive('d_terms.py', ins)
    ctx.log(len(ev), 'recorded calls')
    ctx.validate('TermTrace', ev)
    ctx.samples = [{'what': e.get('what', e['ev']), 'term': e['inp']['a']} for e in ev[:3]]
    ctx.cov['terms'] = len(ins)
    ctx.assume = ['values of tensors taken at random in the field of 46337 elements on models of 3 to 10 spin orbitals',
                  'no index twice on one tensor; one-body densities and deltas not linked to other densities or to the operator']
    return ctx.finish()
