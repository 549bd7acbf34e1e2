from checks.gens import terms


def run(ctx):
    n = 500 if ctx.quick else 5000
    mk = {'mark': {'mode': 'grad'}}
    ins = ctx.par([terms(ctx, n, 'KMR', 'LMR', 'OR0', 4, 1, 12, **mk),
                   terms(ctx, n, 'KHT', 'LSR', 'OR0', 4, 1, 12, **mk),
                   terms(ctx, n, 'KHT', 'LAll', 'OR0', 3, 1, 10, **mk),
                   terms(ctx, n, 'KNm', 'LMR', 'OR0', 4, 1, 12, **mk),
                   terms(ctx, n // 2, 'KMR', 'LMR', 'OR0', 4, 1, 10, spin='TRUE', **mk),
                   terms(ctx, n // 2, 'KNm0', 'LAll', 'OR0', 4, 1, 10, spin='TRUE', **mk)])
    ins = [x for x in ins if any(g['n'] in 'TS' for g in x['a']['f']) and
           sum(1 for g in x['a']['f'] if g['n'] not in 'KLC') - 1 >= 2]
    ctx.log(len(ins), 'terms')
    ev = ctx.drive('d_terms.py', ins)
    ctx.log(len(ev), 'recorded calls')
    ctx.validate('TermTrace', ev)
    ctx.samples = [{'what': e.get('what', e['ev']), 'term': e['inp']['a']} for e in ev[:3]]
    ctx.cov['terms'] = len(ins)
    ctx.assume = ['values of tensors taken at random in the field of 46337 elements on models of 3 to 10 spin orbitals',
                  'no index twice on one tensor; one-body densities and deltas not linked to other densities']
    return ctx.finish()
