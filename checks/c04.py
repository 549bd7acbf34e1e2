from checks.gens import terms


def jobs(ctx, n, **k):
    si = dict(k, mark=dict(k.get('mark') or {}, it='si'), spin='TRUE')
    return [terms(ctx, n, 'KAll', 'LAll', 'ORAll', 4, 1, 12, **k),
            terms(ctx, n // 2, 'KCC', 'LSR', 'ORCons', 4, 2, 14, **k),
            terms(ctx, n // 2, 'KMR', 'LAll', 'ORCons', 5, 2, 14, **k),
            terms(ctx, n // 2, 'KOne', 'LGen', 'ORSmall', 5, 2, 12, **k),
            terms(ctx, n // 2, 'KL3', 'LGen', 'ORCons', 4, 2, 14, **k),
            terms(ctx, n // 2, 'KMR', 'LMR', 'ORCons', 4, 2, 12, **si),
            terms(ctx, n // 2, 'KAll', 'LAll', 'ORCons', 4, 1, 10, **si),
            terms(ctx, n // 2, 'KNm', 'LAll', 'ORSmall', 4, 2, 12, **k),
            terms(ctx, n // 2, 'KNm', 'LMR', 'ORCons', 4, 2, 12, **si),
            terms(ctx, n, 'KDel', 'LPH', 'ORSmall', 4, 2, 10, **dict(si, klinks='TRUE'))]


def sanity(ctx):
    """the specification of terms against itself"""
    from vlib import cfg
    def job(kinds, labels, ops, maxf, minf, slots, orb, inv, **k):
        c = dict({'Kinds': f'<- {kinds}', 'OpRanks': f'<- {ops}', 'Labels': f'<- {labels}', 'MaxFactors': maxf, 'MinFactors': minf, 'MaxSlots': slots,
                  'Rewrites': 6, 'Coeffs': '<- Cf', 'KLinks': 'FALSE', 'LLinks': 'TRUE', 'Spin': 'FALSE', 'Herm': 'TRUE', 'ExcOp': 'FALSE',
                  'NC': orb[0], 'NA': orb[1], 'NV': orb[2], 'Act0': 'FALSE'}, **k)
        return lambda: ctx.model('TermSanity', cfg(consts=c, inv=['Rewritten', 'Structure', 'Vanishes'] + inv), workers=1, timeout=3000,
                                 args=['-simulate', f'num={300 if ctx.quick else 6000}', '-depth', 80, '-seed', ctx.seed])
    ctx.bg([job('KAll', 'LAll', 'ORAll', 4, 1, 12, (1, 2, 1), []), job('KNm', 'LMR', 'ORSmall', 3, 1, 10, (2, 2, 2), []),
            job('KCC', 'LSR', 'ORSmall', 3, 1, 10, (3, 0, 3), ['Faithful']), job('KMR', 'LMR', 'ORCons', 3, 1, 10, (1, 2, 1), [], Spin='TRUE'),
            job('KAll', 'LAll', 'ORAll', 3, 1, 10, (1, 2, 1), [], Herm='FALSE')])


def run(ctx):
    sanity(ctx)
    ins = ctx.par(jobs(ctx, 500 if ctx.quick else 6000))
    ctx.log(len(ins), 'terms')
    ev = ctx.drive('d_canon.py', ins)
    ctx.log(len(ev), 'recorded calls')
    ctx.validate('CanonTrace', ev)
    ctx.samples = [e['inp']['a'] for e in ev[:3]]
    ctx.cov['terms'] = len(ins)
    ctx.assume = ['values of tensors taken at random in the field of 46337 elements on models of 3 to 7 orbitals',
                  'no index twice on one tensor; one-body densities and deltas not linked to other densities']
    return ctx.finish()
