"""Configurations of the term generator."""
from vlib import cfg


def terms(ctx, n, kinds='KAll', labels='LAll', ops='ORAll', maxf=4, minf=1, slots=12, rewrites=0, klinks='FALSE', llinks='TRUE', spin='FALSE', herm='TRUE',
          coeffs='Cf', excop='FALSE', seed=None, depth=80, mark=None):
    """a job for ctx.par: n behaviours of the term generator; mark is added to every emitted record"""
    c = cfg(consts={'Kinds': f'<- {kinds}', 'OpRanks': f'<- {ops}', 'Labels': f'<- {labels}', 'MaxFactors': maxf, 'MinFactors': minf,
                    'MaxSlots': slots, 'Rewrites': rewrites, 'Coeffs': f'<- {coeffs}', 'KLinks': klinks, 'LLinks': llinks,
                    'Spin': spin, 'Herm': herm, 'ExcOp': excop}, inv=['Emit'])

    def job():
        r = ctx.gen('TermGenM', c, num=n, depth=depth, seed=seed)
        for x in r:
            x.update(mark or {})
        return r
    return job
