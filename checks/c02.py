from vlib import cfg
from checks import c01


def run(ctx):
    c01.fock(ctx, ['Commutes'])
    rnd, exh = c01.wick_inputs(ctx, True)
    T = '{TRUE}'
    # three and four operators: the linking structure matters
    n = 400 if ctx.quick else 4000
    rnd += ctx.gen('WickGenM', cfg(consts={'Spaces': '<- SpAct', 'Ranks': '<- RkOne', 'MinOps': 3, 'MaxOps': 4, 'MaxMicro': 8,
                                           'Cus': '{1,2,3}', 'Los': '{0,2,4}', 'His': '{0,2,4,6}', 'Fcs': T, 'Ehs': '{TRUE,FALSE}', 'Dgs': '{FALSE}'},
                                   inv=['Emit']), num=n, depth=40)
    rnd += ctx.gen('WickGenM', cfg(consts={'Spaces': '<- SpSR', 'Ranks': '<- RkSmall', 'MinOps': 3, 'MaxOps': 5, 'MaxMicro': 11,
                                           'Cus': '{1,2}', 'Los': '{0,1,2}', 'His': '{2,4,6}', 'Fcs': T, 'Ehs': '{FALSE}', 'Dgs': '{FALSE}'},
                                   inv=['Emit']), num=n, depth=40)
    kf = {'ops': [{'u': ['g'], 'l': ['g']}] * 4, 'par': {'cu': 1, 'lo': 0, 'hi': 8, 'fc': True, 'eh': False, 'dg': False}}
    ctx.log(f'{len(rnd)} simulated inputs, {len(exh)} enumerated inputs')
    ev = ctx.drive('d_wick.py', [kf] + rnd + exh)
    ctx.log(f'{len(ev)} recorded calls, {sum(len(e.get("res", [])) for e in ev)} contractions')
    ctx.validate('WickTrace', ev)
    ctx.cov.update({'contractions_checked': sum(len(e.get('res', [])) for e in ev), 'exhaustive_one_body_pairs': len(exh),
                    'calls_with_results': sum(1 for e in ev if e.get('res'))})
    ctx.samples = [{'ops': e['ops'], 'par': e['par'], 'n_results': len(e['res'])} for e in ev[:3]]
    ctx.assume = ['spin-orbital labels, distinct between operators', 'known finding KF1 for four or more operators']
    return ctx.finish()
