from vlib import cfg

SP = {'Spaces': '<- Sp'}


def wick_inputs(ctx, fc):
    """(inputs from simulation, inputs from exhaustive enumeration)"""
    F = '{TRUE}' if fc else '{FALSE}'
    n = 700 if ctx.quick else 6000
    rnd = []
    # general operators, two or three of them
    rnd += ctx.gen('WickGenM', cfg(consts={'Spaces': '<- SpMR', 'Ranks': '<- RkSmall', 'MinOps': 2, 'MaxOps': 3, 'MaxMicro': 8 if ctx.quick else 9,
                                           'Cus': '{0,1,2,3,4}', 'Los': '{0,1,2,3}', 'His': '{0,2,4,6,20}', 'Fcs': F, 'Ehs': '{TRUE,FALSE}', 'Dgs': '{FALSE}'},
                                   inv=['Emit']), num=n, depth=40)
    # the same label on both sides of one operator
    rnd += ctx.gen('WickGenM', cfg(consts={'Spaces': '<- SpMR', 'Ranks': '<- RkDiag', 'MinOps': 2, 'MaxOps': 3, 'MaxMicro': 8,
                                           'Cus': '{1,2,3}', 'Los': '{0,2}', 'His': '{0,4,20}', 'Fcs': F, 'Ehs': '{TRUE,FALSE}', 'Dgs': '{TRUE}'},
                                   inv=['Emit']), num=n // 5, depth=40)
    # operators of the kind used in practice (active, general, particle, hole), larger
    rnd += ctx.gen('WickGenM', cfg(consts={'Spaces': '<- SpAct', 'Ranks': '<- RkTwo', 'MinOps': 2, 'MaxOps': 3, 'MaxMicro': 8 if ctx.quick else 10,
                                           'Cus': '{1,2,3,4}', 'Los': '{0,2,4}', 'His': '{0,4,6,20}', 'Fcs': F, 'Ehs': '{TRUE,FALSE}', 'Dgs': '{FALSE}'},
                                   inv=['Emit']), num=n // 3, depth=40)
    # single reference, larger
    rnd += ctx.gen('WickGenM', cfg(consts={'Spaces': '<- SpSR', 'Ranks': '<- RkTwo', 'MinOps': 2, 'MaxOps': 4, 'MaxMicro': 12,
                                           'Cus': '{1}', 'Los': '{0,2,4}', 'His': '{0,2,4,6}', 'Fcs': F, 'Ehs': '{TRUE,FALSE}', 'Dgs': '{FALSE}'},
                                   inv=['Emit']), num=n // 4, depth=40)
    exh = ctx.gen('WickGenM', cfg(consts={'Spaces': '<- SpAll', 'Ranks': '<- RkOne', 'MinOps': 2, 'MaxOps': 2, 'MaxMicro': 4,
                                          'Cus': '{2}', 'Los': '{0}', 'His': '{4}', 'Fcs': F, 'Ehs': '{TRUE}', 'Dgs': '{FALSE}'},
                                  inv=['Emit']))
    return rnd, exh


def fock(ctx, invs):
    """the specification's Wick theorem against first principles (Fock.tla)"""
    q = ctx.quick
    def job(ranks, n, micro, orbs, labels, num):
        c, a, v, e = orbs
        return lambda: ctx.model('Fock', cfg(consts={'NCore': c, 'NAct': a, 'NVir': v, 'NElec': e, 'Ranks': f'<- {ranks}', 'NOps': n,
                                                     'MaxMicro': micro, 'Labels': f'<- {labels}'}, inv=invs + ['NoHigher', 'Alive']),
                                 workers=1, timeout=3000, args=['-simulate', f'num={num if q else 12 * num}', '-depth', 30, '-seed', ctx.seed])
    jobs = [job('RkOne', 2, 4, (1, 4, 1, 2), 'AllLabels', 20), job('RkFew', 2, 6, (0, 4, 0, 2), 'ActLabels', 12), job('RkFew', 2, 6, (1, 4, 1, 2), 'AllLabels', 6)]
    if not q:
        jobs += [job('RkTwo', 2, 8, (0, 4, 0, 2), 'ActLabels', 1), job('RkOne', 3, 6, (0, 4, 0, 2), 'ActLabels', 4)]
    ctx.bg(jobs)
    ctx.cov['fock_space_models'] = len(jobs)


def run(ctx, fc=False):
    fock(ctx, ['Theorem', 'Expanded'])
    rnd, exh = wick_inputs(ctx, fc)
    ctx.log(f'{len(rnd)} simulated inputs, {len(exh)} enumerated inputs')
    ev = ctx.drive('d_wick.py', rnd + exh)
    ctx.log(f'{len(ev)} recorded calls, {sum(len(e["res"]) for e in ev if "res" in e)} contractions')
    ctx.validate('WickTrace', ev)
    ctx.cov.update({'contractions_checked': sum(len(e.get('res', [])) for e in ev), 'exhaustive_one_body_pairs': len(exh)})
    ctx.samples = [{'ops': e['ops'], 'par': e['par'], 'n_results': len(e['res'])} for e in ev[:3]]
    ctx.assume = ['spin-orbital labels, distinct between operators']
    return ctx.finish()
