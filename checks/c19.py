from vlib import cfg


def run(ctx):
    ins = ctx.gen('OpsGen', cfg(consts={'MaxK': 3 if ctx.quick else 5, 'Starts': '<- St', 'Scales': '<- Sc', 'Levels': '<- Lv'}, inv=['Emit']))
    ctx.log(len(ins), 'calls')
    ev = ctx.drive('d_ops.py', ins)
    ctx.validate('OpsTrace', ev)
    ctx.samples = [e for e in ev if e['k'] in ('amp', 'ham', 'list')][:3]
    cnt = {}
    for e in ev:
        cnt[e['k']] = cnt.get(e['k'], 0) + 1
    ctx.cov['calls'] = cnt
    ctx.log(cnt)
    ctx.assume = ['every rank up to the bound, every label pair of hole and particle kind, every index kind']
    return ctx.finish()
