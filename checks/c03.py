import random
from vlib import cfg
from checks.c07 import pairs, ONE, TWO, PROD, SR


def run(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    # the machines themselves
    for w, n in ([(2, 5), (3, 5)] if q else [(2, 7), (3, 7), (4, 6), (7, 6)]):
        ctx.model('PoolMachine', cfg(consts={'Workers': w, 'NChunks': n}, inv=['Once', 'Bounded'], extra='PROPERTY AllDone\n'))
    ctx.model('BatchMachine', cfg(consts={'Limit': 6, 'Sizes': '<- SzTest', 'MaxGroups': 5 if q else 7}, inv=['Conserved', 'Nothing']))
    scheds = ctx.par([lambda w=w: ctx.gen('PoolMachine', cfg(consts={'Workers': w, 'NChunks': 40}, inv=['Emit']), num=30 if q else 200, depth=90, seed=ctx.seed + w)
                      for w in (2, 3, 4, 5, 8)])
    sched = lambda: rng.choice(scheds)
    n = 60 if q else 800

    def wick(fc, n, spaces, ranks, mo, mx, mm):
        return lambda: ctx.gen('WickGenM', cfg(consts={'Spaces': f'<- {spaces}', 'Ranks': f'<- {ranks}', 'MinOps': mo, 'MaxOps': mx, 'MaxMicro': mm,
                               'Cus': '{1,2,3}', 'Los': '{0,2}', 'His': '{2,4,6,8}', 'Fcs': '{%s}' % fc, 'Ehs': '{TRUE,FALSE}', 'Dgs': '{FALSE}'}, inv=['Emit']), num=n, depth=40)
    eng = ctx.par([wick('TRUE', n, 'SpAct', 'RkTwo', 2, 2, 8), wick('FALSE', n, 'SpAct', 'RkTwo', 2, 2, 6), wick('TRUE', n, 'SpAct', 'RkOne', 3, 4, 8), wick('FALSE', n, 'SpAll', 'RkSmall', 2, 3, 8)])
    ins = []
    for e in eng:
        s = sched()
        ins.append(dict(e, mode='engine', np=s['workers'], bs=rng.choice([0, 1, 1, 2, 3, 7, 1000]), picks=s['picks'], real=False))
    k = 6 if q else 60
    tp = ctx.par([pairs(ctx, kind, k, a, b) for kind in ('contract', 'single', 'linear', 'recursive') for a, b in ((TWO, ONE), (PROD, ONE), (dict(TWO, **SR), dict(TWO, **SR)))])
    for e in tp:
        s = sched()
        ins.append(dict(e, mode='terms', np=s['workers'], picks=s['picks'], real=False))
    for which in ('nested', 'bch', 'amp'):
        for un in (False, True):
            for herm in (True, False):
                s = sched()
                ins.append({'mode': 'bch', 'which': which, 'args': {'level': 1, 'levels': [1, 2], 'un': un, 'herm': herm}, 'np': s['workers'], 'picks': s['picks'], 'real': False})
    # real pools
    pick = [i for i in ins if i['mode'] == 'engine']
    for e in rng.sample(pick, min(len(pick), 10 if q else 60)):
        ins.append(dict(e, real=True, np=rng.choice([2, 3, 16]), bs=rng.choice([0, 1, 5])))
    for e in rng.sample([i for i in ins if i['mode'] == 'terms'], 6 if q else 40):
        ins.append(dict(e, real=True, np=rng.choice([2, 4])))
    # streams long enough for several batches
    st = ctx.gen('BatchMachine', cfg(consts={'Limit': 10000, 'Sizes': '<- SzReal', 'MaxGroups': 4}, inv=['Emit']), num=16 if q else 200, depth=8)
    fixed = [[9999, 1], [10000], [10001], [9999, 2], [1, 10000, 1], [4000, 6000, 1], [20001], [20000, 1]]
    for g in fixed + [x['groups'] for x in st if sum(x['groups']) <= 45000]:
        s = sched()
        ins.append({'mode': 'stream', 'groups': g, 'np': rng.choice([1, 1, 2, 4, s['workers']]), 'picks': s['picks']})
    rng.shuffle(ins)
    ctx.log(len(ins), 'runs,', len(scheds), 'schedules')
    ev = ctx.drive('d_pool.py', ins, timeout=800)
    ctx.log(len(ev), 'recorded')
    ctx.validate('PoolTrace', ev)
    cnt = {}
    for e in ev:
        cnt[e['what']] = cnt.get(e['what'], 0) + 1
    ctx.cov['runs'] = cnt
    ctx.cov['pools'] = sum(len(e['pools']) for e in ev)
    ctx.cov['pools_completing_out_of_order'] = sum(1 for e in ev for p in e['pools'] if p['order'] != sorted(p['order']))
    ctx.cov['streams'] = sum(e['ev'] == 'stream' for e in ev)
    ctx.log(cnt, ctx.cov)
    ctx.samples = [{k: e[k] for k in ('what', 'pools')} for e in ev if e['pools']][:2] + [{k: e[k] for k in ('groups', 'counts', 'np')} for e in ev if e['ev'] == 'stream'][:1]
    ctx.assume = ['worker processes do not die', 'the pool hands out each task once (library behaviour)']
    return ctx.finish()
