from checks.gens import terms


def batches(ts, k):
    """lists of terms with operators of the same spaces together, so that temporaries are shared"""
    by = {}
    for t in ts:
        o = [g for g in t['a']['f'] if g['n'] == 'O'][0]
        up = any(s.isupper() for s in t['a']['s'])
        by.setdefault((up, ''.join(sorted(t['a']['s'][i - 1] for i in o['u'])), ''.join(sorted(t['a']['s'][i - 1] for i in o['l']))), []).append(t)
    q = {}
    for key in sorted(by):
        q.setdefault(key[0], []).extend(by[key])
    return [{'list': v[i:i + k]} for v in q.values() for i in range(0, len(v), k)]


def run(ctx):
    n = 300 if ctx.quick else 3000
    ins = ctx.par([terms(ctx, n, 'KHT', 'LSR', 'OROpen', 3, 1, 12),
                   terms(ctx, n, 'KMR', 'LMR', 'OROpen', 3, 1, 12),
                   terms(ctx, n, 'KOne1', 'LMR', 'OROpen', 3, 1, 10),
                   terms(ctx, n, 'KCC', 'LPH', 'ORCons', 3, 1, 12),
                   terms(ctx, n // 2, 'KCC', 'LAll', 'ORAll', 3, 1, 10),
                   terms(ctx, n // 2, 'KCC', 'LSR', 'OROpen', 3, 1, 12, spin='TRUE'),
                   terms(ctx, n // 2, 'KMR', 'LMR', 'OROpen', 3, 1, 10, spin='TRUE')])
    ls = batches(ins, 8)
    ctx.log(len(ins), 'terms,', len(ls), 'lists')
    ev = ctx.drive('d_ambit.py', ins + ls)
    ctx.log(len(ev), 'recorded programs')
    ctx.validate('AmbitTrace', ev)
    ctx.samples = [{'what': e['what'], 'prog': e['prog'][:4]} for e in ev[:3]]
    ctx.cov['terms'] = len(ins)
    ctx.assume = ['operators of up to 3 creators and 3 annihilators',
                  'each tensor carries open creators in one row and open annihilators in the other, as contraction results do']
    return ctx.finish()
